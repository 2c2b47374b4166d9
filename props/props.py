"""Registry of the property checks."""
import importlib

WHERE = {}


def get(pid):
    for m in ("p_chacha", "p_aes", "p_stream", "p_hash", "p_misc", "p_cross", "p_gmp", "p_ae"):
        mod = importlib.import_module(m)
        if pid in mod.PROPS:
            return mod.PROPS[pid]
    raise SystemExit("no check for " + pid)


class Prop:
    def __init__(self, tasks, selftests=(), assumptions=(), bounds=None):
        self._tasks = tasks
        self._st = selftests
        self.assumptions = list(assumptions)
        self._b = bounds

    def tasks(self, tier):
        return self._tasks(tier)

    def selftest(self):
        return sum(f() for f in self._st)

    def bounds(self, tier):
        return self._b(tier) if callable(self._b) else self._b

    def known_match(self, k, task, aspect, text, rep):
        return k.get("key") == (task.key if hasattr(task, "key") else task.entry)
