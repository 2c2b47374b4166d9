"""Builds of /repo's current sources together with a harness: LLVM IR for the engine, native programs for replay."""
import os
import re
import shutil
import subprocess

REPO = os.environ.get("VERIF_REPO") or "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, "harness")


def tool(*names):
    for n in names:
        for d in ("/usr/bin", "/usr/lib/llvm-18/bin"):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
        p = shutil.which(n)
        if p:
            return p
    raise SystemExit("no " + names[0])


CLANG = tool("clang++-18", "clang++")
LINK = tool("llvm-link-18", "llvm-link")
OPT = tool("opt-18", "opt")
GXX = tool("g++")
AGXX = tool("aarch64-linux-gnu-g++")
QEMU = tool("qemu-aarch64")

MODE = {
    "plain": ([], "x86"),
    "x86": (["-Dx86_INTRINSICS", "-maes", "-msse4.1"], "x86"),
    "arm": (["-DARM_INTRINSICS", "-march=armv8-a+crypto"], "arm"),
    "rounds6": (["-DROUND_REDUCED"], "x86"),
    "rounds8": (["-DEIGHT_ROUNDS"], "x86"),
    "rounds12": (["-DTWELVE_ROUNDS"], "x86"),
}


class BuildError(Exception):
    pass


class Config:
    """one library of /repo in one build mode, with one harness"""

    def __init__(self, key, dirs, mode, harness, extra=(), libs=(), only=None, defs=()):
        self.key = key
        self.dirs = [dirs] if isinstance(dirs, str) else list(dirs)
        self.mode = mode
        self.harness = harness
        self.extra = list(extra)
        self.libs = list(libs)
        self.only = only
        self.defs = list(defs)

    def flags(self):
        fl, arch = MODE[self.mode]
        inc = []
        for d in self.dirs:
            inc += ["-I", os.path.join(REPO, d)]
        return fl + ["-D" + d for d in self.defs] + inc + ["-I", HARN], arch

    def sources(self):
        out = []
        for d in self.dirs:
            p = os.path.join(REPO, d)
            for f in sorted(os.listdir(p)):
                if f.endswith(".cpp") and (self.only is None or f in self.only):
                    s = os.path.join(p, f)
                    if self.only is None and has_main(s):
                        continue
                    out.append(s)
        return out + [os.path.join(HARN, e) for e in self.extra]


def has_main(p):
    with open(p, encoding="utf-8", errors="replace") as f:
        return re.search(r"^\s*(int|auto)\s+main\s*\(", f.read(), re.M) is not None


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
    return r


def build_ir(cfg, work):
    """path of the linked IR"""
    out = os.path.join(work, cfg.key + ".ll")
    if os.path.exists(out):
        return out
    fl, arch = cfg.flags()
    if arch == "arm":
        fl = ["--target=aarch64-linux-gnu"] + fl
    objs = []
    for i, s in enumerate([os.path.join(HARN, cfg.harness)] + cfg.sources()):
        o = os.path.join(work, "%s.%d.ll" % (cfg.key, i))
        run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-S", "-emit-llvm"] + fl + [s, "-o", o])
        objs.append(o)
    l = os.path.join(work, cfg.key + ".link.ll")
    run([LINK, "-S"] + objs + ["-o", l])
    run([OPT, "-passes=mem2reg", "-S", l, "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    return out


def entries(cfg):
    """entry points the harness defines in this configuration"""
    fl, arch = cfg.flags()
    if arch == "arm":
        fl = ["--target=aarch64-linux-gnu"] + fl
    r = run([CLANG, "-E", "-P", "-w"] + fl + [os.path.join(HARN, cfg.harness)])
    return re.findall(r'extern\s+"C"\s+u64\s+(vh_[A-Za-z0-9_]+)\s*\(', r.stdout.decode(errors="replace"))


def build_native(cfg, work, san=""):
    """path of the native driver program; san: '', 'asan' or 'msan'"""
    exe = os.path.join(work, "%s.%s.exe" % (cfg.key, san or "n"))
    if os.path.exists(exe):
        return exe
    fl, arch = cfg.flags()
    tab = os.path.join(work, "%s.%s.tab.cpp" % (cfg.key, san or "n"))
    names = sorted(set(entries(cfg)))
    with open(tab, "w") as f:
        f.write("#include <cstdint>\ntypedef uint64_t u64;\ntypedef u64 (*fn_t)(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64);\n"
                "struct entry { const char *name; fn_t f; };\n")
        for n in names:
            f.write('extern "C" void %s();\n' % n)
        f.write("entry vh_table[] = {%s {0,0}};\n" % "".join('{"%s",(fn_t)%s},' % (n, n) for n in names))
    src = [os.path.join(HARN, "driver.cpp"), tab, os.path.join(HARN, cfg.harness)] + cfg.sources()
    if san == "asan":
        cmd = ([GXX] if arch == "x86" else [AGXX, "-static"]) + ["-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        if arch == "arm":
            raise BuildError("no sanitizer for this target")
    elif san == "msan":
        if arch == "arm":
            raise BuildError("no sanitizer for this target")
        cmd = [CLANG, "-g", "-w", "-fsanitize=memory", "-fsanitize-memory-track-origins"]
    else:
        cmd = [GXX, "-w"] if arch == "x86" else [AGXX, "-static", "-w"]
    run(cmd + ["-DVH_NATIVE"] + fl + src + ["-o", exe + ".tmp"] + cfg.libs)
    os.rename(exe + ".tmp", exe)
    return exe


def native(cfg, work, calls, san="", fill=0xA5, timeout=120):
    """calls: list of (entry, [('v',int)|('i',bytes)|('o',size)]); list of (ret, [bytes...]) or a string describing a crash"""
    exe = build_native(cfg, work, san)
    arch = MODE[cfg.mode][1]
    inp = []
    for name, args in calls:
        l = [name, str(fill), str(len(args))]
        for k, v in args:
            l.append(k)
            l.append(str(v) if k != "i" else (bytes(v).hex() or "-"))
        inp.append(" ".join(l))
    env = dict(os.environ)
    env.update(MALLOC_PERTURB_=str(fill ^ 0xff), ASAN_OPTIONS="detect_leaks=1:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:exitcode=77",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=78", MSAN_OPTIONS="exitcode=79")
    cmd = [exe] if arch == "x86" else [QEMU, exe]
    try:
        r = subprocess.run(cmd, input="\n".join(inp).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ["timeout"] * len(calls)
    out = []
    for l in r.stdout.decode().splitlines():
        f = l.split()
        try:
            out.append((int(f[0]), [b"" if h == "-" else bytes.fromhex(h) for h in f[1:]]))
        except ValueError:
            break
    if len(out) < len(calls) or r.returncode:
        err = r.stderr.decode(errors="replace")
        m = re.search(r"(ERROR|WARNING): \S*Sanitizer: [^\n]*|runtime error: [^\n]*", err)
        msg = "crash: exit status %d %s" % (r.returncode, m.group(0) if m else err.strip()[:200])
        if len(out) == len(calls) and r.returncode:
            out[-1] = msg
        while len(out) < len(calls):
            out.append(msg)
    return out
