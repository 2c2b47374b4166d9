"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec listing (id, property, edits, sources, flags, demo, needs, breaks)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

TPL = """#!/bin/bash
# builds the demonstration from the sources of the current directory (/repo) and runs it
set -eu
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
%s %s -w -I. -o "$d/demo" "$here/demo.cpp" %s %s
%s"$d/demo"
"""
g = {}
exec(open(sys.argv[1]).read(), g)
for s in g["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, a, b in s["edits"]:
        p = t + "/r/" + f
        x = open(p, newline="").read()
        assert x.count(a) == 1, (s["id"], f, a, x.count(a))
        open(p, "w", newline="").write(x.replace(a, b))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
    shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(diff)
    cxx = s.get("cxx", "g++")
    open(d + "/demo.sh", "w").write(s.get("sh") or TPL % (cxx, s.get("flags", "-O1"), " ".join(s["src"]), s.get("libs", ""), s.get("run", "")))
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in s:
        open(d + "/demo.cpp", "w").write(s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
