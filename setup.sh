#!/bin/bash
# Nothing is built ahead: every check compiles /repo's current sources itself.  This only shows that the tools are there.
cd "$(dirname "$0")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=$(command -v python3-vt) || PY=python3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
"$PY" - <<'P'
import sys
sys.path[:0] = ["lib", "ref", "props"]
import z3, numpy, build, check
print("z3", z3.get_version_string(), build.CLANG, build.LINK, build.OPT, build.GXX, build.AGXX, build.QEMU)
P
