#!/bin/bash
# usage: seedtest.sh ID...   confirms planted changes: they apply, build, pass the stable tests, and the demonstration tells them apart
# (works on a scratch copy mounted over /repo in a private mount namespace; /repo itself is not touched)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  sc=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$sc/repo"; cp -a "$d" "$sc/demo"; rm -f "$sc"/demo/*.diff "$sc"/demo/meta.json
  unshare -Urm bash -c '
    sc=$1; d=$2; id=$3
    mount --bind $sc/repo /repo && cd /repo || exit 3
    bash /opt/vp/build.sh >$sc/b0.log 2>&1 || echo "$id: clean build fails"
    timeout 300 bash $sc/demo/demo.sh >$sc/d0.log 2>&1; r0=$?
    git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 3; }
    bash /opt/vp/test.sh $sc/out.json >$sc/t.log 2>&1
    timeout 300 bash $sc/demo/demo.sh >$sc/d1.log 2>&1; r1=$?
    python3 - $sc/out.json $id <<P
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
m=[x for x in b if x not in o["passed"]]
print(sys.argv[2]+":", "stable tests pass" if not m else "FAILING %s" % m[:5], end="; ")
P
    echo "demo clean=$r0 patched=$r1"
    [ $r0 = 0 ] || tail -3 $sc/d0.log
    tail -2 $sc/d1.log
  ' _ "$sc" "$d" "$id"
  rm -rf "$sc"
done
