#!/bin/bash
# usage: seedcheck.sh ID [PROP]   runs the check of a planted change's property against a patched scratch copy
id=$1; d=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
sc=$(mktemp -d /tmp/sdc.XXXXXX)
git clone -q /repo $sc/repo && git -C $sc/repo apply $d/patch.diff || exit 3
s=$(date +%s)
cp -a /verif/run.sh /verif/lib /verif/props /verif/ref /verif/harness /verif/known_findings.txt $sc/ 
VERIF_REPO=$sc/repo timeout 900 bash $sc/run.sh $p --tier ${TIER:-quick} > $sc/log 2>&1; r=$?
echo "$id $p: exit $r, $(( $(date +%s) - s )) s; $(grep -A1 VIOLATION $sc/log | head -2 | cut -c1-250 | tr '\n' ' ')"
[ $r = 1 ] || tail -5 $sc/log | cut -c1-300
rm -rf $sc
