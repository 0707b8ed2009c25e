#!/bin/bash
# plant.sh ID [check args]: confirm a planted change in /repo's working tree and run its property's check against it.
cd /repo || exit 2
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); shift
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
bash "$D/demo.sh" > /tmp/plant.demo0 2>&1; a=$?
git apply "$D/patch.diff" || exit 2
bash "$D/demo.sh" > /tmp/plant.demo1 2>&1; b=$?
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.test 2>&1
t=$(python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('stable','passed'):
        if isinstance(x,dict) and k in x:
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in (True,'pass','passed')])
    return set()
print(len(names(b)), len(names(b)-names(r)), sorted(names(b)-names(r))[:5])
Q
)
/verif/check.sh "$P" "$@" > /tmp/plant.check 2>&1; c=$?
git checkout -q -- .
echo "$D $P demo clean=$a patched=$b tests(stable,missing)=$t check=$c :: $(grep -m1 '^violated' /tmp/plant.check | cut -c1-220)"; tail -1 /tmp/plant.check
