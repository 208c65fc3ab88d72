#!/bin/bash
# seed.sh ID [mk]: with mk, take the current /repo diff as ID's patch first.
# Then: build and run the stable tests with the patch, the demo on both trees, and the property's check.
id=$1; d=/verif/seeded/$id
[ "$2" = mk ] && { git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; }
[ -s $d/patch.diff ] || { echo "no patch"; exit 1; }
cp /verif/tools/demo.sh $d/demo.sh 2>/dev/null; chmod +x $d/demo.sh
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/seed.$id.bug 2>&1; b=$?
if [ "$3" != notest ]; then
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; bb=$?
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/seed.$id.json'))
def passed(o):
    for k in ('passed','stable','tests','pass'):
        if k in o:
            v=o[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('pass','passed','ok',True)])
    return set()
m=passed(base)-passed(out); print(len(m), sorted(m)[:4])
P
)
fi
/verif/check.sh $p quick >/tmp/seed.$id.check 2>&1; c=$?
git checkout -q -- .
echo "$id $p demo clean=$a bug=$b build=$bb tests-lost=$t check=$c $(grep -c '^VIOLATION' /tmp/seed.$id.check)"
