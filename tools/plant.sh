#!/bin/bash
# plant.sh ID [notest]: try one planted bug in a private copy of /repo mounted over /repo:
# demo on the clean tree, demo with the patch, the repository's stable tests, the property's check.
# A development tool (needs to mount in a user namespace); writes /tmp/plant/ID.log.
ID=$1; T=$2
HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/plant
W=$(mktemp -d /tmp/plant/w.XXXXXX)
cp -a /repo "$W/repo"; cp -a /opt/vp/support "$W/support"; mkdir "$W/out"
PROP=$(python3 -c "import json;print(json.load(open('$HERE/seeded/$ID/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo && mount --bind $W/support /opt/vp/support && cd /repo || exit 9
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD0 FAILED
bash $HERE/seeded/$ID/demo.sh >$W/d0 2>&1; D0=\$?
git apply $HERE/seeded/$ID/patch.diff || echo APPLY FAILED
bash /opt/vp/build.sh >$W/b1 2>&1 || echo BUILD FAILED
bash $HERE/seeded/$ID/demo.sh >$W/d1 2>&1; D1=\$?
TEST=skipped
if [ '$T' != notest ]; then
  flock /tmp/plant.lock bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
  TEST=\$(python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
def s(d):
    for k in ('stable','passed','pass'):
        if k in d: return set(d[k] if isinstance(d[k],list) else d[k].keys())
    raise SystemExit(str(list(d)))
m=s(b)-s(t)
print('ok' if not m else 'BROKEN '+str(sorted(m)[:3]))
\")
fi
cd $HERE; VERIF_OUT=$W/out ./run.sh $PROP quick >$W/c 2>&1; C=\$?
echo \"$ID $PROP demo0=\$D0 demo1=\$D1 tests=\$TEST check=\$C \$(grep -m1 -B1 VIOLATION $W/c | head -1 | cut -c1-150)\"
" > /tmp/plant/$ID.log 2>&1
tail -3 $W/d0 >> /tmp/plant/$ID.log; tail -2 $W/d1 >> /tmp/plant/$ID.log
tail -1 $W/c >> /tmp/plant/$ID.log
rm -rf "$W"
