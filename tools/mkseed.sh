#!/bin/bash
# mkseed.sh ID: confirm the change in the scratch copy /tmp/sr as planted bug ID (its demo is in seeded/ID already).
id=$1; d=/verif/seeded/$id
cd /tmp/sr || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
cat > /tmp/mkseed_in.sh <<IN
mount --bind /tmp/sr /repo && cd /repo || exit 9
bash /opt/vp/build.sh > /tmp/mk_build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/mk_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/mk_out.json > /tmp/mk_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/mk_out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass'):
            if k in x: return set(x[k])
    return set(x)
s=names(b); p=names(o)
print('tests', len(s&p),'of',len(s), sorted(s-p)[:5])
P
bash $d/demo.sh > /tmp/mk_demo1.log 2>&1; echo "demo with the bug: \$?"; tail -4 /tmp/mk_demo1.log
git apply -R $d/patch.diff && bash /opt/vp/build.sh > /dev/null 2>&1; bash $d/demo.sh > /tmp/mk_demo2.log 2>&1; echo "demo without: \$?"; tail -3 /tmp/mk_demo2.log
IN
unshare -Urm bash /tmp/mkseed_in.sh
git checkout -q -- .
