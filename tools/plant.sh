#!/bin/bash
# plant.sh ID: confirm a planted bug in a scratch copy (builds, passes the tests, demo 0 before / nonzero after)
# needs /tmp/plant/{repo,build.sh,test.sh}: a copy of /repo with the paths of /opt/vp's scripts changed
S=$(realpath $1); cd /tmp/plant/repo || exit 2
git checkout -q -- . ; git -C /tmp/plant/repo fetch -q /repo 2>/dev/null && git reset -q --hard FETCH_HEAD
bash /tmp/plant/build.sh >/tmp/plant/b0.log 2>&1 || { echo "base build failed"; exit 1; }
rm -rf /tmp/plant/demo; cp -r $S /tmp/plant/demo; rm -f /tmp/plant/demo/*.diff /tmp/plant/demo/meta.json
timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/d0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/plant/test.sh /tmp/plant/t.json >/tmp/plant/b1.log 2>&1; 
timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/d1.log 2>&1; d1=$?
git checkout -q -- .
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant/t.json'))
p=set(t['passed']); base=b if isinstance(b,list) else b['stable']
miss=[x for x in base if x not in p]
print('$(basename $S): demo before %d after %d; baseline tests %d missing %d %s'%($d0,$d1,len(base),len(miss),miss[:3]))
print('OK' if $d0==0 and $d1!=0 and not miss else 'BAD')
P
