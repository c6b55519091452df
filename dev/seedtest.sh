#!/bin/bash
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ "$2" = applied ] || { git checkout -q -- .; git apply $d/patch.diff || { echo NOAPPLY; exit 1; }; }
bash /opt/vp/build.sh >/tmp/so.build 2>&1 || echo BUILDFAIL
bash /opt/vp/test.sh /tmp/so.json >/dev/null 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/so.json'))
x=set(b['stable'])-set(t['passed']); print('stable-missing',len(x),sorted(x)[:3])")
cp -r $d /tmp/demo_$id; timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_out_bad 2>&1; r1=$?
python3 /verif/tool/run.py $prop > /tmp/chk_out 2>&1; rc=$?
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_out_good 2>&1; r0=$?
rm -rf /tmp/demo_$id
echo "$id [$prop]: tests: $t | demo clean=$r0 patched=$r1 | check rc=$rc $(grep -c VIOLATION /tmp/chk_out)"
grep key= /tmp/chk_out | head -2 | cut -c1-220
