#!/bin/bash
# mkseed.sh ID PROP FILE 'sed' "needs" "breaks"   ; demo.sh must already be in /verif/seeded/ID
# or: mkseed.sh ID PROP -py script.py "needs" "breaks"
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
cd /repo || exit 1; git checkout -q -- .
if [ "$3" = -py ]; then python3 "$4" || { git checkout -q -- .; exit 1; }; else sed -i "$4" $3; fi
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
python3 - "$d" "$prop" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
/tmp/seedtest.sh $id applied
