#!/bin/bash
# usage: mut.sh FILE 's/sed/expr/' ID...
f=$1; e=$2; shift 2
d=/tmp/mutrepo; rm -rf /tmp/mutrepo; mkdir -p $d; (cd /repo; tar c --exclude=./build --exclude=./.git . | tar x -C $d) 
sed -i "$e" $d/$f; diff /repo/$f $d/$f >/dev/null && echo "NO CHANGE"
diff /repo/$f $d/$f | grep '^[<>]' | head -4
for i in "$@"; do RPATK_REPO=$d python3 /verif/tool/run.py $i | cut -c1-260; echo "rc=$?"; done
