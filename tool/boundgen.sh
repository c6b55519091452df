#!/bin/bash
# Regenerates boundaries.txt (external functions of the tree the checks were confirmed on).
cd "$(dirname "$0")"
for g in core rexcc rexgrep rpagrep rexjson; do python3 - $g <<'PY'
import sys; sys.path.insert(0,'.')
import fe, subprocess, tempfile, os, re
g=sys.argv[1]
for s in fe.group_sources(g):
    t=tempfile.mkdtemp()
    fl=fe.group_flags(g,t)
    o=t+'/x.bc'
    subprocess.check_call([fe.LLVM+'/clang']+fl+['-c',s,'-o',o])
    out=subprocess.check_output([fe.LLVM+'/llvm-nm','--defined-only','-g',o],text=True)
    for l in out.splitlines():
        p=l.split()
        if p[-2]=='T' and p[-1]!='main': print(p[-1])
PY
done | sort -u > boundaries.txt
wc -l boundaries.txt
