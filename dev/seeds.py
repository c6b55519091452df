"""seeds.py FILE.. : each file defines S(id, prop, patches, needs, breaks, demo, libs) calls; creates seeded/ID and tests it.
patches: [(file, old, new)]"""
import sys, os, json, subprocess
L = {'rlib': 'rlib/*.c', 'rvm': 'rlib/*.c rvm/*.c', 'rex': 'rlib/*.c rex/*.c', 'rpa': 'rlib/*.c rvm/*.c rpa/*.c'}
only = set(sys.argv[2:])
def S(id, prop, patches, needs, breaks, demo, libs='rlib', san='-fsanitize=address', sh=None, cxx=False):
    if only and id not in only: return
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    if demo is not None: open(d + ('/demo.cpp' if cxx else '/demo.c'), 'w').write(demo)
    ext = L.get(libs, libs)
    open(d + '/demo.sh', 'w').write(sh or '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -w %s -I. -Iarch/unix "$here/demo.c" %s -o $t/demo -lm -lpthread >$t/log 2>&1 || { cat $t/log; exit 2; }
ASAN_OPTIONS=detect_leaks=0 timeout 60 $t/demo
''' .replace('gcc -g', 'g++ -g' if cxx else 'gcc -g').replace('/demo.c"', '/demo.cpp"' if cxx else '/demo.c"') % (san, ext))
    os.chdir(os.environ.get('SEED_REPO','/repo')); subprocess.run(['git', 'checkout', '-q', '--', '.'])
    for f, a, b in patches:
        s = open(f).read()
        if s.count(a) < 1: print(id, 'NOT FOUND', f, a[:60]); return
        open(f, 'w').write(s.replace(a, b, 1))
    p = subprocess.run(['git', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if os.environ.get('SEED_REPO'): subprocess.run(['git', 'checkout', '-q', '--', '.'])
    else: subprocess.run(['/verif/dev/seedtest.sh', id, 'applied'])
exec(open(sys.argv[1]).read())
