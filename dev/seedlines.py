"""which seeds change no line of the original repository"""
import subprocess, glob, re, json
base = json.load(open('/opt/vp/BASELINE.json')).get('commit') if False else None
log = subprocess.run('git -C /repo log --format=%H', shell=True, capture_output=True, text=True).stdout.split()
mine = subprocess.run("git -C /repo log --format='%H %s'", shell=True, capture_output=True, text=True).stdout.split('\n')
base = next(l.split()[0] for l in mine if l and not l.split(' ', 1)[1].startswith(('fix:', 'hook')))
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    ok = False
    for f in re.findall(r'^--- a/(\S+)', open(p).read(), flags=re.M):
        orig = set(l.strip() for l in subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True, errors='replace').stdout.split('\n'))
        for l in open(p):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() in orig and len(l[1:].strip()) > 2: ok = True
    if not ok: print('no original line:', p)
print('base', base)
