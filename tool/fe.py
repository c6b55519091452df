"""Front end: compiles /repo's current sources to LLVM IR and exports them with irx.

Nothing of the analysed program is executed.  Everything is rebuilt from the
current tree on each run, in a private temporary directory.
"""
import glob, json, os, re, shutil, zlib, subprocess, sys, tempfile, concurrent.futures as cf

REPO = os.environ.get('RPATK_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = '/usr/lib/llvm-18/bin'
IRX = os.path.join(HERE, 'irx')

class AnalysisBroken(Exception):
    """The analysis could not give an answer (compile failure, vanished anchor)."""

def build_irx():
    src = os.path.join(HERE, 'irx.cpp')
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    tmp = IRX + '.%d' % os.getpid()
    subprocess.check_call([LLVM + '/clang++'] + flags + ['-O1', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.replace(tmp, IRX)

INC = ['-I' + REPO, '-I' + REPO + '/arch/unix']
CFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-fno-inline-functions',
          '-emit-llvm', '-w', '-D_FORTIFY_SOURCE=0', '-DR_DEBUG_MEMALLOC']

VARIANT = None

def group_sources(name):
    g = lambda *pats: sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))
    if name == 'core':
        return g('rlib/*.c', 'rvm/*.c', 'rpa/*.c', 'rex/*.c')
    if name == 'rexcc':
        return g('rexcc/*.c', 'rexcc/unix/*.c')
    if name == 'rexgrep':
        return g('rexgrep/*.c', 'rexgrep/unix/*.c')
    if name == 'rpagrep':
        return g('rpagrep/*.c', 'rpagrep/unix/*.c')
    if name == 'rexjson':
        return g('rexjson/rexjson.c')
    if name == 'cxx':
        return g('rexjson/rexjson++.cpp', 'rexjsonrpc/*.cpp') + [os.path.join(HERE, 'cxx_inst.cpp')]
    if name == 'selftest':
        return [os.path.join(HERE, 'selftest.c')]
    raise KeyError(name)

def _dfa_stub(tmp):
    """rexjsondfa.h is generated by rexcc at build time; the analysis uses the
    declarations of the .rexcc source and leaves the table external."""
    p = os.path.join(REPO, 'rexjson/rexjsondfa.rexcc')
    txt = open(p, encoding='utf-8', errors='replace').read()
    parts = re.split(r'^%%\s*$', txt, flags=re.M)
    head = parts[0]; tail = parts[-1] if len(parts) > 2 else ''
    d = os.path.join(tmp, 'gen'); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'rexjsondfa.h'), 'w').write(
        head + '\n#ifdef __cplusplus\nextern "C" {\n#endif\nextern rexdfa_t ccdfa;\n#ifdef __cplusplus\n}\n#endif\n' + tail)
    return d

def group_flags(name, tmp):
    extra = {'rexcc': ['-I' + REPO + '/rexcc/unix', '-I' + REPO + '/rexcc'], 'rexgrep': ['-I' + REPO + '/rexgrep/unix', '-I' + REPO + '/rexgrep'],
             'rpagrep': ['-I' + REPO + '/rpagrep/unix', '-I' + REPO + '/rpagrep']}.get(name, [])
    if name in ('rexjson', 'cxx'):
        extra = ['-I' + _dfa_stub(tmp), '-I' + REPO + '/rexjson']
    cf_ = [x for x in CFLAGS if not (VARIANT == 'nomemdebug' and x == '-DR_DEBUG_MEMALLOC')]
    return cf_ + extra + INC

def _compile(args):
    src, out, flags = args
    cxx = src.endswith('.cpp')
    cmd = [LLVM + ('/clang++' if cxx else '/clang')] + (['-std=gnu++17'] if cxx else ['-std=gnu17']) + flags + ['-S', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode == 0: _tag_structs(out)
    return src, r.returncode, r.stderr

def _tag_structs(p):
    """The IR linker unifies structurally identical struct types whatever their names; a unique
    zero-sized trailing element keeps them (and with them the field names) apart."""
    with open(p) as f: t = f.read()
    body = re.sub(r'^%.*= type .*$', '', t, flags=re.M)
    used = set(re.findall(r'(%(?:struct|class|union)\.[\w.:]+|%"[^"]+") \{', body)) | set(re.findall(r'(%(?:struct|class|union)\.[\w.:]+|%"[^"]+") <\{', body))
    def sub(m):
        n = m.group(1)
        if n in used or not m.group(2).strip(): return m.group(0)
        base = re.sub(r'\.\d+("?)$', r'\1', n)
        return '%s = type { %s, [0 x [%d x i8]] }' % (n, m.group(2), zlib.crc32(base.encode()) % 1000003 + 2)
    t = re.sub(r'^(%\S+|%"[^"]+") = type \{ (.*) \}$', sub, t, flags=re.M)
    with open(p, 'w') as f: f.write(t)

PIPES = {'plain': 'always-inline,function(sroa,instsimplify,early-cse,dce)'}

def load_group(name, keep=None, extra_boundary=(), unbound=(), pipe=None):
    """extra_boundary: additional functions kept as calls; unbound: functions
    (names, or a callable over names) that are inlined although they are API."""
    build_irx()
    srcs = group_sources(name)
    if not srcs:
        raise AnalysisBroken('no sources found for group ' + name)
    tmp = tempfile.mkdtemp(prefix='rpatk-ir-')
    try:
        flags = group_flags(name, tmp)
        jobs = [(s, os.path.join(tmp, '%03d.ll' % i), flags) for i, s in enumerate(srcs)]
        with cf.ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(_compile, jobs):
                if rc:
                    raise AnalysisBroken('cannot compile %s: %s' % (src, err[-800:]))
        out = os.path.join(tmp, 'out.json')
        bf = os.path.join(HERE, 'boundaries.txt')
        if extra_boundary or unbound:
            names = open(bf).read().split()
            drop = set(unbound)
            t = '\n'.join(n for n in names if n not in drop) + '\n' + '\n'.join(extra_boundary) + '\n'
            bf = os.path.join(tmp, 'b.txt'); open(bf, 'w').write(t)
        env = dict(os.environ); env.pop('IRX_PIPE', None)
        if pipe: env['IRX_PIPE'] = PIPES[pipe]
        r = subprocess.run([IRX, out, bf] + [j[1] for j in jobs], capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisBroken('irx failed: ' + r.stderr[-800:])
        with open(out) as f:
            j = json.load(f)
        j['units'] = [os.path.relpath(s, REPO) for s in srcs]
        if keep:
            shutil.copy(out, keep)
        return j
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def load_consts(headers, extra_flags=()):
    """Integer-valued macros of the given headers, resolved by the compiler."""
    tmp = tempfile.mkdtemp(prefix='rpatk-c-')
    try:
        src = ''.join('#include "%s"\n' % h for h in headers)
        p = os.path.join(tmp, 'a.c'); open(p, 'w').write(src)
        m = subprocess.run([LLVM + '/clang', '-dM', '-E', p] + list(extra_flags) + INC, capture_output=True, text=True)
        base = subprocess.run([LLVM + '/clang', '-dM', '-E', '-x', 'c', '/dev/null'], capture_output=True, text=True)
        if m.returncode:
            raise AnalysisBroken('preprocess: ' + m.stderr[-500:])
        known = set(re.findall(r'^#define (\w+)\b', base.stdout, flags=re.M))
        names = [x for x in re.findall(r'^#define ([A-Z_a-z]\w*) +\S', m.stdout, flags=re.M) if x not in known and re.match(r'^[A-Z]', x)]
        body = src + ''.join('__typeof__(%s) *probe_%s;\n' % ('0', n) for n in [])
        # let the compiler decide which are integer constant expressions
        lines = [src]
        for n in names:
            lines.append('const long long K_%s = __builtin_choose_expr(__builtin_constant_p(%s), (long long)(%s), 0);\n' % (n, n, n))
        good = names
        for _ in range(6):
            t = src + ''.join('const long long K_%s = (long long)(%s);\n' % (n, n) for n in good)
            open(p, 'w').write(t)
            r = subprocess.run([LLVM + '/clang', '-w', '-ferror-limit=0', '-S', '-emit-llvm', '-o', os.path.join(tmp, 'a.ll'), p] + list(extra_flags) + INC, capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad = set()
            nl = src.count('\n')
            for mm in re.finditer(r'a\.c:(\d+):\d+: error', r.stderr):
                k = int(mm.group(1)) - nl - 1
                if 0 <= k < len(good): bad.add(good[k])
            if not bad:
                raise AnalysisBroken('consts: ' + r.stderr[-500:])
            good = [n for n in good if n not in bad]
        ll = open(os.path.join(tmp, 'a.ll')).read()
        return {a: int(b) for a, b in re.findall(r'@K_(\w+) = .*constant i64 (-?\d+)', ll)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
