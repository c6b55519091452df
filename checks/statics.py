"""Writable static storage of the libraries: who writes it, who gets its address; C functions with hidden state."""
import re
from common import *

# functions of the C library that keep state between calls (or hand out static storage)
HIDDEN = {'strtok', 'rand', 'srand', 'random', 'srandom', 'initstate', 'setstate', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48',
          'srand48', 'seed48', 'lcong48', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'strerror', 'tmpnam', 'mblen', 'mbtowc', 'wctomb',
          'mbrlen', 'mbrtowc', 'wcrtomb', 'mbsrtowcs', 'wcsrtombs', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'gethostbyname', 'readdir', 'ttyname', 'getlogin', 'ecvt', 'fcvt', 'gcvt',
          'setenv', 'putenv', 'unsetenv', 'clearenv', 'hsearch', 'hcreate', 'basename', 'dirname', 'atexit', 'signal', 'umask', 'chdir', 'l64a', 'inet_ntoa'}
READERS = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'bcmp', 'puts', 'printf', 'fprintf', 'fputs', 'fwrite', 'write', 'memchr'}
DERIVE = ('getelementptr', 'bitcast', 'phi', 'select', 'freeze', 'addrspacecast', 'ptrtoint', 'inttoptr', 'add', 'sub', 'and', 'or')

def roots(o, names, out):
    """names of the statics an operand mentions"""
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'g' and o[1] in names: out.add(o[1])
        else:
            for z in o: roots(z, names, out)
    return out

def values(x):
    """operands of an instruction that are values (the blocks of a phi left out)"""
    if x.op == 'phi': return [o[0] if isinstance(o, (list, tuple)) and len(o) == 2 and isinstance(o[0], (list, tuple)) else o for o in x.ops]
    return list(x.ops)

class Static:
    def __init__(s, c, m):
        s.c = c; s.m = m; s.ro = {}
        s.names = {n for n, g in m.globals.items() if not g.get('const') and not g.get('decl') and not g.get('tls') and not n.startswith('llvm.')}
        s.written = set()
        for f in m.fns.values():
            for x in f.insts('store'):
                o = x.ops[1]
                if o[0] == 'v' and o[1] in f.inst and f.inst[o[1]].op == 'getelementptr':
                    for q in f.inst[o[1]].d.get('path') or []:
                        if q[0] == 'f': s.written.add(q[1])
    def track(s, f, seeds):
        """instructions whose value is derived from the seeds ({('v', i)}; the arguments come first) by address computations"""
        d = dict(seeds); ch = True
        while ch:
            ch = False
            for x in f.insts(*DERIVE):
                if ('v', x.i) in d: continue
                r = set()
                for o in values(x): r |= s.of(o, d)
                if r: d[('v', x.i)] = r; ch = True
        return d
    def of(s, o, d):
        r = roots(list(o) if isinstance(o, tuple) else o, s.names, set()) if d.get('globals') else set()
        if isinstance(o, (list, tuple)) and len(o) == 2 and (o[0], o[1]) in d: r = r | d[(o[0], o[1])]
        return r
    def readonly(s, n, k, seen=frozenset()):
        """the function neither writes through nor keeps its argument k"""
        if n in READERS: return True
        if n and n.startswith('llvm.mem'): return k == 1 and not n.startswith('llvm.memset')
        if n and n.startswith('llvm.'): return True
        f = s.m.fns.get(n)
        if f is None or not f.insts(): return False
        key = (n, k)
        if key in s.ro: return s.ro[key]
        if key in seen: return True
        seen = seen | {key}
        d = s.track(f, {('v', k): {k}}); r = True
        for x in f.insts():
            if not r: break
            ops = values(x)
            if x.op == 'store' and (s.of(x.ops[1], d) or s.of(x.ops[0], d)): r = False
            elif x.op == 'ret' and any(s.of(o, d) for o in ops): r = False
            elif x.iscall:
                for i, o in enumerate(x.ops):
                    if s.of(o, d) and not s.readonly(x.callee, i, seen): r = False
            elif x.op in ('cmpxchg', 'atomicrmw', 'insertvalue') and any(s.of(o, d) for o in ops): r = False
        s.ro[key] = r
        return r
    def table(s, n):
        """a table of structures of constants that nothing of the library writes"""
        g = s.m.globals[n]; t = re.search(r'%struct\.([\w.]+)', g.get('ty') or '')
        i = g.get('init')
        return bool(t and t.group(1) not in s.written and i and i[0] in ('a', 'st'))
    def uses(s, f):
        d = s.track(f, {'globals': True})
        for x in f.insts():
            if x.op in DERIVE or x.op in ('load', 'icmp', 'br', 'switch'): continue
            if x.op == 'store':
                for n in s.of(x.ops[1], d): yield x, n, 'store', None
                for n in s.of(x.ops[0], d): yield x, n, 'kept', None
            elif x.iscall:
                for i, o in enumerate(x.ops):
                    for n in s.of(o, d): yield x, n, 'call', i
            else:
                for o in values(x):
                    for n in s.of(o, d): yield x, n, x.op if x.op in ('ret', 'atomicrmw', 'cmpxchg') else 'kept', None

def check_statics(c):
    c.rule('effects on static storage: for every writable object of static storage duration of the libraries, every instruction that can write it or that lets its address out of the function is found by following its address through address computations; none may exist except the updates of the allocation totals (the integers that r_debug_get_allocmem and r_debug_get_maxmem read), the locks (objects only handed to r_spinlock_*), and the publication of initialised tables of structures no function of the library stores into')
    c.rule('effects of callees: an address may be passed to a function that neither stores through that argument, nor keeps, nor returns it')
    c.rule('no call of a C library function that keeps state between calls')
    c.assumption('a table whose structure type is never stored into is not overwritten as raw bytes either')
    for grp in ('core', 'rexjson'):
        m = c.mod(grp); st = Static(c, m); totals = set()
        for n in ('r_debug_get_allocmem', 'r_debug_get_maxmem'):
            f = m.fns.get(n)
            if f:
                for x in f.insts('load'): totals |= roots(x.ops[0], st.names, set())
        totals = {n for n in totals if re.fullmatch(r'i\d+', m.globals[n].get('ty') or '')}
        c.ob('writable statics', len(st.names))
        for f in sorted(m.fns.values(), key=lambda f: f.name):
            if not f.insts(): continue
            c.seen(f); c.ob('functions scanned')
            for x in f.insts('call', 'invoke'):
                c.ob('calls')
                if x.callee in HIDDEN and x.callee not in m.fns: c.bad('%s:%s' % (f.name, x.callee), f.where(x), '%s calls %s, which keeps state between calls' % (f.name, x.callee))
            for x, n, kind, k in st.uses(f):
                c.ob('uses of statics')
                if kind == 'store' and n in totals: continue
                if kind == 'call':
                    if (x.callee or '').startswith('r_spinlock_'): continue
                    if st.readonly(x.callee, k) or st.table(n): continue
                    what = 'hands its address to %s' % (x.callee or 'an unknown function')
                elif kind == 'store' or kind in ('atomicrmw', 'cmpxchg'): what = 'writes it'
                else:
                    if st.table(n): continue
                    what = 'returns its address' if kind == 'ret' else 'keeps its address'
                c.bad('%s:%s' % (f.name, n), f.where(x), 'static storage %s is shared by all callers: %s %s' % (n, f.name, what))
    c.atleast('functions scanned', 200)


# ---- executing a compiled grammar leaves it as it was

EXEC = ('rpa_stat_parse', 'rpa_stat_match', 'rpa_stat_scan', 'rpa_stat_exec')
SHARED = ('rpadbex_s', 'rpa_compiler_s', 'rpa_ruleinfo_s', 'rvm_codegen_s', 'rvm_codelabel_s', 'rvm_asmins_s')

def functions_of(init, fns, out):
    if isinstance(init, list):
        if len(init) == 2 and init[0] == 'g' and isinstance(init[1], str):
            if init[1] in fns: out.add(init[1])
        else:
            for z in init: functions_of(z, fns, out)
    return out

class Graph:
    """what a function does to the objects reachable from some of its arguments, or from the database of a state"""
    def __init__(s, c, m): s.c = c; s.m = m; s.memo = {}; s.seen = set()
    def fields(s, x): return [(q[1], q[2]) for q in x.d.get('path') or [] if q[0] == 'f']
    def states(s, f):
        """values of f that address a matching state"""
        if s.m.field('rpastat_s', 'dbex') != 0: return set()
        return {x.ops[0][1] for x in f.insts('getelementptr') if x.ops[0][0] == 'v' and s.fields(x)[:1] and s.fields(x)[0][0] == 'rpastat_s'}
    def taint(s, f, args):
        d = set(args); ch = True; base = s.states(f)
        for x in f.insts('call'):
            if (x.callee or '').startswith('rpa_dbex_') and x.ops and x.ops[0][0] == 'v' and x.ops[0][1] in f.inst: d.add(x.ops[0][1])
        while ch:
            ch = False
            for x in f.insts():
                if x.i in d: continue
                t = False
                if x.op == 'getelementptr': t = x.ops[0][0] == 'v' and x.ops[0][1] in d and ('rpadbex_s', 'err') not in s.fields(x)
                elif x.op == 'load':
                    o = x.ops[0]
                    if x.d.get('t') == 'ptr' and o[0] == 'v':
                        t = o[1] in d or o[1] in base or (o[1] in f.inst and f.inst[o[1]].op == 'getelementptr' and s.fields(f.inst[o[1]])[-1:] == [('rpastat_s', 'dbex')])
                elif x.op in ('phi', 'select', 'bitcast', 'freeze'): t = x.d.get('t') == 'ptr' and any(isinstance(o, (list, tuple)) and len(o) == 2 and o[0] == 'v' and o[1] in d for o in values(x))
                elif x.iscall and x.callee in s.m.fns and x.d.get('t') == 'ptr':
                    k = frozenset(i for i, o in enumerate(x.ops) if o[0] == 'v' and o[1] in d)
                    if k: t = s.run(x.callee, k)[0]
                if t: d.add(x.i); ch = True
        return d
    def run(s, n, args):
        """(the result lies in the object graph, [(where, what)] writes into the graph)"""
        key = (n, args)
        if key in s.memo: return s.memo[key]
        s.memo[key] = (False, [])
        f = s.m.fn(n); s.seen.add(n); s.c.ob('functions with the shared objects in hand')
        d = s.taint(f, args); bad = []; ret = False
        hit = lambda o: isinstance(o, (list, tuple)) and len(o) == 2 and o[0] == 'v' and o[1] in d
        for x in f.insts():
            if x.op == 'store' and hit(x.ops[1]): bad.append((f.where(x), '%s:store' % n, '%s stores into it' % n))
            elif x.op in ('cmpxchg', 'atomicrmw') and hit(x.ops[0]): bad.append((f.where(x), '%s:store' % n, '%s stores into it' % n))
            elif x.op == 'ret' and any(hit(o) for o in x.ops): ret = True
            elif x.iscall:
                k = frozenset(i for i, o in enumerate(x.ops) if hit(o))
                if not k: continue
                s.c.ob('calls with a part of the shared objects')
                if x.callee in s.m.fns: bad += s.run(x.callee, k)[1]
                elif x.callee and x.callee.startswith('llvm.mem'):
                    if 0 in k: bad.append((f.where(x), '%s:%s' % (n, x.callee.split('.')[1]), '%s overwrites a part of it' % n))
                elif x.callee and (x.callee.startswith('llvm.') or x.callee in READERS): pass
                elif x.callee in ('memcpy', 'memmove', 'memset', 'free', 'realloc', 'strcpy', 'strncpy', 'sprintf', 'snprintf') and 0 in k:
                    bad.append((f.where(x), '%s:%s' % (n, x.callee), '%s overwrites or releases a part of it with %s' % (n, x.callee)))
        s.memo[key] = (ret, bad)
        return s.memo[key]

def check_exec_pure(c):
    c.rule('effects on the object graph of the database: in every function reachable from %s, and in every instruction handler, the values that lie in the graph of objects reachable from the database of the state (rpastat_s.dbex) are followed through field addresses, loads, calls and results; none of them may be the target of a store, of a memory copy or of a release; only the error record of the database (rpadbex_s.err) is outside of the graph' % ', '.join(EXEC))
    c.rule('stores into %s through any address other than that of a local variable are excluded in the same functions' % ', '.join(SHARED))
    c.assumption('a store through an integer turned into an address, or through an address that was parked in memory outside the graph, is seen only when it names a field of one of these structures')
    m = c.mod('core'); g = Graph(c, m)
    reach = set(); todo = [n for n in EXEC if n in m.fns]
    c.need(todo, 'none of %s is defined' % ', '.join(EXEC))
    for n, v in m.globals.items():
        if 'rvm_switable_s' in (v.get('ty') or ''): todo += sorted(functions_of(v.get('init'), m.fns, set()))
    for f in m.fns.values():
        for x in f.insts('call'):
            if x.callee == 'rvm_cpu_setophandler':
                for r in roots([list(o) for o in x.ops], set(m.fns), set()): todo.append(r)
    handlers = {n for n in todo if n not in EXEC and len(m.fns[n].args) == 2}
    c.ob('instruction handlers', len(handlers))
    names = set(m.globals)
    while todo:
        n = todo.pop()
        if n in reach or not m.fns[n].insts(): continue
        reach.add(n)
        for x in m.fns[n].insts():
            if x.iscall and x.callee in m.fns: todo.append(x.callee)
            for r in roots([list(o) if isinstance(o, tuple) else o for o in x.ops], names, set()): todo += functions_of(m.globals[r].get('init'), m.fns, set())
            for r in roots([list(o) if isinstance(o, tuple) else o for o in x.ops], set(m.fns), set()): todo.append(r)
    seen = set()
    def rep(where, key, what):
        if (where, key) not in seen: seen.add((where, key)); c.bad(key, where, 'executing a grammar changes the database it belongs to: ' + what)
    for n in sorted(reach):
        f = m.fn(n); c.seen(f); c.ob('functions reachable from an execution')
        for w, k, t in g.run(n, frozenset({1}) if n in handlers else frozenset())[1]: rep(w, k, t)
        for x in f.insts('store'):
            c.ob('stores'); o = x.ops[1]; fl = []
            while o[0] == 'v' and o[1] in f.inst and f.inst[o[1]].op in ('getelementptr', 'bitcast'):
                fl = g.fields(f.inst[o[1]]) + fl; o = f.inst[o[1]].ops[0]
            if o[0] == 'v' and o[1] in f.inst and f.inst[o[1]].op == 'alloca': continue
            hit = [q for q in fl if q[0] in SHARED]
            if hit and ('rpadbex_s', 'err') not in fl: rep(f.where(x), '%s:%s.%s' % (n, hit[-1][0], hit[-1][1]), '%s stores into %s.%s' % (n, hit[-1][0], hit[-1][1]))
    c.atleast('functions reachable from an execution', 40)

CHECKS = {'G01': check_statics, 'P08': check_exec_pure}
