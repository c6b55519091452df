"""REX: automaton tables, transition lists, fragments."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, addlin, Prover
from common import *
from nest import *

UB = ('rex_db_getstate', 'rex_db_getsubstate', 'rex_state_addtransition', 'rex_state_addtransition_dst', 'rex_state_addtransition_e', 'rex_state_addtransition_e_dst',
      'rex_state_addsubstate_dst', 'rex_db_addrangetrasition', 'rex_db_addtrasition_e', 'rex_dfaconv_uniquerange_insertvalue')
A = lambda k: ('arg', k)
I, J, K_, L_ = (('ix', k) for k in range(4))
F = lambda b, n: ('F', b, n)
D = lambda a: ('D', a)
EL = lambda arr, i: ('el', arr, i)
FOR = lambda n: ('for', ('c', 0), n)
C0, CM1 = ('c', 0), ('c', -1)

def isneg1(e): return e in (CM1, ('c', 0xffffffff), ('c', (1 << 64) - 1))

class View(Nest):
    def __init__(s, c, m, name, **kw):
        f = m.fn(name); c.seen(f); super().__init__(f, **kw); s.c = c; s.name = name
    def calls(s, *names):
        r = []
        for x in s.f.calls(*names): r.append((x, tuple(s.canon(s.f.expr(o), x.b.id) for o in x.ops)))
        return r
    def stores(s, loc=None, field=None):
        r = []
        for x in s.f.insts('store'):
            a = s.addr(x)
            if loc is not None and a != loc: continue
            if field is not None and not (a[0] == '&' and a[2] == field): continue
            r.append((x, a, s.val(x)))
        return r
    def bad(s, key, x, msg): s.c.bad('%s:%s' % (s.name, key), s.f.where(x) if x is not None else s.f.where(), msg)
    def rets(s):
        return [(s.canon(v, (edges[-1][0] if edges else e.b.id)) if v is not None else None, e, edges) for v, e, edges in ret_cases(s.f)]

# ---------------------------------------------------------------- X01 tables
def accumulates(N, p, depth=0, seen=None):
    """increments collected by the accumulator phi p: [(term canonical, block)] or None; first element: the initial values"""
    f = N.f; seen = seen if seen is not None else set()
    x = f.inst[p[2]]; backs = headers(f).get(x.b.id, []); inc = []; ini = []
    seen.add(p)
    def value(o, b):
        e = f.expr(o)
        return ev(e, b)
    def ev(e, b):
        if e in seen: return True
        if e[0] == 'phi' and e[1] == f.name:
            y = f.inst[e[2]]; seen.add(e)
            return all(value(o, q) for o, q in y.ops if f.reachable(q) and ('false',) not in f.edge_facts(q, y.b.id))
        if e[0] == 'lin':
            for t, k in e[2]:
                if k == 1 and (t in seen or t[0] == 'phi' and t[1] == f.name and f.inst[t[2]].t != 'ptr' and t not in N.env(b)):
                    rest = mklin(*sublin(aslin(e), aslin(t)))
                    inc.append((rest, b))
                    return ev(t, b)
        ini.append(e); return True
    for o, b in x.ops:
        if f.reachable(b) and not value(o, b): return None
    # the place of an increment is the block of the addition
    out = []
    for rest, b in inc:
        out.append((rest, b))
    return ini, out

def counter_of(N, e):
    """[(term, nest, guard)] summed up in the value e returned by a counting function"""
    f = N.f
    while e[0] == 'phi' and f.inst[e[2]].b.id not in headers(f):
        x = f.inst[e[2]]; vs = {f.expr(o) for o, b in x.ops if f.reachable(b) and f.expr(o) != ('c', 0)}
        if len(vs) != 1: break
        e = next(iter(vs))
    if e[0] != 'phi': return None
    r = accumulates(N, e)
    if r is None: return None
    ini, inc = r
    if any(v != ('c', 0) for v in ini): return None
    out = []
    for rest, b in inc:
        # block where the sum is computed
        bl = b
        class X: pass
        x = f.blocks[b].insts[-1]
        for y in f.insts():
            if y.op in ('add', 'sub') and y.b.id in range(len(f.blocks)):
                v = f.x(y)
                if v[0] == 'lin' and any(mklin(*sublin(aslin(v), aslin(t))) == rest for t, k in v[2] if t[0] == 'phi') and (y.b.id == b or f.dom(y.b.id, b)): x = y
        out.append((N.canon(rest, x.b.id), N.nest(x), N.lguard(x), x))
    return out

def check_tables(c):
    m = c.mod('core', pipe='plain', unbound=UB)
    ACC = m_enum_accept(c)
    c.rule('the arrays of an automaton table are allocated for as many entries as the automaton has, filled completely with the values of the automaton, each state window starting where the previous ended; the accessors yield exactly the entry of the window or NULL')
    S = F(A(0), 'states'); st = D(EL(S, I)); SUB = F(A(0), 'substates')
    acccond = lambda N: N.eq(F(EL(SUB, D(EL(F(st, 'subset'), J))), 'ss_type'), ('c', ACC))
    NS, NT, NSUB = FOR(F(S, 'len')), FOR(F(F(st, 'trans'), 'len')), FOR(F(F(st, 'subset'), 'len'))
    # counts
    for name, law in (('rex_db_numtransitions', lambda N: [(F(F(st, 'trans'), 'len'), (NS,), True)]),
                      ('rex_db_numsubstates', lambda N: [(F(F(st, 'subset'), 'len'), (NS,), True)]),
                      ('rex_db_numaccsubstates', lambda N: [(('c', 1), (NS, NSUB), acccond(N))])):
        N = View(c, m, name)
        for v, e, edges in ret_cases(N.f):
            c.ob('totals')
            r = counter_of(N, v); want = law(N)
            got = None if r is None else [t[:3] for t in r]
            if got != want:
                alt = None
                if name == 'rex_db_numsubstates': alt = [(('c', 1), (NS, NSUB), True)]
                if name == 'rex_db_numtransitions': alt = [(('c', 1), (NS, NT), True)]
                if alt is None or got != alt: N.bad('count', e, '%s does not count exactly the entries the table is filled with' % name)
            for t in r or ():
                if not N.complete(t[3]): N.bad('count', t[3], '%s may stop counting before the last entry' % name)
    N = View(c, m, 'rex_db_numstates')
    for v, e, ed in N.rets():
        c.ob('totals')
        if v != F(S, 'len'): N.bad('count', e, 'rex_db_numstates reports %s' % cp(v))
    # allocation
    N = View(c, m, 'rex_dfa_create'); f = N.f
    T = {'states': (0, 'nstates', m.structs['rexdfs_s']['size'] if 'rexdfs_s' in m.structs else None), 'trans': (1, 'ntrans', None), 'accsubstates': (2, 'naccsubstates', None), 'substates': (3, 'nsubstates', None)}
    size = {'states': 'rexdfs_s', 'trans': 'rexdft_s', 'accsubstates': 'rexdfss_s', 'substates': 'rexdfss_s'}
    for v, e, ed in N.rets():
        if v == C0: continue
        for fd, (k, nf, _) in T.items():
            c.ob('allocations')
            st_ = N.stores(loc=('&', v, fd)); cn = N.stores(loc=('&', v, nf))
            if not any(w == A(k) and N.guard(x) is True or w == A(k) and N.b.NOT(N.eq(v, C0)) == N.guard(x) for x, a, w in cn) or any(w != A(k) for x, a, w in cn): N.bad('size', e, 'the table does not record the number of its %s' % fd)
            if not st_: N.bad('alloc', e, 'no %s are allocated' % fd)
            esz = m.structs[size[fd]]['size']
            for x, a, w in st_:
                if w[0] != 'call' or w[1] not in ALLOC: N.bad('alloc', x, 'the %s are not freshly allocated' % fd); continue
                y = f.inst[f.expr(x.ops[0])[3]]; n = N.canon(alloc_size(f, f.expr(x.ops[0])), x.b.id)
                if n != mklin(0, ((A(k), esz),)): N.bad('alloc', x, 'the room allocated for the %s is %s' % (fd, cp(n)))
                if w[1] not in ('r_zmalloc', 'r_calloc', 'calloc'): N.bad('zero', x, 'the %s are not cleared' % fd)
                g = N.guard(x)
                if g is not True and g != N.b.NOT(N.eq(A(k), C0)) and g != N.b.NOT(N.eq(v, C0)): N.bad('alloc', x, 'the %s are allocated only under a condition' % fd)
    # filling
    N = View(c, m, 'rex_db_todfa'); f = N.f; B = N.b
    cr = list(f.calls('rex_dfa_create'))
    if len(cr) != 1: raise AnalysisBroken('rex_db_todfa: table creation not found')
    DFA = ('sym', 'DFA'); N.subst[N.canon(f.x(cr[0]), cr[0].b.id)] = DFA; N._memo.clear()
    c.ob('allocations')
    want = ['rex_db_numstates', 'rex_db_numtransitions', 'rex_db_numaccsubstates', 'rex_db_numsubstates']
    for k, wn in enumerate(want):
        e = f.expr(cr[0].ops[k])
        ok = N.canon(e, cr[0].b.id) == ('call', wn, A(0)) or wn == 'rex_db_numstates' and N.canon(e, cr[0].b.id) == F(S, 'len')
        if wn == 'rex_db_numsubstates':
            while e[0] == 'trunc': e = e[2]
            al = alternatives(N, e)
            ok = all((v == ('call', wn, A(0)) and implied(B, g, B.NOT(N.eq(A(1), C0)))) or (v == C0 and implied(B, g, N.eq(A(1), C0))) for v, g in al) and len(al) == 2
        if not ok: N.bad('total', cr[0], 'the table is created with %s as the number of its %s' % (cp(N.canon(e, cr[0].b.id)), ['states', 'transitions', 'accepting sub-states', 'sub-states'][k]))
    WS = B.NOT(N.eq(A(1), C0))
    # the state entry
    ent = {}
    for x, a, v in N.stores():
        if a[0] == '&' and a[1][0] == 'at' and a[1][1] == F(DFA, 'states'): ent.setdefault(a[2], []).append((x, a[1][2], v))
    pos = {p for l in ent.values() for _, p, _ in l}
    if len(pos) != 1: N.bad('state', None, 'the entries of a state are written to different places'); return
    pos = next(iter(pos)); c.ob('table fields', len(ent))
    def running(e, what, steps):
        """the location e starts at zero and is advanced once per state by one of the given steps"""
        return step_law(N, e, what, steps, (NS,))
    if pos != I and not step_law(N, pos, 'state', [(('c', 1), (NS,), True)]): N.bad('state', None, 'the states are not written one after the other')
    s_ = ('at', F(DFA, 'states'), pos)
    order = {b: k for k, b in enumerate(f.rpo())}
    def field(name):
        """the stores of one field that are not overwritten in the same round, with their effective conditions"""
        l = sorted(ent.get(name, []), key=lambda t: (order[t[0].b.id], t[0].k)); out = []; later = False
        for x, p, v in reversed(l):
            g = B.AND(N.lguard(x), B.NOT(later))
            if g is not False: out.append((x, v, g))
            if len(N.nest(x)) == 1: later = B.OR(later, N.lguard(x))
        return out
    def need(name, vals, text):
        l = field(name)
        ok = bool(l)
        cover = False
        for x, v, g in l:
            if N.nest(x) != (NS,) or not N.complete(x): ok = False
            hit = [w for w, cond in vals if (v == w) and implied(B, g, cond)]
            if not hit: ok = False
            cover = B.OR(cover, g)
        if not ok or cover is not True: N.bad(name, l[0][0] if l else None, 'the table records %s as %s' % (text, ', '.join(cp(v) for _, v, _ in l) or 'nothing'))
    need('type', [(F(st, 'type'), True)], 'the type of a state')
    # windows
    def elements(arr): return [(x, a, v) for x, a, v in N.stores() if a[0] == '&' and a[1][0] == 'at' and a[1][1] == F(DFA, arr)]
    for arr, off, cnt, fields in (('trans', 'trans', 'ntrans', {'lowin': F(EL(F(st, 'trans'), J), 'lowin'), 'highin': F(EL(F(st, 'trans'), J), 'highin'), 'state': F(EL(F(st, 'trans'), J), 'dstuid')}),
                                  ('substates', 'substates', 'nsubstates', {'uid': D(EL(F(st, 'subset'), J)), 'type': F(EL(SUB, D(EL(F(st, 'subset'), J))), 'ss_type'), 'userdata': F(EL(SUB, D(EL(F(st, 'subset'), J))), 'ss_userdata')}),
                                  ('accsubstates', 'accsubstates', 'naccsubstates', {'uid': D(EL(F(st, 'subset'), J)), 'type': F(EL(SUB, D(EL(F(st, 'subset'), J))), 'ss_type'), 'userdata': F(EL(SUB, D(EL(F(st, 'subset'), J))), 'ss_userdata')})):
        els = elements(arr); got = {a[2] for x, a, v in els}
        src = F(st, 'trans') if arr == 'trans' else F(st, 'subset')
        n_ = F(src, 'len'); cond = {'trans': True, 'substates': WS, 'accsubstates': acccond(N)}[arr]
        if got != set(fields): N.bad(arr, None, 'the %s of the table lack %s' % (arr, ', '.join(sorted(set(fields) - got)) or 'nothing')); continue
        # where the window starts
        offs = [(x, v) for x, v, g in field(off) if v != C0 or arr != 'substates' or g != B.NOT(WS)]
        cnts = field(cnt)
        if len({v for _, v in offs}) != 1: N.bad(off, None, 'the window of the %s does not start at one place' % arr); continue
        base = offs[0][1]
        cval = F(s_, cnt)
        idxs = {a[1][2] for x, a, v in els}
        if len(idxs) != 1: N.bad(arr, els[0][0], 'the parts of one entry of the %s are written to different places' % arr); continue
        idx = next(iter(idxs))
        for x, a, v in els:
            c.ob('table fields')
            ns = N.nest(x); n2 = ns[1][2] if len(ns) == 2 and ns[1][0] == 'for' else None
            if not (len(ns) == 2 and ns[0] == NS and ns[1][0] == 'for' and ns[1][1] == C0 and (n2 == n_ or n2 == cval and any(w == n_ for _, w, _ in cnts))) or not N.complete(x): N.bad(arr, x, 'not every entry of the %s is written' % arr); break
            g = B.AND(N.guard(x))
            if N.b.AND(g) != cond and not (arr != 'accsubstates' and g == cond): N.bad(arr, x, 'the %s are written for other entries than they are counted for' % arr); break
            if v != fields[a[2]]: N.bad(arr, x, 'the %s of a table entry is %s' % (a[2], cp(v)))
        if arr == 'accsubstates':
            c1 = mklin(*addlin(aslin(base), aslin(cval)))
            inc = [(('c', 1), (NS, NSUB), cond)]
            okc = (idx == c1 and step_law(N, cval, 'n', inc, reset=True) and step_law(N, base, 'w', [(cval, (NS,), True)], last=True)) or (idx == base and step_law(N, base, 'w', inc))
            if not okc: N.bad(arr, els[0][0], 'the windows of the accepting sub-states do not follow one another')
            if idx == base:
                pass
        else:
            if idx != mklin(*addlin(aslin(base), aslin(J))): N.bad(arr, els[0][0], 'entry %s is written to place %s of the %s' % (cp(J), cp(idx), arr)); continue
            steps = [[(n_, (NS,), cond)], [(cval, (NS,), cond)], [(('c', 1), (NS, FOR(n_)), cond)]]
            if not any(step_law(N, base, 'w', s__, last=True) for s__ in steps): N.bad(arr, els[0][0], 'the windows of the %s do not follow one another' % arr)
            need(cnt, [(n_, cond), (C0, B.NOT(cond))], 'the number of the %s' % arr)
    # accessors
    for name, arr, cnt, k in (('rex_dfa_state', 'states', None, 1), ('rex_dfa_transition', 'trans', 'ntrans', 2), ('rex_dfa_substate', 'substates', 'nsubstates', 2), ('rex_dfa_accsubstate', 'accsubstates', 'naccsubstates', 2)):
        m2 = c.mod('core', pipe='plain', unbound=UB + ('rex_dfa_state',))
        N = View(c, m2, name); B = N.b
        s1 = ('at', F(A(0), 'states'), A(1))
        inr = N.ult(A(1), F(A(0), 'nstates'))
        val = s1
        if k == 2:
            inr = B.AND(inr, N.ult(A(2), F(s1, cnt)))
            val = ('at', F(A(0), arr), mklin(*addlin(aslin(F(s1, arr)), aslin(A(2)))))
            if arr != 'trans': has = B.NOT(N.eq(F(A(0), arr), C0))
        found = False
        for v, cond in alternatives(N, None):
            c.ob('accessor results')
            if v == C0:
                if B.AND(cond, inr, B.NOT(N.eq(s1, C0)), has if k == 2 and arr != 'trans' else True) is not False: N.bad('null', None, '%s yields nothing for an entry of the table' % name)
            elif v == val:
                found = True
                if not implied(B, cond, inr): N.bad('range', None, '%s yields an entry for an index outside of its window' % name)
            else: N.bad('entry', None, '%s yields %s' % (name, cp(v)))
        if not found: N.bad('entry', None, '%s never yields an entry' % name)
    c.atleast('totals', 4); c.atleast('table fields', 6); c.atleast('accessor results', 4)

def m_enum_accept(c): return 2

def implied(B, g, h): return B.AND(g, B.NOT(h)) is False

def alternatives(N, e):
    """[(canonical value, canonical condition)] of a value merged from several ways (None: the function's result)"""
    f = N.f; B = N.b; out = []
    def cond_of(edges, blk):
        r = True
        first = edges[-1] if edges else None
        if first is not None:
            r = B.AND(N.guard_block(first[0]), N.edge(first[0], first[1], set(N.loops_of(first[0])), first[0]))
            for a, b in edges[:-1]: r = B.AND(r, N.edge(a, b, set(N.loops_of(a)), a))
        else: r = N.guard_block(blk)
        return r
    if e is None:
        for v, x, edges in ret_cases(f):
            blk = edges[-1][0] if edges else x.b.id
            g = cond_of(edges, blk)
            if g is not False: out.append((N.canon(v, blk), g))
        return out
    def rec(e, blk, cond, depth):
        """cond: relative to the point deciding between the ways"""
        if cond is False: return
        if e[0] == 'phi' and e[1] == f.name and f.inst[e[2]].b.id not in headers(f) and depth < 6:
            x = f.inst[e[2]]
            for o, b in x.ops:
                if f.reachable(b): rec(strip_(f.expr(o)), b, B.AND(cond, N.recanon(N.fl.edgecond(b, x.b.id), b)), depth + 1)
        elif e[0] == 'sel':
            g = N.recanon(N.fl.boolx(e[1]), blk)
            rec(strip_(e[2]), blk, B.AND(cond, g), depth + 1); rec(strip_(e[3]), blk, B.AND(cond, B.NOT(g)), depth + 1)
        else: out.append((N.canon(e, blk), cond))
    rec(strip_(e), 0, True, 0)
    return out

def strip_(e):
    while e[0] in ('trunc', 'zx'): e = e[2]
    return e

def step_law(N, loc, what, steps, reset=False, last=False):
    """the running total loc (canonical value) starts at zero and is advanced exactly by the given [(term, nest, guard)]"""
    f = N.f; B = N.b
    if loc[0] == 'phi':
        r = accumulates(N, loc)
        if r is None or any(v != C0 for v in r[0]): return False
        got = counter_of(N, loc)
        return got is not None and [t[:3] for t in got] == steps and all(N.complete(t[3]) for t in got)
    if loc[0] not in ('F', 'D'): return False
    addr = loc[1] if loc[0] == 'D' else ('&', loc[1], loc[2])
    got = []; zero = False
    for x in f.insts('store'):
        a = N.addr(x)
        if not (a == addr or a[0] == '&' and a[1] == addr and loc[0] == 'D'): continue
        v = N.val(x)
        t = mklin(*sublin(aslin(v), aslin(loc)))
        if v == C0: zero = zero or (N.nest(x) == () and not reset) or (reset and len(N.nest(x)) == 1 and N.lguard(x) is True); continue
        got.append((t, N.nest(x), N.guard(x) if len(N.nest(x)) else N.guard(x), x))
    root = loc[1]
    while root[0] in ('&', 'F'): root = root[1]
    for x in f.insts():
        if x.iscall and (x.callee in ('r_memset', 'memset') or (x.callee or '').startswith('llvm.memset')) and N.canon(f.expr(x.ops[0]), x.b.id) == root and f.expr(x.ops[1]) == C0 and N.nest(x) == (): zero = True
    if not zero: return False
    if [(t[0], t[1], t[2]) for t in got] != steps: return False
    return all(N.complete(t[3]) for t in got)

# ---------------------------------------------------------------- laws over canonical effects
ANY = ('_',)
V = lambda n: ('?', n)

def unify(p, e, env):
    """pattern p against e: extended bindings or None"""
    if p == ANY: return env
    if isinstance(p, tuple) and p and p[0] == '?':
        if p[1] in env: return env if env[p[1]] == e else None
        r = dict(env); r[p[1]] = e; return r
    if not isinstance(p, tuple) or not isinstance(e, tuple): return env if p == e else None
    if len(p) != len(e): return None
    for a, b in zip(p, e):
        env = unify(a, b, env)
        if env is None: return None
    return env

def fill(p, env):
    if isinstance(p, tuple) and p and p[0] == '?': return env[p[1]]
    return tuple(fill(t, env) if isinstance(t, tuple) else t for t in p) if isinstance(p, tuple) else p

class Law(View):
    """effects of a function matched against an expected set"""
    def __init__(s, c, m, name, **kw):
        super().__init__(c, m, name, **kw); s.used = set()
    def argv(s, x): return tuple(s.canon(s.f.expr(o), x.b.id) for o in x.ops)
    def find(s, callee, args=None, nest=None, env=None):
        """[(call, bindings)]"""
        out = []
        for x in s.f.calls(*((callee,) if isinstance(callee, str) else callee)):
            e = dict(env or {})
            if nest is not None:
                e = unify(tuple(nest), s.nest(x), e)
                if e is None: continue
            a = s.argv(x)
            if args is not None:
                e = unify(tuple(args), a[:len(args)], e)
                if e is None: continue
            out.append((x, e))
        return out
    def local(s, x, k, field=None, struct=None):
        """canonical value (of the field) of the local variable whose address is argument k of the call x"""
        f = s.f; a = f.expr(x.ops[k])
        if a[0] != 'alloca': return None
        # the last store on every path
        if field is not None:
            cands = [y for y in f.insts('store') if s.addr(y) == ('&', s.canon(a, x.b.id), field)]
        else: cands = [y for y in f.insts('store') if f.expr(y.ops[1]) == a]
        cands = [y for y in cands if s.before(y, x)]
        if not cands: return None
        y = cands[-1] if all(s.before(z, cands[-1]) or z is cands[-1] for z in cands) else None
        return s.val(y) if y is not None else None
    def before(s, x, y):
        """x is over in every round of the loops around both when y runs"""
        f = s.f
        lx = [h for h in s.loops_of(x.b.id) if h not in s.loops_of(y.b.id)]; ly = [h for h in s.loops_of(y.b.id) if h not in s.loops_of(x.b.id)]
        bx = lx[0] if lx else x.b.id; by = ly[0] if ly else y.b.id
        if bx == by: return x.b is y.b and x.k < y.k
        return f.dom(bx, by)
    def cond(s, x, depth=None):
        """condition of x within one round of the loop at the given depth around it (None: innermost)"""
        hs = s.loops_of(x.b.id)
        if depth is not None: hs = hs[:depth]
        return s.guard_block(x.b.id, hs[-1] if hs else None)
    def head(s, x, depth): return s.loops_of(x.b.id)[depth]
    def use(s, x): s.used.add(x.i)

def check_subset(c):
    m = c.mod('core', pipe='plain', unbound=('rex_db_getstate', 'rex_db_getsubstate', 'rex_state_addtransition', 'rex_state_addsubstate_dst'))
    c.rule('subset construction: the closure of a set takes in every target of an empty transition of a member and leaves no mark behind; the ranges of a state are cut at every bound of its members\' transitions; the targets of a range are the closure of all members\' transitions covering it; a set already seen is found again, a new one becomes a state that accepts when a member does')
    N = Law(c, m, 'rex_dfaconv_run'); f = N.f; B = N.b
    cr = N.find('rex_db_create')
    if len(cr) != 1: raise AnalysisBroken('rex_dfaconv_run: creation of the automaton not found')
    c.ob('construction steps')
    if N.argv(cr[0][0]) != (('c', 1),): N.bad('type', cr[0][0], 'the result is not created as a DFA')
    DFA = ('sym', 'DFA'); N.subst[N.canon(f.x(cr[0][0]), cr[0][0].b.id)] = DFA; N._memo.clear()
    live = B.NOT(N.eq(DFA, C0))
    NFA = A(1); NST = F(NFA, 'states')
    nst = lambda u: D(EL(NST, u))
    ST = F(DFA, 'states'); OUT = FOR(F(ST, 'len'))
    st = D(EL(ST, I)); sub = F(st, 'subset')
    def step(ok, key, x, msg):
        c.ob('construction steps')
        if not ok: N.bad(key, x, msg)
        return ok
    # sub-states: copies of the NFA states
    l = N.find('r_array_add', (F(DFA, 'substates'),), (FOR(F(NST, 'len')),))
    ok = len(l) == 1 and N.cond(l[0][0]) is True and N.complete(l[0][0])
    if step(ok, 'substates', l[0][0] if l else None, 'not every state of the NFA becomes a sub-state'):
        x = l[0][0]; N.use(x)
        for fd, src in (('ss_uid', 'uid'), ('ss_type', 'type'), ('ss_userdata', 'userdata')):
            v = N.local(x, 1, fd)
            step(v == F(nst(I), src), 'substates-' + fd, x, 'the %s of a sub-state is %s' % (fd, cp(v) if v else 'not set'))
    # states and their sets
    cs = N.find('rex_db_createstate', (DFA,))
    first = [x for x, e in cs if N.nest(x) == ()]; later = [x for x, e in cs if N.nest(x) != ()]
    if not step(len(first) == 1 and N.argv(first[0])[1] == ('c', 1) and N.cond(first[0]) in (True, live), 'start', None, 'the start state is not created once, as a start state, ahead of the others'): return
    for x in first + later: N.use(x)
    s0 = D(EL(ST, ('call', 'rex_db_createstate', DFA, ('c', 1))))
    # the construction loop over the states of the DFA, with the ranges inside
    look = N.find('r_hash_lookup_object', (V('H'), V('V')))
    if not step(len(look) == 1, 'lookup', None, 'a set is not looked up among the states made so far'): return
    lk, env = look[0]; H, VS = env['H'], env['V']; N.use(lk)
    nl = N.nest(lk)
    if not step(len(nl) == 2 and nl[0] == OUT and nl[1][0] == 'for' and nl[1][1] == C0 and nl[1][2][0] == 'F' and nl[1][2][2] == 'len' and N.complete(lk), 'states', lk, 'the states and their ranges are not all visited'): return
    TR = nl[1][2][1]; P2 = nl; P1 = nl[:1]
    low, high = F(EL(TR, J), 'lowin'), F(EL(TR, J), 'highin')
    # closures: discovered by their seeding loops
    clo = []
    for D_, P in ((F(s0, 'subset'), ()), (VS, P2)):
        ok = closure(c, N, D_, P, nst, step)
        clo.append(ok)
    if None in clo: return
    for k, (S0, T, M, xs) in enumerate(clo):
        pass
    # the set the start state begins with
    S0 = clo[0][0]
    l = N.find('r_array_add', (S0,), ())
    ok = len(l) == 1 and N.local(l[0][0], 1) == A(2)
    cl = [x for x, e in N.find('r_array_setlength', (S0, C0), ())]
    step(ok and any(N.before(y, l[0][0]) for y in cl) and all(N.before(l[0][0], q) for q in clo[0][3]), 'start-set', l[0][0] if l else None, 'the set of the start state is not the closure of the given start')
    for x, e in l: N.use(x)
    # remembered sets
    ins = N.find('r_hash_insert_object', (H,))
    for s_, P, txt in ((s0, (), 'the start state'), (None, P2, 'a new state')):
        if s_ is None:
            if not step(len(later) == 1, 'create', lk, 'a set not seen before does not become one new state'): return
            s_ = D(EL(ST, ('call', 'rex_db_createstate', DFA, N.argv(later[0])[1]))); snew = s_
            step(N.argv(later[0])[1] == ('c', 0) and N.nest(later[0]) == P2, 'create-type', later[0], 'a new state is not created as an ordinary state, once per new set')
        hit = [x for x, e in ins if N.argv(x)[1:] == (F(s_, 'subset'), ('&', s_, 'uid')) and N.nest(x) == P]
        if step(len(hit) == 1, 'insert', None, 'the set of %s is not remembered with its number' % txt): 
            N.use(hit[0])
            if P == (): step(N.before(clo[0][3][-1], hit[0]), 'insert-order', hit[0], 'the set of %s is remembered before it is complete' % txt)
            else: newins = hit[0]
    for x, e in ins: step(x.i in N.used, 'insert-other', x, 'something else is remembered as a set')
    U = clo[1][0]
    # move
    mv = [x for x, e in N.find('rex_subset_addnewsubstate', (U,))]
    tr = EL(F(nst(D(EL(sub, K_))), 'trans'), L_)
    ok = len(mv) == 1 and N.nest(mv[0]) == P2 + (FOR(F(sub, 'len')), FOR(F(F(nst(D(EL(sub, K_))), 'trans'), 'len'))) and N.complete(mv[0])
    if step(ok, 'move', mv[0] if mv else None, 'not every transition of every member is considered for a range'):
        N.use(mv[0])
        step(N.argv(mv[0])[1] == F(tr, 'dstuid'), 'move-target', mv[0], 'the state moved to is %s' % cp(N.argv(mv[0])[1]))
        w = B.AND(B.NOT(N.ult(low, F(tr, 'lowin'))), B.NOT(N.ult(F(tr, 'highin'), high)))
        step(N.cond(mv[0]) == w, 'move-cover', mv[0], 'a transition is followed when %s' % bshow(B, N.cond(mv[0])))
        cl = [x for x, e in N.find('r_array_setlength', (U, C0), P2)]
        step(len(cl) >= 1 and all(N.before(x, mv[0]) and N.cond(x) is True for x in cl) and all(N.before(mv[0], q) for q in clo[1][3]), 'move-order', mv[0], 'the set of targets is not built from empty for every range')
    # what happens with a range
    empty = N.eq(F(U, 'len'), C0); none = N.eq(('call', 'r_hash_lookup_object', H, VS), C0)
    found = D(('call', 'r_hash_lookup_object', H, VS))
    mark1 = B.OR(none, N.eq(found, ('c', -1)))
    ts = [(x, e) for x, e in N.find('rex_transitions_add', (F(st, 'trans'),), P2)]
    tot = False
    Tdone = N.eq(F(clo[1][1], 'len'), C0)
    for x, e in ts:
        N.use(x); a = N.argv(x)
        c.ob('construction steps')
        if a[1:4] != (low, high, F(st, 'uid')): N.bad('transition', x, 'the transition added for a range runs over [%s,%s] from %s' % tuple(cp(q) for q in a[1:4]))
        g = N.cond(x, 2); tot = B.OR(tot, g)
        for v, k in alternatives(N, f.expr(x.ops[4])) if len(a) > 4 else ():
            if v == C0: step(implied(B, B.AND(g, k), empty), 'dead', x, 'the dead state is entered although a member has a target')
            elif v == found: step(implied(B, B.AND(g, k), B.NOT(B.OR(empty, none))), 'reuse', x, 'the state found is used although nothing was found')
            elif later and v == N.canon(f.x(later[0]), later[0].b.id): step(implied(B, B.AND(g, k), B.NOT(empty)), 'new', x, 'a new state is entered for an empty set')
            else: step(False, 'target', x, 'the transition leads to %s' % cp(v))
    step(implied(B, Tdone, B.OR(tot, B.NOT(Tdone))) and B.OR(tot, B.NOT(Tdone)) is True or implied(B, Tdone, tot), 'all-ranges', lk, 'a range may get no transition')
    g = N.cond(later[0], 2)
    step(implied(B, g, B.AND(B.NOT(empty), mark1)) and implied(B, B.AND(B.NOT(empty), none, Tdone), g), 'create-when', later[0], 'a new state is made under another condition than that its set was not found')
    step(N.before(clo[1][3][-1], lk), 'lookup-order', lk, 'the set is looked up before it is complete')
    # filling the new state
    fl = N.find('rex_state_addsubstate', (snew,))
    mem = nst(D(EL(VS, K_)))
    ok = len(fl) == 1 and N.nest(fl[0][0]) == P2 + (FOR(F(VS, 'len')),) and N.complete(fl[0][0]) and N.cond(fl[0][0]) is True
    if step(ok, 'members', fl[0][0] if fl else later[0], 'the members of a new state are not all the members of its set'):
        x = fl[0][0]; N.use(x)
        step(N.argv(x)[1:] == (F(mem, 'uid'), F(mem, 'type'), F(mem, 'userdata')), 'member', x, 'a member is recorded as %s' % ', '.join(cp(q) for q in N.argv(x)[1:]))
        step(N.before(later[0], x) and N.before(x, newins), 'members-order', x, 'the set of a new state is remembered before it is complete')
        gx = N.cond(x, 2)
        step(implied(B, g, gx) and implied(B, gx, g), 'members-when', x, 'the members of a new state are recorded under another condition')
    tys = [x for x, a, v in N.stores(loc=('&', snew, 'type'))]
    ok = len(tys) == 1 and N.val(tys[0]) == ('c', 2) and N.nest(tys[0]) == P2 + (FOR(F(VS, 'len')),) and N.complete(tys[0]) and N.cond(tys[0]) == N.eq(F(mem, 'type'), ('c', 2))
    step(ok, 'accept', tys[0] if tys else later[0], 'a new state is not marked accepting exactly when one of its members is')
    for y, a, v in N.stores(field='type'):
        if y not in tys: step(False, 'type-other', y, 'the type of a state is changed')
    # ranges
    rs = N.find('rex_transitions_add', (TR,), P1 + (('for', C0, F(V('R'), 'len')),))
    if step(len(rs) == 1 and N.cond(rs[0][0]) is True and N.complete(rs[0][0]), 'ranges', rs[0][0] if rs else None, 'the ranges of a state do not follow from all its cuts'):
        x, env = rs[0]; R = env['R']; N.use(x)
        a = N.argv(x)
        step(a[1] == D(EL(R, J)), 'range-low', x, 'a range begins at %s' % cp(a[1]))
        last = N.eq(mklin(*addlin(aslin(F(R, 'len')), (-1, ()))), J)
        nxt = mklin(*addlin(aslin(D(EL(R, mklin(*addlin(aslin(J), (1, ())))))), (-1, ())))
        al = alternatives(N, f.expr(x.ops[2]))
        RL = F(R, 'len'); th = True      # j < len: the ways of saying 'not the last one' agree
        for q in (N.ult(mklin(*addlin(aslin(J), (1, ()))), RL), N.ult(J, mklin(*addlin(aslin(RL), (-1, ())))), N.slt(mklin(*addlin(aslin(J), (1, ()))), RL)): th = B.AND(th, B.XOR(q, last))
        step(len(al) == 2 and all(v in (('c', 0xffffffff), ('c', -1)) and implied(B, B.AND(k, th), last) or v == nxt and implied(B, B.AND(k, th), B.NOT(last)) for v, k in al), 'range-high', x, 'a range ends at %s' % ' or '.join(cp(v) for v, k in al))
        cl = [y for y, e in N.find('r_array_setlength', (TR, C0), P1)]
        step(any(N.before(y, x) for y in cl) and N.before(x, lk), 'ranges-order', x, 'the ranges are not built from empty for every state')
        # cuts
        z = [y for y, e in N.find(('r_array_add', 'rex_dfaconv_uniquerange_insertvalue'), (R,), P1)]
        z = [y for y in z if (N.local(y, 1) if y.callee == 'r_array_add' else N.argv(y)[1]) == C0 and N.cond(y) is True]
        step(len(z) == 1, 'cut-zero', x, 'the ranges do not begin at 0')
        for y in z: N.use(y)
        cuts = N.find('rex_dfaconv_uniquerange_insertvalue', (R,))
        got = []
        for y, e in cuts:
            if y.i in N.used: continue
            N.use(y); v = N.argv(y)[1]; n_ = N.nest(y)
            one = mklin(*addlin(aslin(v), (-1, ())))
            w = 'low' if v[0] == 'F' and v[2] == 'lowin' else 'high' if one[0] == 'F' and one[2] == 'highin' else None
            src = v if w == 'low' else one
            if not step(w is not None and N.cond(y) is True and N.complete(y), 'cut', y, 'the ranges are cut at %s' % cp(v)): continue
            got.append(w)
            if n_ == P1 + (FOR(F(sub, 'len')), FOR(F(F(nst(D(EL(sub, J))), 'trans'), 'len'))): ok = src[1] == EL(F(nst(D(EL(sub, J))), 'trans'), K_)
            elif len(n_) == 2 and n_[0] == OUT and n_[1][0] == 'for' and n_[1][1] == C0 and n_[1][2][0] == 'F' and n_[1][2][2] == 'len' and src[1] == EL(n_[1][2][1], J):
                TT = n_[1][2][1]
                ad = N.find('r_array_add', (TT,))
                ok = len(ad) == 1 and N.nest(ad[0][0]) == P1 + (FOR(F(sub, 'len')), FOR(F(F(nst(D(EL(sub, J))), 'trans'), 'len'))) and N.complete(ad[0][0]) and N.cond(ad[0][0]) is True and N.before(ad[0][0], y)
                ok = ok and all(N.local(ad[0][0], 1, fd) == F(EL(F(nst(D(EL(sub, J))), 'trans'), K_), fd) for fd in ('lowin', 'highin'))
                ok = ok and any(N.before(q, ad[0][0]) for q, e2 in N.find('r_array_setlength', (TT, C0), P1))
                for q, e2 in ad: N.use(q)
            else: ok = False
            step(ok, 'cut-source', y, 'the ranges are not cut at the bounds of all transitions of all members')
            step(all(N.before(q, y) for q in z) and N.before(y, x), 'cut-order', y, 'the cuts come after the ranges')
        step(sorted(got) == ['high', 'low'], 'cuts', x, 'the ranges are cut at %s' % (', '.join(sorted(got)) or 'nothing'))
        cl = [y for y, e in N.find('r_array_setlength', (R, C0), P1)]
        step(any(N.before(y, q) for y in cl for q in z), 'cuts-order', x, 'the cuts are not collected from empty for every state')
    # merged afterwards
    nm = N.find('rex_transitions_normalize', (F(st, 'trans'),), P1)
    step(len(nm) == 1 and N.cond(nm[0][0]) is True and all(N.before(x, nm[0][0]) for x, e in ts), 'normalize', nm[0][0] if nm else None, 'the transitions of a state are not merged after all of them were added')
    # nothing else
    for x in f.calls('rex_transitions_add', 'rex_transitions_add_e', 'rex_state_addtransition', 'rex_state_addtransition_e', 'rex_subset_addnewsubstate', 'rex_state_addsubstate', 'rex_db_createstate', 'r_hash_insert_object', 'r_hash_remove_object', 'rex_dfaconv_uniquerange_insertvalue', 'r_array_replace', 'r_array_insert', 'r_array_delete'):
        step(x.i in N.used, 'other', x, '%s(%s) is none of the steps of the construction' % (x.callee, ', '.join(cp(q) for q in N.argv(x))))
    # result
    for v, g in alternatives(N, None): step(v == DFA or v == C0 and implied(B, g, N.eq(DFA, C0)), 'result', None, 'the construction yields %s' % cp(v))
    check_sets(c)
    c.atleast('construction steps', 40)

def closure(c, N, D_, P, nst, step):
    """the closure built in the set D_ inside the loops P: (seed set, stack, marks, its steps in order) or None"""
    f = N.f; B = N.b; n = len(P)
    ix = lambda k: ('ix', n + k)
    seeds = [(x, e) for x, e in N.find('rex_subset_addnewsubstate', (D_, D(EL(V('S'), ix(0)))), P + (('for', C0, F(V('S'), 'len')),))]
    grow = [(x, e) for x, e in N.find('rex_subset_addnewsubstate', (D_,)) if len(N.nest(x)) == n + 2 and N.nest(x)[:n] == P and N.nest(x)[n] == ('loop',)]
    if not step(len(seeds) == 1 and len(grow) == 1, 'closure', seeds[0][0] if seeds else None, 'a closure does not take in both the given set and the targets of empty transitions'): return None
    sx, env = seeds[0]; S = env['S']; gx = grow[0][0]
    N.use(sx); N.use(gx)
    step(N.cond(sx) is True and N.complete(sx), 'closure-seed', sx, 'a closure does not take in every member of the given set')
    # the stack: what the loop runs on
    a = N.argv(gx)
    e2 = unify(F(EL(F(nst(D(EL(V('T'), V('p')))), 'etrans'), ix(1)), 'dstuid'), a[1], {})
    if not step(e2 is not None, 'closure-follow', gx, 'a closure follows %s' % cp(a[1])): return None
    T, p = e2['T'], e2['p']; dst = a[1]; mem = D(EL(T, p))
    step(N.nest(gx)[n + 1] == FOR(F(F(nst(mem), 'etrans'), 'len')) and inner_complete(N, gx), 'closure-all', gx, 'a closure does not follow every empty transition of a member')
    # condition: not yet marked
    h = N.head(gx, n)
    cond = N.cond(gx)
    mk = None
    for v in B.support(cond):
        e3 = unify(('eq0', D(EL(V('M'), dst))), v, {})
        if e3: mk = e3['M']
    if not step(mk is not None and cond == N.eq(D(EL(mk, dst)), C0), 'closure-marked', gx, 'a target is taken in when %s' % bshow(B, cond)): return None
    M = mk
    def pushes(what, val, nestx, key, ref):
        """T gets val and M marks it, under the same condition as ref"""
        ps = [x for x, e in N.find('rex_subset_addnewsubstate', (T, val)) if N.nest(x) == nestx and same(N, x, ref)]
        ps += [x for x, e in N.find('r_array_add', (T,)) if N.nest(x) == nestx and same(N, x, ref) and N.local(x, 1) == val]
        step(len(ps) == 1, key + '-push', ref, '%s is not followed in turn' % what)
        ms = [x for x, e in N.find('r_array_replace', (M, val)) if N.nest(x) == nestx and same(N, x, ref)]
        step(len(ms) == 1 and N.local(ms[0], 2) == ('c', 1), key + '-mark', ref, '%s is not marked as taken in' % what)
        for x in ps + ms: N.use(x)
        return ps + ms
    q1 = pushes('a member of the given set', N.argv(sx)[1], N.nest(sx), 'closure-seed', sx)
    q2 = pushes('a new member', dst, N.nest(gx), 'closure-grow', gx)
    # popping
    TL = F(T, 'len')
    pops = [x for x, a, v in N.stores(loc=('&', T, 'len')) if N.nest(x) == P + (('loop',),)]
    pops += [x for x, e in N.find('r_array_removelast', (T,), P + (('loop',),))]
    mm = mklin(*addlin(aslin(TL), (-1, ())))
    ok = len(pops) == 1 and (pops[0].iscall or N.val(pops[0]) == mm)
    vals = [p] if p[0] != 'phi' else [v for v, g in alternatives(N, p)]
    ok = ok and set(vals) <= {mm, C0} and mm in vals
    L = loop_blocks(f, h)
    for (a_, b_) in [(u, w) for u in L for w in f.blocks[u].succ if w not in L and not N.dead(w)]:
        g = N.recanon(N.fl.edgelocal(a_, b_), a_)
        ok = ok and implied(B, g, N.eq(TL, C0))
    if pops: ok = ok and implied(B, N.eq(TL, C0), B.NOT(N.cond(pops[0]))) or ok and N.cond(pops[0]) is True
    step(ok, 'closure-pop', pops[0] if pops else gx, 'the members waiting to be followed are not all taken off one by one')
    # marks removed
    un = [x for x, e in N.find('r_array_replace', (M, D(EL(D_, ix(0))))) if N.nest(x) == P + (FOR(F(D_, 'len')),)]
    step(len(un) == 1 and N.local(un[0], 2) == C0 and N.cond(un[0]) is True and N.complete(un[0]), 'closure-unmark', un[0] if un else gx, 'the marks of the members are not all removed')
    for x in un: N.use(x)
    # order
    c1 = [x for x, e in N.find('r_array_setlength', (D_, C0), P)]; c2 = [x for x, e in N.find('r_array_setlength', (T, C0), P)]
    step(any(N.before(x, sx) for x in c1) and all(N.before(x, sx) for x in c1), 'closure-clear', sx, 'a closure does not start from an empty set')
    step(all(N.before(x, y) for x in [sx] + q1 for y in [gx]) and all(N.before(gx, y) for y in un), 'closure-order', gx, 'the steps of a closure are out of order')
    return S, T, M, [sx, gx] + un

def same(N, x, y):
    """x and y run in the same rounds under the same condition"""
    return N.loops_of(x.b.id) == N.loops_of(y.b.id) and N.cond(x) == N.cond(y)

def inner_complete(N, x):
    h = N.loops_of(x.b.id)[-1]; l = N.loop(h)
    return l is not None and not l[4]

def check_sets(c):
    """the callbacks by which sets are found again: equal exactly for the same members, hash a function of the members"""
    m = c.mod('core', pipe='plain')
    f0 = m.fn('rex_dfaconv_create'); c.seen(f0)
    cr = list(f0.calls('r_hash_create'))
    if len(cr) != 1: raise AnalysisBroken('rex_dfaconv_create: creation of the set table not found')
    eqf, hf = (f0.expr(cr[0].ops[k]) for k in (1, 2))
    if eqf[0] != 'g' or hf[0] != 'g': raise AnalysisBroken('rex_dfaconv_create: set comparison not resolved')
    N = View(c, m, eqf[1]); f = N.f; B = N.b
    def bad(key, x, msg): c.bad('set-equality:' + key, f.where(x) if x is not None else f.where(), msg)
    l1, l2 = F(A(0), 'len'), F(A(1), 'len'); eql = N.eq(l1, l2)
    hs = [h for h in headers(f) if N.loop(h) is not None]
    c.ob('set comparison')
    ok = False
    for h in hs:
        p, sh, lo, hi, ex = N.loop(h)
        lo, hi = N.canon(lo, h), N.canon(hi, h)
        if lo != C0 or hi not in (l1, l2): continue
        E = B.OR(*[N.eq(p, q) for q in (l1, l2)]); E2 = B.AND(*[B.AND(N.eq(p, q), B.NOT(N.ult(p, q))) for q in (l1, l2)])
        d = N.eq(D(EL(A(0), I)), D(EL(A(1), I)))
        ok = True
        for a, b in ex:
            g = N.recanon(N.fl.edgelocal(a, b), a)
            if not implied(B, g, B.NOT(d)): bad('leave', f.blocks[a].insts[-1], 'the comparison of two sets stops although the members compared are equal')
        # the members compared must all be equal to go on
        for a in headers(f)[h]:
            if not implied(B, B.AND(N.guard_block(a, h), N.recanon(N.fl.edgelocal(a, h), a)), d): bad('go-on', f.blocks[a].insts[-1], 'the comparison of two sets goes on behind members that differ')
        hx = [(h, b) for b in f.blocks[h].succ if b not in loop_blocks(f, h)]
        for v, x, edges in ret_cases(f):
            blk = edges[-1][0] if edges else x.b.id
            g = N.guard_block(blk)
            if edges:
                g = B.AND(g, N.recanon(N.fl.edgelocal(*edges[-1]), blk))
            v = N.canon(v, blk)
            if g is False: continue
            c.ob('set comparison')
            if v[0] != 'c': bad('value', x, 'the comparison of two sets yields %s' % cp(v)); continue
            behind = any(f.edge_dom(a, b, blk) for a, b in hx) or bool(edges) and edges[-1] in hx
            if v[1] and not (implied(B, g, eql) and (behind or implied(B, g, E))): bad('same', x, 'two sets count as the same without all their members having been compared')
            if not v[1] and not implied(B, g, B.OR(B.NOT(eql), B.NOT(E2), B.NOT(d))): bad('differ', x, 'two sets with the same members count as different')
    if not ok: bad('loop', None, 'the members of two sets are not all compared')
    N = View(c, m, hf[1]); f = N.f
    c.ob('set comparison')
    seen = set()
    def leaf(e):
        if not isinstance(e, tuple) or not e: return
        if e == A(0): c.bad('set-hash:address', f.where(), 'the hash of a set depends on where it is stored'); return
        if e[0] in ('F', 'D'):
            a = e[1]
            if e[0] == 'F' and a == A(0) and e[2] == 'len': return
            if a[0] == 'el' and a[1] == A(0): return leaf(a[2])
            c.bad('set-hash:other', f.where(), 'the hash of a set depends on %s' % cp(e)); return
        if e[0] == 'phi':
            if e in seen: return
            seen.add(e); x = f.inst[e[2]]
            for o, b in x.ops:
                if f.reachable(b): leaf(N.canon(f.expr(o), b))
            return
        if e[0] == 'call': c.bad('set-hash:call', f.where(), 'the hash of a set depends on %s' % cp(e)); return
        if e[0] in ('c', 'ix'): return
        for t in e[1:]:
            if isinstance(t, tuple):
                if t and isinstance(t[0], tuple):
                    for u in t: leaf(u[0] if isinstance(u, tuple) and len(u) == 2 and isinstance(u[1], int) else u)
                else: leaf(t)
    for v, x, edges in ret_cases(f): leaf(N.canon(v, edges[-1][0] if edges else x.b.id))

# ---------------------------------------------------------------- X04 ordered lists
def sorted_insert(c, m, name, arr, keyfield, keys, fields, unique):
    """name inserts one record into the ordered array arr, at the place behind the last element whose key is not above"""
    N = Law(c, m, name); f = N.f; B = N.b
    ins = [(x, e) for x, e in N.find('r_array_insert', (arr,))]
    c.ob('ordered insertions')
    if len(ins) != 1 or N.nest(ins[0][0]) != (): N.bad('insert', ins[0][0] if ins else None, '%s does not insert one element' % name); return N, None
    x = ins[0][0]; pos = f.expr(x.ops[1])
    SS = [q for q in (bsearch(N, h) for h in headers(f)) if q]
    if len(SS) != 1 or pos != SS[0]['min'] and pos != SS[0]['max']: N.bad('place', x, 'the place of a new element does not come from the search'); return N, None
    S = SS[0]; loc = f.expr(x.ops[2])
    if loc[0] != 'alloca': N.bad('record', x, 'the element inserted is not the record prepared'); return N, None
    lc = N.canon(loc, x.b.id)
    cand = list(keys) + ([F(lc, keyfield), D(lc)] if keyfield else [D(lc)])
    # the value put into the key field before the search stands for the field
    if keyfield: cand += [v for y, a, v in N.stores() if a == ('&', lc, keyfield) and y.b.id not in loop_blocks(f, S['h']) and f.dom(y.b.id, S['h'])]
    elems = ([lambda e: F(EL(arr, e), keyfield)] if keyfield else []) + [lambda e: D(EL(arr, e))]
    best = min((bsearch_law(N, S, el, k) for k in cand for el in elems), key=lambda r: len(r[0]))
    for e in sorted(set(best[0])): N.bad('search', f.blocks[S['h']].insts[0], 'the search for the place of a new element %s' % e)
    mx = {N.canon(e, S['h']) for e in S['init'][1]}
    if mx != {F(arr, 'len')}: N.bad('search', f.blocks[S['h']].insts[0], 'the search covers %s elements' % ', '.join(cp(e) for e in mx))
    if best[1] and not unique: N.bad('lost', x, 'an element with the key of an existing one is not inserted')
    if unique and not best[1]: N.bad('twice', x, 'an element that is there already is inserted again')
    # behind a hit nothing is inserted; otherwise always
    for a, b in [(e[1], e[2]) for e in best[1]]:
        if x.b.id in f.reach([b]): N.bad('twice', x, 'an element that is there already is inserted again')
    hx = [(S['h'], b) for b in f.blocks[S['h']].succ if b not in loop_blocks(f, S['h'])]
    if not all(any(f.edge_dom(a, b, x.b.id) for a, b in hx) and all_reach(f, b, x.b.id) for a, b in hx): N.bad('place', x, 'the element is not inserted whenever the search ends')
    for fd, ok in fields.items():
        c.ob('ordered insertions')
        st_ = [(y, v) for y, a, v in N.stores() if (a == ('&', lc, fd) if fd else a == lc or a == ('&', lc, fd))]
        if not st_ or not all(y.b.id not in loop_blocks(f, S['h']) and x.b.id in f.reach([y.b.id]) and y.b.id not in f.reach([S['h']]) for y, v in st_): N.bad('field', x, 'the %s of a new element is not set' % (fd or 'value')); continue
        tot = False
        for y, v in st_:
            g = N.guard(y); tot = B.OR(tot, g)
            for v, k in ([(v, True)] if v[0] not in ('phi', 'sel') else alternatives(N, f.expr(y.ops[0]))):
                if not ok(v, B.AND(g, k), N): N.bad('field', y, 'the %s of a new element is %s' % (fd or 'value', cp(v)))
        if tot is not True: N.bad('field', x, 'the %s of a new element is not always set' % (fd or 'value'))
    return N, x

def all_reach(f, b, t):
    """every way on from b comes to t"""
    if b == t: return True
    seen = set(); st = [b]
    while st:
        q = st.pop()
        if q == t or q in seen: continue
        seen.add(q)
        if not f.blocks[q].succ: return False
        st += f.blocks[q].succ
    return True

def check_lists(c):
    m = c.mod('core', pipe='plain')
    c.rule('transitions are kept ordered by their lower bound with low <= high; sets and cuts are kept ordered without duplicates; the search returns the transition around the input; the complement is the gaps; merging joins only overlapping or adjacent transitions to the same state, and all of them')
    eqv = lambda want: (lambda v, g, N: v == want)
    def low(v, g, N):
        B = N.b; a, b = N.ult(A(1), A(2)), N.ult(A(2), A(1)); e = N.eq(A(1), A(2))
        return v == A(1) and implied(B, g, B.OR(a, B.NOT(b), e)) or v == A(2) and implied(B, g, B.OR(b, B.NOT(a), e))
    def high(v, g, N):
        B = N.b; a, b = N.ult(A(1), A(2)), N.ult(A(2), A(1)); e = N.eq(A(1), A(2))
        return v == A(2) and implied(B, g, B.OR(a, B.NOT(b), e)) or v == A(1) and implied(B, g, B.OR(b, B.NOT(a), e))
    N, x = sorted_insert(c, m, 'rex_transitions_add', A(0), 'lowin', (), {'lowin': low, 'highin': high, 'type': eqv(C0), 'srcuid': eqv(A(3)), 'dstuid': eqv(A(4))}, False)
    if x is not None:
        for v, g in alternatives(N, None):
            if v != EL(A(0), ('call', 'r_array_insert') + N.argv(x)) and v != EL(A(0), N.argv(x)[1]): N.bad('result', x, 'the transition reported is %s' % cp(v))
    sorted_insert(c, m, 'rex_dfaconv_uniquerange_insertvalue', A(0), None, (A(1),), {'': eqv(A(1))}, True)
    sorted_insert(c, m, 'rex_subset_addnewsubstate', A(0), None, (A(1),), {'': eqv(A(1))}, True)
    sorted_insert(c, m, 'rex_state_addsubstate', F(A(0), 'subset'), 'ss_uid', (A(1),), {'ss_uid': eqv(A(1)), 'ss_type': eqv(A(2)), 'ss_userdata': eqv(A(3))}, True)
    # empty transitions
    N = Law(c, m, 'rex_transitions_add_e')
    l = N.find('r_array_add', (A(0),), ())
    c.ob('ordered insertions')
    if len(l) != 1 or N.guard(l[0][0]) is not True: N.bad('add', None, 'an empty transition is not added')
    else:
        x = l[0][0]
        for fd, want in (('type', ('c', 1)), ('srcuid', A(1)), ('dstuid', A(2))):
            v = N.local(x, 1, fd)
            if v != want: N.bad('field', x, 'the %s of an empty transition is %s' % (fd, cp(v) if v else 'not set'))
    # search
    N = View(c, m, 'rex_transitions_find'); f = N.f; B = N.b
    SS = [q for q in (bsearch(N, h) for h in headers(f)) if q]
    c.ob('searches')
    if len(SS) != 1: N.bad('search', None, 'the transition is not found by narrowing down the list')
    else:
        S = SS[0]
        errs, dups = bsearch_law(N, S, lambda e: F(EL(A(0), e), 'lowin'), A(1))
        for e in sorted(set(errs)): N.bad('search', f.blocks[S['h']].insts[0], 'the search for a transition %s' % e)
        if dups: N.bad('search', f.blocks[S['h']].insts[0], 'the search for a transition leaves early')
        if {N.canon(e, S['h']) for e in S['init'][1]} != {F(A(0), 'len')}: N.bad('search', f.blocks[S['h']].insts[0], 'the search does not cover all transitions')
        mn = S['min']; m1 = mklin(*addlin(aslin(mn), (-1, ())))
        found = False
        for v, x, edges in ret_cases(f):
            blk = edges[-1][0] if edges else x.b.id
            g = N.guard_block(blk)
            for a, b in edges[-1:]: g = B.AND(g, N.recanon(N.fl.edgelocal(a, b), blk))
            v = N.canon(v, blk)
            if g is False: continue
            c.ob('searches')
            if v[0] == 'el' and v[1] == A(0):
                found = True; t = v
                al = alternatives(N, v[2]) if v[2][0] == 'phi' and v[2] != mn else [(v[2], True)]
                pos = B.NOT(N.eq(mn, C0))
                for w, k in al:
                    if not (w == m1 or w in (mn, C0) and implied(B, k, B.NOT(pos))): N.bad('place', x, 'the transition looked at is number %s' % cp(w))
                inr = B.AND(B.NOT(N.ult(A(1), F(t, 'lowin'))), B.NOT(N.ult(F(t, 'highin'), A(1))))
                if not implied(B, g, inr): N.bad('found', x, 'a transition is reported that does not cover the input')
            elif v == C0:
                # nothing found: no transitions at all, or the one in place does not cover the input
                ok = implied(B, g, N.eq(F(A(0), 'len'), C0))
                for a in B.support(g):
                    pass
                ts = {a[k][1] for a in B.support(g) if a[0] == 'ult' for k in (1, 2) if isinstance(a[k], tuple) and a[k][0] == 'F' and a[k][2] in ('lowin', 'highin')}
                for t in ts:
                    if t[0] != 'el' or t[1] != A(0): continue
                    inr = B.AND(B.NOT(N.ult(A(1), F(t, 'lowin'))), B.NOT(N.ult(F(t, 'highin'), A(1))))
                    ok = ok or implied(B, B.AND(g, inr), False) or implied(B, g, B.OR(B.NOT(inr), N.eq(F(A(0), 'len'), C0)))
                if not ok: N.bad('missed', x, 'no transition is reported although one may cover the input')
            else: N.bad('result', x, 'the search reports %s' % cp(v))
        if not found: N.bad('found', None, 'the search never reports a transition')
    # complement
    N = Law(c, m, 'rex_transitions_negative'); f = N.f; B = N.b
    s_ = lambda k: EL(A(1), k); SL = F(A(1), 'len'); p1 = lambda e: mklin(*addlin(aslin(e), (1, ()))); m1 = lambda e: mklin(*addlin(aslin(e), (-1, ())))
    isempty = N.eq(SL, C0); last = N.eq(m1(SL), I); firsti = N.eq(I, C0)
    MAXV = (CM1, ('c', 0xffffffff))
    kinds = {}
    for x in f.calls('rex_transitions_add'):
        c.ob('complement pieces')
        a = N.argv(x); n_ = N.nest(x); g = N.cond(x); kind = None
        if a[0] != A(0) or a[3:] != (A(2), A(3)): N.bad('piece', x, 'a piece of the complement is added as %s' % ', '.join(cp(q) for q in a)); continue
        lo_, hi_ = a[1], a[2]
        inl = len(n_) == 1 and n_[0][0] == 'for' and n_[0][2] == SL and N.complete(x)
        if lo_ == C0 and hi_ in MAXV and n_ == () and implied(B, N.guard(x), isempty) and implied(B, isempty, N.guard(x)): kind = 'all'
        elif lo_ == C0 and hi_ == m1(F(s_(I), 'lowin')) and inl and n_[0][1] == C0 and g == B.AND(firsti, B.NOT(N.eq(F(s_(I), 'lowin'), C0))): kind = 'first'
        elif lo_ == C0 and hi_ == m1(F(s_(C0), 'lowin')) and n_ == () and implied(B, N.guard(x), B.NOT(N.eq(F(s_(C0), 'lowin'), C0))) and implied(B, B.AND(B.NOT(N.eq(F(s_(C0), 'lowin'), C0)), B.NOT(isempty)), N.guard(x)): kind = 'first'
        elif lo_ == p1(F(s_(m1(I)), 'highin')) and hi_ == m1(F(s_(I), 'lowin')) and inl and (n_[0][1] == C0 and g == B.NOT(firsti) or n_[0][1] == ('c', 1) and g is True): kind = 'gap'
        elif hi_ in MAXV and lo_ == p1(F(s_(I), 'highin')) and inl and n_[0][1] == C0 and g == B.AND(last, B.NOT(N.eq(p1(F(s_(I), 'highin')), C0))): kind = 'last'
        elif hi_ in MAXV and lo_ == p1(F(s_(m1(SL)), 'highin')) and n_ == () and implied(B, N.guard(x), B.NOT(N.eq(p1(F(s_(m1(SL)), 'highin')), C0))) and implied(B, B.AND(B.NOT(N.eq(p1(F(s_(m1(SL)), 'highin')), C0)), B.NOT(isempty)), N.guard(x)): kind = 'last'
        if kind is None: N.bad('piece', x, 'a piece [%s,%s] of the complement is added when %s' % (cp(lo_), cp(hi_), bshow(B, g)))
        else: kinds.setdefault(kind, []).append(x)
    for k, t in (('all', 'of nothing'), ('first', 'below the first transition'), ('gap', 'between two transitions'), ('last', 'above the last transition')):
        if len(kinds.get(k, [])) != 1: N.bad('piece-' + k, None, 'the part %s is %s' % (t, 'missing in the complement' if k not in kinds else 'added more than once'))
    check_normalize(c, m)
    # wrappers
    ub = ('rex_db_getstate', 'rex_db_getsubstate', 'rex_state_addtransition', 'rex_state_addtransition_dst', 'rex_state_addtransition_e', 'rex_state_addtransition_e_dst', 'rex_state_addsubstate_dst')
    m2 = c.mod('core', pipe='plain', unbound=ub)
    S = lambda k: D(EL(F(A(0), 'states'), A(k)))
    for name, callee, want in (('rex_state_addtransition', 'rex_transitions_add', (F(A(0), 'trans'), A(1), A(2), F(A(0), 'uid'), A(3))),
                               ('rex_state_addtransition_dst', 'rex_transitions_add', (F(A(0), 'trans'), A(1), A(2), F(A(0), 'uid'), F(A(3), 'uid'))),
                               ('rex_state_addtransition_e', 'rex_transitions_add_e', (F(A(0), 'etrans'), F(A(0), 'uid'), A(1))),
                               ('rex_state_addtransition_e_dst', 'rex_transitions_add_e', (F(A(0), 'etrans'), F(A(0), 'uid'), F(A(1), 'uid'))),
                               ('rex_state_addsubstate_dst', 'rex_state_addsubstate', (A(0), F(A(1), 'uid'), F(A(1), 'type'), F(A(1), 'userdata'))),
                               ('rex_db_addrangetrasition', 'rex_transitions_add', (F(S(3), 'trans'), A(1), A(2), F(S(3), 'uid'), A(4))),
                               ('rex_db_addtrasition_e', 'rex_transitions_add_e', (F(S(1), 'etrans'), F(S(1), 'uid'), A(2)))):
        N = Law(c, m2, name); B = N.b
        l = N.find(callee)
        c.ob('wrappers')
        if len(l) != 1 or N.argv(l[0][0]) != want: N.bad('arguments', l[0][0] if l else None, '%s adds %s' % (name, ', '.join(cp(q) for q in N.argv(l[0][0])) if l else 'nothing')); continue
        g = N.guard(l[0][0])
        if name == 'rex_db_addtrasition_e': ok = implied(B, g, B.NOT(N.eq(F(A(0), 'type'), ('c', 1)))) and implied(B, B.AND(B.NOT(N.eq(F(A(0), 'type'), ('c', 1))), N.ult(A(1), F(F(A(0), 'states'), 'len')), B.NOT(N.eq(S(1), C0))), g)
        elif name == 'rex_db_addrangetrasition': ok = implied(B, B.AND(N.ult(A(3), F(F(A(0), 'states'), 'len')), B.NOT(N.eq(S(3), C0))), g)
        else: ok = g is True
        if not ok: N.bad('when', l[0][0], '%s adds a transition when %s' % (name, bshow(B, g)))
    c.atleast('ordered insertions', 8); c.atleast('complement pieces', 2); c.atleast('wrappers', 4)

def check_normalize(c, m):
    N = Law(c, m, 'rex_transitions_normalize'); f = N.f; B = N.b
    dels = list(f.calls('r_array_delete'))
    if not dels: N.bad('delete', None, 'merged transitions are not removed'); return
    t = lambda k: EL(A(0), k)
    js = {N.canon(f.expr(x.ops[1]), x.b.id) for x in dels}; ars = {N.argv(x)[0] for x in dels}
    c.ob('merging')
    if len(js) != 1 or ars != {A(0)} or any(len(N.loops_of(x.b.id)) < 1 for x in dels): N.bad('delete', dels[0], 'the transition removed is not the one met in the inner loop'); return
    j = next(iter(js))
    j_raw = f.expr(dels[0].ops[1])
    if j_raw[0] != 'phi' or f.inst[j_raw[2]].b.id not in headers(f): N.bad('delete', dels[0], 'the transition removed is not the one met in the inner loop'); return
    h = f.inst[j_raw[2]].b.id; hb = headers(f)[h]; L = loop_blocks(f, h)
    jx = f.inst[j_raw[2]]
    jn = N.canon(j_raw, h)
    if jn != j: N.subst[jn] = j; N._memo.clear()
    if {f.expr(o) for o, b in jx.ops if f.reachable(b) and b not in hb} != {C0}: N.bad('all', dels[0], 'a transition is not compared with all others')
    def jcond(x): return N.guard_block(x.b.id, h)
    if N.nest(dels[0])[0] != FOR(F(A(0), 'len')): N.bad('all', dels[0], 'not every transition is considered for merging')
    i_ = I; same_ = N.eq(F(t(i_), 'dstuid'), F(t(j), 'dstuid')); il, ih, jl, jh = F(t(i_), 'lowin'), F(t(i_), 'highin'), F(t(j), 'lowin'), F(t(j), 'highin')
    overlap = B.AND(B.NOT(N.ult(jl, il)), B.NOT(N.ult(ih, jl)))
    adj = B.AND(N.eq(jl, mklin(*addlin(aslin(ih), (1, ())))), B.NOT(N.eq(mklin(*addlin(aslin(ih), (1, ()))), C0)))
    merge = B.AND(B.NOT(N.eq(i_, j)), same_, B.OR(overlap, adj))
    tot = False; inside = N.ult(j, F(A(0), 'len'))
    for x in dels:
        c.ob('merging'); g = jcond(x); tot = B.OR(tot, g)
        if not implied(B, g, merge): N.bad('merge', x, 'two transitions are merged when %s' % bshow(B, g))
    if not implied(B, B.AND(inside, merge), tot): N.bad('missed', dels[0], 'two transitions to the same state that overlap or touch are not merged')
    # the bound of the merged transition
    for x in f.insts('store'):
        a = N.addr(x)
        if a[0] == '&' and a[2] in ('lowin', 'dstuid', 'srcuid') or a[0] == '&' and a[2] == 'highin' and a[1] != t(i_): N.bad('other', x, 'the %s of a transition is changed by merging' % a[2])
        if a == ('&', t(i_), 'highin'):
            c.ob('merging')
            if N.val(x) != jh: N.bad('bound', x, 'the upper bound of a merged transition is %s' % cp(N.val(x)))
            elif not implied(B, jcond(x), B.AND(merge, B.OR(N.ult(ih, jh), adj))): N.bad('bound', x, 'the upper bound of a merged transition is lowered, or changed without merging')
    for path, to in ways(f, h):
        hasdel = [x for x in dels if x.b.id in path]
        sts = [x for x in f.insts('store') if x.b.id in path and N.addr(x) == ('&', t(i_), 'highin')]
        nx = path[1:] + (to,)
        g = True
        for a, b in zip(path, nx): g = B.AND(g, N.recanon(N.fl.edgelocal(a, b), a))
        if g is False: continue
        if hasdel:
            c.ob('merging')
            if not sts and not implied(B, g, B.NOT(N.ult(ih, jh))): N.bad('bound', hasdel[0], 'a transition is removed although the other does not reach as far')
            for y in sts:
                if not (y.b.id != hasdel[0].b.id and path.index(y.b.id) < path.index(hasdel[0].b.id) or y.b is hasdel[0].b and y.k < hasdel[0].k): N.bad('order', y, 'the bound is taken from the transition after it was removed')
        elif sts: N.bad('keep', sts[0], 'a transition is merged but not removed')
        if to == h:
            nv = f.expr([o for o, b in jx.ops if b == path[-1]][0])
            if nv[0] == 'phi' and f.inst[nv[2]].b.id in path: nv = resolver(f, path, h)(nv)
            if hasdel and nv != C0: N.bad('restart', hasdel[0], 'after merging, the others are not considered again')
            if not hasdel and nv != mklin(*addlin(aslin(j_raw), (1, ()))) and nv != C0: N.bad('skip', f.blocks[path[-1]].insts[-1], 'a transition is skipped when merging')
        elif hasdel:
            # the same transition again: the loop over all transitions has not moved on
            if N.nest(dels[0])[:1] != FORI(N, f, to): N.bad('restart', hasdel[0], 'after merging, the others are not considered again')
        elif not implied(B, g, B.NOT(inside)) and not N.dead(to): N.bad('leave', f.blocks[path[-1]].insts[-1], 'merging stops before all transitions were met')

def FORI(N, f, b):
    out = []
    for h in N.loops_of(b)[:1]:
        l = N.loop(h)
        # back at the head of the counting loop means the next one
        if l is not None and h != b: out.append(('for', N.canon(l[2], h), N.canon(l[3], h)))
    return tuple(out)

def ways(f, h, limit=400):
    """acyclic ways from the block h on: (blocks, end), the end being a loop head or the end of the function"""
    hs = headers(f); out = []; st = [(h,)]
    while st:
        p = st.pop()
        for t in f.blocks[p[-1]].succ:
            if not f.reachable(t): continue
            if t in hs or t == h: out.append((p, t))
            elif not f.blocks[t].succ: out.append((p, t))
            elif t not in p: st.append(p + (t,))
        if len(out) > limit: break
    return out

CHECKS = {'X01': check_tables, 'X02': check_subset, 'X04': check_lists}
