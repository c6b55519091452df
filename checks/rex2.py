"""REX: fragments of the NFA under construction, compiler, scanning."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, addlin, Prover
from common import *
from nest import *
from rex import *
from rex import View, Law, A, F, D, EL, FOR, I, J, C0, CM1, isneg1, strip_, alternatives, implied, V, unify

# ---------------------------------------------------------------- X05 fragments
class Bad(Exception): pass

class Frag:
    def __init__(s, name, start, open_): s.name = name; s.start = start; s.open = open_; s.alive = True

class FragRun:
    """abstract effect of a fragment operation: the states, transitions and fragments it leaves behind"""
    def __init__(s, c, m, name, nfrag):
        s.N = Law(c, m, name); s.f = s.N.f; s.c = c
        s.frags = {A(k): Frag('fragment %d' % k, 'start%d' % k, ['open%d' % k]) for k in range(1, nfrag + 1)}
        s.target = {'open%d' % k: None for k in range(1, nfrag + 1)}      # where the open transitions lead
        s.states = {}; s.trans = []       # created states: canonical uid -> name; (state, id) with target[id]
        s.noted = set(); s.memo = {}
        s.run()
    def fail(s, key, x, msg): raise Bad(key, x, msg)
    def frag(s, e, x):
        g = s.frags.get(e)
        if g is None: s.fail('unknown', x, 'a fragment of unknown origin (%s) is used' % cp(e))
        if not g.alive: s.fail('dead', x, '%s is used after it was given up' % g.name)
        return g
    def state(s, o, x):
        """the state a pointer operand stands for"""
        f = s.f; N = s.N
        if o[0] == 'v' and o[1] >= f.nargs:
            y = f.inst[o[1]]
            if y.i in s.memo: return s.memo[y.i]
            if y.iscall and y.callee == 'rex_db_getstate' and N.canon(f.expr(y.ops[0]), y.b.id) == A(0): return s.uid(y.ops[1], x)
            if y.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'): return s.state(y.ops[0], x)
            if y.op == 'phi':
                r = {s.state(q, x) for q, b in y.ops if f.reachable(b) and q[0] not in ('n',)}
                if len(r) == 1: return next(iter(r))
        e = N.canon(f.expr(o), x.b.id)
        for u, n in s.states.items():
            if e == D(EL(F(A(0), 'states'), u)): return n
        return None
    def uid(s, o, x):
        f = s.f
        e = f.expr(o)
        if isneg1(strip_(e)): return 'none'
        while o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op in ('zext', 'sext', 'trunc', 'freeze'): o = f.inst[o[1]].ops[0]
        c = s.N.canon(f.expr(o), x.b.id)
        if c in s.states: return s.states[c]
        if o[0] == 'v' and o[1] >= f.nargs:
            y = f.inst[o[1]]
            if y.op == 'load':
                cl = f.cls(y)
                if cl and cl[-1] == 'uid':
                    if y.i in s.memo: return s.memo[y.i]
                    return s.state(s.base(y), x)
        return None
    def base(s, y):
        """pointer operand behind a field access"""
        o = y.ops[1] if y.op == 'store' else y.ops[0]
        while o[0] == 'v' and o[1] >= s.f.nargs and s.f.inst[o[1]].op in ('getelementptr', 'bitcast') : o = s.f.inst[o[1]].ops[0]
        return o
    def run(s):
        f = s.f; N = s.N
        order = {b: k for k, b in enumerate(f.rpo())}
        def key(b):
            hs = N.loops_of(b)
            return tuple(order[h] for h in hs) + (order[b],)
        for b in sorted(f.rpo(), key=key):
            if not f.reachable(b): continue
            for x in f.blocks[b].insts: s.step(x)
    def step(s, x):
        f = s.f; N = s.N
        if x.op == 'load':
            cl = f.cls(x)
            if cl and cl[-1] == 'sstate':
                g = s.frags.get(N.canon(f.expr(s.base(x)), x.b.id))
                if g is not None:
                    if not g.alive: s.fail('dead', x, '%s is used after it was given up' % g.name)
                    s.memo[x.i] = g.start
            elif cl and cl[-1] == 'uid':
                s.memo[x.i] = s.state(s.base(x), x)
            elif cl and cl[-1] == 'dangling':
                g = s.frags.get(N.canon(f.expr(s.base(x)), x.b.id))
                if g is not None and not g.alive: s.fail('dead', x, '%s is used after it was given up' % g.name)
            return
        if x.op == 'store':
            a = N.addr(x)
            if a[0] != '&':
                return
            if a[2] == 'sstate':
                g = s.frag(a[1], x); st = s.state(x.ops[0], x)
                if st is None: s.fail('start', x, 'the start of a fragment becomes %s' % cp(N.val(x)))
                s.always(x, ()); g.start = st
            elif a[2] == 'dstuid':
                u = unify(D(EL(F(V('X'), 'dangling'), I)), a[1], {})
                if u is None: s.fail('patch', x, 'the target of %s is changed' % cp(a[1]))
                g = s.frag(u['X'], x); s.always(x, (FOR(F(F(u['X'], 'dangling'), 'len')),))
                t = s.uid(x.ops[0], x)
                if t is None: s.fail('patch', x, 'open transitions are led to %s' % cp(N.val(x)))
                s.patch(g, t)
            elif a[2] in ('srcuid', 'type', 'uid', 'dangling', 'len', 'lowin', 'highin'): s.fail('other', x, 'the %s is changed' % a[2])
            return
        if not x.iscall: return
        a = N.argv(x); cal = x.callee
        if cal == 'rex_db_createstate':
            s.always(x, ())
            if a[0] != A(0) or a[1] != C0: s.fail('create', x, 'a state of another kind or elsewhere is created')
            s.states[('call', cal) + a] = 'new'
            if len(s.states) > 1 or getattr(s, 'made', None): s.fail('create', x, 'more than one state is created')
            s.made = True
        elif cal in ('rex_transitions_add_e', 'rex_state_addtransition_e', 'rex_state_addtransition_e_dst'):
            s.always(x, ())
            if cal == 'rex_transitions_add_e':
                st = [n for u, n in s.states.items() if a[0] == F(D(EL(F(A(0), 'states'), u)), 'etrans')]
                st = st[0] if st else None
                if st is not None and s.uid(x.ops[1], x) != st: st = None
                t = s.uid(x.ops[2], x)
            else:
                st = s.state(x.ops[0], x); t = s.uid(x.ops[1], x) if cal.endswith('_e') else s.state(x.ops[1], x)
            if st is None or t is None: s.fail('add', x, 'an empty transition from %s to %s is added' % (cp(a[0]), cp(a[-1])))
            if st in s.noted: s.fail('late', x, 'a transition is added to a state after its open transitions were noted')
            i = 'e%d' % len(s.trans); s.trans.append((st, i)); s.target[i] = None if t == 'none' else t
        elif cal == 'rex_fragment_create':
            s.always(x, ()); st = s.state(x.ops[0], x)
            if st is None: s.fail('create', x, 'a fragment is made of %s' % cp(a[0]))
            s.noted.add(st)
            s.frags[('call', cal) + a] = Frag('the new fragment', st, [i for q, i in s.trans if q == st and s.target[i] is None])
        elif cal == 'rex_fragment_destroy':
            s.always(x, ()); s.frag(a[0], x).alive = False
        elif cal == 'rex_fragment_cat':
            s.always(x, ()); g1, g2 = s.frag(a[1], x), s.frag(a[2], x)
            s.patch(g1, g2.start); g2.start = g1.start; g1.alive = False
            s.frags[('call', cal) + a] = g2
        elif cal in ('rex_fragment_opt', 'rex_fragment_mop', 'rex_fragment_mul', 'rex_fragment_alt'):
            s.fail('nested', x, '%s is used inside another operation' % cal)
        elif cal == 'r_array_add':
            u = unify(F(V('X'), 'dangling'), a[0], {})
            if u is None: s.fail('note', x, 'something is added to %s' % cp(a[0]))
            g = s.frag(u['X'], x)
            v = N.local(x, 1); ns = N.nest(x); gd = N.guard(x); B = N.b
            w = unify(D(EL(F(V('Y'), 'dangling'), I)), v, {}) if v else None
            if w is not None:
                h = s.frag(w['Y'], x); s.always(x, (FOR(F(F(w['Y'], 'dangling'), 'len')),))
                if h is g: s.fail('note', x, 'the open transitions of a fragment are added to its own')
                g.open = g.open + h.open
                return
            for u, n in s.states.items():
                for fd in ('trans', 'etrans'):
                    arr = F(D(EL(F(A(0), 'states'), u)), fd)
                    if v == EL(arr, I):
                        if ns != (FOR(F(arr, 'len')),) or not N.complete(x) or not implied(B, gd, N.eq(F(v, 'dstuid'), CM1)) or not implied(B, N.eq(F(v, 'dstuid'), CM1), gd):
                            s.fail('note', x, 'the open transitions of a state are not all, or not only, noted')
                        if fd == 'etrans':
                            s.noted.add(n); g.open = g.open + [i for q, i in s.trans if q == n and s.target[i] is None]
                        return
            # a single transition just added
            if v is not None and v[0] == 'call' and ns == () and gd is True and v[1] in ('rex_transitions_add_e', 'rex_state_addtransition_e'):
                last = [y for y in f.calls(v[1]) if N.canon(f.x(y), y.b.id) == v]
                if len(last) == 1 and s.trans and s.target[s.trans[-1][1]] is None:
                    s.noted.add(s.trans[-1][0]); g.open = g.open + [s.trans[-1][1]]; return
            s.fail('note', x, '%s is added to the open transitions' % (cp(v) if v else 'something'))
        elif cal in ('r_array_insert', 'r_array_replace', 'r_array_setlength', 'r_array_delete', 'r_array_removelast', 'r_array_destroy', 'r_free', 'rex_transitions_add', 'rex_transitions_normalize', 'rex_state_destroy', 'r_memset', 'r_memmove', 'r_memcpy'):
            s.fail('other', x, '%s(%s) is none of the steps of a fragment operation' % (cal, ', '.join(cp(q) for q in a)))
    def always(s, x, nest):
        N = s.N; g = N.guard(x); B = N.b
        for k in (0, 1, 2): 
            z = N.eq(A(k), C0)
            if g is not True: g = B.OR(g, z)
        if g is not True: s.fail('when', x, 'a step of the operation is done only when %s' % bshow(B, N.guard(x)))
        if N.nest(x) != nest or not N.complete(x): s.fail('when', x, 'a step of the operation is not done once for each')
    def patch(s, g, t):
        for i in g.open:
            s.target[i] = None if t == 'none' else t

def check_fragments(c):
    c.rule('joining fragments: each operation leaves exactly the states and empty transitions of its drawing, leads the open transitions where they belong, returns a fragment with the right start and open transitions, and gives up every other fragment once; a state gets no transitions after its open ones were noted')
    m = c.mod('core', pipe='plain', unbound=('rex_db_getstate', 'rex_state_addtransition_e', 'rex_state_addtransition_e_dst'))
    spec = {  # name: (fragments, start, new transitions {target or None (open)}, where the given open ones lead, open ones of the result)
        'rex_fragment_cat': (2, 'start1', [], {'open1': 'start2', 'open2': None}, {'open2'}),
        'rex_fragment_alt': (2, 'new', ['start1', 'start2'], {'open1': None, 'open2': None}, {'open1', 'open2'}),
        'rex_fragment_opt': (1, 'new', [None, 'start1'], {'open1': None}, {'open1', 'e'}),
        'rex_fragment_mop': (1, 'new', [None, 'start1'], {'open1': 'new'}, {'e'}),
        'rex_fragment_mul': (1, 'start1', [None, 'start1'], {'open1': 'new'}, {'e'})}
    txt = {None: 'nowhere yet', 'new': 'the new state', 'start1': 'the start of the first', 'start2': 'the start of the second'}
    for name, (nf, start, new, lead, open_) in spec.items():
        f = m.fn(name)
        try: r = FragRun(c, m, name, nf)
        except Bad as e:
            c.ob('fragment operations')
            key, x, msg = e.args; c.bad('%s:%s' % (name, key), f.where(x), msg); continue
        N = r.N
        def bad(key, msg): c.bad('%s:%s' % (name, key), f.where(), msg)
        c.ob('fragment operations'); c.ob('transitions', len(r.trans))
        res = set()
        for v, g in alternatives(N, None):
            if v == C0: continue
            h = r.frags.get(v)
            if h is None: bad('result', 'the operation returns %s' % cp(v)); continue
            res.add(h)
        if len(res) != 1: bad('result', 'the operation does not return one fragment'); continue
        h = next(iter(res))
        if not h.alive: bad('result', 'the operation returns a fragment that was given up'); continue
        for g in set(r.frags.values()):
            if g is not h and g.alive: bad('leak', '%s is not given up' % g.name)
        if h.start != start: bad('start', 'the result starts at %s' % txt.get(h.start, h.start))
        got = sorted((r.target[i] for q, i in r.trans), key=str)
        if any(q != 'new' for q, i in r.trans): bad('new', 'a transition is added to another state than the new one')
        if got != sorted(new, key=str): bad('new', 'the new state has empty transitions to %s' % (', '.join(txt.get(t, str(t)) for t in got) or 'nowhere'))
        for k, t in lead.items():
            if r.target[k] != t: bad('lead', 'the open transitions of %s lead to %s' % ('fragment ' + k[-1], txt.get(r.target[k], r.target[k])))
        op = sorted('e' if i[0] == 'e' else i for i in h.open)
        if op != sorted(open_): bad('open', 'the open transitions of the result are %s' % (', '.join(op) or 'none'))
    # made of a state
    m = c.mod('core', pipe='plain', unbound=UB)
    N = Law(c, m, 'rex_fragment_create'); f = N.f; B = N.b
    for v, e, ed in N.rets():
        if v == C0: continue
        c.ob('fragment operations')
        if v[0] != 'call' or v[1] not in ('r_malloc', 'r_zmalloc', 'r_calloc'): N.bad('fresh', e, 'the fragment returned is not a new one'); continue
        def one(fd):
            l = [(x, w) for x, a, w in N.stores(loc=('&', v, fd)) if N.guard(x) is not False]
            return l[-1] if l and implied(B, B.NOT(N.eq(v, C0)), N.guard(l[-1][0])) and N.nest(l[-1][0]) == () else (None, None)
        x, w = one('sstate')
        if w != A(0): N.bad('start', x or e, 'a fragment made of a state does not start at it')
        x, d = one('dangling')
        if d is None or d[0] != 'call' or d[1] != 'r_array_create' or d[2] != ('c', 8): N.bad('open', x or e, 'a fragment has no list of pointers to its open transitions'); continue
        for fd in ('trans', 'etrans'):
            arr = F(A(0), fd); ok = False; c.ob('fragment operations')
            for x, en in N.find('r_array_add'):
                a0 = N.argv(x)[0]
                if a0 not in (d, F(v, 'dangling')) or N.local(x, 1) != EL(arr, I): continue
                g = N.cond(x); op = N.eq(F(EL(arr, I), 'dstuid'), CM1)
                ok = N.nest(x) == (FOR(F(arr, 'len')),) and N.complete(x) and g == op; N.use(x)
            if not ok: N.bad('note-' + fd, e, 'the open %stransitions of a state are not all, or not only, noted' % ('empty ' if fd == 'etrans' else ''))
        for x in f.calls('r_array_add'):
            if x.i not in N.used: N.bad('note', x, 'something else is noted as open')
    N = Law(c, m, 'rex_fragment_destroy'); B = N.b
    nz = B.NOT(N.eq(A(0), C0)); tot = {}
    for what, cal, arg in (('list', 'r_array_destroy', F(A(0), 'dangling')), ('fragment', 'r_free', A(0))):
        c.ob('fragment operations')
        l = [x for x, e in N.find(cal, (arg,), ())]
        g = False
        for x in l: g = B.OR(g, N.guard(x))
        if len(l) != 1 or not implied(B, nz, g): N.bad('free-' + what, l[0] if l else None, 'the %s of a fragment given up is not freed once' % what)
    la, lf = N.find('r_array_destroy'), N.find('r_free')
    if la and lf and N.before(lf[0][0], la[0][0]): N.bad('order', la[0][0], 'the list is freed behind the fragment')
    c.atleast('fragment operations', 8)

CHECKS = {'X05': check_fragments}
