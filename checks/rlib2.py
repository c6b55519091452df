"""Lists, allocator, reference counts, string-keyed wrappers, hash/map, character coding."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, scale, addlin, Prover, subexprs, mentions
from common import *

LIST = 'rlist_s'

class Links:
    """Values of link fields at a point of a loop-free function, taking distinct field addresses of the entry
    structure for distinct cells (the list invariant: neighbours of distinct nodes are distinct cells)."""
    def __init__(s, m, f):
        s.m = m; s.f = f; s.memo = {}
    def v(s, e, depth=0):
        if not isinstance(e, tuple) or depth > 30: return e
        if e in s.memo: return s.memo[e]
        if e and e[0] == 'ld':
            a = s.v(e[1], depth + 1); r = s.at(a, s.clsof(a), e[2], depth + 1)
        else: r = tuple(s.v(x, depth + 1) if isinstance(x, tuple) else x for x in e)
        s.memo[e] = r
        return r
    def clsof(s, a): return (LIST, 'prev') if a[0] == 'fld' and a[3] == 'prev' else (LIST, 'next')
    def norm(s, a):
        """next is the first field: the node address itself"""
        while a[0] == 'fld' and a[4] == 0: a = a[1]
        return a
    def at(s, a, cls, ver, depth=0):
        f = s.f; a = s.norm(a)
        for _ in range(60):
            if ver == ('entry',): return ('ld', a, ('entry',))
            if ver[0] == 'def':
                y = f.inst[ver[1]]
                if y.op == 'store' and s.norm(s.v(f.expr(y.ops[1]), depth + 1)) == a: return s.v(f.expr(y.ops[0]), depth + 1)
                ver = f.ver_before(cls, y); continue
            if ver[0] == 'phi':
                vs = {s.at(a, cls, f.ver_exit(cls, p), depth + 1) for p in f.blocks[ver[1]].pred if f.reachable(p)}
                return vs.pop() if len(vs) == 1 else ('mix',) + tuple(sorted(vs, key=repr))
            return ('unknown',)
        return ('unknown',)
    def stores(s, blocks=None):
        """{address: (value...)} of link cells written in the given blocks (all)"""
        f = s.f; out = {}
        for x in f.insts('store'):
            if blocks is not None and x.b.id not in blocks: continue
            out[s.norm(s.v(f.expr(x.ops[1])))] = x
        return out

def check_lists(c):
    c.rule('value graph of the link cells: after each list primitive the set of cells written and the value left in each equal the specified relinking; navigation returns the neighbour exactly when it is not the list head')
    c.assumption('nodes of a list are distinct cells')
    names = open(fe.HERE + '/boundaries.txt').read().split()
    m = c.mod('core', pipe='plain', unbound=tuple(n for n in names if n.startswith('r_list_')))
    P = m.field(LIST, 'prev')
    nx = lambda a: a
    pv = lambda a: ('fld', a, LIST, 'prev', P)
    ld = lambda a: ('ld', a, ('entry',))
    a0, a1, a2 = ('arg', 0), ('arg', 1), ('arg', 2)
    def add(new, prev, next): return {pv(next): new, nx(new): next, pv(new): prev, nx(prev): new}
    spec = {'r_list_init': {nx(a0): a0, pv(a0): a0},
            'r_list_add': add(a0, a1, a2),
            'r_list_addh': add(a1, a0, ld(nx(a0))),
            'r_list_addt': add(a1, ld(pv(a0)), a0),
            'r_list_unlink': {pv(a1): a0, nx(a0): a1},
            'r_list_del': {pv(ld(nx(a0))): ld(pv(a0)), nx(ld(pv(a0))): ld(nx(a0))}}
    F, L = ld(nx(a0)), ld(pv(a0))
    splice = {pv(F): a1, nx(a1): F, nx(L): ld(nx(a1)), pv(ld(nx(a1))): L, nx(a0): a0, pv(a0): a0}
    def compare(f, want, blocks, exit, key):
        k = Links(m, f); got = k.stores(blocks)
        for a, v in want.items():
            c.ob('link cells')
            if a not in got: c.bad('%s:missing' % key, f.where(), '%s does not set %s' % (f.name, pp(a))); continue
            fin = k.at(a, k.clsof(a), f.ver_before(k.clsof(a), exit))
            if fin[0] == 'mix' and v in fin[1:]: fin = v       # the other alternative is the path without relinking
            if fin != v: c.bad('%s:value' % key, f.where(got[a]), '%s leaves %s in %s, expected %s' % (f.name, pp(fin), pp(a), pp(v)))
        for a, x in got.items():
            if a not in want: c.bad('%s:extra' % key, f.where(x), '%s also writes %s' % (f.name, pp(a)))
    for n, want in spec.items():
        f = m.fn(n); c.seen(f)
        for e in f.exits(): compare(f, want, None, e, n)
    f = m.fn('r_list_splice'); c.seen(f)
    for e in f.exits(): compare(f, splice, None, e, 'r_list_splice')
    for x in f.insts('store'):
        c.ob('link cells')
        if not any(q[0] == 'ne' and set(q[1:3]) == {F, a0} for q in f.facts(x.b.id)):
            c.bad('r_list_splice:empty', f.where(x), 'r_list_splice relinks although the source list may be empty')
    # navigation
    for n, base, head, fld in (('r_list_first', a0, a0, nx), ('r_list_last', a0, a0, pv), ('r_list_next', a1, a0, nx), ('r_list_prev', a1, a0, pv)):
        f = m.fn(n); c.seen(f); tgt = ld(fld(base))
        def judge(v, facts, where):
            c.ob('navigation results')
            if v[0] == 'sel':
                t, q = selfacts(v[1]); judge(v[2], facts + t, where); judge(v[3], facts + q, where); return
            hd = any(q[0] == 'eq' and set(q[1:3]) == {tgt, head} for q in facts); nh = any(q[0] == 'ne' and set(q[1:3]) == {tgt, head} for q in facts)
            nul = any(q[0] == 'eq' and set(q[1:3]) == {base, ('c', 0)} for q in facts); nn = any(q[0] == 'ne' and set(q[1:3]) == {base, ('c', 0)} for q in facts)
            if v == ('c', 0):
                if not (hd or (nul and base != head)): c.bad('%s:null' % n, where, '%s returns nothing although the neighbour may exist' % n)
            elif v == tgt:
                if not nh or (base != head and not nn): c.bad('%s:head' % n, where, '%s may return the list head or use a missing element' % n)
            else: c.bad('%s:value' % n, where, '%s returns %s' % (n, pp(v)))
        for cs in ret_cases(f):
            fs = case_facts(f, cs)
            if cs[0] == ('c', 0) and base != head and not any(q[0] == 'eq' for q in fs):
                # merged edges: judge every predecessor
                preds = preds_of_case(f, cs)
                for p in preds: judge(cs[0], p, f.where(cs[1]))
            else: judge(cs[0], fs, f.where(cs[1]))
    # count: one increment per node from first to head
    f = m.fn('r_list_count'); c.seen(f); c.ob('navigation results')
    ok = False
    for h in headers(f):
        ph = [x for x in f.blocks[h].insts if x.op == 'phi']
        pos = [x for x in ph if loop_pair(f, h, x) == (ld(a0), ('ld', ('phi', f.name, x.i), ('entry',)))]
        cnt = [x for x in ph if loop_pair(f, h, x) == (('c', 0), mklin(1, ((('phi', f.name, x.i), 1),)))]
        if pos and cnt and all(strip(f.expr(e.ops[0])) == ('phi', f.name, cnt[0].i) for e in f.exits()) and \
           all(any(q[0] == 'eq' and set(q[1:3]) == {('phi', f.name, pos[0].i), a0} for q in f.facts(e.b.id)) for e in f.exits()): ok = True
    if not ok: c.bad('r_list_count', f.where(), 'r_list_count is not the number of nodes between the head and itself')
    c.atleast('link cells', 20); c.atleast('navigation results', 8)

def strip(e):
    while e[0] in ('zx', 'trunc', 'sx'): e = e[2]
    return e
def loop_pair(f, h, x):
    """(initial value, next value) of a loop phi"""
    backs = headers(f)[h]
    i = {f.expr(o) for o, b in x.ops if f.reachable(b) and b not in backs}; n = {f.expr(o) for o, b in x.ops if b in backs}
    return (i.pop(), n.pop()) if len(i) == 1 and len(n) == 1 else None
def selfacts(e):
    if e[0] == 'cmp' and e[1] in ('eq', 'ne'):
        t, q = ('eq', e[2], e[3]), ('ne', e[2], e[3])
        return ([t], [q]) if e[1] == 'eq' else ([q], [t])
    return [], []
def preds_of_case(f, cs):
    v, e, edges = cs
    b = edges[-1][0] if edges else e.b.id
    return [f.facts(p) + f.edge_facts(p, b) for p in f.blocks[b].pred if f.reachable(p)] or [f.facts(b)]

# ---- locks ------------------------------------------------------------------------------------------
LOCK, UNLOCK = ('r_spinlock_lock',), ('r_spinlock_unlock',)
def locksets(f):
    """must-held lock set (canonical lock addresses) before each instruction; also may-held at block entry"""
    must = {0: frozenset()}; may = {0: frozenset()}
    def tr(b, S, upto=None):
        for x in f.blocks[b].insts[:upto]:
            if x.iscall and x.callee in LOCK: S = S | {f.expr(x.ops[0])}
            elif x.iscall and x.callee in UNLOCK: S = S - {f.expr(x.ops[0])}
            elif x.iscall and x.callee in ('r_object_destroy', 'r_free') and x.ops:
                r = f.expr(x.ops[0]); S = frozenset(l for l in S if f.m.root(l) != f.m.root(r))
        return S
    ch = True
    while ch:
        ch = False
        for b in f.rpo():
            ps = [p for p in f.blocks[b].pred if f.reachable(p)]
            if b != 0:
                i = None; u = frozenset()
                for p in ps:
                    if p in must:
                        o = tr(p, must[p]); i = o if i is None else i & o
                        u |= tr(p, may[p])
                if i is None: continue
                if must.get(b) != i or may.get(b) != u: must[b] = i; may[b] = u; ch = True
    return lambda x: tr(x.b.id, must.get(x.b.id, frozenset()), x.k), lambda x: tr(x.b.id, may.get(x.b.id, frozenset()), x.k)

def check_locking(c, m, f):
    must, may = locksets(f)
    for x in f.calls(*LOCK):
        c.ob('lock operations')
        l = f.expr(x.ops[0])
        if l in may(x): c.bad('%s:relock' % f.name, f.where(x), '%s acquires %s while it may already hold it' % (f.name, pp(l)))
    for x in f.calls(*UNLOCK):
        c.ob('lock operations')
        l = f.expr(x.ops[0])
        if l not in must(x): c.bad('%s:unlock' % f.name, f.where(x), '%s releases %s without holding it on every path' % (f.name, pp(l)))
    for e in f.exits():
        c.ob('lock operations')
        if may(e): c.bad('%s:leave' % f.name, f.where(e), '%s may return still holding %s' % (f.name, ', '.join(pp(l) for l in may(e))))
    return must

def final_global(f, g, e):
    """value of global g before exit e"""
    a = ('g', g)
    for x in f.insts('load', 'store'):
        ad = f.expr(x.ops[0] if x.op == 'load' else x.ops[1])
        if ad == a: return f.load_at(a, f.cls(x), f.ver_before(f.cls(x), e))
    return ('ld', a, ('entry',))

def vt_targets(m, api):
    f = m.fn(api); out = set()
    for x in f.insts('call'):
        if x.callee is not None: continue
        e = f.expr(x.d['callee'])          # ld(fld(ld(g))) or ld(ld(g))
        g = fname = None; a = e[1]
        off = 0
        while a[0] == 'fld': off += a[4]; a = a[1]
        if a[0] == 'ld' and a[1][0] == 'g':
            g = a[1][1]
            stored = any(k.op == 'store' and h.expr(k.ops[1]) == ('g', g) for h in m.live() for k in h.insts('store'))
            ini = m.globals.get(g, {}).get('init')
            if not stored and ini and ini[0] == 'g':
                st = m.globals[ini[1]]['init']
                if st and st[0] == 'st' and off // 8 < len(st[1]) and st[1][off // 8][0] == 'g': out.add(st[1][off // 8][1]); continue
        out |= {t for t in m.indirect_targets(f, x)}
    for x in f.insts('call'):
        if x.callee in ('malloc', 'free', 'realloc', 'calloc'): out.add(api)
    return [m.fn(t) for t in sorted(out)]

LIBC = {'r_malloc': 'malloc', 'r_free': 'free', 'r_realloc': 'realloc', 'r_calloc': 'calloc'}
def check_alloc(c):
    c.rule('allocator dispatch resolves each entry point to an implementation over the libc function of the same kind; with accounting on, the net change of the total on every path equals the recorded block size (added on allocation, subtracted on release, both on reallocation), the header written is the size counted, the returned address is the block shifted by the header, and every access to the totals happens under the lock, which is released on every return')
    m = c.mod('core', pipe='plain')
    impl = {}
    for api, libc in LIBC.items():
        fs = vt_targets(m, api)
        if not fs: raise AnalysisBroken('no implementation found behind ' + api)
        for f in fs:
            c.seen(f); c.ob('allocator implementations')
            impl[f.name] = (f, api, libc)
            others = [x for x in f.insts('call') if x.callee in LIBC.values() and x.callee != libc]
            cs = list(f.calls(libc))
            if others or not cs: c.bad('%s:kind' % api, f.where(), '%s is implemented by %s, which calls %s' % (api, f.name, [x.callee for x in others] or 'no allocator'))
    totals = set()
    for f, api, libc in impl.values():
        for x in f.insts('store'):
            a = f.expr(x.ops[1])
            if a[0] == 'g': totals.add(a[1])
    # the running total: the one changed by the release implementation
    run = {f.expr(x.ops[1])[1] for f, api, libc in impl.values() if api == 'r_free' for x in f.insts('store') if f.expr(x.ops[1])[0] == 'g'}
    for f, api, libc in impl.values():
        if totals:
            must = check_locking(c, m, f)
            for x in f.insts('load', 'store'):
                a = f.expr(x.ops[0] if x.op == 'load' else x.ops[1])
                if a[0] == 'g' and a[1] in totals:
                    c.ob('shared accesses')
                    if not must(x): c.bad('%s:race' % api, f.where(x), '%s accesses %s without holding the lock' % (f.name, a[1]))
        for g in run:
            for e in f.exits():
                ret = f.expr(e.ops[0]) if e.ops else None
                for (val, rv, facts, blk) in exit_cases(f, g, e):
                    c.ob('accounting cases')
                    d = mklin(*sublin(aslin(val), aslin(('ld', ('g', g), ('entry',)))))
                    judge_account(c, m, f, api, libc, d, rv, e, facts, blk)
    if any('nomem' in (fe.VARIANT or '') for _ in [0]) is False: c.atleast('accounting cases', 4)
    f = m.fn('r_zmalloc'); c.seen(f)
    for cs in ret_cases(f):
        v = cs[0]
        if v == ('c', 0): continue
        c.ob('allocator implementations')
        if v[0] != 'call' or v[1] not in ('r_malloc', 'r_calloc'): c.bad('r_zmalloc', f.where(cs[1]), 'r_zmalloc returns %s' % pp(v)); continue
        y = f.inst[v[3]]
        if v[1] == 'r_malloc':
            if f.expr(y.ops[0]) != ('arg', 0): c.bad('r_zmalloc:size', f.where(y), 'r_zmalloc allocates %s bytes' % pp(f.expr(y.ops[0])))
            zs = [x for x in f.insts('call') if x.callee and 'memset' in x.callee and f.expr(x.ops[0]) == v and f.expr(x.ops[1]) == ('c', 0) and f.expr(x.ops[2]) == ('arg', 0)]
            if not zs or not (path_to_case(f, cs, zs) is False or nullpath(f, cs, v, zs)):
                c.bad('r_zmalloc:zero', f.where(cs[1]), 'r_zmalloc may return a block that is not entirely zeroed')

def nullpath(f, cs, v, zs):
    """every path to the return that avoids the zeroing has the pointer null"""
    zb = {z.b.id for z in zs}
    seen = set(); st = [(0, False)]
    tgt = cs[1].b.id
    while st:
        b, nul = st.pop()
        if (b, nul) in seen or b in zb: continue
        seen.add((b, nul))
        if b == tgt and not nul: return False
        for t in f.blocks[b].succ: st.append((t, nul or any(q[0] == 'eq' and set(q[1:3]) == {v, ('c', 0)} for q in f.edge_facts(b, t))))
    return True

def exit_cases(f, g, e):
    """split an exit by the merges its block performs: [(value of g, returned value, facts, block)]"""
    a = ('g', g); cls = None
    for x in f.insts('load', 'store'):
        if f.expr(x.ops[0] if x.op == 'load' else x.ops[1]) == a: cls = f.cls(x)
    if cls is None:
        return [(('ld', a, ('entry',)), f.expr(e.ops[0]) if e.ops else None, f.facts(e.b.id), e.b.id)]
    out = []
    def at(bid, ver, rv, facts, depth):
        if ver == ('phi', bid) or (rv is not None and rv[0] == 'phi' and f.inst[rv[2]].b.id == bid):
            if bid not in headers(f) and depth < 8:
                for p in f.blocks[bid].pred:
                    if not f.reachable(p): continue
                    v2 = f.ver_exit(cls, p) if ver == ('phi', bid) else ver
                    r2 = rv
                    if rv is not None and rv[0] == 'phi' and f.inst[rv[2]].b.id == bid:
                        r2 = [f.expr(o) for o, b in f.inst[rv[2]].ops if b == p][0]
                    at(p, v2, r2, facts + f.facts(p) + f.edge_facts(p, bid), depth + 1)
                return
        if ver[0] == 'phi' and ver[1] != bid: at(ver[1], ver, rv, facts, depth + 1) if depth < 8 else None; return
        out.append((f.load_at(a, cls, ver), rv, facts, bid))
    at(e.b.id, f.ver_before(cls, e), f.expr(e.ops[0]) if e.ops else None, list(f.facts(e.b.id)), 0)
    return out

def judge_account(c, m, f, api, libc, d, rv, e, facts, blk):
    W = 8
    hdr = lambda p: ('ld', ('idx', p, ('c', -1), W), ('entry',))
    P0 = ('arg', 0)
    nullp = any(q[0] == 'eq' and set(q[1:3]) == {P0, ('c', 0)} for q in facts)
    def block(rv):
        """libc call whose block, past the header, is returned"""
        if rv and rv[0] == 'idx' and rv[2] == ('c', 1) and rv[3] == W and rv[1][0] == 'call' and rv[1][1] == libc: return f.inst[rv[1][3]]
        return None
    if api == 'r_free':
        want = ('c', 0) if nullp else mklin(0, ((hdr(P0), -1),))
        if d != want: c.bad('r_free:account', f.where(e), 'releasing a block changes the total by %s instead of minus its recorded size' % pp(d))
        if not nullp:
            for x in f.calls('free'):
                if f.expr(x.ops[0]) != ('idx', P0, ('c', -1), W): c.bad('r_free:block', f.where(x), 'releasing frees %s instead of the whole block' % pp(f.expr(x.ops[0])))
        return
    if api == 'r_realloc' and nullp:
        if any(x.op == 'store' and f.expr(x.ops[1])[0] == 'g' for x in f.blocks[blk].insts) or not (rv and rv[0] == 'call' and rv[1] in ('r_malloc', libc)): c.bad('r_realloc:null', f.where(e), 'reallocating nothing must be a plain allocation')
        return
    y = block(rv)
    if y is None: c.bad('%s:return' % api, f.where(e), '%s returns %s, not the allocated block past its header' % (f.name, pp(rv) if rv else 'nothing')); return
    ops = [f.expr(o) for o in y.ops]
    size = ops[0] if libc == 'malloc' else ops[1] if libc == 'realloc' else m.arith('mul', ops[0], ops[1])
    want = size
    if api == 'r_realloc':
        want = mklin(*sublin(aslin(size), aslin(hdr(P0))))
        if ops[0] != ('idx', P0, ('c', -1), W): c.bad('r_realloc:block', f.where(y), 'reallocation is applied to %s instead of the whole block' % pp(ops[0]))
    if d != want: c.bad('%s:account' % api, f.where(e), '%s changes the total by %s, the block has %s bytes' % (api, pp(d), pp(size)))
    hs = [x for x in f.insts('store') if f.expr(x.ops[1]) == rv[1]]
    if not hs or any(f.expr(x.ops[0]) != size for x in hs): c.bad('%s:header' % api, f.where(e), '%s does not record the counted size in the header' % api)
    arg = ('arg', 1) if api == 'r_realloc' else ('arg', 0)
    if api == 'r_calloc':
        if not roomy(c, m, f, ops, W): c.bad('r_calloc:size', f.where(y), 'r_calloc allocates %s elements of %s bytes, too few for the request and the header' % (pp(ops[0]), pp(ops[1])))
    else:
        if not Prover(f, []).le(mklin(W, ((arg, 1),)), size): c.bad('%s:size' % api, f.where(y), '%s allocates %s bytes, too few for the request and the header' % (api, pp(size)))

def holds_for(B, g, env):
    """the condition may hold with these values"""
    if g in (True, False): return g
    n = B.names[g[0]]
    def ev(e):
        if e in env: return env[e]
        if e[0] == 'c': return e[1]
        if e[0] == 'lin':
            v = [(ev(t), k) for t, k in e[2]]
            return None if any(q is None for q, k in v) else e[1] + sum(q * k for q, k in v)
        return None
    v = [ev(t) for t in n[1:]]
    if None in v or n[0] not in ('eq0', 'ult', 'slt'): return holds_for(B, g[1], env) or holds_for(B, g[2], env)
    t = v[0] == 0 if n[0] == 'eq0' else v[0] < v[1]
    return holds_for(B, g[2] if t else g[1], env)

def roomy(c, m, f, ops, W):
    """n elements of s bytes (s >= 1) have room for arg0 * arg1 bytes and W more"""
    import nest, rex
    n, s = ops; A0, A1 = ('arg', 0), ('arg', 1)
    if ('c', 1) in (n, s):
        return Prover(f, []).le(mklin(*addlin((W, ()), aslin(m.arith('mul', A0, A1)))), s if n == ('c', 1) else n)
    if s != A1: return False
    N = nest.Nest(f); B = N.b
    e = mklin(*sublin(aslin(n), aslin(A0)))
    def sels(e, g):
        if e[0] in ('phi', 'sel'): return rex.alternatives(N, e)
        if e[0] == 'lin':
            for t, k in e[2]:
                if t[0] in ('phi', 'sel'):
                    rest = mklin(*sublin(aslin(e), (0, ((t, k),))))
                    return [(mklin(*addlin(aslin(rest), (aslin(v)[0] * k, tuple((u, q * k) for u, q in aslin(v)[1])))), g) for v, g in rex.alternatives(N, t)]
        return [(e, True)]
    for v, g in sels(n, True):
        v = mklin(*sublin(aslin(v), aslin(A0)))
        if v[0] == 'c' and v[1] >= 1:
            if v[1] >= W or not any(holds_for(B, g, {A1: q}) for q in range(1, -(-W // v[1]))): continue
            return False
        if v[0] == 'udiv' and v[2] == A1 and v[1] == mklin(W - 1, ((A1, 1),)): continue
        if v[0] == 'lin' and v[1] >= 1 and len(v[2]) == 1 and v[2][0] == (('udiv', ('c', W), A1), 1): continue
        return False
    return True

def check_refs(c):
    c.rule('lockset and value analysis of the reference counter: every access to the count in increment/decrement is under the object lock, which is released on every return unless the object was destroyed; increment adds one and returns the new value, decrement subtracts one from a non-zero count and destroys the object exactly when the count becomes zero; the lock itself is taken only through a successful atomic exchange 0 -> busy')
    m = c.mod('core', pipe='plain'); REF = 'rref_s'
    cnt = ('fld', ('arg', 0), REF, 'count', m.field(REF, 'count'))
    for n in ('r_ref_inc', 'r_ref_dec'):
        f = m.fn(n); c.seen(f)
        must = check_locking(c, m, f)
        for x in f.insts('load', 'store'):
            if f.cls(x) == (REF, 'count'):
                c.ob('shared accesses')
                if not any(m.root(l) == ('arg', 0) for l in must(x)): c.bad('%s:race' % n, f.where(x), '%s accesses the count without holding the object lock' % n)
        ent = ('ld', cnt, ('entry',))
        for x in f.insts('store'):
            if f.cls(x) != (REF, 'count'): continue
            c.ob('count updates')
            v = f.expr(x.ops[0]); d = mklin(*sublin(aslin(v), aslin(ent)))
            if d != ('c', 1 if n == 'r_ref_inc' else -1): c.bad('%s:step' % n, f.where(x), '%s changes the count by %s' % (n, pp(d)))
            if n == 'r_ref_dec' and not Prover(f, f.facts(x.b.id)).nonzero(ent): c.bad('%s:underflow' % n, f.where(x), 'the count may be decremented below zero')
        st = [x for x in f.insts('store') if f.cls(x) == (REF, 'count')]
        if n == 'r_ref_inc':
            for e in f.exits():
                c.ob('count updates')
                if every_path(f, st, exits=[e]) is not None or f.expr(e.ops[0]) != mklin(1, ((ent, 1),)): c.bad('%s:result' % n, f.where(e), '%s does not return the incremented count' % n)
        else:
            ds = [x for x in f.calls('r_object_destroy') if f.expr(x.ops[0]) == ('arg', 0)]
            new = mklin(-1, ((ent, 1),))
            for x in ds:
                c.ob('count updates')
                if not any(q[0] == 'eq' and q[2] == ('c', 0) and q[1] == new or q[0] == 'eq' and q[1] == ent and q[2] == ('c', 1) for q in f.facts(x.b.id)):
                    c.bad('%s:early' % n, f.where(x), 'the object is destroyed although references may remain')
                if not any(f.idominst(s2, x) for s2 in st): c.bad('%s:early' % n, f.where(x), 'the object is destroyed before the count was decremented')
            # every decrement to zero destroys: paths from the store avoiding destroy must carry new != 0
            for x in st:
                for e in f.exits():
                    c.ob('count updates')
                    if leaks_zero(f, x, e, ds, new, ent): c.bad('%s:leak' % n, f.where(e), 'the last reference can be dropped without destroying the object')
                if any(not f.reachable(x.b.id) for _ in [0]): pass
            for e in f.exits():
                if any(q[0] == 'ne' and set(q[1:3]) == {ent, ('c', 0)} for q in f.facts(e.b.id)) and every_path(f, st, exits=[e]) is not None: c.bad('%s:skip' % n, f.where(e), 'a reference is dropped without decrementing')
            for b in f.blocks:
                # a non-zero count must be decremented
                pass
            if miss_dec(f, st, ent): c.bad('%s:skip' % n, f.where(), 'a non-zero count is not always decremented')
    f = m.fn('r_spinlock_lock'); c.seen(f)
    for g, callee in ((f, None), (m.fn('r_spinlock_trylock'), None)):
        c.seen(g)
        cs = [x for x in g.calls('r_atomic_compare_and_exchange') if g.expr(x.ops[0]) == ('arg', 0) and g.expr(x.ops[1]) == ('c', 0) and g.expr(x.ops[2]) not in (('c', 0),)]
        for e in g.exits():
            c.ob('lock primitive')
            if g is f: ok = any(q[0] == 'ne' and q[2] == ('c', 0) and q[1] == g.x(x) for x in cs for q in g.facts(e.b.id))
            else: ok = any(strip(g.expr(e.ops[0])) == g.x(x) for x in cs)
            if not ok: c.bad('%s:acquire' % g.name, g.where(e), '%s can succeed without exchanging the free state for the busy one' % g.name)
    f = m.fn('r_spinlock_unlock'); c.seen(f); c.ob('lock primitive')
    st = [x for x in f.insts('store') if f.expr(x.ops[1]) == ('arg', 0) and f.expr(x.ops[0]) == ('c', 0)] + [x for x in f.calls('r_atomic_set', 'r_atomic_exchange') if f.expr(x.ops[0]) == ('arg', 0) and f.expr(x.ops[1]) == ('c', 0)]
    if every_path(f, st) is not None: c.bad('r_spinlock_unlock', f.where(), 'unlock does not always store the free state')
    f = m.fn('r_atomic_compare_and_exchange'); c.seen(f); c.ob('lock primitive')
    cx = list(f.insts('cmpxchg'))
    if not cx or any(f.expr(x.ops[0]) != ('arg', 0) or f.expr(x.ops[1]) != ('arg', 1) or f.expr(x.ops[2]) != ('arg', 2) for x in cx): c.bad('cmpxchg', f.where(), 'compare-and-exchange is not one atomic exchange of its operands')
    for e in f.exits():
        v = strip(f.expr(e.ops[0]))
        if not (v[0] == 'cmp' and v[1] == 'eq' and ('arg', 1) in v[2:4] and any(mentions(q, lambda t: t[0] == 'val' and t[-1] == 'cmpxchg') for q in v[2:4])) and not (v[0] == 'ev' and mentions(v, lambda t: t[0] == 'val' and t[-1] == 'cmpxchg')):
            c.bad('cmpxchg:result', f.where(e), 'compare-and-exchange does not report whether the old value matched')
    # every other user of the lock in the library
    for g in m.live():
        if g.name in ('r_ref_inc', 'r_ref_dec') or not list(g.calls(*LOCK)): continue
        c.seen(g); check_locking(c, m, g)
    c.atleast('count updates', 4); c.atleast('lock primitive', 4)

def leaks_zero(f, x, e, ds, new, ent):
    db = {d.b.id for d in ds}; seen = set(); st = [(x.b.id, False)]
    while st:
        b, nz = st.pop()
        if (b, nz) in seen or (b in db and (b != x.b.id or any(d.k > x.k for d in ds if d.b.id == b))): continue
        seen.add((b, nz))
        if b == e.b.id and not nz: return True
        for t in f.blocks[b].succ:
            fs = f.edge_facts(b, t)
            st.append((t, nz or any((q[0] == 'ne' and q[1] == new and q[2] == ('c', 0)) or (q[0] == 'ne' and q[1] == ent and q[2] == ('c', 1)) for q in fs)))
    return False

def miss_dec(f, sts, ent):
    """a path entry -> exit with no decrement and no edge saying the count is zero"""
    sb = {x.b.id for x in sts}; seen = set(); st = [(0, False)]
    ex = {e.b.id for e in f.exits()}
    while st:
        b, z = st.pop()
        if (b, z) in seen or b in sb: continue
        seen.add((b, z))
        if b in ex and not z: return True
        for t in f.blocks[b].succ:
            st.append((t, z or any(q[0] == 'eq' and set(q[1:3]) == {ent, ('c', 0)} for q in f.edge_facts(b, t))))
    return False

def sibling(f, base):
    """both forward to the two variants of one further operation with the same arguments, under the same conditions"""
    for x in f.insts('call'):
        if not (x.callee or '').endswith('_s'): continue
        for y in base.calls(x.callee[:-2]):
            a = [unver(f.expr(o)) for o in x.ops]; b = [base.expr(o) for o in y.ops]
            # the base has one more argument: the key length, right after the key
            for k in range(1, len(b)):
                if b[k][0] == 'arg' and b[k - 1][0] == 'arg' and b[k][1] == b[k - 1][1] + 1:
                    L = b[k][1]
                    ren = lambda e: ('arg', e[1] - 1) if e and e[0] == 'arg' and e[1] > L else tuple(ren(t) if isinstance(t, tuple) else t for t in e)
                    b2 = [unver(ren(t)) for i, t in enumerate(b) if i != k]
                    fx = {unver(q) for q in f.facts(x.b.id)}; fy = {unver(ren(q)) for q in base.facts(y.b.id)}
                    if a == b2 and fx == fy and sorted(repr(unver(v)) for v in f_rets(f, x)) == sorted(repr(unver(v)) for v in f_rets(base, y)): return True
    return False
def f_rets(f, x): return ['R' if strip(v) == f.x(x) else v for v, _, _ in ret_cases(f)]

def check_wrappers(c):
    c.rule('every variant of a keyed operation that takes a zero-terminated key is a forwarding call to the variant with explicit length of the same operation, with the same arguments and the length of that key, and returns its result')
    n0 = 0
    m = c.mod('core', pipe='plain')
    for f in m.live():
        if not f.name.endswith('_s') or f.name[:-2] not in m.fns: continue
        base = m.fn(f.name[:-2])
        if len(base.args) != len(f.args) + 1: continue
        c.seen(f); c.ob('forwarding functions')
        cs = list(f.calls(base.name))
        if not cs:
            if sibling(f, base): continue
            o = [x.callee for x in f.insts('call') if x.callee not in ('r_strlen', 'strlen')]
            c.bad('%s:target' % f.name, f.where(), '%s forwards to %s instead of %s' % (f.name, o, base.name)); continue
        if every_path(f, cs) is not None:
            for e in f.exits():
                if every_path(f, cs, exits=[e]) is not None and not any(q[0] == 'eq' and q[2] == ('c', 0) and q[1][0] == 'arg' for q in f.facts(e.b.id)):
                    c.bad('%s:skip' % f.name, f.where(e), '%s can return without performing the operation' % f.name)
        for x in cs:
            ops = [strip(f.expr(o)) for o in x.ops]; j = 0; lens = 0
            for o in ops:
                if o[0] == 'call' and o[1] in ('r_strlen', 'strlen'):
                    lens += 1
                    k = f.expr(f.inst[o[3]].ops[0])
                    if j == 0 or k != ops[j_prev]: c.bad('%s:length' % f.name, f.where(x), '%s passes the length of %s' % (f.name, pp(k)))
                    j_prev = None; continue
                if o != ('arg', j): c.bad('%s:args' % f.name, f.where(x), '%s passes %s as argument %d of %s' % (f.name, pp(o), j, base.name))
                j_prev = ops.index(o); j += 1
            if lens != 1 or j != len(f.args): c.bad('%s:args' % f.name, f.where(x), '%s does not pass all its arguments and the key length to %s' % (f.name, base.name))
            for e in f.exits():
                if e.ops and f.idominst(x, e) and strip(f.expr(e.ops[0])) != f.x(x): c.bad('%s:result' % f.name, f.where(e), '%s does not return the result of %s' % (f.name, base.name))
    c.atleast('forwarding functions', 8)

CHECKS = {'R03': check_lists, 'R04': check_alloc, 'R05': check_refs, 'R06': check_wrappers}
