"""Canonical view of a function: every effect with the loops it runs in (ranges of their counters) and the
condition under which it runs, with memory versions, casts and the ways of writing a container access removed."""
import ir
from ir import pp, mklin, aslin, sublin, addlin, scale, Prover
from flow import Flow, Bdd
from common import headers, loop_blocks, delta, via_facts

LOADARR = 'rarray_s'

class RelFlow(Flow):
    """conditions of the ways into a merge, relative to the point that decides between them"""
    def reachconds(s): s.rc = {}; s._rel = {}
    def edgecond(s, a, b):
        f = s.fn; top = f.idom(b)
        if top is None or a == top: return s.edgelocal(a, b)
        key = (b, top)
        cond = s._rel.get(key)
        if cond is None:
            cond = {top: True}; s._rel[key] = cond
            for q in f.rpo():
                if q == top or not f.reachable(q) or not f.dom(top, q): continue
                if q == b: break
                r = False
                for p in f.blocks[q].pred:
                    if not f.reachable(p) or p not in cond or f.dom(q, p): continue
                    r = s.b.OR(r, s.b.AND(cond[p], s.edgelocal(p, q)))
                cond[q] = r
        return s.b.AND(cond.get(a, False), s.edgelocal(a, b))

class Nest:
    def __init__(s, f, bdd=None, subst=None):
        s.f = f; s.fl = RelFlow(f); s.b = bdd or Bdd(); s.subst = dict(subst or {})
        s._loops = {}; s._env = {}; s._memo = {}; s._busy = set()
    # ---- loops -----------------------------------------------------------
    def loops_of(s, bid):
        return sorted([h for h in headers(s.f) if bid in loop_blocks(s.f, h)], key=lambda h: -len(loop_blocks(s.f, h)))
    def loop(s, h):
        """(counter phi, shift, lo, hi, exits) of a counted loop: canonical index = counter + shift runs over [lo,hi)"""
        if h in s._loops: return s._loops[h]
        f = s.f; L = loop_blocks(f, h); backs = headers(f)[h]; best = None
        exits = [(a, b) for a in L for b in f.blocks[a].succ if b not in L and not s.dead(b)]
        for x in f.blocks[h].insts:
            if x.op != 'phi': break
            p = ('phi', f.name, x.i)
            ini = {f.expr(o) for o, b in x.ops if f.reachable(b) and b not in backs}
            ds = {delta(f, f.expr(o), p, L) for o, b in x.ops if b in backs}
            if len(ini) != 1 or len(ds) != 1: continue
            ini = next(iter(ini)); d = next(iter(ds))
            if d == (1, 1):
                for (a, b) in exits:
                    for q in f.edge_facts(a, b):
                        for u, v, ps in ((q[1], q[2], ('uge', 'sge', 'eq')), (q[2], q[1], ('ule', 'sle', 'eq'))) if len(q) == 3 else ():
                            if q[0] not in ps: continue
                            k = mklin(*sublin(aslin(u), aslin(p)))
                            if k == ('c', 0) and a == h: best = (p, 0, ini, v, (a, b)); break
                            if k == ('c', 1) and a in backs: best = (p, 0, ini, v, (a, b)); break
            elif d == (-1, -1):
                for (a, b) in exits:
                    for q in f.edge_facts(a, b):
                        if len(q) != 3: continue
                        for u, v, ps in ((q[1], q[2], ('ule', 'sle', 'eq')), (q[2], q[1], ('uge', 'sge', 'eq'))):
                            if q[0] in ps and u == p and a == h: best = (p, -1, v, ini, (a, b))
                        if q[0] == 'slt' and q[1] == p and q[2] == ('c', 0) and a == h: best = (p, 0, ('c', 0), mklin(*addlin(aslin(ini), (1, ()))), (a, b))
            if best: break
        r = None
        if best: r = best[:4] + ([e for e in exits if e != best[4]],)
        s._loops[h] = r
        return r
    def dead(s, b):
        f = s.f
        for _ in range(4):
            t = f.blocks[b].insts[-1] if f.blocks[b].insts else None
            if t is not None and t.op == 'unreachable': return True
            if len(f.blocks[b].succ) != 1: return False
            b = f.blocks[b].succ[0]
        return False
    # ---- canonical expressions --------------------------------------------
    def env(s, bid):
        r = s._env.get(bid)
        if r is None:
            r = {}; k = 0
            for h in s.loops_of(bid):
                l = s.loop(h)
                if l is not None:
                    p, sh, lo, hi, ex = l
                    r[p] = mklin(*addlin((-sh, ()), ((0, ((('ix', k), 1),)))))
                    for x in s.f.blocks[h].insts:      # companions stepping along
                        if x.op != 'phi': break
                        q = ('phi', s.f.name, x.i)
                        if q == p: continue
                        backs = headers(s.f)[h]
                        ini = {s.f.expr(o) for o, b in x.ops if s.f.reachable(b) and b not in backs}
                        ds = {delta(s.f, s.f.expr(o), q, loop_blocks(s.f, h)) for o, b in x.ops if b in backs}
                        if len(ini) == 1 and ds == {(1, 1)} and sh == 0:
                            i0 = next(iter(ini))
                            if mklin(*sublin(aslin(i0), aslin(lo))) == ('c', 0): r[q] = ('ix', k)
                k += 1
            s._env[bid] = r
        return r
    def canon(s, e, bid):
        return s._c(e, s.env(bid), bid)
    def _c(s, e, env, bid):
        if not isinstance(e, tuple): return e
        key = (e, bid)
        r = s._memo.get(key)
        if r is not None: return r
        if key in s._busy: return ('rec',)
        s._busy.add(key)
        try: r = s._c1(e, env, bid)
        finally: s._busy.discard(key)
        if r in s.subst: r = s.subst[r]
        s._memo[key] = r
        return r
    def _c1(s, e, env, bid):
        f = s.f; C = lambda q: s._c(q, env, bid)
        k = e[0]
        if e in env: return env[e]
        if k == 'ld':
            a = C(e[1])
            if a[0] != '&':
                c = f.m.addr_class(f, e[1])
                if c and len(c) == 2 and c[0] in f.m.structs: return ('F', a, c[1])
            return s.deref(a)
        if k == 'fld': return ('&', C(e[1]), e[3])
        if k == 'idx':
            b = C(e[1]); off = mklin(*scale(aslin(C(e[2])), 1))
            if b[0] == 'F' and b[2] == 'data':
                n = s.quot(off if e[3] == 1 else None, ('F', b[1], 'elt_size'))
                if n is not None: return ('el', b[1], n)
            return ('at', b, off)
        if k == 'lin':
            l = (e[1], ())
            for t, c in e[2]: l = addlin(l, scale(aslin(C(t)), c))
            return mklin(*l)
        if k == 'mul':
            r = C(e[1])
            for t in e[2:]: r = f.m.arith('mul', r, C(t))
            return r
        if k == 'pend': 
            q = f.expr(['v', e[2]])
            return C(q) if q != e else e
        if k == 'trunc' and e[1] in ('i8', 'i16'): return (k, e[1], C(e[2]))
        if k in ('trunc', 'zx'): return C(e[2])
        if k == 'sext1': return C(e[1])
        if k == 'phi' and e[1] == f.name:
            x = f.inst[e[2]]
            if x.b.id in headers(f): return e
            vs = []
            for o, b in x.ops:
                if not f.reachable(b) or ('false',) in f.facts(b) or ('false',) in f.edge_facts(b, x.b.id): continue
                q = C(f.expr(o))
                if q not in vs: vs.append(q)
            if len(vs) == 2 and ('c', 0) in vs and x.t == 'ptr': vs.remove(('c', 0))
            return vs[0] if len(vs) == 1 else e
        if k == 'call' and e[2] == f.name:
            x = f.inst[e[3]]
            return ('call', e[1]) + tuple(s._c(f.expr(o), s.env(x.b.id), x.b.id) for o in x.ops)
        if k == 'alloca': return ('local', e[2])
        if k in ('arg', 'c', 'g', 'undef', 'd'): return e
        return (k,) + tuple(C(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else t for t in e[1:])
    @staticmethod
    def deref(a):
        if a[0] == '&': return ('F', a[1], a[2])
        return ('D', a)
    def quot(s, off, q):
        if off is None: return None
        if off == ('c', 0): return off
        l = aslin(off); c = 0; ts = []
        if l[0]: return None
        for t, k in l[1]:
            if t == q: c += k
            elif t[0] == 'mul' and q in t[1:]:
                r = list(t[1:]); r.remove(q)
                ts.append((r[0] if len(r) == 1 else ('mul',) + tuple(r), k))
            else: return None
        return mklin(c, tuple(sorted(ts, key=repr)))
    # ---- conditions ----------------------------------------------------------
    def recanon(s, g, bid):
        B = s.b
        memo = {}
        def go(n):
            if n is True or n is False: return n
            r = memo.get(n)
            if r is None:
                r = B.ite(s.atom(s.fl.b.names[n[0]], bid), go(n[2]), go(n[1])); memo[n] = r
            return r
        return go(g)
    def atom(s, a, bid):
        C = lambda e: s.canon(e, bid)
        if a[0] == 'eq0': return s.eq(C(a[1]), ('c', 0))
        if a[0] == 'neg': return s.slt(C(a[1]), ('c', 0))
        if a[0] == 'ult': return s.ult(C(a[1]), C(a[2]))
        if a[0] == 'slt': return s.slt(C(a[1]), C(a[2]))
        return s.b.var(tuple(C(t) if isinstance(t, tuple) else t for t in a))
    def eq(s, a, b):
        d = mklin(*sublin(aslin(a), aslin(b))); n = mklin(*scale(sublin(aslin(a), aslin(b)), -1))
        if d[0] == 'c': return d[1] == 0
        return s.b.var(('eq0', min(d, n, key=repr)))
    def ult(s, a, b):
        if a == b or b == ('c', 0): return False
        if b == ('c', 1): return s.eq(a, ('c', 0))
        if a == ('c', 0): return s.b.NOT(s.eq(b, ('c', 0)))
        return s.b.var(('ult', a, b))
    def slt(s, a, b):
        if a[0] == 'c' and b[0] == 'c': return a[1] < b[1]
        if a == b: return False
        if a == ('c', -1): return s.b.NOT(s.slt(b, ('c', 0)))
        return s.b.var(('slt', a, b))
    def guard(s, x, start=None):
        """condition of x within one round of all its loops"""
        return s.guard_block(x.b.id, start)
    def guard_block(s, bid, start=None):
        f = s.f; B = s.b
        mine = set(s.loops_of(bid)); st = start if start is not None else 0
        cond = {st: True}
        for b in f.rpo():
            if b == st or not f.reachable(b): continue
            r = False
            for p in f.blocks[b].pred:
                if not f.reachable(p) or p not in cond or f.dom(b, p): continue
                r = B.OR(r, B.AND(cond[p], s.edge(p, b, mine, bid)))
            if r is not False: cond[b] = r
            if b == bid: break
        return cond.get(bid, False)
    def lguard(s, x):
        """condition of x within one round of its innermost loop (the whole function outside of loops)"""
        hs = s.loops_of(x.b.id)
        return s.guard_block(x.b.id, hs[-1] if hs else None)
    def edge(s, a, b, mine, bid):
        f = s.f
        for t in f.blocks[a].succ:
            if t != b and s.dead(t): return True
        for h in headers(f):
            L = loop_blocks(f, h)
            if a not in L: continue
            l = s.loop(h)
            if h in mine:
                if l is not None and b in L and any(t not in L and (a, t) not in l[4] for t in f.blocks[a].succ): return True
            elif b not in L and l is not None and (a, b) not in l[4]: return True
        return s.recanon(s.fl.edgelocal(a, b), bid)
    # ---- effects ---------------------------------------------------------------
    def where_(s, x):
        return [s.loop(h) for h in s.loops_of(x.b.id)]
    def nest(s, x):
        """ranges of the loops around x, outermost first: ('for', lo, hi) with canonical bounds, or ('loop',)"""
        out = []
        hs = s.loops_of(x.b.id)
        for k, h in enumerate(hs):
            l = s.loop(h)
            if l is None: out.append(('loop',)); continue
            p, sh, lo, hi, ex = l
            out.append(('for', s.canon(lo, h), s.canon(hi, h)))
        return tuple(out)
    def complete(s, x):
        """no way out of the loops around x before their counters reach the end"""
        for h in s.loops_of(x.b.id):
            l = s.loop(h)
            if l is None or l[4]: return False
        return True
    def addr(s, x):
        """canonical location of a store/load, with the field of the access"""
        o = x.ops[1] if x.op == 'store' else x.ops[0]
        e = s.canon(s.f.expr(o), x.b.id)
        if e[0] != '&':
            c = s.f.cls(x)
            if c and len(c) == 2 and c[0] in s.f.m.structs: return ('&', e, c[1])
        return e
    def val(s, x): return s.canon(s.f.expr(x.ops[0]), x.b.id)
    def effects(s, *kinds):
        for b in s.f.rpo():
            for x in s.f.blocks[b].insts:
                if x.op == 'store' or x.iscall:
                    if x.iscall and (x.callee or '').startswith('llvm.lifetime') or (x.callee or '').startswith('llvm.dbg'): continue
                    yield x
    def show(s, x):
        t = ' '.join('for[%s,%s)' % (cp(l[1]), cp(l[2])) if l[0] == 'for' else 'loop' for l in s.nest(x))
        g = s.b.show2(s.guard(x)) if hasattr(s.b, 'show2') else bshow(s.b, s.guard(x))
        if x.op == 'store': return '%s | %s | %s = %s' % (t, g, cp(s.addr(x)), cp(s.val(x)))
        return '%s | %s | %s(%s)' % (t, g, x.callee, ', '.join(cp(s.canon(s.f.expr(o), x.b.id)) for o in x.ops))

def loop_paths(f, h, limit=400):
    """acyclic ways through one round of the loop h: (end, blocks, facts, value) with end ('back', b) or ('exit', a, b);
    value(o) resolves an operand along the way"""
    L = loop_blocks(f, h); out = []
    st = [(h,)]
    while st:
        path = st.pop()
        b = path[-1]
        for t in f.blocks[b].succ:
            if not f.reachable(t) or ('false',) in f.edge_facts(b, t): continue
            if t == h: out.append((('back', b), path))
            elif t not in L: out.append((('exit', b, t), path))
            elif t not in path: st.append(path + (t,))
        if len(out) > limit: break
    res = []
    for end, path in out:
        facts = []
        nx = path[1:] + (h if end[0] == 'back' else end[2],)
        for a, b in zip(path, nx): facts += via_facts(f, pred_on(path, a), a, b)
        if ('false',) in facts: continue
        res.append((end, path, facts, resolver(f, path, h)))
    return res

def pred_on(path, b):
    k = path.index(b)
    return path[k - 1] if k else None

def resolver(f, path, h):
    """operand -> expression with the merges met on the way replaced by the value of this way"""
    def val(o, at=None):
        e = f.expr(o) if isinstance(o, list) else o
        for _ in range(8):
            if e[0] != 'phi' or e[1] != f.name: break
            x = f.inst[e[2]]
            if x.b.id == h or x.b.id not in path: break
            p = pred_on(path, x.b.id)
            o2 = [q for q, b in x.ops if b == p]
            if not o2: break
            e = f.expr(o2[0])
        if e[0] == 'lin':
            l = (e[1], ())
            for t, c in e[2]: l = addlin(l, scale(aslin(val(t)), c))
            e = mklin(*l)
        return e
    return val

def bsearch(N, h):
    """the loop h narrows [min,max) by comparing the key of an element with a value: returns a dict with
    min, max (phis), cmp: list of (element index is mid) facts, or None when the loop is no such search.
    errors: list of texts"""
    f = N.f; backs = headers(f)[h]
    ph = [x for x in f.blocks[h].insts if x.op == 'phi' and x.t in ('i64', 'i32')]
    paths = loop_paths(f, h)
    if len(ph) < 1 or not paths: return None
    for mn in ph:
        for mx in ph:
            if mn is mx: continue
            pm, px = ('phi', f.name, mn.i), ('phi', f.name, mx.i)
            mids = set()
            for y in f.insts():
                if y.b.id in loop_blocks(f, h):
                    e = f.x(y) if y.op not in ('store', 'br', 'ret', 'switch') else None
                    if e is not None and ismid(e, pm, px): mids.add(e)
            if not mids or {f.expr(o) for o, b in mn.ops if f.reachable(b) and b not in backs} != {('c', 0)}: continue
            return {'min': pm, 'max': px, 'mids': mids, 'paths': paths, 'h': h,
                    'init': ({f.expr(o) for o, b in mn.ops if f.reachable(b) and b not in backs}, {f.expr(o) for o, b in mx.ops if f.reachable(b) and b not in backs}),
                    'minx': mn, 'maxx': mx}
    return None

def ismid(e, a, b):
    s = mklin(*addlin(aslin(a), aslin(b)))
    if e[0] in ('udiv', 'sdiv') and e[2] == ('c', 2) and e[1] == s: return True
    if e[0] in ('lshr', 'ashr') and e[2] == ('c', 1) and e[1] == s: return True
    d = mklin(*sublin(aslin(b), aslin(a)))
    if e[0] == 'lin':
        r = mklin(*sublin(aslin(e), aslin(a)))
        return r[0] in ('udiv', 'sdiv') and r[2] == ('c', 2) and r[1] == d or r[0] in ('lshr', 'ashr') and r[2] == ('c', 1) and r[1] == d
    return False

def bsearch_law(N, S, elem, key):
    """errors of the search S for the position behind the last element whose key is not above the value:
    elem(mid canonical) -> canonical key of an element; key: canonical value searched.
    An element equal to the value may also end the search (duplicates not inserted) -- reported in 'dups'."""
    f = N.f; err = []; dups = []
    for end, path, facts, val in S['paths']:
        b = path[-1]
        if end[0] == 'back':
            if not any(q[0] == 'ne' and {q[1], q[2]} == {S['min'], S['max']} for q in facts) and not Prover(f, facts).le(mklin(*addlin(aslin(S['min']), (1, ()))), S['max']): err.append('looks at an element although nothing is left')
            n0 = val([o for o, q in S['minx'].ops if q == end[1]][0]); x0 = val([o for o, q in S['maxx'].ops if q == end[1]][0])
            C = lambda e: N.canon(e, b)
            ups = [m for m in S['mids'] if n0 == mklin(*addlin(aslin(m), (1, ()))) and x0 == S['max']]
            dns = [m for m in S['mids'] if x0 == m and n0 == S['min']]
            cf = [(q[0], C(q[1]), C(q[2])) for q in facts if len(q) == 3]
            if ups:
                k = elem(C(ups[0]))
                if not holds(cf, 'le', k, key): err.append('passes an element without knowing that it is not above the value')
            elif dns:
                k = elem(C(dns[0]))
                if not holds(cf, 'lt', key, k): err.append('gives up the upper part without knowing that it is above the value')
            else: err.append('does not narrow the range by the element in the middle')
        else:
            C = lambda e: N.canon(e, b)
            if end[1] == S['h']: continue
            cf = [(q[0], C(q[1]), C(q[2])) for q in facts if len(q) == 3]
            if any(holds(cf, 'eq', elem(C(m)), key) for m in S['mids']): dups.append(end)
            else: err.append('leaves the search early')
    # the search goes on while something is left
    ok = False
    for end, path, facts, val in S['paths']:
        if end[0] == 'exit' and end[1] == S['h']:
            P = Prover(f, facts)
            ok = P.le(S['max'], S['min'])
            if not ok: err.append('ends before the range is empty')
    if not ok and not err: err.append('ends before the range is empty')
    return err, dups

def holds(fs, rel, a, b):
    """a rel b among canonical facts (signed or unsigned alike)"""
    for p, x, y in fs:
        p = p.lstrip('us') if p not in ('eq', 'ne') else p
        for (q, u, v) in ((p, x, y), ({'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p), y, x)):
            if u == a and v == b:
                if q == rel or rel == 'le' and q in ('lt', 'eq') or rel == 'lt' and q == 'lt': return True
    return False

def bshow(B, f):
    if f is True: return '1'
    if f is False: return '0'
    n = B.names[f[0]]; a = '%s(%s)' % (n[0], ','.join(cp(t) for t in n[1:]))
    if f[1] is False and f[2] is True: return a
    if f[1] is True and f[2] is False: return '!' + a
    if f[1] is False: return a + '&' + bshow(B, f[2])
    if f[2] is False: return '!' + a + '&' + bshow(B, f[1])
    return '(%s?%s:%s)' % (a, bshow(B, f[2]), bshow(B, f[1]))

def cp(e):
    if not isinstance(e, tuple) or not e: return str(e)
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'arg': return 'a%d' % e[1]
    if k == 'F': return '%s.%s' % (cp(e[1]), e[2])
    if k == '&': return '&%s.%s' % (cp(e[1]), e[2])
    if k == 'D': return '*%s' % cp(e[1])
    if k == 'el': return '%s{%s}' % (cp(e[1]), cp(e[2]))
    if k == 'at': return '%s[%s]' % (cp(e[1]), cp(e[2]))
    if k == 'ix': return 'ijklmn'[e[1]]
    if k == 'lin': return '(' + '+'.join(([str(e[1])] if e[1] else []) + [('%s' % cp(t)) if c == 1 else '%d*%s' % (c, cp(t)) for t, c in e[2]]) + ')'
    if k == 'phi': return 'phi%d' % e[2]
    if k == 'g': return '@' + e[1]
    if k == 'call': return '%s(%s)' % (e[1], ','.join(cp(t) for t in e[2:]))
    if k == 'local': return 'L%s' % e[1]
    return '%s(%s)' % (k, ','.join(cp(t) for t in e[1:]))

if __name__ == '__main__':
    import sys, os
    m = ir.module(os.environ.get('G', 'core'), pipe=os.environ.get('PIPE', 'plain'), unbound=tuple(os.environ.get('UB', '').split()))
    for n in sys.argv[1:]:
        f = m.fn(n); N = Nest(f); print('==', n)
        for x in N.effects(): print('  ', (x.l[0] if x.l else ''), N.show(x))
        for x in f.exits():
            if x.ops: print('   ret', cp(N.canon(f.expr(x.ops[0]), x.b.id)))
