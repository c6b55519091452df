"""Boolean dataflow over loop-free functions: path conditions and single bits of
memory words as reduced decision diagrams over canonical comparison atoms."""
import ir
from ir import aslin, mklin, sublin, scale
SIGN = -(1 << 63)

class Bdd:
    def __init__(s): s.order = {}; s.names = []; s.memo = {}; s.nodes = {}
    def var(s, a):
        if a not in s.order: s.order[a] = len(s.names); s.names.append(a)
        return s.mk(s.order[a], False, True)
    def mk(s, v, lo, hi):
        if lo is hi or lo == hi: return lo
        return s.nodes.setdefault((v, lo, hi), (v, lo, hi))
    def ite(s, f, g, h):
        if f is True: return g
        if f is False: return h
        if g is True and h is False: return f
        if g == h: return g
        k = (f, g, h)
        r = s.memo.get(k)
        if r is None:
            v = min(x[0] for x in (f, g, h) if isinstance(x, tuple))
            c = lambda x, i: x[1 + i] if isinstance(x, tuple) and x[0] == v else x
            r = s.mk(v, s.ite(c(f, 0), c(g, 0), c(h, 0)), s.ite(c(f, 1), c(g, 1), c(h, 1)))
            s.memo[k] = r
        return r
    def NOT(s, f): return s.ite(f, False, True)
    def AND(s, *fs):
        r = True
        for f in fs: r = s.ite(r, f, False)
        return r
    def OR(s, *fs):
        r = False
        for f in fs: r = s.ite(r, True, f)
        return r
    def XOR(s, f, g): return s.ite(f, s.NOT(g), g)
    def support(s, f, acc=None):
        acc = set() if acc is None else acc
        if isinstance(f, tuple):
            acc.add(s.names[f[0]]); s.support(f[1], acc); s.support(f[2], acc)
        return acc
    def show(s, f):
        if f is True: return '1'
        if f is False: return '0'
        return '(%s ? %s : %s)' % (ir.pp(s.names[f[0]]), s.show(f[2]), s.show(f[1]))

def fn_off(a):
    o = 0
    while a[0] == 'fld': o += a[4]; a = a[1]
    return o

class Flow:
    dead = ()
    """status bits: word(location) tracked bitwise for the given memory address"""
    def __init__(s, fn, bdd=None, loc=None, cls=None, nbits=5, tag='S'):
        s.fn = fn; s.b = bdd or Bdd(); s.loc = loc; s.cls = cls; s.nb = nbits; s.tag = tag
        s.rc = {}
        s.bitmemo = {}
        back = [(p, b.id) for b in fn.blocks if fn.reachable(b.id) for p in b.pred if fn.reachable(p) and fn.dom(b.id, p)]
        s.loopfree = not back; s.heads = {b for _, b in back}
        s.reachconds()
    # canonical atoms ------------------------------------------------------
    def cmp(s, p, a, b):
        B = s.b
        if p in ('ne',): return B.NOT(s.cmp('eq', a, b))
        if p == 'ugt': return s.cmp('ult', b, a)
        if p == 'uge': return B.NOT(s.cmp('ult', a, b))
        if p == 'ule': return B.NOT(s.cmp('ult', b, a))
        if p == 'sgt': return s.cmp('slt', b, a)
        if p == 'sge': return B.NOT(s.cmp('slt', a, b))
        if p == 'sle': return B.NOT(s.cmp('slt', b, a))
        for e, w in ((a, lambda q: s.cmp(p, q, b)), (b, lambda q: s.cmp(p, a, q))):
            if s.mergeable(e): return s.expand(e, w)
        if a[0] == 'c' and b[0] == 'c':
            M = (1 << 64) - 1
            return {'eq': a[1] == b[1], 'ult': (a[1] & M) < (b[1] & M), 'slt': a[1] < b[1]}[p]
        if p == 'eq':
            x, y = s.single(a), s.single(b)
            if x is not None and y is not None:
                # both are a single bit in the same position, or zero
                if x[0] == y[0] or x[1] is False or y[1] is False or True:
                    if x[0] == y[0] or x[1] is False or y[1] is False:
                        return B.NOT(B.XOR(x[1], y[1]))
            d = mklin(*sublin(aslin(a), aslin(b))); n = mklin(*scale(sublin(aslin(a), aslin(b)), -1))
            if d[0] == 'c': return d[1] == 0
            if a[0] == 'xor' and b == ('c', 0): return s.cmp('eq', a[1], a[2])
            if d[0] == 'lin':
                for t, k in d[2]:
                    if t[0] == 'sel' or s.merge(t):
                        rest = sublin(aslin(d), scale(aslin(t), k))
                        return s.expand(t, lambda v: s.cmp('eq', mklin(*ir.addlin(rest, scale(aslin(v), k))), ('c', 0)))
            d = min(d, n, key=repr)
            return B.var(('eq0', d))
        if p == 'ult':
            if a == b: return False
            if b == ('c', 1): return s.cmp('eq', a, ('c', 0))
            if b == ('c', 0): return False
            if a == ('c', 0): return B.NOT(s.cmp('eq', b, ('c', 0)))
            return B.var(('ult', a, b))
        if p == 'slt':
            if b == ('c', 0): return s.neg(a)
            if a == ('c', -1): return B.NOT(s.neg(b))
            if a == b: return False
            return B.var(('slt', a, b))
        return B.var((p, a, b))
    def mergeable(s, e): return e[0] == 'sel' and s.single(e) is None or s.merge(e)
    def merge(s, e):
        """a phi that merges alternatives (not a loop variable, which stays opaque)"""
        return e[0] == 'phi' and e[1] == s.fn.name and (s.loopfree or s.fn.inst[e[2]].b.id not in s.heads)
    def expand(s, e, w):
        """truth of w over the alternatives of a merge, under the conditions that select them"""
        B = s.b
        if e[0] == 'sel': return B.ite(s.boolx(e[1]), w(s.strip(e[2])), w(s.strip(e[3])))
        r = False; x = s.fn.inst[e[2]]
        for (o, b) in x.ops:
            if s.fn.reachable(b): r = B.OR(r, B.AND(s.edgecond(b, x.b.id), w(s.strip(s.fn.expr(o)))))
        return r
    def neg(s, a):
        if a[0] == 'c': return a[1] < 0
        if s.mergeable(a): return s.expand(a, s.neg)
        q = s.single(a)
        if q is not None: return q[1] if q[0] == 63 else False
        if a[0] in ('xor', 'and', 'or'):
            x, y = s.neg(a[1]), s.neg(a[2])
            return {'xor': s.b.XOR, 'and': s.b.AND, 'or': s.b.OR}[a[0]](x, y)
        return s.b.var(('neg', a))
    def single(s, e):
        """expression known to be either 0 or one fixed bit: (bit, bdd)"""
        if e[0] == 'c':
            if e[1] == 0: return (None, False)
            v = e[1] & ((1 << 64) - 1)
            if v & (v - 1) == 0: return (v.bit_length() - 1, True)
            return None
        if e[0] == 'zx' and e[1] == 'i1': return (0, s.boolx(e[2]))
        if e[0] == 'and':
            for c, x in ((e[1], e[2]), (e[2], e[1])):
                if c[0] == 'c':
                    v = c[1] & ((1 << 64) - 1)
                    if v and v & (v - 1) == 0:
                        k = v.bit_length() - 1
                        return (k, s.xbit(x, k))
        if e[0] == 'lshr' and e[2] == ('c', 63): return (0, s.neg(s.strip(e[1])))
        if e[0] == 'sel':
            x, y = s.single(e[2]), s.single(e[3])
            if x and y and (x[0] == y[0] or x[1] is False or y[1] is False):
                return (x[0] if x[0] is not None else y[0], s.b.ite(s.boolx(e[1]), x[1], y[1]))
        return None
    def xbit(s, e, k):
        B = s.b
        if e[0] == 'c': return bool((e[1] >> k) & 1)
        if e[0] in ('and', 'or', 'xor'):
            return {'xor': B.XOR, 'and': B.AND, 'or': B.OR}[e[0]](s.xbit(e[1], k), s.xbit(e[2], k))
        if e[0] == 'lin' and e[1] == -1 and len(e[2]) == 1 and e[2][0][1] == -1:  # ~x
            return B.NOT(s.xbit(e[2][0][0], k))
        if e[0] == 'zx' and e[1] == 'i1': return s.boolx(e[2]) if k == 0 else False
        if e[0] == 'zx' and e[1] in ('i8', 'i16'): return s.xbit(e[2], k) if k < int(e[1][1:]) else False
        if e[0] == 'trunc' and e[1][1:].isdigit() and k < int(e[1][1:]): return s.xbit(e[2], k)
        if e[0] == 'sel': return B.ite(s.boolx(e[1]), s.xbit(e[2], k), s.xbit(e[3], k))
        if e[0] == 'lin' and e[1] == 0 and len(e[2]) == 1 and e[2][0][1] > 0 and e[2][0][1] & (e[2][0][1] - 1) == 0:
            sh = e[2][0][1].bit_length() - 1
            return s.xbit(e[2][0][0], k - sh) if k >= sh else False
        if e[0] == 'lshr' and e[2][0] == 'c': return s.xbit(e[1], k + e[2][1]) if k + e[2][1] < 64 else False
        if s.merge(e):
            key = (e, k)
            if key in s.bitmemo: return s.bitmemo[key]
            r = False; x = s.fn.inst[e[2]]; tot = s.rc[x.b.id]
            for (o, b) in x.ops:
                if not s.fn.reachable(b): continue
                r = B.OR(r, B.AND(s.edgecond(b, x.b.id), s.xbit(s.fn.expr(o), k)))
            s.bitmemo[key] = r
            return r
        if e[0] == 'ld' and s.loc is not None and e[1] == s.loc:
            if e[2] == ('entry',): return B.var(('bit', s.tag, k))
            v = e[2][1:]
            if v[0] == 'phi' and v[1] not in s.heads:
                r = False
                for p in s.fn.blocks[v[1]].pred:
                    if not s.fn.reachable(p): continue
                    r = B.OR(r, B.AND(s.edgecond(p, v[1]), s.bit_exit(p, k)))
                return r
            if v[0] == 'def' and s.fn.inst[v[1]].iscall: return s.bit_ver(v, k)
        if k == 63: return s.neg(s.strip(e))
        return B.var(('bitof', e, k))
    def boolx(s, e):
        """truth of an i1 expression"""
        B = s.b
        if e[0] == 'c': return bool(e[1] & 1)
        if e[0] == 'cmp': return s.cmp(e[1], s.strip(e[2]), s.strip(e[3]))
        if e[0] in ('and', 'or', 'xor'):
            return {'xor': B.XOR, 'and': B.AND, 'or': B.OR}[e[0]](s.boolx(e[1]), s.boolx(e[2]))
        if e[0] == 'sel': return B.ite(s.boolx(e[1]), s.boolx(e[2]), s.boolx(e[3]))
        if e[0] == 'zx' and e[1] == 'i1': return s.boolx(e[2])
        if e[0] == 'trunc': return s.xbit(e[2], 0)
        if s.merge(e):
            r = False; x = s.fn.inst[e[2]]
            for (o, b) in x.ops:
                if not s.fn.reachable(b): continue
                r = B.OR(r, B.AND(s.edgecond(b, x.b.id), s.boolx(s.fn.expr(o))))
            return r
        return B.var(('true', e))
    def strip(s, e):
        return e
    def theory(s, *fs):
        """exactly one of a<b, a==b, a>b (unsigned) for the compared pairs of the formulas"""
        B = s.b; sup = set()
        for f in fs: B.support(f, sup)
        pairs = {frozenset((v[1], v[2])) for v in sup if v[0] == 'ult'}
        T = True
        for p in pairs:
            if len(p) != 2: continue
            a, b = sorted(p, key=repr)
            lt, gt, eq = s.cmp('ult', a, b), s.cmp('ult', b, a), s.cmp('eq', a, b)
            T = B.AND(T, B.OR(lt, gt, eq), B.NOT(B.AND(lt, gt)), B.NOT(B.AND(lt, eq)), B.NOT(B.AND(gt, eq)))
        return T
    def equiv(s, f, g):
        if f == g: return True
        T = s.theory(f, g)
        return s.b.AND(T, f) == s.b.AND(T, g)
    # path conditions ------------------------------------------------------
    def edgecond(s, a, b):
        return s.b.AND(s.rc.get(a, False), s.edgelocal(a, b))
    def edgelocal(s, a, b):
        t = s.fn.blocks[a].insts[-1]; B = s.b
        if t.op == 'br' and len(t.ops) == 3:
            fb, tb = t.ops[1][1], t.ops[2][1]
            if fb == tb: return True
            c = s.boolx(s.fn.expr(t.ops[0]))
            return c if b == tb else B.NOT(c)
        if t.op == 'switch':
            e = s.fn.expr(t.ops[0]); r = False; alle = False
            for c, d in t.d['cases']:
                q = s.cmp('eq', e, ('c', c))
                # distinct case values exclude each other
                alle = B.OR(alle, q)
                if d == b: r = B.OR(r, q)
            if t.d['def'] == b: r = B.OR(r, B.NOT(alle))
            return r
        return True
    def reachconds(s):
        fn = s.fn; B = s.b
        s.rc = {0: True}
        for b in fn.rpo():
            if b == 0: continue
            r = False
            for p in fn.blocks[b].pred:
                if not fn.reachable(p) or fn.dom(b, p): continue
                r = B.OR(r, s.edgecond(p, b))
            s.rc[b] = False if b in s.dead else r
    # word bits ------------------------------------------------------------
    def bit_exit(s, bid, k):
        """bit k of the tracked word at the end of block bid"""
        fn = s.fn
        v = fn.ver_exit(s.cls, bid)
        return s.bit_ver(v, k)
    def bit_ver(s, v, k):
        fn = s.fn; B = s.b
        if v == ('entry',): return B.var(('bit', s.tag, k))
        if v[0] == 'def':
            y = fn.inst[v[1]]
            if y.op == 'store' and fn.expr(y.ops[1]) == s.loc:
                return s.xbit(fn.expr(y.ops[0]), k)
            if y.op == 'store' and fn.m.noalias(fn, fn.expr(y.ops[1]), s.loc):
                return s.bit_ver(fn.ver_before(s.cls, y), k)
            if y.iscall and (y.callee in ('r_memset', 'memset') or (y.callee or '').startswith('llvm.memset')):
                d = fn.expr(y.ops[0])
                if fn.m.root(s.loc) == d and fn.expr(y.ops[1]) == ('c', 0) and fn.expr(y.ops[2])[0] == 'c' and fn.expr(y.ops[2])[1] > fn_off(s.loc): return False
            return B.var(('havoc', y.i, k))
        if v[0] == 'phi' and v[1] in s.heads: return B.var(('havoc', v[1], k))
        if v[0] == 'phi':
            key = ('v', v, k)
            if key in s.bitmemo: return s.bitmemo[key]
            r = False
            for p in fn.blocks[v[1]].pred:
                if not fn.reachable(p): continue
                r = B.OR(r, B.AND(s.edgecond(p, v[1]), s.bit_exit(p, k)))
            s.bitmemo[key] = r
            return r
    def memtruth(s, addr, cls, x, w, may=False):
        """truth of w over the value of a location just before instruction x, per reaching store; w(None): unchanged since entry;
        may: a store that might hit the location must also satisfy w (sound only where truth is required, not refuted)"""
        memo = {}
        def ver(v):
            if v in memo: return memo[v]
            fn = s.fn; B = s.b
            if v == ('entry',): r = w(None)
            elif v[0] == 'def':
                y = fn.inst[v[1]]
                if y.op == 'store' and fn.expr(y.ops[1]) == addr: r = w(fn.expr(y.ops[0]))
                elif y.op == 'store' and fn.m.noalias(fn, fn.expr(y.ops[1]), addr) or y.iscall and fn.m.call_noalias(fn, y, addr, cls): r = ver(fn.ver_before(cls, y))
                elif may and y.op == 'store': r = B.AND(w(fn.expr(y.ops[0])), ver(fn.ver_before(cls, y)))
                else: r = B.var(('havocw', y.i, addr))
            elif v[1] in s.heads: r = B.var(('havocw', v[1], addr))
            else:
                r = False
                for p in fn.blocks[v[1]].pred:
                    if fn.reachable(p): r = B.OR(r, B.AND(s.edgecond(p, v[1]), ver(fn.ver_exit(cls, p))))
            memo[v] = r
            return r
        return ver(s.fn.ver_before(cls, x))
    def final_bits(s):
        """bits at normal return, under the return condition"""
        ex = s.fn.exits(); out = {}
        tot = False
        for x in ex: tot = s.b.OR(tot, s.rc[x.b.id])
        for k in range(s.nb):
            r = False
            for x in ex: r = s.b.OR(r, s.b.AND(s.rc[x.b.id], s.bit_ver(s.fn.ver_before(s.cls, x), k)))
            out[k] = r
        return out, tot
