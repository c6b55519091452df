"""Trace-partitioned abstract interpretation of small functions.

Abstract values are linear forms over the bits of named unknowns (modulo the width of the type), refined by
known bits and intervals.  Control flow is split at every undecided comparison.  There is no solver and no
concrete input: a trace stands for all inputs that satisfy its constraints.
"""
import ir
from fe import AnalysisBroken

class TooMany(Exception): pass
class Stop(Exception):
    def __init__(s, why): s.why = why

def W(t):
    if t == 'ptr': return 64
    try: return int(t[1:])
    except Exception: return 64

class V:
    """const + sum coef*bit; bits are keys (atom, index)"""
    __slots__ = ('c', 't', 'w')
    def __init__(s, c, t, w):
        M = 1 << w; h = M >> 1
        c %= M
        if c >= h: c -= M
        r = {}
        for k, a in t.items():
            a %= M
            if a > h: a -= M
            if a: r[k] = a
        s.c = c; s.t = r; s.w = w
    def key(s): return (s.c, frozenset(s.t.items()), s.w)
    def lin(s): return frozenset(s.t.items())
    def const(s): return not s.t
    def __eq__(s, o): return isinstance(o, V) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s):
        if not s.t: return str(s.c)
        g = {}
        for (a, i), k in s.t.items(): g.setdefault(a, []).append((i, k))
        out = []
        for a, l in sorted(g.items(), key=repr):
            l.sort(); n = a if isinstance(a, str) else 'f(%s)' % (a[0] if isinstance(a, tuple) else a)
            out.append('%s[%d..%d]*%s' % (n, l[0][0], l[-1][0], l[0][1] if l[0][1] > 0 else '(%d)' % l[0][1]))
        return '+'.join(([str(s.c)] if s.c else []) + out)

class P:
    __slots__ = ('b', 'o')
    def __init__(s, b, o): s.b = b; s.o = o
    def __eq__(s, o): return isinstance(o, P) and s.b == o.b and s.o == o.o
    def __hash__(s): return hash((s.b, s.o))
    def __repr__(s): return '&%s+%r' % (s.b, s.o)

class State:
    def __init__(s):
        s.known = {}; s.iv = {}; s.cons = []; s.mem = {}; s.width = {}; s.stores = []; s.loads = []; s.calls = []; s.notes = []
    def copy(s):
        n = State(); n.known = dict(s.known); n.iv = dict(s.iv); n.cons = list(s.cons); n.mem = dict(s.mem)
        n.width = s.width; n.stores = list(s.stores); n.loads = list(s.loads); n.calls = list(s.calls); n.notes = list(s.notes)
        return n
    def atom(s, name, w, lo=None, hi=None):
        """fresh or existing unknown of width w"""
        s.width.setdefault(name, w)
        if name not in s.iv: s.iv[name] = (0, (1 << w) - 1)
        v = V(0, {(name, i): 1 << i for i in range(w)}, w)
        if lo is not None or hi is not None: s.refine(v, lo if lo is not None else 0, hi if hi is not None else (1 << w) - 1)
        return s.norm(v)
    def norm(s, v):
        if not isinstance(v, V): return v
        hit = [k for k in v.t if k in s.known]
        if not hit: return v
        c = v.c; t = dict(v.t)
        for k in hit:
            a = t.pop(k)
            if s.known[k]: c += a
        return V(c, t, v.w)
    def rng(s, v):
        """integer range of the linear form (before wrapping)"""
        v = s.norm(v); lo = hi = v.c
        t = dict(v.t)
        # whole atoms
        g = {}
        for (a, i), k in t.items(): g.setdefault(a, {})[i] = k
        for a, bits in g.items():
            w = s.width.get(a, 64)
            free = [i for i in range(w) if (a, i) not in s.known]
            scale = None
            if set(bits) == set(free):
                r = {k >> i if k % (1 << i) == 0 else None for i, k in bits.items()}
                if len(r) == 1: scale = r.pop()
            if scale is not None and a in s.iv:
                base = sum((1 << i) for i in range(w) if s.known.get((a, i)) == 1)
                x, y = s.iv[a][0] - base, s.iv[a][1] - base
                fl, fh = 0, sum(1 << i for i in free)
                x, y = max(x, fl), min(y, fh)
                lo += min(scale * x, scale * y); hi += max(scale * x, scale * y)
            else:
                for k in bits.values():
                    if k > 0: hi += k
                    else: lo += k
        if v.t:
            l = v.lin(); z = len(s.known)
            for i, (cv, a, b, n) in enumerate(s.cons):
                if n != z: cv = s.norm(cv); s.cons[i] = (cv, a, b, z)
                if cv.lin() == l: lo = max(lo, a - cv.c + v.c); hi = min(hi, b - cv.c + v.c)
        return lo, hi
    def urng(s, v):
        lo, hi = s.rng(v); M = 1 << v.w
        if lo >= 0 and hi < M: return lo, hi
        if hi < 0 and lo >= -M: return lo + M, hi + M
        return 0, M - 1
    def srng(s, v):
        lo, hi = s.rng(v); h = 1 << (v.w - 1)
        if lo >= -h and hi < h: return lo, hi
        if lo >= h and hi < 2 * h: return lo - 2 * h, hi - 2 * h
        return -h, h - 1
    def pure(s, v):
        """bit list of the value (index -> 0/1/key), or None"""
        v = s.norm(v); bits = [0] * v.w
        c = v.c % (1 << v.w)
        for i in range(v.w): bits[i] = (c >> i) & 1
        for k, a in v.t.items():
            a %= 1 << v.w
            if a == 0: continue
            if a & (a - 1): return None
            i = a.bit_length() - 1
            if bits[i] != 0: return None
            bits[i] = k
        return bits
    def bits(s, v):
        b = s.pure(v)
        if b is not None: return b
        name = ('of', s.norm(v).key())
        lo, hi = s.urng(v)
        a = s.atom(name, v.w)
        s.refine(a, lo, hi)
        return s.pure(a)
    def frombits(s, bits, w):
        c = 0; t = {}
        for i, b in enumerate(bits[:w]):
            if b == 1: c += 1 << i
            elif b != 0: t[b] = t.get(b, 0) + (1 << i)
        return V(c, t, w)
    def refine(s, v, lo, hi, signed=False):
        """assume lo <= v <= hi (unsigned view unless signed); False when impossible"""
        v = s.norm(v)
        if v.const():
            x = v.c if signed else v.c % (1 << v.w)
            return lo <= x <= hi
        a, b = (s.srng if signed else s.urng)(v)
        lo, hi = max(lo, a), min(hi, b)
        if lo > hi: return False
        rl, rh = s.rng(v)
        inview = (rl >= a and rh <= b) or True
        off = 0
        M = 1 << v.w
        # offset between the integer value of the form and the viewed value
        ilo, ihi = s.rng(v)
        if ilo >= a and ihi <= b or (not signed and ilo >= 0 and ihi < M) or (signed and ilo >= -(M >> 1) and ihi < (M >> 1)):
            s.cons.append((v, lo, hi, len(s.known)))
            g = {}
            for (at, i), k in v.t.items(): g.setdefault(at, {})[i] = k
            if len(g) == 1:
                at = next(iter(g)); bitsd = g[at]; w = s.width.get(at, 64)
                free = {i for i in range(w) if (at, i) not in s.known}
                if set(bitsd) == free and all(k == 1 << i for i, k in bitsd.items()):
                    base = sum((1 << i) for i in range(w) if s.known.get((at, i)) == 1)
                    x, y = s.iv.get(at, (0, (1 << w) - 1))
                    x, y = max(x, lo - v.c + base), min(y, hi - v.c + base)
                    if x > y: return False
                    s.iv[at] = (x, y)
                    for i in range(w - 1, -1, -1):
                        if (x >> i) == (y >> i):
                            bit = (x >> i) & 1
                            if s.known.get((at, i), bit) != bit: return False
                            s.known[(at, i)] = bit
        if lo >= 0:
            bits = s.pure(v)
            if bits is not None:
                for i in range(v.w - 1, -1, -1):
                    if (lo >> i) != (hi >> i): break
                    bit = (lo >> i) & 1
                    if bits[i] in (0, 1):
                        if bits[i] != bit: return False
                    else: s.known[bits[i]] = bit
        return True

def mul2(v, k): return V(v.c * k, {b: a * k for b, a in v.t.items()}, v.w)
def add2(v, u, k=1):
    t = dict(v.t)
    for b, a in u.t.items(): t[b] = t.get(b, 0) + a * k
    return V(v.c + u.c * k, t, v.w)

class Interp:
    def __init__(s, fn, maxtraces=4000, maxsteps=600, oncall=None):
        s.fn = fn; s.maxt = maxtraces; s.maxs = maxsteps; s.oncall = oncall
    def run(s, args, st):
        """[(state, returned value)] for all traces"""
        out = []; work = [(st, {i: a for i, a in enumerate(args)}, 0, None, 0, 0)]
        while work:
            st, env, b, prev, k, n = work.pop()
            if len(out) + len(work) > s.maxt or n > s.maxs: raise TooMany(s.fn.name)
            blk = s.fn.blocks[b]
            try:
                if k == 0:
                    ph = {}
                    for x in blk.insts:
                        if x.op != 'phi': break
                        for (o, p) in x.ops:
                            if p == prev: ph[x.i] = s.ev(st, env, o, x.t)
                        k += 1
                    env.update(ph)
                res = s.block(st, env, blk, k, work, prev, n)
            except Stop as e:
                st.notes.append(e.why); out.append((st, ('stop', e.why))); continue
            if res is None: continue
            kind, val = res
            if kind == 'ret': out.append((st, val))
            else:
                for (st2, t) in val: work.append((st2, env if st2 is st else dict(env), t, b, 0, n + 1))
        return out
    def ev(s, st, env, o, t=None):
        k = o[0]
        if k == 'v':
            r = env.get(o[1])
            if r is None: r = st.atom(('val', s.fn.name, o[1]), W(t) if t else 64)
            return r
        if k == 'c': return V(o[1], {}, W(t) if t and t != 'ptr' else 64)
        if k == 'n': return V(0, {}, 64)
        if k == 'g': return P(o[1], V(0, {}, 64))
        if k == 'ce' and o[1] == 'getelementptr': return s.gep(st, env, s.ev(st, env, o[2][0]), o[3])
        return st.atom(('opaque', str(o)), W(t) if t else 64)
    def gep(s, st, env, base, path):
        if not isinstance(base, P): base = P(('ptr', base), V(0, {}, 64))
        o = base.o
        for p in path:
            if p[0] == 'f': o = add2(o, V(p[3], {}, 64))
            elif p[0] == 'i':
                ix = s.ev(st, env, p[1], 'i64')
                if isinstance(ix, P): raise Stop('pointer index')
                if ix.w < 64: ix = s.ext(st, ix, 64, True)
                o = add2(o, mul2(ix, p[2]))
            else: raise Stop('address')
        return P(base.b, st.norm(o))
    def ext(s, st, v, w, signed):
        lo, hi = st.rng(v)
        if signed:
            h = 1 << (v.w - 1)
            if lo >= -h and hi < h: return V(v.c, v.t, w)
            b = st.bits(v); 
            if b[v.w - 1] in (0, 1): return st.frombits(b + [b[v.w - 1]] * (w - v.w), w)
            return st.atom(('sext', st.norm(v).key()), w)
        if lo >= 0 and hi < (1 << v.w): return V(v.c, v.t, w) if v.c >= 0 else st.frombits(st.bits(v) + [0] * (w - v.w), w)
        return st.frombits(st.bits(v) + [0] * (w - v.w), w)
    def decide(s, st, p, a, b):
        """truth of a comparison, or None"""
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P) and a.b == b.b: a, b = a.o, b.o; p = p
            elif isinstance(a, P) and isinstance(b, V) and b.const() and b.c == 0 or isinstance(b, P) and isinstance(a, V) and a.const() and a.c == 0:
                return {'eq': False, 'ne': True}.get(p)
            else: return None
        if p in ('eq', 'ne'):
            d = st.norm(add2(a, b, -1))
            if d.const(): return (d.c == 0) == (p == 'eq')
            for f in (st.urng, st.srng):
                x, y = f(a), f(b)
                if x[1] < y[0] or y[1] < x[0]: return p == 'ne'
            lo, hi = st.rng(d)
            if (lo > 0 and hi < (1 << d.w)) or (hi < 0 and lo > -(1 << d.w)): return p == 'ne'
            ba, bb = st.pure(a), st.pure(b)
            if ba and bb and any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(ba, bb)): return p == 'ne'
            return None
        f = st.urng if p[0] == 'u' else st.srng
        x, y = f(a), f(b)
        lt, le = x[1] < y[0], x[1] <= y[0]; gt, ge = x[0] > y[1], x[0] >= y[1]
        q = p[1:]
        r = {'lt': True if lt else False if ge else None, 'le': True if le else False if gt else None, 'gt': True if gt else False if le else None, 'ge': True if ge else False if lt else None}[q]
        if r is None:
            # the difference, when neither side wraps
            d = st.norm(add2(a, b, -1)); xa, xb = st.rng(a), st.rng(b)
            if xa == x and xb == y:
                lo, hi = st.rng(d)
                r = {'lt': True if hi < 0 else False if lo >= 0 else None, 'le': True if hi <= 0 else False if lo > 0 else None, 'gt': True if lo > 0 else False if hi <= 0 else None, 'ge': True if lo >= 0 else False if hi < 0 else None}[q]
        return r
    def assume(s, st, p, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P) and a.b == b.b: a, b = a.o, b.o
            else: return True
        a, b = st.norm(a), st.norm(b)
        if a.const() and not b.const(): a, b = b, a; p = ir.SWAP[p]
        if b.const():
            U = b.c % (1 << b.w); S = b.c; M = (1 << a.w) - 1; h = 1 << (a.w - 1)
            if p == 'eq': return st.refine(a, U, U)
            if p == 'ne':
                lo, hi = st.urng(a)
                if lo == hi == U: return False
                if lo == U: return st.refine(a, lo + 1, hi)
                if hi == U: return st.refine(a, lo, hi - 1)
                return True
            if p[0] == 'u': lo, hi = {'ult': (0, U - 1), 'ule': (0, U), 'ugt': (U + 1, M), 'uge': (U, M)}[p]; return lo <= hi and st.refine(a, lo, hi)
            lo, hi = {'slt': (-h, S - 1), 'sle': (-h, S), 'sgt': (S + 1, h - 1), 'sge': (S, h - 1)}[p]; return lo <= hi and st.refine(a, lo, hi, True)
        d = add2(a, b, -1)
        f = st.urng if p[0] == 'u' else st.srng
        if st.rng(a) == f(a) and st.rng(b) == f(b) and p not in ('eq', 'ne'):
            lo, hi = st.rng(d)
            q = p[1:]
            n = {'lt': (lo, -1), 'le': (lo, 0), 'gt': (1, hi), 'ge': (0, hi)}[q]
            if n[0] > n[1]: return False
            st.cons.append((d, n[0], n[1], -1))
        if p == 'eq': return st.refine(d, 0, 0)
        return True
    def block(s, st, env, blk, k, work, prev, n):
        F = s.fn
        while k < len(blk.insts):
            x = blk.insts[k]; op = x.op; E = lambda i, t=None: s.ev(st, env, x.ops[i], t)
            if op in ('icmp',):
                t = None
                for o in x.ops:
                    if o[0] == 'v': t = F.optype(o)
                a, b = E(0, t), E(1, t); p = x.d['p']
                if isinstance(a, V) and isinstance(b, V) and a.w != b.w: b = V(b.c, b.t, a.w) if b.const() else b; a = V(a.c, a.t, b.w) if a.const() else a
                r = s.decide(st, p, a, b)
                if r is None:
                    other = st.copy(); env2 = dict(env); env2[x.i] = V(0, {}, 1)
                    if s.assume(other, ir.NEG[p], a, b) and s.decide(other, p, a, b) is not True: work.append((other, env2, blk.id, prev, k + 1, n + 1))
                    if not s.assume(st, p, a, b) or s.decide(st, p, a, b) is False: return None
                    env[x.i] = V(1, {}, 1)
                else: env[x.i] = V(1 if r else 0, {}, 1)
            elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
                env[x.i] = s.arith(st, op, E(0, x.t), E(1, x.t), W(x.t))
            elif op in ('zext', 'sext'):
                v = E(0, x.d.get('st')); 
                env[x.i] = v if isinstance(v, P) else s.ext(st, v, W(x.t), op == 'sext')
            elif op == 'trunc':
                v = E(0); w = W(x.t)
                if isinstance(v, P): env[x.i] = st.atom(('trunc', repr(v)), w)
                else:
                    pb = st.pure(v)
                    env[x.i] = st.frombits(pb, w) if pb is not None else V(v.c, v.t, w)
            elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): env[x.i] = E(0, x.t)
            elif op == 'getelementptr': env[x.i] = s.gep(st, env, E(0), x.d['path'])
            elif op == 'select':
                c = E(0, 'i1')
                r = s.truth(st, c)
                if r is None: raise Stop('select')
                env[x.i] = E(1, x.t) if r else E(2, x.t)
            elif op == 'load':
                p = E(0); sz = W(x.t) // 8
                env[x.i] = s.load(st, x, p, W(x.t))
            elif op == 'store':
                v, p = E(0, x.d.get('vt')), E(1)
                s.store(st, x, p, v, x.d.get('sz', 8))
            elif op == 'alloca': env[x.i] = P(('alloca', x.i), V(0, {}, 64))
            elif op == 'ret': return ('ret', E(0, F.d.get('ret')) if x.ops else None)
            elif op == 'br':
                if len(x.ops) == 1: return ('go', [(st, x.ops[0][1])])
                r = s.truth(st, E(0, 'i1'))
                if r is None: raise Stop('branch')
                return ('go', [(st, x.ops[2][1] if r else x.ops[1][1])])
            elif op == 'switch':
                v = st.norm(E(0)); outs = []; rest = st
                for c, d in x.d['cases']:
                    r = s.decide(rest, 'eq', v, V(c, {}, v.w))
                    if r is True: outs.append((rest, d)); rest = None; break
                    if r is False: continue
                    o = rest.copy()
                    if s.assume(o, 'eq', v, V(c, {}, v.w)): outs.append((o, d))
                    if not s.assume(rest, 'ne', v, V(c, {}, v.w)): rest = None; break
                if rest is not None: outs.append((rest, x.d['def']))
                if len(outs) > 1: outs = [(a if i == 0 else a.copy() if a is outs[0][0] else a, d) for i, (a, d) in enumerate(outs)]
                res = []
                for a, d in outs: work.append((a, dict(env), d, blk.id, 0, n + 1))
                return None
            elif x.iscall:
                if (x.callee or '').startswith('llvm.'): 
                    if not x.callee.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')): env[x.i] = st.atom(('call', x.i, len(st.calls)), W(x.t) if x.t else 64)
                else:
                    vals = [s.ev(st, env, o, F.optype(o)) for o in x.ops]
                    st.calls.append((x, vals))
                    r = s.oncall(s, st, x, vals) if s.oncall else None
                    if r is None: r = st.atom(('call', x.i, len(st.calls)), W(x.t) if x.t and x.t != 'void' else 64)
                    env[x.i] = r
            elif op == 'unreachable': raise Stop('unreachable')
            else: env[x.i] = st.atom(('val', F.name, x.i, n), W(x.t) if x.t else 64)
            k += 1
        return None
    def truth(s, st, c):
        c = st.norm(c)
        if c.const(): return bool(c.c)
        return None
    def arith(s, st, op, a, b, w):
        if isinstance(a, P) or isinstance(b, P):
            if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.b == b.b: return st.norm(add2(a.o, b.o, -1))
            if op in ('add', 'sub') and isinstance(a, P) and isinstance(b, V): return P(a.b, add2(a.o, b, 1 if op == 'add' else -1))
            if op == 'add' and isinstance(b, P): return P(b.b, add2(b.o, a))
            return st.atom((op, repr(a), repr(b)), w)
        a, b = st.norm(a), st.norm(b)
        if a.w != w: a = V(a.c, a.t, w)
        if b.w != w: b = V(b.c, b.t, w)
        if op == 'add': return st.norm(add2(a, b))
        if op == 'sub': return st.norm(add2(a, b, -1))
        if op == 'mul':
            if a.const(): a, b = b, a
            if b.const(): return mul2(a, b.c)
        if op == 'shl' and b.const():
            pb = st.pure(a)
            return st.frombits([0] * b.c + pb, w) if pb is not None else mul2(a, 1 << b.c)
        ub = b.c % (1 << w) if b.const() else None
        if op in ('udiv', 'urem') and ub and ub & (ub - 1) == 0:
            k = ub.bit_length() - 1
            if op == 'udiv': op = 'lshr'; b = V(k, {}, w); ub = k
            else: op = 'and'; b = V(ub - 1, {}, w)
        if op == 'ashr' and b.const() and st.srng(a)[0] >= 0: op = 'lshr'
        if op == 'lshr' and b.const(): bits = st.bits(a); return st.frombits(bits[b.c:] + [0] * b.c, w)
        if op in ('sdiv', 'srem') and ub and ub & (ub - 1) == 0 and st.srng(a)[0] >= 0:
            bits = st.bits(a); k = ub.bit_length() - 1
            return st.frombits(bits[k:] + [0] * k, w) if op == 'sdiv' else st.frombits(bits[:k], w)
        if op in ('and', 'or', 'xor'):
            x, y = st.bits(a), st.bits(b); r = []
            for p, q in zip(x, y):
                if q in (0, 1): p, q = q, p
                if p in (0, 1):
                    if op == 'and': r.append(q if p else 0)
                    elif op == 'or': r.append(1 if p else q)
                    elif p == 0: r.append(q)
                    elif q in (0, 1): r.append(1 - q)
                    else: r.append(s.notbit(st, q))
                elif p == q: r.append(0 if op == 'xor' else p)
                else: r.append(s.opbit(st, op, p, q))
            return st.frombits(r, w)
        if a.const() and b.const() and op in ('udiv', 'urem') and ub:
            u = a.c % (1 << w); return V(u // ub if op == 'udiv' else u % ub, {}, w)
        if op in ('urem', 'udiv') and ub:
            lo, hi = st.urng(a)
            if op == 'urem' and hi < ub: return a
            name = (op, a.key(), b.key()); v = st.atom(name, w)
            st.refine(v, 0, ub - 1) if op == 'urem' else st.refine(v, lo // ub, hi // ub)
            return st.norm(v)
        return st.atom((op, a.key(), b.key()), w)
    def notbit(s, st, q):
        if isinstance(q[0], tuple) and q[0][0] == 'not': return q[0][1]
        k = (('not', q), 0); st.width[k[0]] = 1; st.iv.setdefault(k[0], (0, 1)); return k
    def opbit(s, st, op, p, q):
        p, q = sorted((p, q), key=repr); k = ((op, p, q), 0); st.width[k[0]] = 1; st.iv.setdefault(k[0], (0, 1)); return k
    def load(s, st, x, p, w):
        st.loads.append((x, p, w // 8, dict(st.iv)))
        if isinstance(p, P):
            o = st.norm(p.o)
            if o.const():
                v = st.mem.get((p.b, o.c))
                if v is not None and (isinstance(v, P) or v.w == w): return st.norm(v) if isinstance(v, V) else v
                return st.atom('%s.%d' % (p.b, o.c) if w == 8 else '%s.%d:%d' % (p.b, o.c, w), w)
            return st.atom(('mem', p.b, o.key(), w), w)
        return st.atom(('mem', repr(p), x.i), w)
    def store(s, st, x, p, v, sz):
        st.stores.append((x, p, v, sz, dict(st.iv)))
        if isinstance(p, P):
            o = st.norm(p.o)
            if o.const(): st.mem[(p.b, o.c)] = v; return
            for k in [k for k in st.mem if k[0] == p.b]: del st.mem[k]
