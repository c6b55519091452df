"""Shared rule helpers."""
import ir
from ir import AnalysisBroken, pp, mklin, aslin, sublin, scale, addlin, Prover, subexprs, mentions

def headers(fn):
    """loop headers -> back edge sources"""
    r = fn._bf.get('headers')
    if r is None:
        r = {}
        for b in fn.blocks:
            if not fn.reachable(b.id): continue
            for p in b.pred:
                if fn.reachable(p) and fn.dom(b.id, p): r.setdefault(b.id, []).append(p)
        fn._bf['headers'] = r
    return r

def loop_blocks(fn, h):
    key = ('loop', h); r = fn._bf.get(key)
    if r is None:
        r = {h}; st = list(headers(fn)[h])
        while st:
            b = st.pop()
            if b in r: continue
            r.add(b); st += [p for p in fn.blocks[b].pred if fn.reachable(p)]
        fn._bf[key] = r
    return r

def delta(fn, e, p, loop, depth=0, seen=frozenset()):
    """interval of (e - p) per iteration, or None"""
    l = sublin(aslin(e), aslin(p))
    d = mklin(*l)
    if d[0] == 'c': return (d[1], d[1])
    if depth > 8: return None
    if e[0] == 'sel':
        a, b = delta(fn, e[2], p, loop, depth + 1, seen), delta(fn, e[3], p, loop, depth + 1, seen)
        return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
    if e[0] == 'phi' and e[1] == fn.name and e not in seen:
        x = fn.inst[e[2]]
        if x.b.id in loop and x.b.id not in headers(fn):
            rs = [delta(fn, fn.expr(o), p, loop, depth + 1, seen | {e}) for (o, b) in x.ops if fn.reachable(b)]
            if rs and all(r is not None for r in rs): return (min(r[0] for r in rs), max(r[1] for r in rs))
    if e[0] == 'lin':
        # one phi term plus constant (x+1 where x is a merge of p)
        ts = [(t, k) for t, k in e[2]]
        if len(ts) == 1 and ts[0][1] == 1:
            r = delta(fn, ts[0][0], p, loop, depth + 1, seen)
            if r: return (r[0] + e[1], r[1] + e[1])
    if e[0] == 'idx' and p[0] == 'phi':     # pointer stepping
        if e[2][0] == 'c':
            r = delta(fn, e[1], p, loop, depth + 1, seen)
            if r: return (r[0] + e[2][1] * e[3], r[1] + e[2][1] * e[3])
    return None

def ind_facts(fn, bid):
    """facts about loop-header phis valid in block bid"""
    key = ('ind', bid); r = fn._bf.get(key)
    if r is not None: return r
    r = []
    for h, backs in headers(fn).items():
        if not fn.dom(h, bid): continue
        loop = loop_blocks(fn, h); info = []
        for x in fn.blocks[h].insts:
            if x.op != 'phi': break
            p = ('phi', fn.name, x.i)
            ins = [fn.expr(o) for (o, b) in x.ops if fn.reachable(b) and b not in backs]
            if len(set(ins)) != 1: continue
            e0 = ins[0]; lo = hi = None; ok = True
            for (o, b) in x.ops:
                if b not in backs: continue
                d = delta(fn, fn.expr(o), p, loop)
                if d is None: ok = False; break
                lo = d[0] if lo is None else min(lo, d[0]); hi = d[1] if hi is None else max(hi, d[1])
            if ok and lo is not None: info.append((p, e0, lo, hi))
        for (p, e0, lo, hi) in info:
            if lo >= 0: r.append(('sge', p, e0))
            if hi <= 0: r.append(('sle', p, e0))
            for (q, f0, lo2, hi2) in info:
                if p is q or p == q: continue
                if hi <= lo2:   # p - p0 <= q - q0
                    r.append(('sle', mklin(*sublin(aslin(p), aslin(e0))), mklin(*sublin(aslin(q), aslin(f0)))))
    fn._bf[key] = r
    return r

def all_facts(fn, bid):
    return fn.facts(bid) + ind_facts(fn, bid)

def prover(fn, x, nonneg=None, extra=()):
    return Prover(fn, list(all_facts(fn, x.b.id)) + list(extra), nonneg)

def error_blocks(fn, pred):
    """blocks containing an instruction satisfying pred"""
    return {x.b.id for x in fn.insts() if pred(x)}

def every_path(fn, good, start=None, exits=None, excluded=()):
    """every path from start (default entry) to a return passes an instruction of good (or an excluded block).
    Returns the offending exit or None."""
    gb = {}
    for g in good: gb.setdefault(g.b.id, []).append(g.k)
    exs = exits if exits is not None else fn.exits()
    s0 = (start.b.id if start is not None else 0)
    k0 = start.k if start is not None else -1
    seen = set(); st = [(s0, k0)]
    while st:
        b, k = st.pop()
        if b in excluded and k < 0: continue
        if any(q > k for q in gb.get(b, [])): continue
        for e in exs:
            if e.b.id == b and e.k > k: return e
        for t in fn.blocks[b].succ:
            if t not in seen: seen.add(t); st.append((t, -1))
    return None

def str_const(m, e):
    """C string of an expression denoting a constant string, or None"""
    if e[0] == 'g':
        g = m.globals.get(e[1], {}).get('init')
        if g and g[0] == 's': return g[1]
    return None

def ret_cases(fn):
    """[(value expr or None, path) ...]: returned value per way of reaching a return; path = list of
    CFG edges leading there (innermost last), expanding phis that only merge the result"""
    out = []
    for e in fn.exits():
        if not e.ops: out.append((None, e, ())); continue
        def rec(o, blk, edges):
            v = fn.inst.get(o[1]) if o[0] == 'v' else None
            while v is not None and v.op in ir.CAST_TRANSPARENT and v.ops[0][0] == 'v': v = fn.inst.get(v.ops[0][1])
            if v is not None and v.op == 'phi' and v.b.id not in headers(fn) and len(edges) < 6 and (v.b.id == blk or fn.dom(v.b.id, blk)):
                for (q, b) in v.ops:
                    if fn.reachable(b): rec(q, b, edges + ((b, v.b.id),))
            else: out.append((fn.expr(o), e, edges))
        rec(e.ops[0], e.b.id, ())
    return out

def case_facts(fn, case):
    """facts known on the path of a ret case"""
    v, e, edges = case
    if not edges: return fn.facts(e.b.id)
    r = []
    for (a, b) in edges: r += fn.edge_facts(a, b)
    r += fn.facts(edges[-1][0])
    return list(dict.fromkeys(r))

def path_to_case(fn, case, good, excluded=()):
    """is there an entry path to this return case avoiding every instruction in good (and excluded blocks)?"""
    v, e, edges = case
    gb = {}
    for g in good: gb.setdefault(g.b.id, []).append(g.k)
    if e.b.id in gb: return False
    last = edges[-1][0] if edges else e.b.id
    # blocks on the tail after the last edge
    for (a, b) in edges:
        if b in gb: return False
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in excluded: continue
        seen.add(b)
        if b in gb: continue
        if b == last: return True
        st += fn.blocks[b].succ
    return False

# ---- capacity reasoning ---------------------------------------------------
def divide(e, q):
    """e / q as an expression when every term of e carries the factor q, else None"""
    if e == ('c', 0): return e
    if q[0] == 'c':
        l = aslin(e)
        if q[1] and l[0] % q[1] == 0 and all(k % q[1] == 0 for t, k in l[1]): return mklin(l[0] // q[1], tuple((t, k // q[1]) for t, k in l[1]))
        return None
    l = aslin(e)
    if l[0]: return None
    c = 0; ts = []
    for t, k in l[1]:
        if t == q: c += k
        elif t[0] == 'mul' and q in t[1:]:
            r = list(t[1:]); r.remove(q)
            ts.append((r[0] if len(r) == 1 else ('mul',) + tuple(r), k))
        else: return None
    return mklin(c, tuple(ts))

def ge_now(fn, x, addr, cls, E, call_rule=None, entry=None, infeasible=None, extra=None):
    """does every path to instruction x establish  value-of(addr) >= E  at x ?
    addr: canonical address of an integer field, cls its class.  Walks backwards: a store of v to the
    location needs v >= E; a call that may change it is asked through call_rule(y, E) -> True (established)
    / None (leaves the value not smaller) / False; an edge whose condition states  value >= E  for the
    value current there settles the path; the entry is asked through entry(E)."""
    seen = set(); why = []
    nn = None
    def prove(bid, facts, a, b):
        P = Prover(fn, list(all_facts(fn, bid)) + list(facts) + list(extra or ()), None)
        return P.le(b, a)
    def current(bid, k):
        """value expression of the location just after instruction index k-1 of block bid"""
        b = fn.blocks[bid]
        y = b.insts[k] if k < len(b.insts) else None
        ver = fn.ver_before(cls, y) if y is not None else fn.ver_exit(cls, bid)
        return fn.load_at(addr, cls, ver)
    st = [(x.b.id, x.k, ())]
    while st:
        bid, k, cond = st.pop()
        b = fn.blocks[bid]; done = False
        # facts about the current value valid in this block
        cur = current(bid, k)
        if prove(bid, cond, cur, E): continue
        for i in range(k - 1, -1, -1):
            y = b.insts[i]
            if y.op == 'store' and fn.cls(y) == cls and not fn.m.noalias(fn, fn.expr(y.ops[1]), addr):
                if fn.expr(y.ops[1]) == addr and prove(bid, cond, fn.expr(y.ops[0]), E): done = True; break
                return y
            if y.iscall and fn.m.clobbers(fn, y, cls) and not fn.m.call_noalias(fn, y, addr, cls):
                r = call_rule(y, E) if call_rule else False
                if r is True: done = True; break
                if r is None: continue
                return y
        if done: continue
        if bid == 0:
            if entry is not None and entry(E): continue
            return b.insts[0]
        for p in b.pred:
            if not fn.reachable(p): continue
            ef = tuple(fn.edge_facts(p, bid))
            if infeasible is not None and infeasible(fn, p, bid): continue
            # the edge condition may speak about the current value
            key = (p, bid)
            if key in seen: continue
            seen.add(key)
            c2 = current(p, len(fn.blocks[p].insts))
            if ef and prove(p, ef, c2, E): continue
            st.append((p, len(fn.blocks[p].insts), ef))
    return None

def alloc_failed(names):
    """edge filter: the edge is taken only when an allocation returned NULL"""
    def f(fn, a, b):
        for q in fn.edge_facts(a, b):
            if q[0] == 'eq' and q[2] == ('c', 0) and q[1][0] == 'call' and q[1][1] in names: return True
        return False
    return f

ALLOC = ('r_malloc', 'r_zmalloc', 'r_realloc', 'r_calloc', 'malloc', 'calloc', 'realloc')

def alloc_size(fn, e):
    """byte size of a fresh allocation expression"""
    if e[0] != 'call' or e[1] not in ALLOC or e[2] != fn.name: return None
    y = fn.inst[e[3]]
    if e[1] in ('r_realloc', 'realloc'): return fn.expr(y.ops[1])
    if e[1] in ('r_calloc', 'calloc'): return fn.m.arith('mul', fn.expr(y.ops[0]), fn.expr(y.ops[1]))
    return fn.expr(y.ops[0])

def byte_offset(e):
    """(root, byte offset expression) of an address"""
    off = (0, ())
    while e[0] in ('fld', 'idx'):
        if e[0] == 'fld': off = (off[0] + e[4], off[1])
        else: off = addlin(off, scale(aslin(e[2]), e[3]))
        e = e[1]
    return e, mklin(*off)

MEMWRITE = {'r_memset': 2, 'r_memcpy': 2, 'r_memmove': 2, 'memcpy': 2, 'memmove': 2, 'memset': 2}
def mem_access(fn, x):
    """[(address expr, length expr, 'w'|'r')] of the accesses made by an instruction"""
    if x.op == 'store': return [(fn.expr(x.ops[1]), ('c', x.d.get('sz', 8)), 'w')]
    if x.op == 'load': return [(fn.expr(x.ops[0]), ('c', x.d.get('sz', 8)), 'r')]
    if x.iscall:
        n = x.callee or ''
        if n in MEMWRITE or n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            r = [(fn.expr(x.ops[0]), fn.expr(x.ops[2]), 'w')]
            if 'set' not in n: r.append((fn.expr(x.ops[1]), fn.expr(x.ops[2]), 'r'))
            return r
    return []

def unver(e):
    """expression with memory versions erased (used only between objects that own disjoint storage)"""
    if not isinstance(e, tuple): return e
    if e and e[0] == 'ld': return ('ld', unver(e[1]), None)
    if e and e[0] == 'lin': return mklin(e[1], tuple((unver(t), k) for t, k in e[2]))
    return tuple(unver(x) if isinstance(x, tuple) else x for x in e)

def min_trips(fn, h):
    """expressions N such that the loop with header h completes at least N iterations before leaving
    through its only exit: a counter stepping by one from N down to zero or from 0 up to N"""
    loop = loop_blocks(fn, h); backs = headers(fn)[h]; out = []
    ex = [(b, t) for b in loop for t in fn.blocks[b].succ if t not in loop]
    for x in fn.blocks[h].insts:
        if x.op != 'phi': break
        p = ('phi', fn.name, x.i)
        ins = [fn.expr(o) for (o, b) in x.ops if fn.reachable(b) and b not in backs]
        ds = [delta(fn, fn.expr(o), p, loop) for (o, b) in x.ops if b in backs]
        if len(set(ins)) != 1 or any(d is None or d[0] != d[1] for d in ds): continue
        step = {d[0] for d in ds}
        if len(step) != 1: continue
        step = step.pop(); e0 = ins[0]
        for (a, b) in ex:
            P = Prover(fn, fn.edge_facts(a, b))
            for q in fn.edge_facts(a, b):
                if q[0] not in ir.NEG: continue
                if step == -1 and P.le(p, ('c', 0)): out.append((a, b, e0))
                if step == 1 and q[1] == p and q[0] in ('uge', 'eq', 'sge') and e0 == ('c', 0): out.append((a, b, q[2]))
                if step == 1 and q[2] == p and q[0] in ('ule', 'eq', 'sle') and e0 == ('c', 0): out.append((a, b, q[1]))
    res = []
    for n in {e for _, _, e in out}:
        if {(a, b) for a, b, e in out if e == n} >= set(ex): res.append(n)
    return res

def via_facts(fn, p, b, t):
    """facts on the edge b->t when b was entered from p (a condition merged in b is taken from p's side)"""
    fs = list(fn.edge_facts(b, t))
    x = fn.blocks[b].insts[-1]
    if p is None or x.op != 'br' or len(x.ops) != 3 or x.ops[0][0] != 'v': return fs
    c = fn.inst.get(x.ops[0][1]); neg = False
    fb, tb = x.ops[1][1], x.ops[2][1]
    if fb == tb or c is None: return fs
    truth = t == tb
    # look through (phi != 0), xor
    for _ in range(6):
        if c.op == 'icmp' and c.ops[1] in (['c', 0], ['n']) and c.d['p'] in ('ne', 'eq') and c.ops[0][0] == 'v' and c.ops[0][1] in fn.inst:
            if c.d['p'] == 'eq': truth = not truth
            c = fn.inst[c.ops[0][1]]
        elif c.op in ('zext', 'sext', 'freeze', 'trunc') and c.ops[0][0] == 'v' and c.ops[0][1] in fn.inst: c = fn.inst[c.ops[0][1]]
        elif c.op == 'xor' and c.t == 'i1' and c.ops[1][0] == 'c' and c.ops[0][0] == 'v' and c.ops[0][1] in fn.inst: truth = not truth; c = fn.inst[c.ops[0][1]]
        else: break
    if c.op == 'phi' and c.b.id == b:
        for (o, q) in c.ops:
            if q != p: continue
            if o[0] in ('c', 'n'):
                if bool(o[1] if o[0] == 'c' else 0) != truth: fs.append(('false',))
            elif c.t == 'i1': fn.cond_facts(o, truth, fs, 0)
            else: fs.append(('ne' if truth else 'eq', fn.expr(o), ('c', 0)))
    return fs

def edge_walk(fn, start, stop, block=lambda fs: False, within=None):
    """predicate search: edges (p,b,t) reachable from block start along edges whose facts do not satisfy `block`;
    yields every (b, t, facts) for which stop(t) holds"""
    seen = set(); st = [(None, start)]
    while st:
        p, b = st.pop()
        for t in fn.blocks[b].succ:
            if within is not None and t not in within: continue
            fs = via_facts(fn, p, b, t)
            if ('false',) in fs or block(fs): continue
            if stop(t): yield b, t, fs; continue
            if (b, t) not in seen: seen.add((b, t)); st.append((b, t))


def sweep(fn, x, idx, lo, hi):
    """x runs exactly once for every idx from lo up to (not including) hi, in increasing order; returns None or what is wrong.
    Memory versions are erased: the bounds live in objects the loop does not modify."""
    hs = [h for h in headers(fn) if x.b.id in loop_blocks(fn, h)]
    if not hs: return 'is not repeated'
    for h in sorted(hs, key=lambda h: len(loop_blocks(fn, h))):
        loop = loop_blocks(fn, h); backs = headers(fn)[h]
        for y in fn.blocks[h].insts:
            if y.op != 'phi': break
            p = ('phi', fn.name, y.i)
            if dict(aslin(idx)[1]).get(p) != 1: continue
            ini = {fn.expr(o) for o, b in y.ops if fn.reachable(b) and b not in backs}
            if len(ini) != 1: continue
            ds = [delta(fn, fn.expr(o), p, loop) for o, b in y.ops if b in backs]
            if any(d != (1, 1) for d in ds): return 'does not step by one'
            ini = next(iter(ini))
            first = mklin(*addlin(sublin(aslin(idx), aslin(p)), aslin(ini)))
            if unver(first) != unver(lo): return 'starts at %s instead of %s' % (pp(first), pp(lo))
            U = lambda fs: [tuple(unver(t) if isinstance(t, tuple) else t for t in q) for q in fs]
            i_, h_ = unver(idx), unver(hi); inc = unver(mklin(*addlin(aslin(idx), (1, ()))))
            for a in loop:
                for b in fn.blocks[a].succ:
                    if b in loop: continue
                    done = fn.dom(x.b.id, a)
                    if not Prover(fn, U(fn.edge_facts(a, b))).le(h_, inc if done else i_): return 'may stop before %s' % pp(hi)
            if not Prover(fn, U(all_facts(fn, x.b.id))).lt(i_, h_):
                for q in fn.blocks[h].pred:
                    if not fn.reachable(q): continue
                    v = inc if q in backs else unver(first)
                    if not Prover(fn, U(fn.facts(q) + fn.edge_facts(q, h))).lt(v, h_): return 'may go beyond %s' % pp(hi)
            # executed in every round
            seen = set(); st = [h]
            while st:
                b = st.pop()
                if b in seen or b == x.b.id: continue
                seen.add(b)
                if b in backs: return 'skips some'
                st += [t for t in fn.blocks[b].succ if t in loop and t != h]
            return None
    return 'does not follow a counter'
