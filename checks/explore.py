"""Explicit-state dataflow over the statements of a function: every block is visited with every abstract
state that can reach it (finite value domain supplied by the client), no paths are enumerated."""
import ir
from ir import AnalysisBroken
from common import *

def liveness(f):
    """values live at the start of each block (phi operands count as used at the end of the predecessor)"""
    r = f._bf.get('live')
    if r is not None: return r
    use, df = {}, {}
    for b in f.blocks:
        u, d = set(), set()
        for x in b.insts:
            if x.op != 'phi':
                for o in x.ops:
                    if o and o[0] == 'v' and o[1] not in d: u.add(o[1])
            d.add(x.i)
        use[b.id], df[b.id] = u, d
    live = {b.id: set() for b in f.blocks}; ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            o = set()
            for t in b.succ:
                o |= live[t] - {x.i for x in f.blocks[t].insts if x.op == 'phi'}
                for x in f.blocks[t].insts:
                    if x.op != 'phi': break
                    for q, p in x.ops:
                        if p == b.id and q[0] == 'v': o.add(q[1])
            n = use[b.id] | (o - df[b.id])
            n -= {x.i for x in b.insts if x.op == 'phi'} - use[b.id]
            n |= {x.i for x in b.insts if x.op == 'phi'} & (use[b.id])
            if n != live[b.id]: live[b.id] = n; ch = True
    f._bf['live'] = live
    return live

class St:
    """env: value of SSA names; mem: value of tracked places; g: ghost state (client)"""
    __slots__ = ('env', 'mem', 'g')
    def __init__(s, env, mem, g): s.env = env; s.mem = mem; s.g = g
    def copy(s): return St(dict(s.env), dict(s.mem), dict(s.g))
    def key(s): return (frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.g.items()))

U = ('?',)

class Explore:
    FORKS = False        # inst() splits a comparison that becomes a number
    LIMIT = 60000
    def __init__(s, f):
        s.f = f; s.live = liveness(f); s.visited = 0; s.why = None
    # ---- hooks
    def arg(s, k): return ('arg', k)
    def inst(s, x, st, v): return U          # value of an instruction (v: operand values); may change st; may return a list of (state, value)
    def cond(s, c, truth, st): return [st]   # refine by an abstract condition
    def merge(s, x, v, st): return v
    def normal(s, st): pass                  # canonical form at block entry
    def forks(s, st): return None            # the state as several states, at block entry
    def ret(s, x, st, v): pass
    def stop(s): return False                # give up (something was found already)
    def jump(s, b, st): return None          # redirect control: (block, from, state) or None
    # ---- values
    def val(s, o, st):
        if o[0] == 'c': return ('c', o[1])
        if o[0] == 'n': return ('c', 0)
        if o[0] == 'v':
            if o[1] < s.f.nargs: return s.arg(o[1])
            return st.env.get(o[1], U)
        if o[0] == 'g': return ('g', o[1])
        return U
    def base(s, x, st, v):
        """constant folding of the common operations"""
        op = x.op
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): return v[0]
        if op in ('sext', 'zext', 'trunc'):
            if v[0][0] == 'c':
                n = v[0][1]
                if op == 'zext' and n < 0:
                    b = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32}.get(x.d.get('st'))
                    return ('c', n & ((1 << b) - 1)) if b else U
                if op == 'trunc':
                    b = {'i8': 8, 'i16': 16, 'i32': 32}.get(x.t)
                    if b:
                        n &= (1 << b) - 1
                        if n >> (b - 1): n -= 1 << b
                        return ('c', n)
                return v[0]
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl') and v[0][0] == v[1][0] == 'c':
            a, b = v[0][1], v[1][1]
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}.get(op)
            if op == 'shl': r = a << b
            w = {'i8': 8, 'i32': 32, 'i64': 64}.get(x.t)
            if w and not (-(1 << (w - 1)) <= r < (1 << w)): r &= (1 << w) - 1
            return ('c', r)
        if op == 'icmp':
            return ('cmp', x.d['p'], v[0], v[1])
        if op == 'select':
            return None
        return None
    def truth(s, c):
        if c[0] == 'c': return bool(c[1])
        if c[0] == 'cmp' and c[2][0] == c[3][0] == 'c':
            a, b, p = c[2][1], c[3][1], c[1]
            if p[0] == 'u': a &= (1 << 64) - 1; b &= (1 << 64) - 1
            q = p.lstrip('us') if p not in ('eq', 'ne') else p
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        return None
    def refine(s, c, truth, st):
        t = s.truth(c)
        if t is not None: return [st] if t == truth else []
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('c', 0) and c[2][0] in ('cmp', 'ext'):
            return s.refine(c[2] if c[2][0] == 'cmp' else c[2][1], truth == (c[1] == 'ne'), st)
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('c', 1) and c[2][0] in ('cmp', 'ext'):
            return s.refine(c[2] if c[2][0] == 'cmp' else c[2][1], truth == (c[1] == 'eq'), st)
        if c[0] == 'ext': return s.refine(c[1], truth, st)
        if c[0] == 'not': return s.refine(c[1], not truth, st)
        if c[0] in ('and', 'or'):
            both = (c[0] == 'and') == truth
            if both: return [w for q in s.refine(c[1], truth, st) for w in s.refine(c[2], truth, q)]
            return [w for q in s.refine(c[1], not truth, st.copy()) for w in s.refine(c[2], truth, q)] + s.refine(c[1], truth, st.copy())
        return s.cond(c, truth, st)
    def raised(s, x, st, w): pass
    # ---- run
    def run(s, st):
        f = s.f; work = [(0, None, st)]; seen = set(); n = 0
        while work:
            b, p, st = work.pop()
            if p is not None:
                # the incoming values of merges
                new = {}
                for x in f.blocks[b].insts:
                    if x.op != 'phi': break
                    new[x.i] = s.merge(x, s.val([o for o, q in x.ops if q == p][0], st), st)
                lv = s.live[b]
                st.env = {k: w for k, w in st.env.items() if k in lv}
                st.env.update(new)
            s.normal(st)
            fk = s.forks(st)
            if fk is not None:
                for q in fk[1:]: work.append((b, None, q))
                if not fk: continue
                st = fk[0]
            k = (b, st.key())
            if k in seen: continue
            seen.add(k); n += 1
            if s.stop(): break
            if n > s.LIMIT: raise AnalysisBroken('%s: more than %d abstract states' % (f.name, s.LIMIT))
            j = s.jump(b, st)
            if j is not None:
                for q in j: work.append(q)
                continue
            s.block(b, 0, st, work)
        s.visited += n
    def block(s, b, start, st, work):
        f = s.f; ins = f.blocks[b].insts
        for idx in range(start, len(ins)):
            x = ins[idx]
            if x.op == 'phi': continue
            if x.op == 'ret':
                s.ret(x, st, s.val(x.ops[0], st) if x.ops else None); return
            if x.op == 'unreachable': return
            if x.op == 'resume': s.raised(x, st, st.mem.get(('cur',), ('exc',) + U)); return
            if x.op == 'br':
                if len(x.ops) == 1: work.append((x.ops[0][1], b, st)); return
                c = s.val(x.ops[0], st)
                fb, tb = x.ops[1][1], x.ops[2][1]
                for t, d in ((True, tb), (False, fb)):
                    for q in s.refine(c, t, st.copy()): work.append((d, b, q))
                return
            if x.op == 'switch':
                c = s.val(x.ops[0], st); cur = [st]
                by = {}
                for k, d in x.d['cases']:
                    for q in cur:
                        for w in s.refine(('cmp', 'eq', c, ('c', k)), True, q.copy()): work.append((d, b, w))
                    cur = [w for q in cur for w in s.refine(('cmp', 'eq', c, ('c', k)), False, q.copy())]
                for q in cur: work.append((x.d['def'], b, q))
                return
            v = [s.val(o, st) for o in x.ops]
            r = s.base(x, st, v)
            if r is None and not s.FORKS and x.op in ('zext', 'sext') and v[0][0] in ('cmp', 'ext', 'and', 'or', 'not') and x.d.get('st') == 'i1': r = ('ext', v[0])
            if r is None and x.op == 'trunc' and x.t == 'i1': r = ('cmp', 'ne', v[0], ('c', 0)) if v[0][0] != 'ext' else v[0][1]
            if r is None and x.op in ('and', 'or') and x.t == 'i1': r = (x.op, v[0], v[1])
            if r is None and x.op == 'xor' and x.t == 'i1' and v[1][0] == 'c': r = ('not', v[0]) if v[1][1] else v[0]
            if r is None and x.op == 'select':
                out = []
                for t, w in ((True, 1), (False, 2)):
                    for q in s.refine(v[0], t, st.copy()): out.append((q, s.val(x.ops[w], q)))
                r = out
            if r is None: r = s.inst(x, st, v)
            if isinstance(r, list):
                for q, w in r:
                    if w and w[0] == 'exc':                      # an exception: to the landing pad, or out of here
                        if x.op == 'invoke': q.mem[('cur',)] = w; work.append((x.d['unwind'], b, q))
                        else: s.raised(x, q, w)
                        continue
                    q.env[x.i] = w
                    if x.op == 'invoke': work.append((x.d['normal'], b, q))
                    else: s.block(b, idx + 1, q, work)
                return
            st.env[x.i] = r
            if x.op == 'invoke': work.append((x.d['normal'], b, st)); return      # where an exception leads is not followed
