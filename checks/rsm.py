"""Interprocedural explicit-state dataflow: one summary per function and abstract entry state, computed to a fixpoint
(recursive functions included).  A client (subclass of RSM) gives the abstract domain and the obligations."""
import sys, time
import ir
from ir import AnalysisBroken
from explore import *

def _after(f, x):
    """values still needed after x"""
    key = ('after', x.i); r = f._bf.get(key)
    if r is None:
        lv = liveness(f); r = set()
        for y in x.b.insts[x.k + 1:]:
            if y.op == 'phi': continue
            for o in y.ops:
                if o and o[0] == 'v': r.add(o[1])
        for t in x.b.succ:
            r |= lv[t]
            for y in f.blocks[t].insts:
                if y.op != 'phi': break
                r.discard(y.i)
                for q, p in y.ops:
                    if p == x.b.id and q[0] == 'v': r.add(q[1])
        f._bf[key] = r
    return r

class Proc(Explore):
    """one activation of a function, from one abstract entry state"""
    def __init__(s, R, f): super().__init__(f); s.R = R; s.out = set(); s.LIMIT = R.LIMIT; s.FORKS = R.FORKS
    def val(s, o, st):
        if o[0] == 'v' and o[1] < s.f.nargs: return st.env.get(o[1], U)
        return super().val(o, st)
    def inst(s, x, st, v):
        if x.iscall:
            g = s.R.target(s.f, x, st, v)
            if g is not None:
                return s.R.call(s, x, g, v, st)
        return s.R.inst(s.f, x, st, v)
    def base(s, x, st, v):
        r = s.R.base(s.f, x, st, v)
        return super().base(x, st, v) if r is None else r
    def cond(s, c, truth, st): return s.R.cond(s.f, c, truth, st)
    def merge(s, x, v, st): return s.R.merge(s.f, x, v, st)
    def normal(s, st): s.R.normal(st)
    def stop(s): return s.R.stop()
    def raised(s, x, st, w):
        st.env = {}
        s.out.add((w, frozenset(st.mem.items()), frozenset(st.g.items())))
    def ret(s, x, st, v):
        st.env = {}
        v = s.R.returned(s.f, x, st, v)
        s.out.add((v, frozenset(st.mem.items()), frozenset(st.g.items())))

class RSM:
    FORKS = False
    LIMIT = 60000
    def __init__(s, m):
        s.m = m; s.table = {}; s.visited = 0; s.errs = {}; s.depth = 0
    # ---- hooks
    def target(s, f, x, st, v):
        """the function to interpret for a call, or None when inst() gives its meaning"""
        n = x.callee
        return s.m.fn(n) if n in s.m.fns and not s.boundary(n) else None
    t0 = float("inf")
    def boundary(s, n): return False
    def volatile(s, v): return isinstance(v, tuple) and v and v[0] not in ('c', '?')
    def aside(s, w, g0, g1): return w         # what a call makes of a value it cannot see
    def inst(s, f, x, st, v): return U
    def base(s, f, x, st, v): return None
    def cond(s, f, c, truth, st): return [st]
    def truth(s, c): return Explore.truth(None, c)
    def merge(s, f, x, v, st): return v
    def normal(s, st): pass
    def stop(s): return len(s.errs) > 3 or bool(s.errs) and time.time() - s.t0 > 240
    def returned(s, f, x, st, v): return v
    def enter(s, f, st): pass                 # forget what the callee cannot need
    def bad(s, key, f, x, msg):
        if key not in s.errs: s.errs[key] = (f.where(x) if x is not None else f.where(), msg)
    # ---- renaming of abstract values everywhere
    def rename(s, st, fn):
        st.env = {k: fn(w) for k, w in st.env.items()}
        mem = {}
        for k, w in st.mem.items():
            if k == ('fr',): mem[k] = tuple(fn(q) for q in w)
            else:
                k2 = fn(k)
                if k2 is not None: mem[k2] = fn(w)
        st.mem = mem
    # ---- calls
    def call(s, P, x, g, v, st):
        keep = _after(P.f, x)
        env = {k: w for k, w in st.env.items() if k in keep}
        own = st.mem.get(('fr',), ())
        vol = []
        for w in list(env.values()) + list(own):
            if s.volatile(w) and w not in vol: vol.append(w)
        vol.sort(key=repr)
        cs = St({i: w for i, w in enumerate(v[:g.nargs])}, dict(st.mem), dict(st.g))
        cs.mem[('fr',)] = tuple(vol)
        out = []
        for rv, mem, gg in s.summary(g, cs):
            mem = dict(mem); fr = mem[('fr',)]
            mp = dict(zip(vol, fr))
            gg = dict(gg)
            new = lambda w: mp[w] if w in mp else s.aside(w, cs.g, gg)
            e = {k: new(w) for k, w in env.items()}
            mem[('fr',)] = tuple(new(w) for w in own)
            out.append((St(e, mem, gg), U if rv is None else rv))
        return out
    def summary(s, g, cs):
        s.enter(g, cs)
        key = (g.name, cs.key())
        cur = s.stack[-1] if s.stack else None
        if cur is not None: s.users.setdefault(key, set()).add(cur)
        if key not in s.done:
            s.done.add(key); s.entry[key] = (g, cs.copy()); s.order[key] = len(s.order)
            s.activate(key, g, cs, cur)
        return tuple(s.table.get(key, ()))
    def activate(s, key, g, cs, cur=None):
        if len(s.stack) > 300: raise AnalysisBroken('%s: calls nest too deep in the abstract' % g.name)
        s.stack.append(key)
        P = Proc(s, g); P.run(cs.copy())
        s.stack.pop(); s.runs += 1
        s.visited += P.visited
        old = s.table.get(key, set())
        if P.out - old:
            s.table[key] = old | P.out
            # whoever used the summary before it grew has to look again
            s.dirty |= s.users.get(key, set()) - ({cur} if not old and cur is not None and s.first(key, cur) else set())
    def first(s, key, cur):
        return key != cur and key not in s.stack
    def solve(s, g, cs):
        """all (value, mem, ghost) with which g may return from the state cs"""
        cs.mem.setdefault(('fr',), ())
        sys.setrecursionlimit(100000)
        s.done = set(); s.stack = []; s.users = {}; s.entry = {}; s.order = {}; s.dirty = set(); s.visited = 0; s.runs = 0
        s.t0 = time.time(); s.summary(g, cs.copy()); key = None
        n = 0
        while s.dirty and not s.stop():
            batch = sorted(s.dirty, key=s.order.__getitem__, reverse=True); s.dirty = set(); n += 1
            if n > 2000: raise AnalysisBroken('%s: no fixpoint' % g.name)
            for k in batch:
                s.dirty.discard(k)
                h, q = s.entry[k]; s.activate(k, h, q)
        return s.summary(g, cs.copy())
