"""Resolved-program model over the IR exported by irx.

Value numbering, a field-based memory SSA, dominance facts with a small linear
entailment procedure, mod-sets, reachability queries.  Purely static.
"""
import sys, collections
from functools import lru_cache
sys.setrecursionlimit(20000)
from fe import AnalysisBroken, REPO

CAST_TRANSPARENT = ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast')
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

class Inst:
    __slots__ = ('i', 'op', 't', 'n', 'ops', 'l', 'd', 'b', 'k', 'fn')
    def __init__(s, d, b, k, fn):
        s.d = d; s.i = d['i']; s.op = d['op']; s.t = d.get('t'); s.n = d.get('n'); s.ops = d['ops']
        s.l = d.get('l'); s.b = b; s.k = k; s.fn = fn
    def __repr__(s): return '<%s#%d %s>' % (s.fn.name, s.i, s.op)
    @property
    def callee(s):
        c = s.d.get('callee')
        return c[1] if c and c[0] == 'g' else None
    @property
    def iscall(s): return s.op in ('call', 'invoke')

class Block:
    __slots__ = ('id', 'insts', 'succ', 'pred')
    def __init__(s, id): s.id = id; s.insts = []; s.succ = []; s.pred = []

class Fn:
    def __init__(s, m, d):
        s.m = m; s.d = d; s.name = d['name']; s.dem = d.get('dem', d['name'])
        s.args = d['args']; s.nargs = len(d['args']); s.blocks = []
        s.inst = {}
        for bd in d['blocks']:
            b = Block(bd['id']); b.succ = list(dict.fromkeys(bd['succ'])); s.blocks.append(b)
            for k, idd in enumerate(bd['insts']):
                x = Inst(idd, b, k, s); b.insts.append(x); s.inst[x.i] = x
        for b in s.blocks:
            for t in b.succ: s.blocks[t].pred.append(b.id)
        s._expr = {}; s._stk = []; s._low = 1 << 30; s._tnt = {}; s._ver = {}; s._idom = None; s._pidom = None; s._edgefacts = {}; s._bf = {}
        s._verstack = set(); s._cls = {}
        s.uns = set()
        for k, v in d['dv'].items():
            if '<u>' in v: s.uns.add(int(k))
        for a, u in zip(s.args, d.get('au', [])):
            if u: s.uns.add(a[0])
    @property
    def base(s):
        return s.dem.split('(')[0].split('::')[-1] if s.dem != s.name else s.name
    def file(s):
        f = s.d.get('file', -1)
        return rel(s.m.files[f]) if f is not None and f >= 0 else '?'
    def where(s, x=None):
        """file:line (function) of an instruction or of the function"""
        if x is not None and x.l and x.l[0]:
            src = x.l[2]
            nm = short(s)
            return '%s:%d in %s%s' % (rel(s.m.files[x.l[1]]), x.l[0], nm, '' if not src or src == nm or s.dem != s.name else ' (from %s)' % src)
        if x is not None:  # nearest instruction with a line
            for y in reversed(x.b.insts[:x.k + 1]):
                if y.l and y.l[0]: return s.where(y)
            for y in x.b.insts[x.k:]:
                if y.l and y.l[0]: return s.where(y)
        return '%s:%d in %s' % (s.file(), s.d.get('line', 0), short(s))
    def insts(s, *ops):
        for b in s.blocks:
            if not s.reachable(b.id): continue
            for x in b.insts:
                if not ops or x.op in ops: yield x
    def calls(s, *names):
        for x in s.insts('call', 'invoke'):
            if not names or x.callee in names: yield x
    # ---- CFG
    def reachable(s, b):
        s._dom(); return b in s._idom
    def _dom(s):
        if s._idom is not None: return
        s._idom = domtree(0, lambda b: s.blocks[b].succ, lambda b: s.blocks[b].pred)
        # dfs in/out for fast dominance
        ch = collections.defaultdict(list)
        for b, d in s._idom.items():
            if b != d: ch[d].append(b)
        s._tin = {}; s._tout = {}; t = 0
        st = [(0, 0)]
        while st:
            b, ph = st.pop()
            if ph == 0:
                s._tin[b] = t; t += 1; st.append((b, 1))
                for c in ch[b]: st.append((c, 0))
            else: s._tout[b] = t; t += 1
    def dom(s, a, b):
        s._dom()
        return a in s._tin and b in s._tin and s._tin[a] <= s._tin[b] and s._tout[a] >= s._tout[b]
    def idom(s, b):
        s._dom(); return s._idom.get(b)
    def idominst(s, x, y):
        """x strictly before y on every path"""
        if x.b is y.b: return x.k < y.k
        return s.dom(x.b.id, y.b.id)
    def edge_dom(s, a, b, t):
        """edge a->b dominates block t"""
        if not s.dom(b, t): return False
        ps = [p for p in s.blocks[b].pred if s.reachable(p)]
        return all(p == a or s.dom(b, p) for p in ps)
    def exits(s):
        return [b.insts[-1] for b in s.blocks if s.reachable(b.id) and b.insts and b.insts[-1].op == 'ret']
    def reach(s, start):
        """blocks reachable from the start block list (inclusive)"""
        seen = set(start); st = list(start)
        while st:
            for t in s.blocks[st.pop()].succ:
                if t not in seen: seen.add(t); st.append(t)
        return seen
    def in_loop(s, b):
        return b in s.reach(s.blocks[b].succ)
    # ---- values
    def expr(s, o):
        """Canonical expression of an operand."""
        k = o[0]
        if k == 'v':
            v = o[1]
            e = s._expr.get(v)
            if e is None:
                st = s._stk
                s._expr[v] = ('pend', s.name, v)
                d = len(st); st.append(v); low = s._low; s._low = d
                e = s._mk(v)
                st.pop()
                s._expr[v] = e
                if s._low < d and e[0] != 'phi':      # computed from a value still in progress: not final
                    s._tnt[v] = s._tnt.get(v, 0) + 1
                    if s._tnt[v] < 8: s._expr[v] = None
                s._low = min(low, s._low)
            elif e[0] == 'pend' and e[2] in s._stk and e[1] == s.name:
                s._low = min(s._low, s._stk.index(e[2]))
            return e
        if k == 'c': return ('c', o[1])
        if k == 'n': return ('c', 0)
        if k == 'g': return ('g', o[1])
        if k == 'd': return ('d', o[1])
        if k == 'u': return ('undef',)
        if k == 'ce':
            if o[1] == 'getelementptr':
                return s._gep(s.expr(o[2][0]), o[3])
            if len(o[2]) == 1: return s.expr(o[2][0])
            if o[1] in ('sub', 'add') and len(o[2]) == 2:
                a, b = nulloff(s.expr(o[2][0])), nulloff(s.expr(o[2][1]))
                if a is not None and b is not None: return ('c', a - b if o[1] == 'sub' else a + b)
            return ('ce', o[1]) + tuple(s.expr(x) for x in o[2])
        return ('k', str(o))
    def optype(s, o):
        if o[0] == 'v':
            return s.args[o[1]][1] if o[1] < s.nargs else s.inst[o[1]].t
        if o[0] in ('n', 'g'): return 'ptr'
        if o[0] == 'ce': return 'ptr' if o[1] == 'getelementptr' else None
        return None
    def x(s, inst): return s.expr(['v', inst.i])
    def _mk(s, v):
        if v < s.nargs: return ('arg', v)
        x = s.inst[v]; op = x.op
        E = s.expr
        if op in CAST_TRANSPARENT:
            e = E(x.ops[0])
            if op == 'sext' and x.d.get('st') == 'i1': return ('sext1', e)
            if op == 'zext' and x.d.get('st') in ('i8', 'i16'):
                if e[0] != 'c': return ('zx', x.d['st'], e)
                return ('c', e[1] & (255 if x.d['st'] == 'i8' else 65535))
            if op == 'zext' and x.d.get('st') == 'i1': return ('zx', 'i1', e)
            return e
        if op == 'trunc':
            e = E(x.ops[0])
            if e[0] == 'c': return mask_const(e[1], x.t)
            if e[0] == 'zx' and e[1] == x.t: return e[2]
            return ('trunc', x.t, e)
        if op == 'getelementptr':
            return s._gep(E(x.ops[0]), x.d['path'])
        if op in ('add', 'sub', 'mul', 'shl'):
            a, b = E(x.ops[0]), E(x.ops[1])
            return s.m.arith(op, a, b)
        if op in ('and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = E(x.ops[0]), E(x.ops[1])
            if op in ('and', 'or', 'xor', 'fadd', 'fmul') and repr(b) < repr(a): a, b = b, a
            if a[0] == 'c' and b[0] == 'c' and op in ('and', 'or', 'xor'):
                return ('c', {'and': a[1] & b[1], 'or': a[1] | b[1], 'xor': a[1] ^ b[1]}[op])
            return (op, a, b)
        if op in ('icmp', 'fcmp'):
            a, b = E(x.ops[0]), E(x.ops[1]); p = x.d['p']
            return ('cmp', p, a, b)
        if op == 'select':
            return ('sel', E(x.ops[0]), E(x.ops[1]), E(x.ops[2]))
        if op == 'load':
            return s.load_expr(x)
        if op == 'phi':
            vals = []
            for (o, b) in x.ops:
                if not s.reachable(b): continue
                if o[0] == 'v' and o[1] == v: continue
                vals.append(o)
            s._expr[v] = ('phi', s.name, v)
            es = {s.expr(o) for o in vals}
            es.discard(('phi', s.name, v))
            if len(es) == 1:
                e = next(iter(es))
                if not mentions_pend(e): return e
            return ('phi', s.name, v)
        if op in ('call', 'invoke'):
            return ('call', x.callee or 'indirect', s.name, v)
        if op == 'alloca':
            return ('alloca', s.name, v)
        if op == 'extractvalue':
            return ('ev', tuple(x.d.get('idx', [])), E(x.ops[0]))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            return (op, E(x.ops[0]))
        return ('val', s.name, v, op)
    def _gep(s, base, path):
        e = base
        for p in path:
            if p[0] == 'f':
                e = ('fld', e, p[1], p[2], p[3])
            elif p[0] == 'i':
                ix = s.expr(p[1])
                if ix == ('c', 0): 
                    if p[3] >= 0: e = ('idx', e, ix, p[2])
                    continue
                if e[0] == 'idx' and e[3] == p[2] and p[3] < 0:
                    e = ('idx', e[1], s.m.arith('add', e[2], ix), p[2])
                else:
                    e = ('idx', e, ix, p[2])
            else:
                e = ('gep?', e)
        return e
    # ---- memory
    def cls(s, x):
        """Memory class of a load/store: (struct, field) or ('raw', size)."""
        c = s._cls.get(x.i)
        if c is None:
            o = x.ops[1] if x.op == 'store' else x.ops[0]
            c = s.addr_cls(o, x)
            s._cls[x.i] = c
        return c
    def addr_cls(s, o, x=None):
        e = s.expr(o) if o[0] != 'E' else o[1]
        return s.m.addr_class(s, e, o, x)
    def effects_of(s, x):
        """classes possibly written by instruction x (None if none)"""
        if x.op == 'store': return (s.cls(x),)
        if x.iscall: return s.m.call_mods(s, x)
        if x.op in ('atomicrmw', 'cmpxchg'): return (s.addr_cls(x.ops[0], x),)
        return ()
    def ver_before(s, c, x):
        """version (defining instruction / phi / entry) of class c just before x"""
        b = x.b
        for k in range(x.k - 1, -1, -1):
            y = b.insts[k]
            if y.op in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg') and s.m.clobbers(s, y, c): return ('def', y.i)
        return s.ver_entry(c, b.id)
    def ver_exit(s, c, bid):
        b = s.blocks[bid]
        for y in reversed(b.insts):
            if y.op in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg') and s.m.clobbers(s, y, c): return ('def', y.i)
        return s.ver_entry(c, bid)
    def ver_entry(s, c, bid):
        key = (c, bid)
        v = s._ver.get(key)
        if v is not None: return v
        if bid == 0:
            s._ver[key] = ('entry',); return ('entry',)
        preds = [p for p in s.blocks[bid].pred if s.reachable(p)]
        # compute for class c over the whole function at once
        s._solve_ver(c)
        return s._ver[key]
    def _solve_ver(s, c):
        out = {}
        for b in s.blocks:
            if not s.reachable(b.id): continue
            d = None
            for y in reversed(b.insts):
                if y.op in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg') and s.m.clobbers(s, y, c): d = ('def', y.i); break
            out[b.id] = d
        ent = {b: None for b in out}; ent[0] = ('entry',)
        order = [b for b in s.rpo()]
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                vs = set()
                for p in s.blocks[b].pred:
                    if p not in out: continue
                    v = out[p] if out[p] is not None else ent[p]
                    if v is not None: vs.add(v)
                if ent[b] is not None and ent[b][0] == 'phi' and ent[b][1] == b: continue
                n = None if not vs else (next(iter(vs)) if len(vs) == 1 else ('phi', b))
                if n != ent[b]: ent[b] = n; ch = True
        for b, v in ent.items(): s._ver[(c, b)] = v or ('entry',)
    def rpo(s):
        if not hasattr(s, '_rpo'):
            seen = set(); out = []
            st = [(0, iter(s.blocks[0].succ))]; seen.add(0)
            while st:
                b, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t); st.append((t, iter(s.blocks[t].succ))); break
                else:
                    out.append(b); st.pop()
            s._rpo = out[::-1]
        return s._rpo
    def load_expr(s, x):
        a = s.expr(x.ops[0]); c = s.cls(x)
        return s.load_at(a, c, s.ver_before(c, x), x)
    def load_at(s, a, c, ver, x=None, depth=0):
        while True:
            if ver[0] == 'def':
                y = s.inst[ver[1]]
                if y.op == 'store':
                    ya = s.expr(y.ops[1])
                    if ya == a:
                        if x is None or x.t == y.d.get('vt'):
                            return s.expr(y.ops[0])
                        return ('ld', a, ver, x.t if x else None)
                    if s.m.noalias(s, a, ya):
                        ver = s.ver_before(c, y); continue
                    if x is not None and x.t == y.d.get('vt') and depth < 6:
                        # storing the value the location already has leaves it unchanged, aliased or not
                        pre = s.load_at(a, c, s.ver_before(c, y), x, depth + 1)
                        if pre == s.expr(y.ops[0]): return pre
                elif y.iscall and s.m.call_noalias(s, y, a, c):
                    ver = s.ver_before(c, y); continue
                return ('ld', a, (s.name,) + ver)
            if ver[0] == 'phi' and depth < 6:
                b = ver[1]
                key = (a, c, b)
                if key in s._verstack: return ('ld', a, (s.name,) + ver)
                s._verstack.add(key)
                try:
                    vals = set()
                    for p in s.blocks[b].pred:
                        if not s.reachable(p): continue
                        vals.add(s.load_at(a, c, s.ver_exit(c, p), x, depth + 1))
                        if len(vals) > 2: break
                finally:
                    s._verstack.discard(key)
                self_ = ('ld', a, (s.name,) + ver)
                vals.discard(self_)
                if len(vals) == 1:
                    v = next(iter(vals))
                    if not mentions_pend(v): return v
                return self_
            if ver[0] == 'entry':
                g = s.m.const_global_load(a)
                if g is not None: return g
                return ('ld', a, ('entry',))
            return ('ld', a, (s.name,) + ver)
    # ---- facts
    def edge_facts(s, a, b):
        """facts (cmp p x y) established when control goes a -> b"""
        key = (a, b)
        r = s._edgefacts.get(key)
        if r is None:
            r = []
            t = s.blocks[a].insts[-1]
            if t.op == 'br' and len(t.ops) == 3:
                # irx operand order of br: cond, false, true
                fb, tb = t.ops[1][1], t.ops[2][1]
                if fb != tb:
                    s.cond_facts(t.ops[0], b == tb, r, 0)
            elif t.op == 'switch':
                e = s.expr(t.ops[0])
                cs = [c for c, d in t.d['cases'] if d == b]
                if b != t.d['def']:
                    if len(cs) == 1: r.append(('eq', e, ('c', cs[0])))
                    elif cs:
                        r.append(('in', e, tuple(sorted(cs))))
                        if min(cs) >= 0:
                            r.append(('sge', e, ('c', min(cs)))); r.append(('sle', e, ('c', max(cs))))
                elif not cs:
                    for c, d in t.d['cases']: r.append(('ne', e, ('c', c)))
            s._edgefacts[key] = r
        return r
    def cond_facts(s, o, truth, out, depth=0):
        if depth > 12: return
        if o[0] != 'v':
            if o[0] == 'c' and bool(o[1] & 1) != truth: out.append(('false',))
            return
        x = s.inst.get(o[1])
        if x is None:
            out.append(('ne' if truth else 'eq', s.expr(o), ('c', 0))); return
        if x.op == 'icmp':
            p = x.d['p']; p = p if truth else NEG[p]
            a, b = s.expr(x.ops[0]), s.expr(x.ops[1])
            # (bool) != 0 patterns
            if b == ('c', 0) and p in ('ne', 'eq') and x.ops[0][0] == 'v' and x.ops[0][1] in s.inst:
                y = s.inst[x.ops[0][1]]
                while y.op in ('zext', 'sext', 'freeze') and y.ops[0][0] == 'v' and y.ops[0][1] in s.inst:
                    y = s.inst[y.ops[0][1]]
                if y.t == 'i1' and y.op in ('icmp', 'phi', 'and', 'or', 'xor', 'select', 'fcmp'):
                    s.cond_facts(['v', y.i], p == 'ne', out, depth + 1)
                elif y.op == 'phi':
                    s._phi_truth(y, p == 'ne', out, depth)
            out.append((p, a, b))
            return
        if x.op == 'xor' and x.t == 'i1' and x.ops[1] == ['c', -1] or (x.op == 'xor' and x.t == 'i1' and x.ops[1] == ['c', 1]):
            s.cond_facts(x.ops[0], not truth, out, depth + 1); return
        if x.op == 'and' and x.t == 'i1' and truth or x.op == 'or' and x.t == 'i1' and not truth:
            for y in x.ops: s.cond_facts(y, truth, out, depth + 1)
            return
        if x.op == 'select' and x.t == 'i1':
            c, a, b = x.ops
            if truth and b[0] == 'c' and b[1] == 0:
                s.cond_facts(c, True, out, depth + 1); s.cond_facts(a, True, out, depth + 1); return
            if not truth and a[0] == 'c' and a[1] != 0:
                s.cond_facts(c, False, out, depth + 1); s.cond_facts(b, False, out, depth + 1); return
        if x.op in ('freeze', 'trunc') :
            s.cond_facts(x.ops[0], truth, out, depth + 1)
            return
        if x.op == 'phi':
            s._phi_truth(x, truth, out, depth); 
        out.append(('ne' if truth else 'eq', s.expr(o), ('c', 0)))
    def _phi_truth(s, x, truth, out, depth):
        live = []
        for (o, b) in x.ops:
            if not s.reachable(b): continue
            if o[0] in ('c', 'n'):
                v = (o[1] if o[0] == 'c' else 0)
                if bool(v) != truth: continue
            live.append((o, b))
        if len(live) == 1:
            o, b = live[0]
            if o[0] == 'v': 
                if x.t == 'i1': s.cond_facts(o, truth, out, depth + 1)
                else: out.append(('ne' if truth else 'eq', s.expr(o), ('c', 0)))
            # facts holding at the end of that predecessor, valid if it is not a back edge
            if not s.dom(x.b.id, b):
                out.extend(s.edge_facts(b, x.b.id))
                for (p, q) in s.dom_edges(b): out.extend(s.edge_facts(p, q))
    def dom_edges(s, bid):
        """edges that dominate block bid"""
        key = bid
        r = s._bf.get(('de', key))
        if r is None:
            r = []
            b = bid
            while b is not None:
                ps = [p for p in s.blocks[b].pred if s.reachable(p)]
                fw = [p for p in ps if not s.dom(b, p)]
                if len(fw) == 1: r.append((fw[0], b))
                d = s.idom(b)
                if d == b: break
                b = d
            s._bf[('de', key)] = r
        return r
    def facts(s, bid, extra_edge=None):
        """facts known at entry of block bid (dominating edges, loop inductions)"""
        key = ('f', bid, extra_edge)
        r = s._bf.get(key)
        if r is None:
            r = []
            for (a, b) in s.dom_edges(bid): r.extend(s.edge_facts(a, b))
            if extra_edge: r.extend(s.edge_facts(*extra_edge))
            r = list(dict.fromkeys(r))
            s._bf[key] = r
        return r
    def edge_infeasible(s, a, b):
        """cheap contradiction test for going a->b given the dominating facts"""
        ef = s.edge_facts(a, b)
        if ('false',) in ef: return True
        if not ef: return False
        return contradict(s.facts(a), ef)

def contradict(known, new):
    eqs = {}; nes = set()
    for f in list(known) + list(new):
        if f[0] == 'eq' and f[2][0] == 'c': 
            if eqs.get(f[1], f[2][1]) != f[2][1]: return True
            eqs[f[1]] = f[2][1]
        if f[0] == 'eq': 
            pass
    for f in list(known) + list(new):
        if f[0] == 'ne' and f[2][0] == 'c' and f[1] in eqs and eqs[f[1]] == f[2][1]: return True
        if f[0] in ('slt', 'sle', 'sgt', 'sge') and f[2][0] == 'c' and f[1] in eqs:
            v, k = eqs[f[1]], f[2][1]
            if not {'slt': v < k, 'sle': v <= k, 'sgt': v > k, 'sge': v >= k}[f[0]]: return True
        if f[0] == 'in' and f[1] in eqs and eqs[f[1]] not in f[2]: return True
    s1 = set(known)
    for f in new:
        if f[0] in NEG and (NEG[f[0]], f[1], f[2]) in s1: return True
    return False

def nulloff(e):
    """constant value of an address expression built on the null pointer (offsetof)"""
    off = 0
    while e[0] in ('fld', 'idx'):
        if e[0] == 'fld': off += e[4]
        elif e[2][0] == 'c': off += e[2][1] * e[3]
        else: return None
        e = e[1]
    return off + e[1] if e[0] == 'c' else None

def mentions_pend(e):
    if not isinstance(e, tuple): return False
    if e and e[0] == 'pend': return True
    return any(mentions_pend(x) for x in e if isinstance(x, tuple))

def mentions(e, pred):
    if not isinstance(e, tuple): return False
    if pred(e): return True
    return any(mentions(x, pred) for x in e if isinstance(x, tuple))

def subexprs(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple): yield from subexprs(x)

def mask_const(v, t):
    n = int(t[1:]); v &= (1 << n) - 1
    if v >> (n - 1): v -= 1 << n
    return ('c', v)

def rel(p):
    r = REPO.rstrip('/') + '/'
    return p[len(r):] if p.startswith(r) else p

def short(fn):
    return fn.dem.split('(')[0] if fn.dem != fn.name else fn.name

def domtree(root, succ, pred):
    seen = {root}; post = []
    st = [(root, iter(succ(root)))]
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t); st.append((t, iter(succ(t)))); break
        else:
            post.append(b); st.pop()
    num = {b: i for i, b in enumerate(post)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in reversed(post):
            if b == root: continue
            new = None
            for p in pred(b):
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] < num[y]: x = idom[x]
                            while num[y] < num[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new: idom[b] = new; ch = True
    return idom

# functions of the C library: arguments they write through
LIBC_WRITES = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'read': [1], 'fread': [0], 'snprintf': [0], 'vsnprintf': [0], 'sprintf': [0],
               'strcpy': [0], 'strncpy': [0], 'fstat': [1], 'stat': [1], 'lstat': [1], 'strtol': [1], 'strtod': [1], 'strtoul': [1],
               'getcwd': [0], 'fgets': [0], 'gettimeofday': [0], 'sscanf': [2, 3, 4, 5], 'pthread_mutex_lock': [], 'realloc': [], 'modf': [1], 'frexp': [1]}
MEMFN = {'r_memset': 0, 'r_memcpy': 0, 'r_memmove': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'llvm.memcpy.p0.p0.i64': 0, 'llvm.memmove.p0.p0.i64': 0, 'llvm.memset.p0.i64': 0}

class Module:
    def __init__(m, j, name=''):
        m.j = j; m.name = name; m.files = j['files']; m.structs = j['structs']; m.enums = j['enums']
        m.fns = {}
        for d in j['functions']:
            m.fns[d['name']] = Fn(m, d)
        m.globals = {g['name']: g for g in j['globals']}
        m.decls = set(j['decls'])
        m._mods = None; m._fieldcls = {}
        m.units = j.get('units', [])
        m._offname = {}
        for n, st in m.structs.items():
            m._offname[n] = {int(k): v for k, v in st['off'].items()}
    def live(m):
        return [f for f in m.fns.values() if not f.d['dead']]
    def fn(m, name):
        f = m.fns.get(name)
        if f is None: raise AnalysisBroken('function %s not found in %s' % (name, m.name))
        return f
    def by_dem(m, prefix):
        return [f for f in m.fns.values() if f.dem.split('(')[0] == prefix]
    def field(m, st, name):
        s = m.structs.get(st)
        if not s: raise AnalysisBroken('struct %s not found' % st)
        for off, n in m._offname[st].items():
            if n == name: return off
        raise AnalysisBroken('field %s.%s not found' % (st, name))
    # ---- arithmetic normal form: ('lin', const, ((term, coef), ...)) sorted; atoms kept bare
    def arith(m, op, a, b):
        if op == 'shl':
            if b[0] == 'c' and 0 <= b[1] < 63:
                if a[0] == 'c': return ('c', a[1] << b[1])
                return mklin(*scale(aslin(a), 1 << b[1]))
            return ('shl', a, b)
        if op == 'mul':
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c': return mklin(*scale(aslin(a), b[1]))
            la, lb = aslin(a), aslin(b)
            if (la[0] == 0 and len(la[1]) <= 1 and lb[0] == 0 and len(lb[1]) <= 1) or len(la[1]) * len(lb[1]) > 6:
                return mulatom(a, b)
            # distribute
            c = la[0] * lb[0]; ts = {}
            for t, k in la[1]:
                if lb[0]: ts[t] = ts.get(t, 0) + k * lb[0]
                for t2, k2 in lb[1]:
                    p = mulatom(t, t2); ts[p] = ts.get(p, 0) + k * k2
            for t2, k2 in lb[1]:
                if la[0]: ts[t2] = ts.get(t2, 0) + k2 * la[0]
            return mklin(c, tuple(ts.items()))
        la, lb = aslin(a), aslin(b)
        if op == 'sub': lb = scale(lb, -1)
        ts = dict(la[1])
        for t, k in lb[1]: ts[t] = ts.get(t, 0) + k
        return mklin(la[0] + lb[0], tuple(ts.items()))
    # ---- memory classes
    def addr_class(m, fn, e, o=None, x=None):
        if e[0] == 'fld': return m.narrow((e[2], e[3]))
        off = 0; b = e
        if b[0] == 'idx':
            # array element: class of the container
            inner = b[1]
            if inner[0] == 'fld': return m.narrow((inner[2], inner[3]))
            if inner[0] == 'g': return ('global', inner[1])
            if inner[0] == 'alloca': return ('alloca', fn.name, inner[2])
            st = m.pointee(fn, b) or m.pointee(fn, inner)
            if st:
                f0 = m._offname.get(st, {}).get(0)
                if f0: return m.first_field(st)
            if inner[0] == 'ld': 
                a = inner[1]
                if a[0] == 'fld': return ('buf', a[2], a[3])
            return ('raw', b[3])
        if b[0] == 'g': return ('global', b[1])
        if b[0] == 'alloca':
            y = fn.inst.get(b[2]) if b[1] == fn.name else None
            if y is not None and y.d.get('at') in m.structs:
                return m.first_field(y.d['at'])
            return ('alloca', fn.name, b[2])
        st = m.pointee(fn, b, o)
        if st: return m.first_field(st)
        if b[0] == 'ld' and b[1][0] == 'fld': return ('buf', b[1][2], b[1][3])
        if b[0] == 'arg': return ('arg', fn.name, b[1])
        return ('raw', x.d.get('sz', 0) if x is not None else 0)
    def embedded(m, c):
        """struct type embedded (possibly as an array) in a field, or None"""
        s = m.structs.get(c[0])
        if not s: return None
        for n, t, off in s['el']:
            if n == c[1]:
                while t.startswith('['): t = t[t.index(' x ') + 3:-1]
                if t.startswith('%struct.'):
                    inner = t[len('%struct.'):].strip('"')
                    return inner if inner in m.structs else None
        return None
    def narrow(m, c):
        """class of the scalar at the start of a field"""
        st = m.embedded(c)
        return m.first_field(st) if st else c
    def first_field(m, st):
        s = m.structs.get(st)
        if not s or not s['el']: return (st, '#0')
        n, t, off = s['el'][0]
        while t.startswith('[') and '%struct.' in t: t = t[t.index(' x ') + 3:-1]
        if t.startswith('%struct.'):
            inner = t[len('%struct.'):].strip('"')
            if inner in m.structs: return m.first_field(inner)
        return (st, n)
    def sret_type(m, fn):
        t = fn._bf.get('sret')
        if t is None:
            t = False
            for x in fn.insts('getelementptr'):
                if x.ops[0] == ['v', 0]:
                    for p in x.d['path']:
                        if p[0] == 'f': t = p[1]; break
                if t: break
            fn._bf['sret'] = t
        return t or None
    def pointee(m, fn, e, o=None):
        """struct type pointed to by expression e according to declared types"""
        if o is not None and o[0] == 'v':
            dt = fn.d['dt'].get(str(o[1]))
            if dt:
                c = [t for t in dt if t in m.structs]
                if c: return c[-1]
        k = e[0]
        if k == 'arg':
            at = fn.d.get('at', [])
            args = fn.d['args']; sh = 1 if args and args[0][3] else 0
            i = e[1] - sh
            if sh and e[1] == 0: return m.sret_type(fn)
            if 0 <= i < len(at) and at[i] in m.structs: return at[i]
            dt = fn.d['dt'].get(str(e[1]))
            if dt:
                c = [t for t in dt if t in m.structs]
                if c: return c[-1]
            return None
        if k == 'ld':
            a = e[1]
            if a[0] == 'fld':
                s = m.structs.get(a[2])
                if s:
                    p = s['fp'].get(a[3])
                    return p if p in m.structs else None
            return None
        if k == 'call':
            f = m.fns.get(e[1])
            if f is not None:
                rt = f.d.get('rt'); 
                if rt in m.structs: return rt
            dtx = m.j['declTypes'].get(e[1])
            if dtx and dtx[0] in m.structs: return dtx[0]
            if e[2] == fn.name:
                dt = fn.d['dt'].get(str(e[3]))
                if dt:
                    c = [t for t in dt if t in m.structs]
                    if c: return c[-1]
            return None
        if k == 'phi' and e[1] == fn.name:
            dt = fn.d['dt'].get(str(e[2]))
            if dt:
                c = [t for t in dt if t in m.structs]
                if c: return c[-1]
            return None
        if k == 'fld':
            s = m.structs.get(e[2])
            if s:
                for n, t, off in s['el']:
                    if off == e[4]:
                        if t.startswith('%struct.'):
                            inner = t[len('%struct.'):].strip('"')
                            return inner if inner in m.structs else None
        if k == 'idx':
            return m.pointee(fn, e[1])
        if k == 'alloca':
            y = fn.inst.get(e[2])
            if y is not None and y.d.get('at') in m.structs: return y.d['at']
        return None
    def clobbers(m, fn, y, c):
        if y.op == 'store':
            sc = fn.cls(y)
            return sc == c or (sc[0] == 'raw' and c[0] in ('raw', 'arg', 'buf')) or (c[0] == 'raw' and sc[0] in ('arg', 'buf')) or (sc[0] == 'arg' and c[0] == 'arg')
        if y.iscall:
            mods = m.call_mods(fn, y)
            if mods is None: return c[0] != 'alloca' or m.alloca_escapes(fn, c)
            if c in mods: return True
            if c[0] in ('raw', 'arg', 'buf') and any(q[0] in ('raw', 'arg', 'buf') for q in mods): return True
            return False
        if y.op in ('atomicrmw', 'cmpxchg'):
            return fn.addr_cls(y.ops[0], y) == c
        return False
    def alloca_escapes(m, fn, c):
        return True
    def mods(m):
        """transitive mod-sets per function (None = unknown, anything)"""
        if m._mods is not None: return m._mods
        direct = {}; callees = {}
        for f in m.fns.values():
            ds = set(); cs = set()
            for x in f.insts('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg'):
                if x.op == 'store':
                    c = f.quick_cls(x.ops[1]); ds.add(c)
                elif x.iscall:
                    n = x.callee
                    if n in MEMFN:
                        ds.add(f.quick_cls(x.ops[0])); ds |= m.quick_all(f, x.ops[0])
                        if n not in m.fns: continue
                    if n is None: cs |= set(m.indirect_targets(f, x))
                    elif n in m.fns: cs.add(n)
                    else:
                        for c in m.ext_mods(f, x, quick=True): ds.add(c)
                else: ds.add(f.quick_cls(x.ops[0]))
            direct[f.name] = ds; callees[f.name] = cs
        res = {n: set(d) for n, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for n in res:
                before = len(res[n])
                for c in callees[n]:
                    res[n] |= res[c]
                if len(res[n]) != before: ch = True
        m._mods = res; m._callees = callees
        return res
    def quick_all(m, f, o):
        """fields written when the object at operand o is overwritten as a whole"""
        c = f.quick_cls(o)
        if o[0] == 'v' and o[1] in f.inst and f.inst[o[1]].op == 'getelementptr':
            for p in reversed(f.inst[o[1]].d['path']):
                if p[0] == 'f':
                    st = m.embedded((p[1], p[2]))
                    return m.all_fields(st) if st else set()
        return m.all_fields(c[0]) if c[0] in m.structs else set()
    def indirect_targets(m, fn, x):
        """address-taken functions with the same signature as the indirect call"""
        if not hasattr(m, '_sigs'):
            m._sigs = collections.defaultdict(list)
            for f in m.fns.values():
                if f.d['addrtaken']: m._sigs[(f.d['ret'], tuple(a[1] for a in f.args))].append(f.name)
        at = tuple(fn.optype(o) for o in x.ops)
        r = []
        for (ret, args), fs in m._sigs.items():
            if len(args) == len(at) and (ret == (x.t or 'void')) and all(a == b or b is None for a, b in zip(args, at)): r += fs
        return r
    def callgraph(m):
        m.mods(); return m._callees
    def reach_calls(m, roots):
        cg = m.callgraph(); seen = set(); st = [r for r in roots if r in cg]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n); st.extend(c for c in cg.get(n, ()) if c in m.fns)
        return seen
    def ext_mods(m, f, x, quick=False):
        n = x.callee
        if n and (n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset')): idx = [0]
        elif n and n.startswith('llvm.'): idx = []
        elif n in LIBC_WRITES: idx = LIBC_WRITES[n]
        elif n and n.startswith('__'): idx = []
        else: idx = []
        r = []
        for i in idx:
            if i < len(x.ops):
                r.append(f.quick_cls(x.ops[i]) if quick else f.addr_cls(x.ops[i], x))
        return r
    def call_mods(m, fn, x):
        n = x.callee
        if n in MEMFN:
            c = fn.addr_cls(x.ops[0], x)
            o = x.ops[0]
            e = fn.expr(o)
            st = None
            # whole-struct writes (memset(obj,0,sizeof)) touch every field of the struct
            if e[0] not in ('fld', 'idx'): st = m.pointee(fn, e, o)
            else:
                q = e
                while q[0] == 'idx': q = q[1]
                if q[0] == 'fld': st = m.embedded((q[2], q[3]))
            r = {c}
            if st: r |= m.all_fields(st)
            return r
        if n is None:
            r = set()
            for t in m.indirect_targets(fn, x): r |= m.mods()[t]
            return r
        if n in m.fns: return m.mods()[n]
        return set(m.ext_mods(fn, x))
    def all_fields(m, st):
        r = set(); s = m.structs.get(st)
        if not s: return r
        for n, t, off in s['el']:
            r.add((st, n))
            if t.startswith('%struct.'): r |= m.all_fields(t[len('%struct.'):].strip('"'))
        return r
    def root(m, e):
        while e[0] in ('fld', 'idx', 'gep?'): e = e[1]
        return e
    def noalias(m, fn, a, b, scalar=True):
        ra, rb = m.root(a), m.root(b)
        if ra != rb:
            k = (ra[0], rb[0])
            if ra[0] == 'alloca' and rb[0] in ('arg', 'alloca', 'g', 'call'): return True
            if rb[0] == 'alloca' and ra[0] in ('arg', 'g', 'call'): return True
            if ra[0] == 'g' and rb[0] == 'g': return True
            return False
        # same root: compare the last constant index / field
        pa, pb = path_of(a), path_of(b)
        for x, y in zip(pa, pb):
            if x == y: continue
            if x[0] == 'f' and y[0] == 'f': return x != y and x[1] == y[1]
            if x[0] == 'i' and y[0] == 'i' and x[2] == y[2]:
                d = mklin(*sublin(aslin(x[1]), aslin(y[1])))
                return d[0] == 'c' and d[1] != 0
            return False
        if scalar and len(pa) != len(pb):
            rest = (pa if len(pa) > len(pb) else pb)[min(len(pa), len(pb)):]
            if rest[0][0] == 'i' and rest[0][1][0] == 'c' and rest[0][1][1] != 0 and abs(rest[0][1][1] * rest[0][2]) >= 8 and all(r[0] == 'f' or r[1][0] == 'c' and r[1][1] >= 0 for r in rest): return True
        return False
    def call_noalias(m, fn, y, a, c):
        """call y cannot write the location a although its class mod-set has c"""
        r = m.root(a)
        if r[0] == 'alloca':
            # alloca whose address was never passed to the call (nor stored)
            if not m.escapes(fn, r[2]): return True
        if y.callee in MEMFN:
            d = fn.expr(y.ops[0])
            if m.noalias(fn, a, d, False): return True
        return False
    def escapes(m, fn, aid):
        key = ('esc', aid)
        v = fn._bf.get(key)
        if v is None:
            v = False
            for x in fn.insts():
                if x.op == 'store':
                    e = fn.expr(x.ops[0])
                    if m.root(e) == ('alloca', fn.name, aid): v = True; break
                elif x.iscall and x.callee not in MEMFN and not (x.callee or '').startswith('llvm.'):
                    if any(o[0] in ('v', 'ce') and m.root(fn.expr(o)) == ('alloca', fn.name, aid) for o in x.ops): v = True; break
            fn._bf[key] = v
        return v
    def const_global_load(m, a):
        r = m.root(a)
        if r[0] != 'g': return None
        g = m.globals.get(r[1])
        if not g or not g['const'] or 'init' not in g: return None
        v = g['init']
        for p in path_of(a):
            if p[0] == 'i':
                if p[1][0] != 'c': return None
                if v[0] == 'z': return None
                if v[0] == 'a' and p[1][1] < len(v[1]): v = v[1][p[1][1]]
                else: return None
            else: return None
        if v[0] == 'c': return ('c', v[1])
        if v[0] == 'g': return ('g', v[1])
        return None

def path_of(e):
    p = []
    while e[0] in ('fld', 'idx', 'gep?'):
        if e[0] == 'fld': p.append(('f', e[2], e[3]))
        elif e[0] == 'idx': p.append(('i', e[2], e[3]))
        else: p.append(('?',))
        e = e[1]
    return p[::-1]

def _quick_cls(s, o):
    """class of an address without using memory versions (used for mod-sets)"""
    if o[0] == 'ce': 
        if o[1] == 'getelementptr' and o[3]:
            for p in reversed(o[3]):
                if p[0] == 'f': return s.m.narrow((p[1], p[2]))
        return s.quick_cls(o[2][0]) if o[2] else ('raw', 0)
    if o[0] == 'g': return ('global', o[1])
    if o[0] != 'v': return ('raw', 0)
    v = o[1]
    if v < s.nargs:
        st = s.m.pointee(s, ('arg', v), o)
        return s.m.first_field(st) if st else ('arg', s.name, v)
    x = s.inst[v]
    if x.op == 'getelementptr':
        for p in reversed(x.d['path']):
            if p[0] == 'f': return s.m.narrow((p[1], p[2]))
        b = s.quick_cls(x.ops[0])
        dt = s.d['dt'].get(str(v))
        if dt:
            c = [t for t in dt if t in s.m.structs]
            if c: return s.m.first_field(c[-1])
        return b
    if x.op in CAST_TRANSPARENT: return s.quick_cls(x.ops[0])
    if x.op == 'alloca':
        return s.m.first_field(x.d['at']) if x.d.get('at') in s.m.structs else ('alloca', s.name, v)
    dt = s.d['dt'].get(str(v))
    if dt:
        c = [t for t in dt if t in s.m.structs]
        if c: return s.m.first_field(c[-1])
    if x.op == 'load':
        y = x.ops[0]
        if y[0] == 'v' and y[1] in s.inst and s.inst[y[1]].op == 'getelementptr':
            for p in reversed(s.inst[y[1]].d['path']):
                if p[0] == 'f':
                    st = s.m.structs.get(p[1], {}).get('fp', {}).get(p[2])
                    if st in s.m.structs: return s.m.first_field(st)
                    return ('buf', p[1], p[2])
        return ('raw', 0)
    if x.iscall:
        f = s.m.fns.get(x.callee)
        if f is not None and f.d.get('rt') in s.m.structs: return s.m.first_field(f.d['rt'])
    return ('raw', 0)
Fn.quick_cls = _quick_cls

# ---- linear forms
def aslin(e):
    if e[0] == 'c': return (e[1], ())
    if e[0] == 'lin': return (e[1], e[2])
    return (0, ((e, 1),))
def scale(l, k):
    if k == 0: return (0, ())
    return (l[0] * k, tuple((t, c * k) for t, c in l[1]))
def sublin(a, b):
    ts = dict(a[1])
    for t, k in b[1]: ts[t] = ts.get(t, 0) - k
    return (a[0] - b[0], tuple(ts.items()))
def addlin(a, b):
    return sublin(a, scale(b, -1))
def mklin(c, ts):
    d = {}
    for t, k in ts: d[t] = d.get(t, 0) + k
    ts = [(t, k) for t, k in d.items() if k]
    if not ts: return ('c', c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1: return ts[0][0]
    ts.sort(key=lambda p: repr(p[0]))
    return ('lin', c, tuple(ts))
def mulatom(a, b):
    fs = []
    k = 1
    for e in (a, b):
        l = aslin(e)
        if l[0] == 0 and len(l[1]) == 1:
            k *= l[1][0][1]; e = l[1][0][0]
        if e[0] == 'mul': fs.extend(e[1:])
        else: fs.append(e)
    fs.sort(key=repr)
    r = ('mul',) + tuple(fs)
    return r if k == 1 else mklin(0, ((r, k),))

def term_ub(t):
    """constant upper bound of a term, or None"""
    if t[0] == 'zx' and t[1] in ('i1', 'i8', 'i16'): return (1 << int(t[1][1:])) - 1
    if t[0] == 'and':
        cs = [x[1] for x in t[1:] if x[0] == 'c' and x[1] >= 0]
        return min(cs) if cs else None
    if t[0] == 'urem' and t[2][0] == 'c' and t[2][1] > 0: return t[2][1] - 1
    return None

class Prover:
    """Entailment of linear inequalities from a set of comparison facts.
    Integers are treated as mathematical integers; unsigned comparisons yield
    non-negativity of the smaller side.  (Stated assumption: sizes do not wrap.)"""
    def __init__(s, fn, facts, nonneg=None):
        s.fn = fn; s.ineq = []; s.ne = []
        s.nonneg_terms = nonneg or (lambda t: False)
        for f in facts: s.add(f)
    def isnn(s, e):
        l = aslin(e)
        return l[0] >= 0 and all(k >= 0 and s.term_nn(t) for t, k in l[1])
    def term_nn(s, t):
        fn = s.fn
        if t[0] == 'zx': return True
        if t[0] in ('lshr', 'udiv', 'urem'): return True
        if t[0] == 'mul': return all(s.term_nn(x) for x in t[1:])
        if t[0] == 'and' and (t[1][0] == 'c' and t[1][1] >= 0 or t[2][0] == 'c' and t[2][1] >= 0): return True
        if t[0] == 'trunc': return False
        if t[0] == 'arg' and fn is not None:
            return t[1] in fn.uns
        if t[0] == 'ld' and t[1][0] == 'fld':
            st = fn.m.structs.get(t[1][2]) if fn is not None else None
            if st and t[1][3] in st['fu']: return True
        if t[0] == 'phi' and fn is not None and t[1] == fn.name and t[2] in fn.uns: return True
        if t[0] == 'call' and fn is not None:
            f = fn.m.fns.get(t[1])
            if f is not None and f.d.get('ret_u'): return True
            if t[1] in ('r_strlen', 'strlen'): return True
        if t[0] == 'sel': return s.isnn(t[2]) and s.isnn(t[3])
        return s.nonneg_terms(t)
    def add(s, f):
        p = f[0]
        if p not in NEG: return
        a, b = f[1], f[2]
        if b == ('c', 0) and p in ('ult',): return
        A, B = aslin(a), aslin(b)
        d = sublin(A, B)           # a - b
        def le(l): s.ineq.append(l)  # l <= 0
        if p == 'eq': le(d); le(scale(d, -1))
        elif p == 'ne':
            s.ne.append(d)
            # unsigned x != 0  ->  x >= 1
            if B == (0, ()) and s.isnn(a): le((1 - d[0], scale(d, -1)[1]))
        elif p in ('slt', 'ult'): le((d[0] + 1, d[1]))
        elif p in ('sle', 'ule'): le(d)
        elif p in ('sgt', 'ugt'): n = scale(d, -1); le((n[0] + 1, n[1]))
        elif p in ('sge', 'uge'): le(scale(d, -1))
        if p in ('ult', 'ule') and s.isnn(b): le(scale(A, -1))
        if p in ('ugt', 'uge') and s.isnn(a): le(scale(B, -1))
        if p == 'ne' and False: pass
    def le0(s, l, depth=0, used=frozenset()):
        """prove l <= 0"""
        c, ts = l
        d = {}
        for t, k in ts: d[t] = d.get(t, 0) + k
        ts = [(t, k) for t, k in d.items() if k]
        if all(k < 0 and s.term_nn(t) for t, k in ts) and c <= 0: return True
        if depth > 6: return False
        nt = []; cc = c
        for t, k in ts:
            u = term_ub(t) if k > 0 else None
            if u is None: nt.append((t, k))
            else: cc += k * u
        if len(nt) < len(ts) and s.le0((cc, tuple(nt)), depth + 1, used): return True
        pos = [(t, k) for t, k in ts if k > 0 or not s.term_nn(t)]
        if not pos:
            pos = ts
        # ne strengthening is done in prove()
        for t, k in pos:
            for n, g in enumerate(s.ineq):
                if n in used: continue
                gd = dict(g[1])
                gk = gd.get(t, 0)
                if gk == 0 or (gk > 0) != (k > 0): continue
                if k % gk: continue
                q = k // gk
                if q <= 0: continue
                nl = sublin((c, tuple(ts)), scale(g, q))
                if s.le0(nl, depth + 1, used | {n}): return True
        return False
    def le(s, a, b, k=0):
        """a <= b + k"""
        d = sublin(aslin(a), aslin(b))
        return s.le0((d[0] - k, d[1]))
    def lt(s, a, b): 
        if s.le(a, b, -1): return True
        if s.le(a, b) and s.nonequal(a, b): return True
        return False
    def nonequal(s, a, b):
        d = sublin(aslin(a), aslin(b))
        D = mklin(*d); N = mklin(*scale(d, -1))
        return any(mklin(*x) in (D, N) for x in s.ne)
    def ge0(s, a): return s.le(('c', 0), a)
    def gt0(s, a): return s.le(('c', 1), a) or (s.le(('c', 0), a) and s.nonequal(a, ('c', 0)))
    def nonzero(s, a):
        return s.nonequal(a, ('c', 0)) or s.le(('c', 1), a) or s.le(a, ('c', -1))

_mods = {}
def module(group, **kw):
    import fe
    key = (group, tuple(sorted((k, str(v)) for k, v in kw.items())))
    if key not in _mods:
        _mods[key] = Module(fe.load_group(group, **kw), group)
    return _mods[key]

def pp(e, d=0):
    """human readable expression"""
    if not isinstance(e, tuple): return str(e)
    if d > 7: return '..'
    k = e[0]; P = lambda x: pp(x, d + 1)
    if k == 'c': return str(e[1])
    if k == 'arg': return 'arg%d' % e[1]
    if k == 'g': return '@' + e[1]
    if k == 'ld': return '*%s{%s}' % (P(e[1]), '.'.join(str(x) for x in (e[2] or ())[-2:]) if e[2] != ('entry',) else '0')
    if k == 'fld': return '%s->%s' % (P(e[1]), e[3])
    if k == 'idx': return '%s[%s*%d]' % (P(e[1]), P(e[2]), e[3])
    if k == 'lin': return '(%s)' % '+'.join(([str(e[1])] if e[1] else []) + [('%s' % P(t)) if c == 1 else '%d*%s' % (c, P(t)) for t, c in e[2]])
    if k == 'phi': return 'phi%d' % e[2]
    if k == 'call': return '%s()#%d' % (e[1], e[3])
    if k == 'alloca': return 'local%d' % e[2]
    if k == 'cmp': return '(%s %s %s)' % (P(e[2]), e[1], P(e[3]))
    return '%s(%s)' % (k, ','.join(P(x) for x in e[1:]))
