"""Code generation: instructions, labels and relocation (rvm codegen, codemap, relocmap), interpreted over linear terms."""
import math
import ir
from ir import AnalysisBroken
from rsm import RSM
from explore import St, U
from common import str_const

# ---- linear terms: ('c', n) or ('l', n, ((atom, coefficient), ...)); an address is one atom ('addr', object)
def parts(v):
    if v[0] == 'c': return v[1], {}
    if v[0] == 'l': return v[1], dict(v[2])
    return None
def lin(n, d):
    d = {a: k for a, k in d.items() if k}
    return ('l', n, tuple(sorted(d.items(), key=repr))) if d else ('c', n)
def atom(*a): return ('l', 0, ((a, 1),))
def add(a, b, k=1):
    p, q = parts(a), parts(b)
    if p is None or q is None: return U
    d = dict(p[1])
    for t, c in q[1].items(): d[t] = d.get(t, 0) + k * c
    return lin(p[0] + k * q[0], d)
def scale(a, k):
    p = parts(a)
    return U if p is None else lin(p[0] * k, {t: c * k for t, c in p[1].items()})
def C(n): return ('c', n)
def tight(d):
    """d >= 0 over the integers"""
    p = parts(d)
    if p is None or not p[1]: return d
    g = 0
    for k in p[1].values(): g = math.gcd(g, k)
    return lin(p[0] // g, {t: k // g for t, k in p[1].items()})
def place(v):
    """(object, offset) of an address"""
    p = parts(v)
    if p is None: return None
    ad = [t for t, c in p[1].items() if t[0] == 'addr']
    if len(ad) != 1 or p[1][ad[0]] != 1: return None
    return ad[0][1], lin(p[0], {t: c for t, c in p[1].items() if t != ad[0]})

SIGN = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
FILES = ('rvmcodegen.c', 'rvmcodemap.c', 'rvmrelocmap.c', 'rvmcodegen.h', 'rvmcodemap.h', 'rvmrelocmap.h')
NONNEG = ('len', 'ix', 'strlen', 'n', 'it', 'udiv')

class Link(RSM):
    LIMIT = 20000
    table_of = None
    def __init__(s, m):
        super().__init__(m)
        s.sz = {'code': 24, 'labels': 0, 'records': 0, 'sdata': 1, 'srcidx': 8}
        for A, st in (('code', 'rvm_asmins_s'), ('labels', 'rvm_codelabel_s'), ('records', 'rvm_relocrecord_s')):
            if st not in m.structs: raise AnalysisBroken('struct %s not found' % st)
            s.sz[A] = m.structs[st]['size']
        fo = m.field
        s.L = {k: fo('rvm_codelabel_s', k) for k in ('type', 'base', 'value', 'name')}
        s.Rr = {k: fo('rvm_relocrecord_s', k) for k in ('target', 'type', 'offset', 'label')}
        s.sub = {('cg', fo('rvm_codegen_s', 'code')): 'code', ('cg', fo('rvm_codegen_s', 'staticdata')): 'sdata', ('cg', fo('rvm_codegen_s', 'sourceidx')): 'srcidx',
                 ('cg', fo('rvm_codegen_s', 'codemap')): 'map', ('cg', fo('rvm_codegen_s', 'relocmap')): 'reloc',
                 ('map', fo('rvm_codemap_s', 'labels')): 'labels', ('map', fo('rvm_codemap_s', 'hash')): 'hash', ('reloc', fo('rvm_relocmap_s', 'records') if 'rvm_relocmap_s' in m.structs else 0): 'records'}
        s.adata, s.alen, s.asize = fo('rarray_s', 'data'), fo('rarray_s', 'len'), fo('rarray_s', 'elt_size')
        s.cur = fo('rvm_codegen_s', 'cursrcidx')
        s.en = {}
        for e in m.enums.values():
            for k, v in (e.items() if isinstance(e, dict) else e): s.en.setdefault(k, v)
        s.calls = 0; s.bounds = 0; s.events = 0; s.resolving = False; s.heads = set()
    def volatile(s, v): return False
    def boundary(s, n):
        return n == 'rvm_codemap_resolve' or not s.m.fns[n].where().split(':')[0].endswith(FILES)
    # ---- facts
    def length(s, st, A): return st.mem.get(('len', A), atom('len', A))
    def facts(s, st):
        r = [k[1] for k, w in st.mem.items() if k[0] == 'ge']
        for k, w in st.mem.items():
            if k[0] == 'eq' and w: r += [k[1], scale(k[1], -1)]
        for k, w in st.mem.items():
            if k[0] == 'has' and w[0] == 'l' and w[2][0][0][0] == 'ix': r.append(add(add(atom('len', 'labels'), C(-1)), w, -1))
        return r
    def nonneg(s, st, d):
        """d >= 0 for certain"""
        def plain(d):
            p = parts(d)
            return p is not None and p[0] >= 0 and all(c > 0 and t[0] in NONNEG for t, c in p[1].items())
        d = tight(d)
        if plain(d): return True
        fs = s.facts(st)
        if any(plain(add(d, f, -1)) for f in fs): return True
        return any(plain(add(add(d, f, -1), g, -1)) for i, f in enumerate(fs) for g in fs[i:])
    def truth(s, c):
        return None if c[0] == 'cmp' else super().truth(c)
    def cond(s, f, c, truth, st):
        if c[0] == 'c': return [st] if bool(c[1]) == truth else []
        if c[0] != 'cmp' or parts(c[2]) is None or parts(c[3]) is None:
            return [st]
        p, a, b = c[1], c[2], c[3]
        d = add(a, b, -1)
        if p in ('eq', 'ne'):
            eq = (p == 'eq') == truth
            if d[0] == 'c': return [st] if (d[1] == 0) == eq else []
            # an address of an object is not null and no other object
            if place(d) is not None: return [] if eq else [st]
            n = scale(d, -1); k = ('eq', min(d, n, key=repr))
            q = st.mem.get(k)
            if q is None and s.nonneg(st, add(d, C(-1))) or s.nonneg(st, add(n, C(-1))): q = False
            if q is None and len(d[2]) == 1:                 # one quantity: known values
                t, cf = d[2][0]
                for k2, w in st.mem.items():
                    if k2[0] == 'eq' and w and k2[1] != k[1] and len(parts(k2[1])[1]) == 1 and t in parts(k2[1])[1]: q = False
            if q is not None: return [st] if q == eq else []
            st.mem[k] = eq
            if not eq:
                for w in (d, n):
                    if s.nonneg(st, w): st.mem[('ge', tight(add(w, C(-1))))] = True
            return [st]
        if not truth: p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[p[1:]]; un = c[1][0] == 'u'
        else: un = p[0] == 'u'; p = p[1:]
        if p in ('gt', 'le'): d = scale(d, -1); p = {'gt': 'lt', 'le': 'ge'}[p]; a, b = b, a
        # now a < b or a >= b; d = a - b
        if p == 'lt':
            w = add(scale(d, -1), C(-1))
            if un:
                if s.nonneg(st, b) or not any(t[0] == 'addr' for t in parts(b)[1]):
                    if not s.nonneg(st, a) and place(a) is None:
                        if s.nonneg(st, add(scale(a, -1), C(-1))): return []
                        st.mem[('ge', a)] = True
        else:
            w = d
            if un and not (s.nonneg(st, a) or place(a) is not None):
                q = st.copy(); q.mem[('ge', tight(add(scale(a, -1), C(-1))))] = True
                st.mem[('ge', a)] = True
                return [q] + s.cond(f, c, truth, st)
        if s.nonneg(st, scale(add(w, C(1)), -1)): return []
        if not s.nonneg(st, w): st.mem[('ge', tight(w))] = True
        return [st]
    # ---- loops: a value that changes by the same step each time round
    def merge(s, f, x, v, st):
        if x.b.id not in s.loops(f): return v
        k = ('phi', f.name, x.i); p = st.mem.get(k)
        st.mem[('arrive',)] = True
        if p is None: st.mem[k] = (v,); return v
        if p == (v,): return v
        it = atom('it', f.name, x.b.id)
        if len(p) == 1:
            d = add(v, p[0], -1)
            if d[0] != 'c': return U
            st.mem[k] = (p[0], d[1]); st.mem[('lap',)] = it
            return add(p[0], scale(it, d[1]))
        return add(p[0], scale(it, p[1])) if add(v, add(p[0], scale(it, p[1])), -1) == C(p[1]) else U
    def loops(s, f):
        r = f._bf.get('hdr')
        if r is None: r = f._bf['hdr'] = frozenset(loop_heads(f))
        return r
    def normal(s, st):
        if st.mem.pop(('arrive',), None):
            if st.mem.get(('started',)): s.round(st)
            st.mem[('started',)] = True
            for k in [k for k in st.mem if k[0] in ('ge', 'eq') and ("'it'" in repr(k) or "'ld'" in repr(k) or "'val'" in repr(k))]: del st.mem[k]
            it = st.mem.get(('lap',))
            if it is not None:
                st.mem[('ge', add(it, C(-1)))] = True
                if s.table_of: st.mem[('ge', add(atom('len', s.table_of), it, -1))] = True       # treated() has seen to it for the entry before
    def round(s, st):
        if st.mem.get(('two',)) is None and st.mem.get(('lap',)) is None: s.bad('loop', s.entry_f, None, 'the same entry is treated again'); return
        it = st.mem.get(('lap',))
        i = it if st.mem.get(('two',)) else C(0)     # the terms of the round just done are named by it
        st.mem[('two',)] = True
        s.treated(st, i)
        for k in [k for k in st.mem if k[0] == 'm' and k[1][0] in ('arg', 'loc') or k in (('ev',), ('failed',))]: del st.mem[k]
    def at(s, st):
        """how many entries were treated before this round"""
        it = st.mem.get(('lap',))
        return it if it is not None else C(0)
    def treated(s, st, i): pass
    # ---- memory
    def cell(s, f, x, st, a, size, write):
        p = place(a)
        if p is None: return None
        o, off = p
        if o[0] == 'data':
            A, ver = o[1], o[2]
            if st.mem.get(('ver', A), 0) != ver:
                s.bad('stale-%s' % A, f, x, '%s: an entry of the %s is used through an address taken before the table grew' % (f.name, WHAT[A]))
            if A in ('labels', 'records', 'srcidx'):
                s.bounds += 1
                i = s.index(A, off)
                if i is None or not s.nonneg(st, i) or not s.nonneg(st, add(add(s.length(st, A), i, -1), C(-1))):
                    s.bad('bounds-%s' % A, f, x, '%s: the %s are used at an index that is not checked' % (f.name, WHAT[A]))
            return ('m', ('data', A), off)
        return ('m', o, off)
    def index(s, A, off):
        p = parts(off); z = s.sz[A]
        if any(c % z for c in p[1].values()): return None
        return lin(p[0] // z, {t: c // z for t, c in p[1].items()})
    def load(s, f, x, st, a):
        p = place(a)
        if p is None: return U
        o, off = p
        if off[0] == 'c':
            if (o[0], off[1]) in s.sub:
                n = s.sub[(o[0], off[1])]
                return atom('addr', (n,))
            if o == ('cg',) and off[1] == s.cur: return atom('n', 'cursrcidx')
            if o[0] in s.sz and len(o) == 1:
                if off[1] == s.adata: return atom('addr', ('data', o[0], st.mem.get(('ver', o[0]), 0)))
                if off[1] == s.alen: return s.length(st, o[0])
                if off[1] == s.asize: return C(s.sz[o[0]])
        k = s.cell(f, x, st, a, None, False)
        w = st.mem.get(k)
        if w is not None: return w
        if o[0] == 'data': return atom('ld', o[1], off)
        return atom('ld', o, off)
    def grow(s, st, A, n):
        st.mem[('len', A)] = n; st.mem[('ver', A)] = st.mem.get(('ver', A), 0) + 1
    def name(s, st, p, n):
        """what a name and a size stand for"""
        q = place(p)
        if q is None: return None
        if q[0][0] == 'lit': return ('lit', q[0][1]) if n == C(len(q[0][1])) else ('part', q[0][1], n)
        if q[0][0] == 'dup' and q[1] == C(0): return q[0][1]
        return ('name', p, n)
    def rstr(s, f, x, st, a):
        p = place(a)
        if p and p[0][0] == 'dup': return p[0][1]
        z = s.m.field('rstr_s', 'size')
        return s.name(st, s.load(f, x, st, a), s.load(f, x, st, add(a, C(z))))
    def array(s, a):
        p = place(a)
        return p[0][0] if p and p[1] == C(0) and p[0][0] in s.sz else None
    def snapshot(s, st, a, n):
        """the contents of an object passed by address"""
        p = place(a)
        if p is None: return U
        w = st.mem.get(('m', p[0], 'ins'))
        if w is not None: return w
        if p[0][0] in ('arg',): return a
        return tuple(sorted(((k[2][1], w) for k, w in st.mem.items() if k[0] == 'm' and k[1] == p[0] and k[2][0] == 'c'), key=repr))
    def event(s, st, *e):
        s.events += 1; st.mem[('ev',)] = st.mem.get(('ev',), ()) + (e,)
    # ---- instructions
    def val(s, w): return w
    def base(s, f, x, st, v):
        op = x.op
        if op == 'alloca': return atom('addr', ('loc', f.name, x.i))
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): return s.glob(v[0])
        if op in ('sext', 'zext', 'trunc'): return None if v[0][0] != 'l' else v[0]
        if op == 'getelementptr':
            a = s.glob(v[0])
            for e in x.d['path']:
                if e[0] == 'f': a = add(a, C(e[3]))
                else:
                    i = C(e[1][1]) if e[1][0] == 'c' else st.env.get(e[1][1], U)
                    a = add(a, scale(i, e[2]))
            return a
        if op == 'load': return s.load(f, x, st, s.glob(v[0]))
        if op == 'store':
            k = s.cell(f, x, st, s.glob(v[1]), None, True)
            w = s.glob(v[0])
            if k is None: s.bad('store', f, x, '%s: a store to an unknown place' % f.name); return U
            st.mem[k] = w
            if k[1][0] == 'data' and k[1][1] == 'sdata': s.event(st, 'byte', k[2], w)
            return U
        if op in ('add', 'sub'):
            if x.t == 'i1': return None
            return add(s.glob(v[0]), s.glob(v[1]), 1 if op == 'add' else -1)
        if op in ('mul', 'shl'):
            a, b = v
            if a[0] == 'c' and op == 'mul': a, b = b, a
            if b[0] == 'c': return scale(a, b[1] if op == 'mul' else 1 << b[1])
            return U
        if op in ('sdiv', 'udiv', 'lshr', 'ashr'):
            p = parts(v[0])
            if p is None or v[1][0] != 'c': return U
            k = v[1][1] if op[1:] == 'div' else 1 << v[1][1]
            if k > 0 and p[0] % k == 0 and all(c % k == 0 for c in p[1].values()) and op in ('sdiv', 'ashr'): return lin(p[0] // k, {t: c // k for t, c in p[1].items()})
            return atom('sdiv' if op in ('sdiv', 'ashr') else 'udiv', v[0], k)
        if op == 'and' and x.t != 'i1':
            a, b = v
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and a[0] == 'l' and b[1] < 0 and (-b[1] & (-b[1] - 1)) == 0: return scale(atom('udiv', a, -b[1]), -b[1])
            return None if a[0] == b[0] == 'c' else U
        if op == 'icmp': return ('cmp', x.d['p'], s.glob(v[0]), s.glob(v[1]))
        return None
    def glob(s, w):
        if w[0] == 'g':
            b = str_const(s.m, ('g', w[1]))
            if b is not None: return atom('addr', ('lit', b))
        return w
    def inst(s, f, x, st, v):
        if not x.iscall: return U
        n = x.callee or ''; v = [s.glob(w) for w in v]; s.calls += 1
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n == 'r_memcpy' or n == 'memcpy' or n in ('r_memmove', 'memmove'):
            p, q = place(v[0]), place(v[1])
            if p and p[0][0] == 'data' and p[0][1] == 'sdata': s.cell(f, x, st, v[0], None, True); s.event(st, 'copy', p[1], v[1], v[2]); return v[0]
            if p and q and v[2][0] == 'c':
                w = st.mem.get(('m', q[0], 'ins'))
                if w is None and q[0][0] == 'arg': w = v[1]
                if w is not None: st.mem[('m', p[0], 'ins')] = w
                for k, w in list(st.mem.items()):
                    if k[0] == 'm' and k[1] == q[0] and k[2] != 'ins': st.mem[('m', p[0], add(add(k[2], q[1], -1), p[1]))] = w
            return v[0]
        if n.startswith('llvm.memset') or n in ('r_memset', 'memset', 'r_bzero'):
            p = place(v[0])
            if p and p[0][0] == 'data' and p[0][1] == 'sdata': s.cell(f, x, st, v[0], None, True); s.event(st, 'set', p[1], v[1], v[2])
            elif p and p[0][0] == 'loc': st.mem[('m', p[0], 'zero')] = v[1]
            return v[0]
        if n.startswith('llvm.'): return U
        if n in ('r_strlen', 'strlen'):
            p = place(v[0])
            if p and p[0][0] == 'lit': return C(len(p[0][1]))
            return atom('strlen', v[0])
        if n in ('r_rstrdup',):
            k = s.name(st, v[0], v[1])
            return atom('addr', ('dup', k))
        if n == 'r_array_add':
            A = s.array(v[0])
            if A is None: s.bad('table', f, x, '%s: adds to an unknown table' % f.name); return U
            i = s.length(st, A); w = s.snapshot(st, v[1], A) if v[1] != C(0) else None
            s.grow(st, A, add(i, C(1)))
            s.event(st, 'add', A, i, w)
            if isinstance(w, tuple) and w and isinstance(w[0], tuple) and A in ('labels', 'records'):
                for o, z in w: st.mem[('m', ('data', A), add(scale(i, s.sz[A]), C(o)))] = z
            return i
        if n in ('r_array_replace', 'r_array_insert'):
            A = s.array(v[0])
            p = place(v[2])
            w = s.load(f, x, st, v[2]) if A == 'srcidx' else s.snapshot(st, v[2], A)
            s.event(st, n[8:], A, v[1], w)
            if A is not None: st.mem[('ver', A)] = st.mem.get(('ver', A), 0) + 1
            return v[1]
        if n == 'r_array_setlength':
            A = s.array(v[0])
            if A is None: return U
            s.grow(st, A, v[1]); s.event(st, 'setlength', A, v[1])
            return v[1]
        if n == 'r_hash_lookup_index':
            k = s.rstr(f, x, st, v[1])
            if k is None: s.bad('key', f, x, '%s: looks for an unknown name' % f.name); return U
            w = st.mem.get(('has', k))
            if w is not None: return w
            q = st.copy(); q.mem[('has', k)] = C(-1); st.mem[('has', k)] = atom('ix', k)
            return [(st, st.mem[('has', k)]), (q, C(-1))]
        if n == 'r_hash_insert_index':
            k = s.rstr(f, x, st, v[1]); i = v[2]
            own = st.mem.get(('m', ('data', 'labels'), add(scale(i, s.sz['labels']), C(s.L['name']))))
            if place(v[1]) is None or place(v[1])[0][0] != 'dup': s.bad('key-own', f, x, '%s: a name is entered in the hash that no label owns' % f.name)
            elif own != v[1]: s.bad('key-own', f, x, '%s: a name is entered in the hash under an index that is not that of the label owning it' % f.name)
            elif st.mem.get(('has', k)) != C(-1): s.bad('key-twice', f, x, '%s: a name is entered in the hash that may be there already' % f.name)
            st.mem[('has', k)] = i
            return C(0)
        if n == 'r_hash_removeall': st.mem[('emptied',)] = True; return U
        if n in ('r_free', 'free'): s.event(st, 'free', v[0]); return U
        if n == 'rvm_codemap_resolve':
            if place(v[0]) is None or place(v[0])[0] != ('map',): s.bad('map', f, x, '%s: resolves in another table' % f.name)
            q = st.copy(); q.mem[('failed',)] = True
            q.mem[('err',)] = v[2]
            w = atom('val', v[1])
            st.mem[('eq', min(add(w, C(1)), scale(add(w, C(1)), -1), key=repr))] = False
            return [(st, w), (q, C(-1))]
        if n in ('rvm_asm', 'rvm_asms', 'rvm_asm2'):
            p = place(v[0])
            if p: st.mem[('m', p[0], 'ins')] = ('ins',) + tuple(v[1:])
            return U
        if n in ('r_snprintf', 'snprintf'): 
            p = place(v[0])
            if p: st.mem[('m', p[0], 'text')] = tuple(v[2:])
            return U
        return U

WHAT = {'labels': 'labels', 'records': 'relocation records', 'srcidx': 'source indexes', 'code': 'code', 'sdata': 'data'}
def loop_heads(f):
    def reach(a, b, no):
        seen = {a}; w = [a]
        while w:
            q = w.pop()
            if q == b: return True
            for t in f.blocks[q].succ:
                if t != no and t not in seen: seen.add(t); w.append(t)
        return False
    for b in f.blocks:
        for t in b.succ:
            if t == b.id or t == 0 or not reach(0, b.id, t): yield t

CG, MAP, RELOC = atom('addr', ('cg',)), atom('addr', ('map',)), atom('addr', ('reloc',))
def P(n): return atom('p', n)
def PTR(n): return atom('addr', ('arg', n))
NAME, SIZE, INS = PTR('name'), atom('n', 'size'), PTR('ins')
KEY, KEYS = ('name', NAME, SIZE), ('name', NAME, atom('strlen', NAME))
CODE, DATA = ('lit', '.code'), ('lit', '.data')

class Spec:
    """one run of a public function and what is expected at its returns"""
    def __init__(s, c, R, fn, args):
        s.c = c; s.R = R; s.fn = fn; s.f = R.m.fn(fn); c.seen(s.f)
        s.outs = []
        R.errs = {}
        for rv, mm, g in R.solve(s.f, St(dict(enumerate(args)), {('ge', add(atom('len', 'labels'), C(0))): True}, {})):
            s.outs.append((rv if rv is not None else C(0), St({}, dict(mm), {})))
        if not s.outs and not R.errs: R.bad('never', s.f, None, '%s never returns' % fn)
        c.ob('functions'); c.ob('returns', len(s.outs)); c.ob('states', R.visited)
    def bad(s, k, msg): s.R.bad(k, s.f, None, '%s: %s' % (s.fn, msg))
    def done(s):
        for k, (w, msg) in s.R.errs.items(): s.c.bad('%s-%s' % (s.fn, k), w, msg)
        s.R.errs = {}
    # ---- what is in the tables at a return
    def evs(s, st, *kinds): return [e for e in st.mem.get(('ev',), ()) if e[0] in kinds]
    def cell(s, st, i, k): return st.mem.get(('m', ('data', 'labels'), add(scale(i, s.R.sz['labels']), C(s.R.L[k]))))
    def touched(s, st):
        """indexes of the labels written"""
        r = set()
        for k in st.mem:
            if k[0] == 'm' and k[1] == ('data', 'labels'):
                i = s.R.index('labels', k[2]); r.add(i)
        return r
    def index(s, st, key):
        w = st.mem.get(('has', key))
        return None if w in (None, C(-1)) else w
    def table(s, st, allowed):
        """nothing else in the table of labels is touched, and every new label is complete"""
        for i in s.touched(st):
            if i not in allowed: s.bad('other', 'another label is changed'); return False
        for e in s.evs(st, 'add'):
            if e[1] != 'labels': continue
            if s.cell(st, e[2], 'type') is None: s.bad('type', 'a new label is left without a type'); return False
            nm = s.cell(st, e[2], 'name')
            if nm is None or place(nm) is None or place(nm)[0][0] != 'dup': s.bad('name', 'a new label has no copy of its name'); return False
            if st.mem.get(('has', place(nm)[0][1])) != e[2]: s.bad('entered', 'a new label cannot be found under its name'); return False
        return True
    def label(s, st, i, kind, value, base=None):
        if s.cell(st, i, 'type') != C(s.R.en['RVM_CODELABEL_' + kind]): s.bad('kind', 'the label does not become %s' % {'OFFSET': 'an offset', 'POINTER': 'a pointer', 'INVALID': 'undefined'}[kind]); return False
        if value is not None and s.cell(st, i, 'value') != value: s.bad('value', 'the label gets another value'); return False
        if base is not None and s.cell(st, i, 'base') != base: s.bad('base', 'the label gets another base'); return False
        return True
    def codebase(s, st, what=CODE):
        i = s.index(st, what)
        if i is None: s.bad('base', 'the label has no base')
        return i

def check_link(c):
    m = ir.module('core', pipe='plain', extra_boundary=('*noinline*',))
    R = Link(m)
    c.rule('every public function of the code generator, the label table and the relocation table is run over linear terms of its arguments, the lengths of the tables and what they hold; the hash of names is abstract (a name is in it, with the index of a label, or it is not); an address into a table is used only while the table has not grown; at every return the labels, relocation records, instructions and data are compared with the specification; the loop over the relocation records is judged by induction')
    Z = R.sz['code']; E = R.en
    run = lambda fn, *args: Spec(c, R, fn, args)
    # ---- names
    for fn, key, args in (('rvm_codemap_lookup', KEY, (MAP, NAME, SIZE)), ('rvm_codemap_lookup_s', KEYS, (MAP, NAME))):
        S = run(fn, *args)
        for rv, st in S.outs:
            if rv != st.mem.get(('has', key)): S.bad('lookup', 'does not return the index of the label of that name, or -1')
            S.table(st, ())
        S.done()
    for fn, key, args in (('rvm_codemap_lookupadd', KEY, (MAP, NAME, SIZE)), ('rvm_codemap_lookupadd_s', KEYS, (MAP, NAME))):
        S = run(fn, *args)
        for rv, st in S.outs:
            i = S.index(st, key)
            if i is None or rv != i: S.bad('index', 'does not return the index of the label of that name'); continue
            if i == atom('ix', key): S.table(st, ())
            elif S.table(st, (i,)): S.label(st, i, 'INVALID', None)
        S.done()
    V, B, O, I = P('value'), P('base'), P('offset'), P('index')
    for fn, key, args, kind, val, base in (
            ('rvm_codemap_addoffset', KEY, (MAP, NAME, SIZE, B, O), 'OFFSET', O, B), ('rvm_codemap_addoffset_s', KEYS, (MAP, NAME, B, O), 'OFFSET', O, B),
            ('rvm_codemap_addpointer', KEY, (MAP, NAME, SIZE, V), 'POINTER', V, None), ('rvm_codemap_addpointer_s', KEYS, (MAP, NAME, V), 'POINTER', V, None),
            ('rvm_codemap_invalid_add', KEY, (MAP, NAME, SIZE), 'INVALID', None, None), ('rvm_codemap_invalid_add_s', KEYS, (MAP, NAME), 'INVALID', None, None),
            ('rvm_codegen_invalid_addlabel', KEY, (CG, NAME, SIZE), 'INVALID', None, None), ('rvm_codegen_invalid_addlabel_s', KEYS, (CG, NAME), 'INVALID', None, None)):
        S = run(fn, *args)
        for rv, st in S.outs:
            i = S.index(st, key)
            if i is None or rv != i: S.bad('index', 'does not return the index of the label of that name'); continue
            S.table(st, (i,)) and S.label(st, i, kind, val, base)
        S.done()
    size = atom('len', 'code')
    for fn, key, args, off, ins in (
            ('rvm_codegen_addlabel', KEY, (CG, NAME, SIZE, O), O, None), ('rvm_codegen_addlabel_s', KEYS, (CG, NAME, O), O, None),
            ('rvm_codegen_addlabel_default', KEY, (CG, NAME, SIZE), size, None), ('rvm_codegen_addlabel_default_s', KEYS, (CG, NAME), size, None),
            ('rvm_codegen_addlabelins', KEY, (CG, NAME, SIZE, INS), size, INS), ('rvm_codegen_addlabelins_s', KEYS, (CG, NAME, INS), size, INS)):
        S = run(fn, *args)
        for rv, st in S.outs:
            i, b = S.index(st, key), S.codebase(st)
            if b is None: continue
            if i is None: S.bad('index', 'no label of that name is entered'); continue
            if ins is None and rv != i: S.bad('index', 'does not return the index of the label'); continue
            if S.table(st, (i, b)) and S.label(st, i, 'OFFSET', scale(off, Z), b) and ins is not None: appended(S, rv, st, ins)
        S.done()
    # ---- by index
    lab = add(atom('addr', ('data', 'labels', 0)), scale(I, R.sz['labels']))
    def valid(st, i=I):
        n = atom('len', 'labels')
        return R.nonneg(st, i) and R.nonneg(st, add(add(n, i, -1), C(-1)))
    def void(st, i, n):
        return any(R.nonneg(st, w) for w in (add(scale(i, -1), C(-1)), add(i, n, -1)))
    S = run('rvm_codemap_label', MAP, I)
    for rv, st in S.outs:
        if rv == C(0): void(st, I, atom('len', 'labels')) or S.bad('lost', 'a label of the table is refused')
        elif rv != lab: S.bad('label', 'does not return the label of that index')
        elif not valid(st): S.bad('range', 'an index that is no label is not refused')
    S.done()
    for fn, a in (('rvm_codemap_validindex', MAP), ('rvm_codegen_validlabel', CG)):
        S = run(fn, a, I)
        for rv, st in S.outs:
            t = atom('ld', 'labels', add(scale(I, R.sz['labels']), C(R.L['type'])))
            inv = known(st, t, E['RVM_CODELABEL_INVALID'])
            if rv == C(0):
                if not void(st, I, atom('len', 'labels')) and inv is not True: S.bad('valid', 'a defined label is said to be undefined')
            elif rv[0] == 'c':
                if not valid(st) or inv is not False: S.bad('valid', 'a label that is not defined is said to be')
            else: S.bad('valid', 'the answer is unknown')
        S.done()
    for fn, args, kind, val in (('rvm_codegen_redefinelabel', (CG, I, O), 'OFFSET', scale(O, Z)), ('rvm_codegen_redefinelabel_default', (CG, I), 'OFFSET', scale(size, Z)), ('rvm_codegen_redefinepointer', (CG, I, V), 'POINTER', V)):
        S = run(fn, *args)
        for rv, st in S.outs:
            b = S.index(st, CODE)
            n = R.length(st, 'labels')
            if rv == C(-1):
                if not void(st, I, n): S.bad('lost', 'a label of the table is refused')
                S.table(st, (b,)); continue
            if rv != I: S.bad('index', 'does not return the index of the label'); continue
            if kind == 'OFFSET' and S.codebase(st) is None: continue
            S.table(st, (I, b)) and S.label(st, I, kind, val, b if kind == 'OFFSET' else None)
        S.done()
    S = run('rvm_codemap_lastlabel', MAP)
    for rv, st in S.outs:
        if rv != add(atom('len', 'labels'), C(-1)): S.bad('last', 'does not return the index of the last label')
    S.done()
    LB = PTR('label')
    for fn, args, kind, val, base in (('rvm_codelabel_setoffset', (LB, B, O), 'OFFSET', O, B), ('rvm_codelabel_setpointer', (LB, V), 'POINTER', V, None), ('rvm_codelabel_setinvalid', (LB,), 'INVALID', None, None)):
        S = run(fn, *args)
        for rv, st in S.outs:
            g = lambda k: st.mem.get(('m', ('arg', 'label'), C(R.L[k])))
            if g('type') != C(E['RVM_CODELABEL_' + kind]) or val is not None and g('value') != val or base is not None and g('base') != base: S.bad('set', 'the label does not become what is asked')
            if g('name') is not None: S.bad('name', 'the name of the label is lost')
        S.done()
    S = run('rvm_codemap_resolve', MAP, I, PTR('err'))
    ld = lambda k: atom('ld', 'labels', add(scale(I, R.sz['labels']), C(R.L[k])))
    for rv, st in S.outs:
        if not valid(st): continue
        kinds = {k: known(st, ld('type'), E['RVM_CODELABEL_' + k]) for k in ('POINTER', 'OFFSET')}
        if rv == C(-1):
            if st.mem.get(('failed',)):
                if st.mem[('err',)] != PTR('err'): S.bad('err', 'the label that is undefined is not reported')
                continue
            if kinds['POINTER'] is not False or kinds['OFFSET'] is not False: S.bad('lost', 'a defined label is said to be undefined')
            if st.mem.get(('m', ('arg', 'err'), C(0))) != lab: S.bad('err', 'the label that is undefined is not reported')
        elif st.mem.get(('failed',)): S.bad('base', 'a label whose base is undefined gets a value')
        elif kinds['POINTER']:
            if rv != ld('value'): S.bad('pointer', 'the value of a pointer label is not the pointer')
        elif kinds['OFFSET']:
            if rv != add(atom('val', ld('base')), ld('value')): S.bad('offset', 'the value of a label is not that of its base and its offset')
        else: S.bad('undefined', 'an undefined label gets a value')
    S.done()
    # ---- instructions
    S = run('rvm_codegen_addins', CG, INS)
    for rv, st in S.outs: appended(S, rv, st, INS)
    S.done()
    T = P('type')
    for fn, args, key in (('rvm_codegen_index_addrelocins', (CG, T, I, INS), None), ('rvm_codegen_addrelocins', (CG, T, NAME, SIZE, INS), KEY), ('rvm_codegen_addrelocins_s', (CG, T, NAME, INS), KEYS)):
        S = run(fn, *args)
        for rv, st in S.outs:
            i = I if key is None else S.index(st, key)
            if i is None: S.bad('label', 'the label is not in the table'); continue
            if not appended(S, rv, st, INS): continue
            rr = [e for e in S.evs(st, 'add') if e[1] == 'records']
            if len(rr) != 1: S.bad('record', 'the instruction does not get its relocation record'); continue
            if not record(S, rr[0], E['RVM_RELOC_CODE'], T, rv, i): continue
            if key is not None:
                if i == atom('ix', key): S.table(st, ())
                elif S.table(st, (i,)): S.label(st, i, 'INVALID', None)
        S.done()
    S = run('rvm_relocmap_add', RELOC, P('target'), T, O, I)
    for rv, st in S.outs:
        rr = [e for e in S.evs(st, 'add') if e[1] == 'records']
        if len(rr) != 1 or rv != rr[0][2]: S.bad('record', 'no record is added, or its index is not returned')
        else: record(S, rr[0], P('target'), T, O, I)
    S.done()
    I1 = I; I = atom('n', 'index')
    S = run('rvm_relocmap_get', RELOC, I)
    for rv, st in S.outs:
        n = atom('len', 'records')
        if rv == C(0):
            if not void(st, I, n): S.bad('lost', 'a record of the table is refused')
        elif rv != add(atom('addr', ('data', 'records', 0)), scale(I, R.sz['records'])): S.bad('record', 'does not return the record of that index')
        elif not R.nonneg(st, add(add(n, I, -1), C(-1))): S.bad('range', 'an index that is no record is not refused')
    S.done()
    for fn, a, A in (('rvm_relocmap_length', RELOC, 'records'), ('rvm_codegen_getcodesize', CG, 'code')):
        S = run(fn, a)
        for rv, st in S.outs:
            if rv != atom('len', A): S.bad('size', 'does not return the number of %s' % WHAT[A])
        S.done()
    I = atom('n', 'index')
    S = run('rvm_codegen_getcode', CG, I)
    for rv, st in S.outs:
        if rv != add(atom('addr', ('data', 'code', 0)), scale(I, Z)): S.bad('code', 'does not return the instruction of that index')
    S.done()
    S = run('rvm_codegen_getsource', CG, I)
    for rv, st in S.outs:
        if rv == C(-1): void(st, I, atom('len', 'srcidx')) or S.bad('lost', 'an instruction of the code has no source')
        elif rv != atom('ld', 'srcidx', scale(I, 8)): S.bad('source', 'does not return the source of that instruction')
    S.done()
    S = run('rvm_codegen_setsource', CG, P('src'))
    for rv, st in S.outs:
        if st.mem.get(('m', ('cg',), C(R.cur))) != P('src'): S.bad('source', 'the source of the instructions to come is not set')
    S.done()
    S = run('rvm_codegen_replaceins', CG, I, INS)
    for rv, st in S.outs:
        if S.evs(st, 'replace', 'add', 'insert') != [('replace', 'code', I, INS)]: S.bad('replace', 'the instruction of that index is not replaced')
    S.done()
    # ---- data
    for fn, key, args, n in (('rvm_codegen_adddata', KEY, (CG, NAME, SIZE, PTR('bytes'), atom('n', 'bytes')), atom('n', 'bytes')), ('rvm_codegen_adddata_s', KEYS, (CG, NAME, PTR('bytes'), atom('n', 'bytes')), atom('n', 'bytes')),
                             ('rvm_codegen_addstring', KEY, (CG, NAME, SIZE, PTR('bytes')), add(atom('strlen', PTR('bytes')), C(1))), ('rvm_codegen_addstring_s', KEYS, (CG, NAME, PTR('bytes')), add(atom('strlen', PTR('bytes')), C(1)))):
        S = run(fn, *args)
        for rv, st in S.outs:
            i, b = S.index(st, key), S.codebase(st, DATA)
            if b is None: continue
            if i is None or rv != i: S.bad('index', 'does not return the index of the label'); continue
            if S.table(st, (i, b)) and S.label(st, i, 'OFFSET', None, b): placed(S, st, S.cell(st, i, 'value'), PTR('bytes'), n, fn)
        S.done()
    # ---- clearing
    class Clear(Link):
        table_of = 'labels'
        def treated(s, st, i):
            s.laps = getattr(s, 'laps', 0) + 1
            if not s.nonneg(st, add(add(atom('len', 'labels'), i, -1), C(-1))): s.bad('beyond', s.entry_f, None, 'a label that is not in the table is released'); return
            w = atom('ld', 'labels', add(scale(i, s.sz['labels']), C(s.L['name'])))
            if ('free', w) not in st.mem.get(('ev',), ()): s.bad('free', s.entry_f, None, 'the name of a label is not released')
    for fn, a in (('rvm_codemap_clear', MAP), ('rvm_codemap_destroy', MAP)):
        K = Clear(m); K.entry_f = m.fn(fn)
        S = Spec(c, K, fn, (a,))
        for rv, st in S.outs:
            if not K.nonneg(st, add(K.at(st), atom('len', 'labels'), -1)): S.bad('some', 'names of labels are not released')
            if fn.endswith('clear') and (K.length(st, 'labels') != C(0) or not st.mem.get(('emptied',))): S.bad('clear', 'labels remain, or their names in the hash')
        if not K.errs and not getattr(K, 'laps', 0): S.bad('never', 'no name of a label is released')
        S.done()
    class Shallow(Link):
        def boundary(s, n): return n == 'rvm_codemap_clear' or super().boundary(n)
        def inst(s, f, x, st, v):
            if x.iscall and x.callee == 'rvm_codemap_clear' and place(s.glob(v[0])) == (('map',), C(0)): st.mem[('emptied',)] = True; s.grow(st, 'labels', C(0))
            return super().inst(f, x, st, v)
    R, R1 = Shallow(m), R
    S = run('rvm_codegen_clear', CG)
    for rv, st in S.outs:
        for A in ('code', 'sdata', 'labels', 'records'):
            if R.length(st, A) != C(0): S.bad('clear-' + A, 'the %s are not cleared' % WHAT[A])
        if not st.mem.get(('emptied',)): S.bad('clear-hash', 'the names of the labels are not removed from the hash')
    S.done()
    R = R1
    relocate(c, R)
    c.ob('calls', R.calls); c.ob('accesses to tables', R.bounds); c.ob('changes of tables', R.events)

def known(st, t, n):
    """is t equal to n: True, False or None"""
    d = add(t, C(n), -1); k = ('eq', min(d, scale(d, -1), key=repr))
    r = st.mem.get(k)
    if r is None:
        for k2, w in st.mem.items():
            if k2[0] == 'eq' and w and k2[1][0] == 'l' and k2[1][2] in (t[2], scale(t, -1)[2]): return False
    return r

def appended(S, rv, st, ins):
    """exactly one instruction is appended, with the current source"""
    ev = [e for e in S.evs(st, 'add', 'insert', 'replace', 'setlength') if e[1] == 'code']
    if len(ev) != 1 or ev[0][0] != 'add' or ev[0][2] != atom('len', 'code') or ev[0][3] != ins: S.bad('append', 'the instruction is not appended to the code'); return False
    if rv != atom('len', 'code'): S.bad('where', 'does not return the index of the instruction'); return False
    src = [e for e in S.evs(st, 'add', 'insert', 'replace') if e[1] == 'srcidx']
    if src != [('replace', 'srcidx', rv, atom('n', 'cursrcidx'))]: S.bad('src', 'the instruction does not get the current source'); return False
    return True

def record(S, e, target, type, offset, label):
    w = dict(e[3]) if isinstance(e[3], tuple) and e[3] and isinstance(e[3][0], tuple) else {}
    want = {'target': C(target) if isinstance(target, int) else target, 'type': type, 'offset': offset, 'label': label}
    for k, v in want.items():
        if w.get(S.R.Rr[k]) != v: S.bad('record-' + k, 'the relocation record has another %s' % k); return False
    return True

def placed(S, st, at, src, n, fn):
    """the bytes are at that offset of the data, beyond what was there, within its length, and a zero byte follows"""
    R = S.R; old = atom('len', 'sdata')
    if at is None or parts(at) is None: S.bad('offset', 'the offset of the data is unknown'); return
    def least(d):
        """a term with every multiple of a quotient replaced by its least value"""
        p = parts(d); r = C(p[0])
        for t, k in p[1].items():
            if t[0] == 'udiv' and k == t[2]: r = add(r, add(t[1], C(-(t[2] - 1))))
            else: r = add(r, lin(0, {t: k}))
        return r
    if not R.nonneg(st, add(least(at), old, -1)): S.bad('overlap', 'the data is put over what is there already'); return
    p = parts(at)
    if p[0] % 8 or any(k % 8 for k in p[1].values()): S.bad('align', 'the data is not aligned'); return
    ln = R.length(st, 'sdata')
    if not R.nonneg(st, add(add(ln, at, -1), n, -1)): S.bad('room', 'the data is longer than the room made for it'); return
    copied = zero = False
    for e in S.evs(st, 'copy', 'set', 'byte', 'add', 'setlength'):
        if e[0] in ('add', 'setlength'): continue
        if e[0] == 'copy':
            if e[1:] == (at, src, n): copied = True; continue
            S.bad('copy', 'other bytes are copied'); return
        lo, hi = e[1], add(e[1], C(1) if e[0] == 'byte' else e[3])
        if not R.nonneg(st, add(ln, hi, -1)): S.bad('room', 'the data is cleared beyond the room made for it'); return
        end = add(at, n)
        if R.nonneg(st, add(end, lo, -1)) and R.nonneg(st, add(add(hi, end, -1), C(-1))) and e[2] == C(0): zero = True
        if copied and not R.nonneg(st, add(lo, end, -1)): S.bad('copy', 'the data is overwritten'); return
    if not copied: S.bad('copy', 'the data is not copied to its place'); return
    if not zero and 'string' not in fn: S.bad('zero', 'no zero byte follows the data')

class Reloc(Link):
    table_of = 'records'
    """one record at a time"""
    def fields(s, st, i): return {k: atom('ld', 'records', add(scale(i, s.sz['records']), C(o))) for k, o in s.Rr.items()}
    def treated(s, st, i):
        s.laps = getattr(s, 'laps', 0) + 1
        f = s.entry_f; r = s.fields(st, i); e = s.en
        if st.mem.get(('failed',)): s.bad('failed', f, None, 'a record whose label is undefined is passed over'); return
        if not s.nonneg(st, add(add(atom('len', 'records'), i, -1), C(-1))): s.bad('beyond', f, None, 'a record that is not in the table is treated'); return
        got = {k[2]: w for k, w in st.mem.items() if k[0] == 'm' and k[1] == ('arg', 'code')}
        tgt = known(st, r['target'], e['RVM_RELOC_CODE'])
        if tgt is False:
            if got: s.bad('target', f, None, 'code is changed for a record that is not about code')
            return
        if tgt is None: s.bad('target', f, None, 'a record is treated without regard to what it is about'); return
        ty = [k for k in ('DEFAULT', 'JUMP', 'BRANCH', 'STRING', 'BLOB') if known(st, r['type'], e['RVM_RELOC_' + k]) is True]
        no = [k for k in ('JUMP', 'BRANCH', 'STRING') if known(st, r['type'], e['RVM_RELOC_' + k]) is not False]
        at = scale(r['offset'], s.sz['code'])
        val = atom('val', r['label'])
        here = add(atom('addr', ('arg', 'code')), at)
        W, N = s.insw, s.insn
        if ty: kind = ty[0]
        elif no: s.bad('kind', f, None, 'the kind of a record is not looked at'); return
        else: kind = 'DEFAULT'
        d = add(val, here, -1)
        want = {add(at, C(W)): {'BRANCH': atom('sdiv', d, s.sz['code']), 'JUMP': add(val, C(-s.sz['code']))}.get(kind, val)}
        if kind == 'STRING': want[add(at, C(N))] = atom('strlen', val)
        if got.get(add(at, C(W))) is None: s.bad('lost', f, None, 'the instruction of a record is not changed'); return
        for k, w in want.items():
            if got.get(k) != w:
                s.bad('%s' % kind.lower(), f, None, 'a record of kind %s does not give the instruction its %s' % (kind, 'value' if k == add(at, C(W)) else 'size')); return
        if set(got) - set(want): s.bad('more', f, None, 'more of the instruction is changed than its value')

def relocate(c, R0):
    m = R0.m; R = Reloc(m); f = m.fn('rvm_relocmap_relocate'); c.seen(f); R.entry_f = f
    def off(path):
        o = 0; st = 'rvm_asmins_s'
        for n in path:
            for k, v in m._offname[st].items():
                if v == n:
                    o += k; el = [e for e in m.structs[st]['el'] if e[2] == k]
                    st = None; break
        return o
    R.insw, R.insn = insdata(m)
    n = 0
    for rv, mm, g in R.solve(f, St({0: RELOC, 1: MAP, 2: PTR('code'), 3: PTR('err')}, {}, {})):
        st = St({}, dict(mm), {}); n += 1
        if st.mem.get(('failed',)):
            if rv != C(-1): R.bad('failed', f, None, 'a label that is undefined does not make relocation fail')
            elif st.mem[('err',)] != PTR('err'): R.bad('err', f, None, 'the label that is undefined is not reported')
        elif rv == C(-1) or rv != C(0): R.bad('refused', f, None, 'relocation fails though every label is defined')
        else:
            i = R.at(st)
            if st.mem.get(('lap',)) is None and not st.mem.get(('started',)): i = C(0)
            if not R.nonneg(st, add(i, atom('len', 'records'), -1)): R.bad('some', f, None, 'records of the table are not treated')
    for k, (w, msg) in R.errs.items(): c.bad('relocate-' + k, w, 'rvm_relocmap_relocate: ' + msg)
    if not R.errs and not getattr(R, 'laps', 0): c.bad('relocate-never', f.where(), 'no relocation record is ever treated')
    c.ob('functions'); c.ob('kinds of treated records', getattr(R, 'laps', 0)); c.ob('returns', n)
    # the whole: the labels of code and data point at the code and data, then the records are treated
    class Whole(Link):
        def boundary(s, n): return n == 'rvm_relocmap_relocate' or super().boundary(n)
        def inst(s, f, x, st, v):
            if x.iscall and x.callee == 'rvm_relocmap_relocate':
                v = [s.glob(w) for w in v]
                s.event(st, 'relocate', *v)
                pt = {}
                for nm, A in ((CODE, 'code'), (DATA, 'sdata')):
                    i = st.mem.get(('has', nm))
                    cell = lambda k: st.mem.get(('m', ('data', 'labels'), add(scale(i, s.sz['labels']), C(s.L[k]))))
                    if i in (None, C(-1)) or cell('type') != C(s.en['RVM_CODELABEL_POINTER']) or cell('value') != atom('addr', ('data', A, st.mem.get(('ver', A), 0))):
                        s.bad('base-' + A, f, x, 'the %s have no label pointing at them when relocation starts' % WHAT[A])
                if v[:2] != [RELOC, MAP] or v[2] != atom('addr', ('data', 'code', st.mem.get(('ver', 'code'), 0))): s.bad('args', f, x, 'relocation is done on other tables or code')
                if v[3] != PTR('err'): s.bad('err', f, x, 'the label that is undefined is not reported')
                return atom('relocated')
            return super().inst(f, x, st, v)
    W = Whole(m); S = Spec(c, W, 'rvm_codegen_relocate', (CG, PTR('err')))
    for rv, st in S.outs:
        if rv != atom('relocated'): S.bad('result', 'does not return whether relocation succeeded')
        if len(S.evs(st, 'relocate')) != 1: S.bad('once', 'relocation is not done once')
        S.table(st, (S.index(st, CODE), S.index(st, DATA)))
    S.done()

def insdata(m):
    """offsets, in an instruction, of the value and the size of its data"""
    st = m.structs['rvm_asmins_s']
    base = next((int(k) for k, v in st['off'].items() if v == 'data'), None)
    if base is None: raise AnalysisBroken('field rvm_asmins_s.data not found')
    r = next((n for n in m.structs if n in ('rvmreg_s', 'rvmreg_t')), None)
    if r is None: raise AnalysisBroken('struct rvmreg_s not found')
    o = {v: int(k) for k, v in m.structs[r]['off'].items()}
    v = o.get('v', 0); z = o.get('size')
    if z is None:
        raise AnalysisBroken('field size of %s not found: %s' % (r, o))
    return base + v, base + z

CHECKS = {'V11': check_link}
