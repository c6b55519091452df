"""Container and support library (rlib) checks."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, scale, addlin, Prover, subexprs, mentions
from common import *

ARR, CAR = 'rarray_s', 'rcarray_s'
ARRAY_API = ('r_array_cleanup', 'r_array_init', 'r_array_create', 'r_array_destroy', 'r_array_copy', 'r_array_add', 'r_array_removelast', 'r_array_insert',
             'r_array_replace', 'r_array_setlength', 'r_array_expand', 'r_array_slot_expand', 'r_array_move', 'r_array_delete')

def fldaddr(m, base, st, name):
    if base[0] == 'fld': pass
    return ('fld', base, st, name, m.field(st, name))

def data_base(e, st=ARR):
    """e = address inside the element store of an array object -> (object expr, byte offset) or None"""
    r, off = byte_offset(e)
    if r[0] == 'ld' and r[1][0] == 'fld' and r[1][2] == st and r[1][3] == 'data': return r[1][1], off
    return None

class ArrayBounds:
    """capacity obligations of one function manipulating growable arrays"""
    def __init__(s, c, m, f):
        s.c = c; s.m = m; s.f = f
        s.oom = alloc_failed(ALLOC + ('r_array_create', 'r_object_create'))
    def elt(s, obj):
        """element-size expressions known for an array object"""
        f = s.f; r = set()
        for x in f.insts('load'):
            if f.cls(x) == (ARR, 'elt_size'):
                a = f.expr(x.ops[0])
                if a[0] == 'fld' and a[1] == obj: r.add(f.x(x))
        for x in f.insts('store'):
            if f.cls(x) == (ARR, 'elt_size'):
                a = f.expr(x.ops[1])
                if a[0] == 'fld' and a[1] == obj: r.add(f.expr(x.ops[0]))
        return r
    def call_rule(s, obj):
        f = s.f
        def rule(y, E):
            n = y.callee
            if n and y.ops and f.expr(y.ops[0]) == obj:
                if n in ('r_array_setlength', 'r_array_slot_expand', 'r_array_expand', 'r_array_replace', 'r_array_insert'):
                    v = f.expr(y.ops[1]); 
                    if n in ('r_array_slot_expand', 'r_array_replace', 'r_array_insert'): v = mklin(*addlin(aslin(v), (1, ())))
                    P = prover(f, y)
                    if P.le(E, v): return True
            return None      # capacity never shrinks (proved at every store of it)
        return rule
    def need(s, x, obj, E, key, msg):
        f = s.f; m = s.m
        s.c.ob('element accesses')
        if s.lower(x, obj, E): return
        addr = fldaddr(m, obj, ARR, 'alloc_size')
        w = ge_now(f, x, addr, (ARR, 'alloc_size'), E, s.call_rule(obj), infeasible=s.oom)
        if w is not None: s.c.bad(key, f.where(x), msg % pp(E))
    def lower(s, x, obj, E):
        """E <= a length of the same array read earlier (length <= capacity always, capacity never shrinks)"""
        f = s.f; P = prover(f, x)
        for y in f.insts('load'):
            if f.cls(y) == (ARR, 'len'):
                a = f.expr(y.ops[0])
                if a[0] == 'fld' and a[1] == obj and f.idominst(y, x) and P.le(E, f.x(y)): return True
        return False
    def run(s):
        f, m, c = s.f, s.m, s.c
        for x in f.insts():
            for a, n, rw in mem_access(f, x):
                s.access(x, a, n)
            if x.iscall and x.callee and not mem_access(f, x) and x.callee not in ('r_free', 'r_realloc', 'free'):
                for o in x.ops:
                    a = f.expr(o)
                    d = data_base(a)
                    if d and not (a[0] == 'ld'): s.access(x, a, None)
            if x.op == 'ret' and x.ops:
                a = f.expr(x.ops[0])
                if data_base(a) and f.optype(x.ops[0]) == 'ptr': s.access(x, a, None)
            if x.op == 'store':
                cl = f.cls(x); a = f.expr(x.ops[1])
                if cl == (ARR, 'len') and a[0] == 'fld':
                    v = f.expr(x.ops[0])
                    if v != ('c', 0): s.need(x, a[1], v, '%s:length' % f.name, '%s sets the length to %%s without the capacity being at least that' % f.name)
                if cl == (ARR, 'alloc_size') and a[0] == 'fld': s.capacity(x, a[1])
                if cl == (ARR, 'data') and a[0] == 'fld': s.newdata(x, a[1])
    def access(s, x, a, n):
        f, m, c = s.f, s.m, s.c
        d = data_base(a)
        if d:
            obj, off = d; es = s.elt(obj)
            for e in es:
                end = mklin(*addlin(aslin(off), aslin(n if n is not None else e)))
                q = divide(end, e)
                if q is not None: s.need(x, obj, q, '%s:access' % f.name, '%s touches elements up to number %%s, which is not known to be within the capacity' % f.name); return
            c.ob('element accesses')
            c.bad('%s:access' % f.name, f.where(x), '%s accesses the element store at offset %s, not a whole number of elements' % (f.name, pp(off)))
            return
        r, off = byte_offset(a)
        S = alloc_size(f, r)
        if S is not None and n is not None:
            c.ob('element accesses')
            end = mklin(*addlin(aslin(off), aslin(n)))
            P = prover(f, x)
            if not P.le(end, S):
                # products: factor the element size out
                ok = False
                for t in subexprs(S):
                    if t[0] in ('ld', 'arg'):
                        q1, q2 = divide(end, t), divide(S, t)
                        if q1 is not None and q2 is not None and P.le(q1, q2): ok = True; break
                if not ok: c.bad('%s:fresh' % f.name, f.where(x), '%s writes %s bytes into an allocation of %s bytes' % (f.name, pp(end), pp(S)))
    def partner(s, x, cls, obj):
        f = s.f
        for y in f.insts('store'):
            if f.cls(y) == cls and f.expr(y.ops[1])[0] == 'fld' and f.expr(y.ops[1])[1] == obj:
                if y.b is x.b or (f.dom(x.b.id, y.b.id) and every_path(f, [y], start=x) is None) or (f.dom(y.b.id, x.b.id) and every_path(f, [x], start=y) is None): return y
        return None
    def capacity(s, x, obj):
        f, m, c = s.f, s.m, s.c
        v = f.expr(x.ops[0]); c.ob('capacity updates')
        y = s.partner(x, (ARR, 'data'), obj)
        if y is None:
            if f.name == 'r_array_init' or v == ('c', 0): pass
            c.bad('%s:capacity' % f.name, f.where(x), '%s changes the capacity without replacing the element store' % f.name); return
        S = alloc_size(f, f.expr(y.ops[0]))
        ok = S is not None and any(divide(S, e) is not None and prover(f, x).le(v, divide(S, e)) for e in s.elt(obj))
        if not ok: c.bad('%s:capacity' % f.name, f.where(x), '%s records capacity %s for an allocation of %s bytes' % (f.name, pp(v), pp(S) if S else '?'))
        if f.name != 'r_array_init':
            old = [f.x(z) for z in f.insts('load') if f.cls(z) == (ARR, 'alloc_size') and f.expr(z.ops[0])[0] == 'fld' and f.expr(z.ops[0])[1] == obj and f.idominst(z, x) and f.x(z)[0] == 'ld' and f.x(z)[2] == ('entry',)]
            if not any(prover(f, x).le(o, v) for o in old): c.bad('%s:shrink' % f.name, f.where(x), '%s may shrink the capacity to %s' % (f.name, pp(v)))
    def newdata(s, x, obj):
        f, c = s.f, s.c
        y = s.partner(x, (ARR, 'alloc_size'), obj)
        if y is None: c.bad('%s:store' % f.name, f.where(x), '%s replaces the element store without recording the capacity' % f.name)

def check_array(c):
    c.rule('every access to the element store of a growable array by its operations (including block moves and addresses handed out) is entailed to end at or below the recorded capacity, whose stores are entailed to match the allocation and never shrink; every length stored is entailed not to exceed the capacity (backward must-analysis over the paths plus linear entailment)')
    c.assumption('allocation succeeds; sizes do not wrap around')
    m = c.mod('core', pipe='plain')
    for n in ARRAY_API:
        f = m.fn(n); c.seen(f)
        ArrayBounds(c, m, f).run()
    # promises used at calls
    f = m.fn('r_array_setlength')
    sts = [x for x in f.insts('store') if f.cls(x) == (ARR, 'len') and f.expr(x.ops[1]) == fldaddr(m, ('arg', 0), ARR, 'len') and f.expr(x.ops[0]) == ('arg', 1)]
    if every_path(f, sts) is not None: c.bad('setlength:post', f.where(), 'setting the length does not always record it')
    for n, E in (('r_array_slot_expand', mklin(1, ((('arg', 1), 1),))), ('r_array_expand', None)):
        f = m.fn(n); B = ArrayBounds(c, m, f)
        if E is None:
            E = mklin(0, ((('ld', fldaddr(m, ('arg', 0), ARR, 'len'), ('entry',)), 1), (('arg', 1), 1)))
        for e in f.exits():
            c.ob('element accesses')
            if ge_now(f, e, fldaddr(m, ('arg', 0), ARR, 'alloc_size'), (ARR, 'alloc_size'), E, B.call_rule(('arg', 0)), infeasible=B.oom) is not None:
                c.bad('%s:post' % n, f.where(e), '%s returns without a capacity of at least %s' % (n, pp(E)))
    for f in m.live():
        if f.name in ARRAY_API: continue
        for x in f.insts('store'):
            if f.cls(x) in ((ARR, 'alloc_size'), (ARR, 'data'), (ARR, 'elt_size')):
                c.bad('foreign:%s' % f.name, f.where(x), '%s writes array bookkeeping directly' % f.name)
    c.atleast('element accesses', 8)

CARRAY_API = ('r_carray_cleanup', 'r_carray_init', 'r_carray_create', 'r_carray_destroy', 'r_carray_copy', 'r_carray_replace', 'r_carray_add', 'r_carray_setlength',
              'r_carray_inclength', 'r_carray_declength', 'r_carray_checkexpand', 'r_carray_slot_expand')

def strip_cast(e):
    while e[0] in ('zx', 'trunc'): e = e[2]
    return e

def chunk_ref(m, e):
    """e = chunk pointer read from the chunk table of a chunked array: (object, chunk index expr) or None"""
    if e[0] != 'ld': return None
    r, off = byte_offset(e[1])
    if r[0] != 'ld' or r[1][0] != 'fld' or (r[1][2], r[1][3]) != (ARR, 'data'): return None
    t = r[1][1]
    if t[0] != 'ld' or t[1][0] != 'fld' or (t[1][2], t[1][3]) != (CAR, 'array'): return None
    for q in list(subexprs(off)) + [('c', 8)]:
        if q == ('c', 8) or (q[0] == 'ld' and q[1][0] == 'fld' and (q[1][2], q[1][3]) == (ARR, 'elt_size') and q[1][1] == t):
            i = divide(off, q)
            if i is not None: return t[1][1], i
    return t[1][1], None

def check_carray(c):
    c.rule('every chunk added to a chunked array is accounted with exactly its number of elements; capacity growth is entailed to reach the requested size; every element address is formed from the chunk number and in-chunk offset of one index that is entailed to be below the capacity; every length stored is entailed not to exceed the capacity')
    c.assumption('allocation succeeds; sizes do not wrap around; distinct chunked arrays do not share chunk tables')
    m = c.mod('core', pipe='plain')
    CH = None
    pr = lambda f, x: prover(f, x)
    def capaddr(o): return fldaddr(m, o, CAR, 'alloc_size')
    oom = alloc_failed(ALLOC + ('r_carray_create', 'r_object_create'))
    def crule(f, obj):
        def rule(y, E):
            n = y.callee
            if n and y.ops and f.expr(y.ops[0]) == obj:
                v = None
                if n == 'r_carray_checkexpand': v = f.expr(y.ops[1])
                if n in ('r_carray_slot_expand', 'r_carray_replace'): v = mklin(*addlin(aslin(f.expr(y.ops[1])), (1, ())))
                if n == 'r_carray_setlength': v = f.expr(y.ops[1])
                if v is not None and pr(f, y).le(E, v): return True
            return None
        return rule
    # chunk size: from the growth sites
    sizes = set()
    for n in CARRAY_API:
        f = m.fn(n); c.seen(f)
        for x in f.insts('store'):
            if f.cls(x) == (CAR, 'alloc_size'):
                a, v = f.expr(x.ops[1]), f.expr(x.ops[0]); obj = a[1]; c.ob('capacity updates')
                if v == ('c', 0): continue
                cur = f.load_at(a, (CAR, 'alloc_size'), f.ver_before((CAR, 'alloc_size'), x))
                d = mklin(*sublin(aslin(v), aslin(cur)))
                if d[0] != 'c' or d[1] <= 0: c.bad('%s:growth' % n, f.where(x), '%s changes the capacity by %s' % (n, pp(d))); continue
                sizes.add(d[1])
                # the chunk added together with it
                adds = [y for y in f.calls('r_array_add') if f.expr(y.ops[0]) == ('ld', fldaddr(m, obj, CAR, 'array'), f.expr(y.ops[0])[2] if f.expr(y.ops[0])[0] == 'ld' else None) or table_of(f, y, obj)]
                ok = None
                for y in adds:
                    if (y.b is x.b) or (f.dom(y.b.id, x.b.id) and every_path(f, [x], start=y) is None) or (f.dom(x.b.id, y.b.id) and every_path(f, [y], start=x) is None): ok = y
                if ok is None: c.bad('%s:nochunk' % n, f.where(x), '%s raises the capacity without adding a chunk' % n); continue
                sv = stored_local(f, ok.ops[1], ok)
                S = alloc_size(f, sv) if sv else None
                es = elt_exprs(f, m, obj)
                if S is None or not any(divide(S, e) is not None and pr(f, x).le(d, divide(S, e)) for e in es):
                    c.bad('%s:chunksize' % n, f.where(x), '%s accounts %s elements for a chunk of %s bytes' % (n, pp(d), pp(S) if S else '?'))
        for y in f.calls('r_array_add'):
            t = f.expr(y.ops[0])
            if t[0] == 'ld' and t[1][0] == 'fld' and (t[1][2], t[1][3]) == (CAR, 'array'): c.ob('chunk additions')
    c.need(len(sizes) <= 1, 'chunk sizes disagree: %s' % sizes)
    c.need(sizes, 'no growth of a chunked array found')
    CH = sizes.pop(); bits = CH.bit_length() - 1
    hc = fe.load_consts(['rlib/rcarray.h'])
    if hc.get('R_CARRAY_CHUNKSIZE') != CH or (1 << hc.get('R_CARRAY_CHUNKBITS', 0)) != CH or hc.get('R_CARRAY_CHUNKMASK') != CH - 1:
        c.bad('constants', 'rlib/rcarray.h:1 in r_carray_slot', 'chunk size %d disagrees with the slot addressing constants (bits %s, mask %s)' % (CH, hc.get('R_CARRAY_CHUNKBITS'), hc.get('R_CARRAY_CHUNKMASK')))
    # growth reaches the request
    f = m.fn('r_carray_checkexpand')
    for e in f.exits():
        c.ob('capacity obligations')
        def trips_ok():
            for h in headers(f):
                for N in min_trips(f, h):
                    st = [x for b in loop_blocks(f, h) for x in f.blocks[b].insts if x.op == 'store' and f.cls(x) == (CAR, 'alloc_size')]
                    if len(st) != 1 or not all(f.dom(st[0].b.id, b) for b in headers(f)[h]): continue
                    # N*CH >= size - alloc
                    alloc0 = ('ld', capaddr(('arg', 0)), ('entry',))
                    deficit = mklin(*sublin(aslin(('arg', 1)), aslin(alloc0)))
                    lo = floor_lower(N, CH)
                    if lo is not None and mklin(*sublin(aslin(lo), aslin(deficit)))[0] == 'c' and mklin(*sublin(aslin(lo), aslin(deficit)))[1] >= 0: return h
            return None
        h = trips_ok()
        inf = oom
        if h is not None:
            L = loop_blocks(f, h)
            inf = lambda fn, a, b: oom(fn, a, b) or (a in L and b not in L)     # leaving the counted loop: capacity reached
        if ge_now(f, e, capaddr(('arg', 0)), (CAR, 'alloc_size'), ('arg', 1), lambda y, E: None, infeasible=inf) is not None:
            c.bad('checkexpand:post', f.where(e), 'capacity check may return with less capacity than requested')
    # element addresses and lengths
    for n in CARRAY_API:
        f = m.fn(n)
        for x in f.insts():
            for a, ln, rw in mem_access(f, x): car_access(c, m, f, x, a, ln, CH, bits, crule, capaddr, oom)
            if x.op == 'ret' and x.ops and f.optype(x.ops[0]) == 'ptr': car_access(c, m, f, x, f.expr(x.ops[0]), None, CH, bits, crule, capaddr, oom)
            if x.op == 'store' and f.cls(x) == (CAR, 'len'):
                a, v = f.expr(x.ops[1]), f.expr(x.ops[0]); obj = a[1]; c.ob('capacity obligations')
                if v == ('c', 0): continue
                cur = f.load_at(a, (CAR, 'len'), f.ver_before((CAR, 'len'), x))
                if pr(f, x).le(v, cur): continue
                if n == 'r_carray_copy' and unver(v) == unver(f_load(f, m, ('arg', 0), 'len')): continue   # all chunks of the source exist in the copy (see copy:chunks)
                if ge_now(f, x, capaddr(obj), (CAR, 'alloc_size'), v, crule(f, obj), infeasible=oom) is not None:
                    c.bad('%s:length' % n, f.where(x), '%s sets the length to %s without the capacity being at least that' % (n, pp(v)))
    for g in m.live():
        if g.name in CARRAY_API: continue
        for x in g.insts('store'):
            if g.cls(x) in ((CAR, 'alloc_size'), (CAR, 'array'), (CAR, 'elt_size')): c.bad('foreign:%s' % g.name, g.where(x), '%s writes chunked-array bookkeeping directly' % g.name)
    c.atleast('capacity obligations', 3); c.atleast('element addresses', 3); c.atleast('chunk additions', 1)

def f_load(f, m, obj, fld): return ('ld', fldaddr(m, obj, CAR, fld), ('entry',))
def table_of(f, y, obj):
    t = f.expr(y.ops[0])
    return t[0] == 'ld' and t[1][0] == 'fld' and (t[1][2], t[1][3]) == (CAR, 'array') and t[1][1] == obj or t[0] == 'call' and t[1] == 'r_array_create'
def elt_exprs(f, m, obj):
    r = set()
    for x in f.insts('load'):
        if f.cls(x) == (CAR, 'elt_size') and f.expr(x.ops[0])[0] == 'fld' and f.expr(x.ops[0])[1] == obj: r.add(f.x(x))
    for x in f.insts('store'):
        if f.cls(x) == (CAR, 'elt_size') and f.expr(x.ops[1])[1] == obj: r.add(f.expr(x.ops[0]))
    return r
def stored_local(f, o, at):
    """value last stored in the local variable whose address is operand o before instruction at"""
    e = f.expr(o)
    if e[0] != 'alloca': return None
    for b in [at.b]:
        for y in reversed(b.insts[:at.k]):
            if y.op == 'store' and f.expr(y.ops[1]) == e: return f.expr(y.ops[0])
    for y in f.insts('store'):
        if f.expr(y.ops[1]) == e and f.idominst(y, at): return f.expr(y.ops[0])
    return None
def floor_lower(N, C):
    """a lower bound of N*C"""
    if N[0] == 'udiv' and N[2] == ('c', C): return mklin(aslin(N[1])[0] - (C - 1), aslin(N[1])[1])
    if N[0] == 'lshr' and N[2][0] == 'c' and 1 << N[2][1] == C: return mklin(aslin(N[1])[0] - (C - 1), aslin(N[1])[1])
    if N[0] == 'lin':
        tot = (N[1] * C, ())
        for t, k in N[2]:
            if k < 0: return None
            lo = floor_lower(t, C)
            if lo is None: return None
            tot = addlin(tot, scale(aslin(lo), k))
        return mklin(*tot)
    return mklin(*scale(aslin(N), C))

def car_access(c, m, f, x, a, ln, CH, bits, crule, capaddr, oom):
    n = f.name
    # through the expanding accessor
    r, off = byte_offset(a)
    if r[0] == 'call' and r[1] == 'r_carray_slot_expand':
        y = f.inst[r[3]]; obj = f.expr(y.ops[0]); c.ob('element addresses')
        if ln is not None:
            end = mklin(*addlin(aslin(off), aslin(ln)))
            if not any(prover(f, x).le(end, e) for e in elt_exprs(f, m, obj)): c.bad('%s:slotlen' % n, f.where(x), '%s accesses %s bytes of an element slot' % (n, pp(end)))
        return
    k = chunk_ref(m, r)
    if not k: return
    obj, ci = k
    if ln is None and off == ('c', 0) and a == r and n != 'r_carray_slot_expand': return
    c.ob('element addresses')
    if ci is None: c.bad('%s:chunk' % n, f.where(x), '%s reads the chunk table at an offset that is not a whole entry' % n); return
    es = elt_exprs(f, m, obj) | {e for o in (('arg', 0),) for e in elt_exprs(f, m, o)}
    for e in es:
        q0, q1 = divide(off, e), divide(mklin(*addlin(aslin(off), aslin(ln if ln is not None else e))), e)
        if q0 is None or q1 is None: continue
        # one index X split in chunk number and offset
        q0s, cis = strip_cast(q0), strip_cast(ci)
        X = None
        if q0s[0] == 'and':
            for k1, v in ((q0s[1], q0s[2]), (q0s[2], q0s[1])):
                if k1 == ('c', CH - 1): X = v
        elif q0s[0] == 'urem' and q0s[2] == ('c', CH): X = q0s[1]
        if X is not None:
            okc = cis in (('lshr', X, ('c', bits)), ('udiv', X, ('c', CH)))
            one = mklin(*sublin(aslin(q1), aslin(q0))) == ('c', 1)
            if not okc or not one: c.bad('%s:split' % n, f.where(x), '%s combines chunk number %s with in-chunk offset %s' % (n, pp(cis), pp(q0s))); return
            E = mklin(*addlin(aslin(X), (1, ())))
            if ge_now(f, x, capaddr(obj), (CAR, 'alloc_size'), E, crule(f, obj), infeasible=oom) is not None:
                c.bad('%s:index' % n, f.where(x), '%s forms the address of element %s without capacity for it' % (n, pp(X)))
            return
        # whole-chunk transfer
        if not prover(f, x).le(q1, ('c', CH)): c.bad('%s:chunkend' % n, f.where(x), '%s accesses %s elements of a chunk of %d' % (n, pp(q1), CH)); return
        if not chunk_exists(f, m, x, obj, ci): c.bad('%s:chunks' % n, f.where(x), '%s accesses chunk %s, which may not exist' % (n, pp(ci)))
        return
    c.bad('%s:offset' % n, f.where(x), '%s accesses a chunk at offset %s, not a whole number of elements' % (n, pp(off)))

def chunk_exists(f, m, x, obj, ci):
    P = prover(f, x)
    for q in all_facts(f, x.b.id):
        for e in q[1:]:
            if isinstance(e, tuple) and e[0] == 'ld' and e[1][0] == 'fld' and (e[1][2], e[1][3]) == (ARR, 'len') and e[1][1][0] == 'ld' and e[1][1][1][0] == 'fld' and (e[1][1][1][2], e[1][1][1][3]) == (CAR, 'array'):
                if P.lt(ci, e):
                    if e[1][1][1][1] == obj: return True
                    # an equal number of chunks was added to obj by a counted loop completed before
                    for h in headers(f):
                        L = loop_blocks(f, h)
                        if x.b.id in L or not f.dom(h, x.b.id): continue
                        ad = [y for b in L for y in f.blocks[b].insts if y.callee == 'r_array_add' and table_of(f, y, obj) and all(f.dom(y.b.id, bb) for bb in headers(f)[h])]
                        if ad and any(unver(N) == unver(e) for N in min_trips(f, h)): return True
    return False

CHECKS = {'R01': check_array, 'R02': check_carray}
