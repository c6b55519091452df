"""Ownership: what an object allocates into its fields is released when the object goes, with the matching releaser, once."""
import re
from common import *
from ir import subexprs

# who destroys (frees the object too) or cleans up which structure
OWNER = {'rarray_s': 'r_array_cleanup', 'rcarray_s': 'r_carray_cleanup', 'rharray_s': 'r_harray_cleanup', 'rhash_s': 'r_hash_cleanup', 'rmap_s': 'r_map_cleanup',
         'rstring_s': 'r_string_cleanup', 'rbuffer_s': 'r_buffer_destroy',
         'rex_nfasimulator_s': 'rex_nfasimulator_destroy', 'rex_dfasimulator_s': 'rex_dfasimulator_destroy', 'rexcompiler_s': 'rex_compiler_destroy', 'rexdb_s': 'rex_db_cleanup',
         'rexdfa_s': 'rex_dfa_destroy', 'rexdfaconv_s': 'rex_dfaconv_destroy', 'rexfragment_s': 'rex_fragment_destroy', 'rexstate_s': 'rex_state_cleanup',
         'rpa_compiler_s': 'rpa_compiler_destroy', 'rpa_parser_s': 'rpa_parser_destroy', 'rpadbex_s': 'rpa_dbex_destroy', 'rpastat_s': 'rpa_stat_destroy',
         'rvm_codegen_s': 'rvm_codegen_destroy', 'rvm_codemap_s': 'rvm_codemap_destroy', 'rvm_relocmap_s': 'rvm_relocmap_destroy', 'rvm_scope_s': 'rvm_scope_destroy', 'rvmcpu_s': 'rvm_cpu_destroy'}
# containers whose elements are owned: destroyer -> (structure, field)
ELEMS = {'r_harray_cleanup': ('rharray_s', 'names'), 'r_carray_cleanup': ('rcarray_s', 'array'), 'rex_db_cleanup': ('rexdb_s', 'states'), 'rpa_dbex_destroy': ('rpadbex_s', 'text'),
         'rvm_scope_destroy': ('rvm_scope_s', 'names'), 'rvm_codemap_destroy': ('rvm_codemap_s', 'labels'), 'rpa_cache_destroy': ('rpacache_s', 'entry')}
MEM = {'r_malloc', 'r_zmalloc', 'r_calloc', 'r_realloc', 'malloc', 'calloc', 'realloc'}
FREE = {'r_free', 'free'}
CREATE = re.compile(r'(\w+?)_(create|copy)(_\w+)?$')

def ns(e): return unver(e)

class Own:
    def __init__(s, c, m):
        s.c = c; s.m = m; s.memo = {}; s.fmemo = {}; s.zero = {}
        for st in OWNER:
            try: s.zero[st] = m.first_field(st)
            except Exception: s.zero[st] = None
    def fresh(s, f, e, depth=0):
        """kinds of fresh objects an expression may denote: 'mem' or the prefix of the creator"""
        if e[0] in ('sel', 'phisel') and depth < 4: return set().union(*[s.fresh(f, z, depth + 1) for z in e[2:4] if isinstance(z, tuple)])
        if e[0] == 'phi' and depth < 4 and e[1] == f.name:
            x = f.inst[e[2]]
            if x.b.id in headers(f): return set()
            return set().union(*[s.fresh(f, f.expr(o), depth + 1) for o, b in x.ops])
        if e[0] != 'call' or not isinstance(e[1], str): return set()
        n = e[1]
        if n in MEM: return {'mem'}
        if n == 'r_object_create': return set()
        if n == 'r_object_copy': return set()
        g = CREATE.match(n)
        if g: return {g.group(1)}
        return s.returns(n, depth)
    def returns(s, n, depth=0):
        """kinds of fresh objects an internal helper returns on all of its non-null results"""
        if n in s.memo: return s.memo[n]
        s.memo[n] = set(); g = s.m.fns.get(n)
        if g is None or not g.insts() or depth > 3: return set()
        r = set()
        for v, e, edges in ret_cases(g):
            if v is None: return set()
            if v == ('c', 0): continue
            k = s.fresh(g, v, depth + 1)
            if not k: return set()
            r |= k
        s.memo[n] = r
        return r
    def field(s, f, x):
        """(struct, field, base) of a load/store"""
        a = f.expr(x.ops[1] if x.op == 'store' else x.ops[0]); cl = f.cls(x)
        if not cl or cl[0] not in OWNER: return None
        if a[0] == 'fld': return (cl[0], cl[1], a[1]) if a[2:4] == cl else None
        return cl[0], cl[1], a
    def loads(s, f, e, st, fl, base=None):
        """e is the value of field st.fl (of the given object)"""
        if e[0] != 'ld': return False
        a = e[1]
        if a[0] == 'fld' and a[2:4] == (st, fl): return base is None or ns(a[1]) == ns(base)
        if s.m.field(st, fl) == 0 and base is not None and a[0] != 'fld': return ns(a) == ns(base)
        return False
    def walk(s, f, good, nullof):
        """a return reached without passing a good instruction, nor an edge on which one of the given values is null"""
        gb = {}
        for x in good: gb.setdefault(x.b.id, []).append(x.k)
        if gb.get(0): return None
        ex = {e.b.id: e for e in f.exits()}
        if 0 in ex: return ex[0]
        def nul(fs):
            for q in fs:
                if q[0] == 'eq' and (q[2] == ('c', 0) and nullof(q[1]) or q[1] == ('c', 0) and nullof(q[2])): return True
            return False
        for b, t, fs in edge_walk(f, 0, lambda t: t in gb or t in ex, nul):
            if t not in gb: return ex[t]
        return None
    def releases(s, n, k, depth=0):
        """kinds of release that function n applies to its argument k on every path (null excepted)"""
        if n in FREE: return {'mem'} if k == 0 else set()
        if k == 0 and n in ('r_object_destroy',): return {'object'}
        if k == 0 and n and n.endswith('_destroy'): return {n[:-8]}
        key = (n, k)
        if key in s.fmemo: return s.fmemo[key]
        s.fmemo[key] = set(); g = s.m.fns.get(n)
        if g is None or not g.insts() or depth > 3: return set()
        good = []; kinds = set(); A = ('arg', k)
        for x in g.insts('call'):
            for i, o in enumerate(x.ops):
                if x.callee and g.expr(o) == A:
                    r = s.releases(x.callee, i, depth + 1)
                    if r: good.append(x); kinds |= r
        if good and s.walk(g, good, lambda e: e == A) is None: s.fmemo[key] = kinds
        return s.fmemo[key]
    def delegated(s, f, x, base):
        """the object is destroyed by a function it carries itself"""
        if x.callee or 'callee' not in x.d: return False
        t = f.expr(x.d['callee'])
        return t[0] == 'ld' and t[1][0] == 'fld' and t[1][1] == base and 'destroy' in str(t[1][3]) and any(f.expr(z) == base for z in x.ops)
    def field_releases(s, f, st, fl, base):
        """[(instruction, kinds)] of the releases of a field of an object in f, helpers included"""
        r = []
        for x in f.insts('call'):
            if not x.callee:
                if s.delegated(f, x, base): r.append((x, {'delegated'}))
                continue
            for i, o in enumerate(x.ops):
                e = f.expr(o)
                if s.loads(f, e, st, fl, base):
                    k = s.releases(x.callee, i)
                    if k: r.append((x, k))
                elif e == base and x.callee in s.m.fns and x.callee not in OWNER.values() and not x.callee.endswith('_destroy'):
                    k = s.helper(x.callee, i, st, fl)
                    if k: r.append((x, k))
        return r
    def helper(s, n, k, st, fl, depth=0):
        key = (n, k, st, fl)
        if key in s.fmemo: return s.fmemo[key]
        s.fmemo[key] = set(); g = s.m.fns[n]
        if not g.insts(): return set()
        rs = s.field_releases(g, st, fl, ('arg', k))
        if rs and s.walk(g, [x for x, _ in rs], lambda e: e == ('arg', k) or s.loads(g, e, st, fl, ('arg', k))) is None:
            s.fmemo[key] = set().union(*[k for _, k in rs])
        return s.fmemo[key]

def compatible(m, made, rel):
    if made == 'mem': return rel <= {'mem', 'delegated'}
    ok = {made}
    if any(n == made + '_init' or n.startswith(made + '_init_') for n in m.fns) or made in ('r_array', 'r_carray', 'r_harray', 'r_hash', 'r_string', 'r_map', 'r_gc'): ok.add('object')
    if made == 'rpavm_cpu': ok.add('rvm_cpu')
    return bool(rel) and rel - {'delegated'} <= ok

def check_own(c):
    c.rule('for every field of %d structures into which some function stores a fresh allocation or creation, the function that destroys (cleans up) the structure passes the value of that field to the matching releaser on every path from its entry to a return, edges on which the field (or the object) is null excepted' % len(OWNER))
    c.rule('the same functions release the elements of %s in a loop over the number of elements of that container; a counter running upwards starts at 0 and does not stop before that number' % ', '.join('%s.%s' % q for q in sorted(ELEMS.values())))
    c.rule('a released value is not released again, and a destroyed object is not accessed again, on any path of the same function')
    c.rule('elsewhere, an owned field that is released is given a new value before the function returns, and an owned field of an existing object is overwritten with a fresh value only after its release, when null, or through reallocation of itself; clearing such a field needs the same, unless its value is handed on')
    c.rule('a creator passes as cleanup function of a base object exactly the cleanup function of the structure it initialises; destroying a base object calls that function and frees the memory')
    c.assumption('allocation failures are outside: the paths on which a creator gives up are not judged')
    m = c.mod('core'); o = Own(c, m); owned = {}
    for f in m.live():
        for x in f.insts('store'):
            k = o.fresh(f, f.expr(x.ops[0]))
            if not k: continue
            q = o.field(f, x)
            if not q: continue
            st, fl, base = q
            if base[0] == 'idx' or f.expr(x.ops[0]) in {z for z, _, _ in rets(f)}: continue
            owned.setdefault((st, fl), {}).setdefault(frozenset(k), []).append((f, x, base))
    c.ob('owned fields', len(owned))
    # destroyers
    for st, dn in sorted(OWNER.items()):
        flds = sorted(fl for (s2, fl) in owned if s2 == st)
        if dn not in m.fns: c.need(not flds, '%s is gone' % dn); continue
        d = m.fn(dn); c.seen(d); A = ('arg', 0)
        for fl in flds:
            c.ob('owned fields released by the destroyer')
            rs = o.field_releases(d, st, fl, A)
            if not rs: c.bad('%s:%s' % (st, fl), d.where(), '%s never releases %s.%s, which %s allocates' % (dn, st, fl, sorted({f.name for l in owned[st, fl].values() for f, _, _ in l})[0])); continue
            e = o.walk(d, [x for x, _ in rs], lambda v: v == A or o.loads(d, v, st, fl, A))
            if e is not None: c.bad('%s:%s' % (st, fl), d.where(e), '%s can return without having released %s.%s' % (dn, st, fl))
            for made in owned[st, fl]:
                for x, k in rs:
                    c.ob('releasers matched with creators')
                    if not any(compatible(m, q, k) for q in made): c.bad('%s:%s:kind' % (st, fl), d.where(x), '%s.%s is made by %s and released as %s' % (st, fl, '/'.join(sorted(made)), '/'.join(sorted(k))))
        if dn.endswith('_destroy'):
            c.ob('destroyers that free the object')
            own = [x for x in d.insts('call') for i, z in enumerate(x.ops) if d.expr(z) == A and x.callee and o.releases(x.callee, i)] + [x for x in d.insts('call') if o.delegated(d, x, A)]
            if not own: c.bad('%s:self' % st, d.where(), '%s does not free the object' % dn)
            else:
                e = o.walk(d, own, lambda v: v == A)
                if e is not None: c.bad('%s:self' % st, d.where(e), '%s can return without having freed the object' % dn)
    # elements
    for dn, (st, fl) in sorted(ELEMS.items()):
        d = m.fn(dn); off = m.field(st, fl); c.seen(d); c.ob('containers whose elements are released')
        r = elements(o, d, lambda e: holds(m, d, e, ('arg', 0), st, fl), 0, room(m, st, off))
        if r is None: c.bad('%s:%s:elements' % (st, fl), d.where(), '%s releases no element of %s.%s' % (dn, st, fl))
        elif r: c.bad('%s:%s:elements' % (st, fl), d.where(r[0]), '%s does not release every element of %s.%s: the loop %s' % (dn, st, fl, r[1]))
    # once, and not after
    for f in m.live():
        rel = []
        for x in f.insts('call'):
            if not x.callee: continue
            for i, z in enumerate(x.ops):
                e = f.expr(z)
                if e[0] in ('arg', 'ld', 'call') and not (e[0] == 'ld' and e[1][0] in ('idx',)) and o.releases(x.callee, i): rel.append((x, e, o.releases(x.callee, i)))
        if not rel: continue
        c.ob('functions that release something'); c.seen(f)
        after = {}
        for x, e, k in rel:
            if any(a[0] == 'phi' for a in subexprs(e)): continue
            if x.b.id in loops_of(f): continue
            c.ob('releases')
            r = reach_after(f, x)
            for y, e2, k2 in rel:
                if y is not x and y.i in r and e2 == e: c.bad('%s:twice' % f.name, f.where(y), '%s releases %s a second time' % (f.name, pp(e)))
            for y in f.insts('load', 'store'):
                if y.i not in r: continue
                a = f.expr(y.ops[1] if y.op == 'store' else y.ops[0]); hit = a == e
                while a[0] in ('fld', 'idx') and not hit: a = a[1]; hit = a == e
                if hit: c.bad('%s:after' % f.name, f.where(y), '%s accesses %s after releasing it' % (f.name, pp(e)))
            # dangling fields of live objects
            if e[0] == 'ld' and e[1][0] == 'fld' and (e[1][2], e[1][3]) in owned:
                st, fl, base = e[1][2], e[1][3], e[1][1]
                if f.name in OWNER.values() or base[0] != 'arg': continue
                if any(e2 == base for _, e2, _ in rel): continue
                st_after = [y for y in f.insts('store') if o.field(f, y) and o.field(f, y)[:2] == (st, fl)]
                if only_from_destroyers(m, f): continue
                q = every_path(f, st_after, start=x)
                c.ob('released fields of living objects')
                if q is not None and not any(f.dom(y.b.id, x.b.id) and (y.b is not x.b or y.k < x.k) for y in st_after) and not renewed(m, o, f, base[1], st, fl): c.bad('%s:%s.%s:dangling' % (f.name, st, fl), f.where(x), '%s releases %s.%s and can return with the field still naming it' % (f.name, st, fl))
    # overwriting
    for (st, fl), kinds in sorted(owned.items()):
        for l in kinds.values():
            for f, x, base in l:
                v = f.expr(x.ops[0])
                if base[0] != 'arg': continue
                if st != 'rpastat_s' and (f.name.endswith(('_init', '_create')) or '_init_' in f.name or '_create_' in f.name): continue
                c.ob('fresh values stored into living objects')
                if v[0] == 'call' and v[1] in ('r_realloc', 'realloc') and o.loads(f, f.expr(f.inst[v[3]].ops[0]), st, fl, base): continue
                if f.name.endswith(('_create', '_copy')) : continue
                rs = [y for y, _ in o.field_releases(f, st, fl, base)]
                isf = lambda e: o.loads(f, e, st, fl, base)
                ok = before(f, x, rs, isf) or (rs and o.walk(f, rs, lambda e: isf(e) or e == base) is None)
                if not ok and not prepared(m, o, f, base[1], st, fl): c.bad('%s:%s.%s:overwrite' % (f.name, st, fl), f.where(x), '%s overwrites %s.%s without releasing its previous value' % (f.name, st, fl))
    for f in m.live():
        if f.name in OWNER.values(): continue
        for x in f.insts('store'):
            if f.expr(x.ops[0]) != ('c', 0): continue
            q = o.field(f, x)
            if not q or q[:2] not in owned or q[2][0] != 'arg': continue
            st, fl, base = q
            if f.name.endswith(('_init', '_create', '_copy')) or '_init_' in f.name or only_from_destroyers(m, f): continue
            c.ob('owned fields of living objects cleared')
            if any(o.loads(f, f.expr(z), st, fl, base) and not o.releases(y.callee, i) for y in f.insts('call') for i, z in enumerate(y.ops)): continue
            if any(o.loads(f, f.expr(z), st, fl, base) for y in f.insts('store', 'ret', 'phi') for z in (y.ops[:1] if y.op != 'phi' else [w for w, _ in y.ops])): continue
            rs = [y for y, _ in o.field_releases(f, st, fl, base)]; isf = lambda e: o.loads(f, e, st, fl, base)
            if not before(f, x, rs, isf) and not (rs and o.walk(f, rs, lambda e: isf(e) or e == base) is None) and not prepared(m, o, f, base[1], st, fl):
                c.bad('%s:%s.%s:forgotten' % (f.name, st, fl), f.where(x), '%s clears %s.%s without releasing its value' % (f.name, st, fl))
    # base objects
    d = m.fn('r_object_destroy'); c.seen(d)
    fr = [x for x in d.insts('call') if x.callee in FREE and d.expr(x.ops[0]) == ('arg', 0)]
    cl = [x for x in d.insts('call') if x.callee is None and ns(d.expr(x.d['callee']))[0] == 'ld' and ns(d.expr(x.d['callee']))[1][2:4] == ('robject_s', 'cleanup') and d.expr(x.ops[0]) == ('arg', 0)]
    null = lambda e: e == ('arg', 0)
    if not fr or o.walk(d, fr, null) is not None: c.bad('r_object_destroy:free', d.where(), 'r_object_destroy does not always free the object')
    if not cl or o.walk(d, cl, lambda e: null(e) or (e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:4] == ('robject_s', 'cleanup'))) is not None: c.bad('r_object_destroy:cleanup', d.where(), 'r_object_destroy does not always call the cleanup function of the object')
    if any(x.i in reach_after(d, y) for x in cl for y in fr): c.bad('r_object_destroy:order', d.where(), 'r_object_destroy cleans up after freeing')
    inits = {}
    for (st, fl), kinds in owned.items():
        for l in kinds.values():
            for f, x, base in l:
                if base == ('arg', 0) and OWNER[st].endswith('_cleanup'): inits.setdefault(f.name, set()).add(OWNER[st])
    for f in m.live():
        for x in f.insts('call'):
            w = inits.get(x.callee)
            if not w: continue
            gs = {e[1] for e in map(f.expr, x.ops) if e[0] in ('g', 'fn') and e[1] in m.fns and e[1].endswith('_cleanup')}
            if not gs: continue
            c.ob('cleanup functions handed to initialisers')
            if not gs <= w: c.bad('%s:%s' % (f.name, x.callee), f.where(x), '%s gives %s the cleanup function %s' % (f.name, x.callee, sorted(gs)[0]))
    c.atleast('owned fields', 40); c.atleast('releasers matched with creators', 40)

def holds(m, f, e, base, st, fl):
    """e is the container: the value of a pointer field, or the address of an embedded array"""
    if e[0] == 'ld': e = e[1]
    if e[0] == 'fld': return e[1] == base and e[2:4] == (st, fl)
    return e == base and m.field(st, fl) == 0

def room(m, st, off):
    """bytes of an array embedded at the end of a structure, from the allocation of the structure"""
    f = m.fns.get(st[:-2].replace('rpacache', 'rpa_cache') + '_create')
    if f is None or st != 'rpacache_s': return None
    for x in f.insts('call'):
        if x.callee in ALLOC:
            z = alloc_size(f, ('call', x.callee, f.name, x.i))
            if z and z[0] == 'c': return z[1] - off
    return None

def skips(f, x, e):
    """a round of the innermost loop around x that does not run x although the element is not null"""
    h = min((h for h in headers(f) if x.b.id in loop_blocks(f, h)), key=lambda h: len(loop_blocks(f, h)))
    loop = loop_blocks(f, h)
    if x.b.id == h: return False
    nul = lambda fs: any(q[0] == 'eq' and (q[2] == ('c', 0) and unver(q[1]) == unver(e) or q[1] == ('c', 0) and unver(q[2]) == unver(e)) for q in fs)
    return any(t == h for b, t, fs in edge_walk(f, h, lambda t: t in (h, x.b.id), nul, within=loop))

def elements(o, f, isc, depth, count=None):
    """None: no release of an element in f; (instruction, reason): some are left; (): fine"""
    m = o.m; best = None
    for x in f.insts('call'):
        if not x.callee: continue
        for i, z in enumerate(x.ops):
            e = f.expr(z)
            if isc(e) and x.callee in m.fns and not x.callee.endswith('_destroy') and depth < 2 and m.fns[x.callee].insts():
                g = m.fns[x.callee]
                r = elements(o, g, lambda v: v == ('arg', i), depth + 1)
                if r is not None: return r
            if not o.releases(x.callee, i): continue
            es = [e]
            # through an accessor of the library that is given the container (or the object) and the number
            if e[0] == 'call' and e[2] == f.name:
                es += [f.expr(q) for q in f.inst[e[3]].ops]
                idxs = [q for q in es[1:] if any(a[0] == 'phi' for a in subexprs(q)) and q[0] in ('phi', 'lin')]
            else:
                idxs = [a[2] for a in subexprs(e) if a[0] == 'idx' and any(isc(b) for b in subexprs(a[1]))]
                if not idxs:
                    if x.b.id in loops_of(f) and any(a[0] == 'phi' and a[1] == f.name and any(isc(b) for q, _ in f.inst[a[2]].ops for b in subexprs(f.expr(q))) for a in subexprs(e)): return ()
                    continue
            if x.b.id not in loops_of(f) or not idxs: continue
            his = []
            for a in subexprs(e) if e[0] != 'call' else [b for q in es for b in subexprs(q)]:
                if isc(a):
                    l = ('ld', ('fld', a, 'rarray_s', 'len', m.field('rarray_s', 'len')), ('entry',))
                    his += [l, ('trunc', 'i32', l)]
            if count is not None:
                sc = {a[3] for a in subexprs(e) if a[0] == 'idx'}
                his += [('c', count // z) for z in sc if z]
            idxs = [z for q in idxs for z in ([y for y in q[1:] if not any(t[0] == 'fld' and t[3] == 'elt_size' for t in subexprs(y))] if q[0] == 'mul' else [q])]
            for ix in idxs:
                rs = [sweep(f, x, ix, ('c', 0), h) for h in his]
                w = None
                if any(r == 'skips some' for r in rs) and not any(r is None for r in rs) and skips(f, x, e): w = 'leaves some of them out'
                elif rs and all(r and r.startswith(('may', 'starts')) for r in rs):
                    over = [r for r in rs if r.startswith('may go')]
                    w = over[0] if over else rs[0]
                    if over and any(q[0] == 'eq' for h in headers(f) if x.b.id in loop_blocks(f, h) for a in loop_blocks(f, h) for b in f.blocks[a].succ if b not in loop_blocks(f, h) for q in f.edge_facts(a, b)): w = None
                if w is None: return ()
                best = (x, w)
    return best

def rets(f):
    """values a function returns, merged ones taken apart"""
    return [(v, e, g) for v, e, g in ret_cases(f) if v is not None]

def loops_of(f):
    r = set()
    for h in headers(f): r |= set(loop_blocks(f, h))
    return r

def reach_after(f, x):
    """instructions that can run after x"""
    r = {y.i for y in x.b.insts if y.k > x.k}; seen = set(); st = list(x.b.succ)
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); r |= {y.i for y in f.blocks[b].insts}; st += f.blocks[b].succ
    return r

def only_from_destroyers(m, f):
    """an internal helper all of whose callers are destroyers"""
    cs = {g.name for g in m.live() for x in g.insts('call') if x.callee == f.name}
    return bool(cs) and all(n in OWNER.values() or n.endswith('_destroy') for n in cs)

def internal(f): return bool(f.d.get('internal')) if hasattr(f, 'd') else bool(getattr(f, 'internal', False))

def sites(m, f):
    """calls of an internal function"""
    if not internal(f): return []
    return [(g, x) for g in m.live() for x in g.insts('call') if x.callee == f.name]

def renewed(m, o, f, k, st, fl):
    """every caller gives the field a new value after the call"""
    cs = sites(m, f)
    def ok(g, x):
        if g.name in OWNER.values(): return True
        b = g.expr(x.ops[k])
        after = [y for y in g.insts('store') if o.field(g, y) and o.field(g, y)[:2] == (st, fl)]
        return every_path(g, after, start=x) is None
    return bool(cs) and all(ok(g, x) for g, x in cs)

def prepared(m, o, f, k, st, fl, depth=0):
    """every caller passes a fresh object, or has released the field"""
    cs = sites(m, f)
    def ok(g, x):
        b = g.expr(x.ops[k])
        if o.fresh(g, b) or b[0] == 'call' and b[1] == 'r_object_create': return True
        if before(g, x, [y for y, _ in o.field_releases(g, st, fl, b)], lambda e: o.loads(g, e, st, fl, b)): return True
        if b[0] != 'arg': return False
        return g.name.endswith(('_init', '_create', '_copy')) or '_init_' in g.name or (depth < 2 and prepared(m, o, g, b[1], st, fl, depth + 1))
    return bool(cs) and all(ok(g, x) for g, x in cs)

def before(f, x, rs, isfield):
    """every path from the entry to x passes a release or an edge on which the field is null"""
    gb = {y.b.id for y in rs if y.b.id != x.b.id or y.k < x.k}
    if x.b.id in gb or 0 in gb: return True
    if x.b.id == 0: return False
    def nul(fs):
        return any(q[0] == 'eq' and (q[2] == ('c', 0) and isfield(q[1]) or q[1] == ('c', 0) and isfield(q[2])) for q in fs)
    for b, t, fs in edge_walk(f, 0, lambda t: t in gb or t == x.b.id, nul):
        if t not in gb: return False
    return True

CHECKS = {'G02': check_own}
