"""Keyed collections: hash tables and maps."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, Prover, subexprs, mentions
from common import *
from rlib2 import strip

SL = 16     # size of a list head, checked against the addresses seen

def noversion(e): return unver(e)

def fold_desc(f, e):
    """descriptor of a loop accumulator: ('fold', step, inits): the recurrence with its loop variables numbered;
    the sources (start pointer, bound) are returned separately"""
    if e[0] != 'phi' or e[1] != f.name: return None
    h = f.inst[e[2]].b.id
    if h not in headers(f): return None
    loop = loop_blocks(f, h); names = {}; order = []
    def name(p):
        if p not in names: names[p] = len(order); order.append(p)
        return ('lv', names[p])
    def canon(x):
        if isinstance(x, tuple) and x and x[0] == 'phi' and x[1] == f.name and f.inst[x[2]].b.id == h: return name(x)
        if isinstance(x, tuple) and x and x[0] == 'lin': return ('lin', x[1]) + tuple(sorted(((canon(t), k) for t, k in x[2]), key=repr))
        if isinstance(x, tuple) and x and x[0] == 'ld': return ('ld', canon(x[1]))
        if isinstance(x, tuple): return tuple(canon(y) if isinstance(y, tuple) else y for y in x)
        return x
    name(e); steps = []; inits = []; i = 0
    while i < len(order):
        x = f.inst[order[i][2]]; i += 1
        backs = headers(f)[h]
        ini = {f.expr(o) for o, b in x.ops if f.reachable(b) and b not in backs}; nxt = {f.expr(o) for o, b in x.ops if b in backs}
        if len(ini) != 1 or len(nxt) != 1: return None
        inits.append(ini.pop()); steps.append(canon(nxt.pop()))
    bound = None
    # number of rounds: from a counter of the same header
    for n in min_trips(f, h): bound = n
    if bound is None:
        # pointer walking to an end address
        for b in loop:
            for t in f.blocks[b].succ:
                if t in loop: continue
                for q in f.edge_facts(b, t):
                    if q[0] in ('eq', 'uge', 'ule'):
                        for a, o in ((q[1], q[2]), (q[2], q[1])):
                            if a[0] == 'phi' and a in order and o[0] == 'idx' and o[1] == inits[order.index(a)] and o[3] == 1: bound = o[2]
    ptr = [v for v in inits[1:] if v[0] != 'c']
    return tuple(steps), inits[0], ptr[0] if len(ptr) == 1 else None, bound

def bucket_refs(f):
    """(instruction, address, container, table field, index) for every bucket address used by f"""
    seen = set()
    for x in f.insts('call', 'load', 'store', 'getelementptr'):
        ops = x.ops if x.iscall else [x.ops[1]] if x.op == 'store' else [x.ops[0]] if x.op == 'load' else []
        for o in ops:
            e = f.expr(o)
            for a in subexprs(e):
                if a[0] == 'idx' and a[3] == SL and a[1][0] == 'ld' and a[1][1][0] == 'fld' and a[1][1][2:4] in (('rhash_s', 'buckets'), ('rmap_s', 'hash')):
                    if (a, x.b.id) in seen: continue
                    seen.add((a, x.b.id)); yield x, a, a[1][1][1], a[1][1][2], a[2]

def mask_of(e, X, st):
    """H when e == H & (2^nbits - 1) of container X"""
    size = lambda t: t[0] == 'shl' and t[1] == ('c', 1) and t[2][0] == 'ld' and t[2][1][0] == 'fld' and t[2][1][1] == X and t[2][1][2:4] == (st, 'nbits')
    ismask = lambda t: (t[0] == 'lin' and t[1] == -1 and len(t[2]) == 1 and t[2][0][1] == 1 and size(t[2][0][0]))
    if e[0] == 'and':
        if ismask(e[1]): return e[2]
        if ismask(e[2]): return e[1]
    if e[0] == 'urem' and size(e[2]): return e[1]
    return None

def in_table(f, x, e, X, st):
    P = None
    for q in all_facts(f, x.b.id):
        if q[0] == 'ult' and q[1] == e and q[2][0] == 'shl' and q[2][1] == ('c', 1) and mentions(q[2], lambda t: t[0] == 'fld' and t[1] == X and t[2:4] == (st, 'nbits')): return True
    return False

NAV = {'head': ('r_list_first', 'r_list_next'), 'tail': ('r_list_last', 'r_list_prev')}

def check_keyed(c):
    c.rule('every bucket address is the table base plus (hash of the key) & (2^nbits - 1), or a counter tested below the table size; stores and lookups of one collection use the same hash (same function, or the same loop recurrence over the key bytes and length); lookups return an entry only under its successful key comparison, visit the bucket completely in their direction, entries are appended at the tail; deletion unlinks, re-initialises and recycles the entry; tables are allocated and initialised for 2^nbits heads')
    ub = ('r_map_node', 'r_map_getfreenode', 'r_mapnode_init')
    m = c.mod('core', pipe='plain', unbound=ub)
    # allocation and initialisation
    for n, st, fld in (('r_hash_init', 'rhash_s', 'buckets'), ('r_map_init', 'rmap_s', 'hash')):
        f = m.fn(n); c.seen(f)
        stores = [x for x in f.insts('store') if f.cls(x) == (st, fld)]
        nb = [f.expr(x.ops[0]) for x in f.insts('store') if f.cls(x) == (st, 'nbits')]
        if not stores or len(nb) != 1: raise AnalysisBroken('%s does not set up its table' % n)
        size = ('shl', ('c', 1), nb[0])
        for x in stores:
            c.ob('table allocations')
            sz = alloc_size(f, f.expr(x.ops[0]))
            if sz is None or not (sz == mklin(0, ((size, SL),)) or Prover(f, all_facts(f, x.b.id)).le(mklin(0, ((size, SL),)), sz)):
                c.bad('%s:size' % n, f.where(x), '%s allocates %s bytes for 2^%s list heads' % (n, pp(sz) if sz else 'unknown', pp(nb[0])))
            base = f.expr(x.ops[0]); ok = False
            for h in headers(f):
                loop = loop_blocks(f, h)
                if size not in min_trips(f, h): continue
                for y in f.calls('r_list_init'):
                    a = f.expr(y.ops[0])
                    if y.b.id in loop and a[0] == 'idx' and a[3] == SL and covers(f, h, loop, a[2], y, size) and (a[1] == base or (a[1][0] == 'ld' and a[1][1] == f.expr(x.ops[1]))): ok = True
            if not ok: c.bad('%s:init' % n, f.where(x), '%s does not initialise every list head of its table' % n)
    for f in m.live():
        for x in f.insts('store'):
            if f.cls(x) in (('rhash_s', 'nbits'), ('rhash_s', 'buckets'), ('rmap_s', 'nbits'), ('rmap_s', 'hash'), ('rmap_s', 'elt_size')) and f.name not in ('r_hash_init', 'r_map_init') and f.expr(x.ops[0]) != ('c', 0):
                c.bad('%s:resize' % f.name, f.where(x), '%s changes the geometry of an existing table' % f.name)
    # every bucket reference
    folds = {}
    for f in m.live():
        for x, a, X, st, e in bucket_refs(f):
            c.seen(f); c.ob('bucket references')
            H = mask_of(e, X, st)
            if H is None:
                if not in_table(f, x, e, X, st): c.bad('%s:bucket' % f.name, f.where(x), 'bucket number %s is not bounded by the table size' % pp(e))
                continue
            if st == 'rhash_s':
                y = f.inst[H[3]] if H[0] == 'call' and H[1] == 'indirect' else None
                if y is None or f.expr(y.d['callee']) != ('ld', ('fld', X, st, 'hfunc', m.field(st, 'hfunc')), ('entry',)) and not (f.expr(y.d['callee'])[0] == 'ld' and f.expr(y.d['callee'])[1] == ('fld', X, st, 'hfunc', m.field(st, 'hfunc'))):
                    c.bad('%s:hash' % f.name, f.where(x), 'bucket chosen by %s instead of the hash function of the table' % pp(H)); continue
                folds.setdefault(f.name, ('rhash', f.expr(y.ops[0])))
            else:
                d = fold_desc(f, H)
                if d is None:
                    c.bad('%s:hash' % f.name, f.where(x), 'bucket chosen by %s, which is not the hash of the key' % pp(H)); continue
                folds.setdefault(f.name, ('rmap', d))
                want = mapkey(m, f)
                if not (d[2] is not None and d[3] is not None and (unver(d[2]), unver(d[3])) in want): c.bad('%s:key' % f.name, f.where(x), 'the hash covers %s bytes of %s' % (pp(d[3]) if d[3] else '?', pp(d[2]) if d[2] else '?'))
    ref = None
    for n, (k, d) in sorted(folds.items()):
        if k != 'rmap': continue
        c.ob('hash agreements')
        if ref is None: ref = (n, d)
        elif ref[1][:2] != d[:2]: c.bad('map:hash', m.fn(n).where(), '%s and %s compute different hashes of the same key' % (ref[0], n))
    # insertion
    for n, key in (('r_hash_insert_object', 1), ('r_hash_insert_index', 1), ('r_map_add', None)):
        f = m.fn(n); c.seen(f); c.ob('insertions')
        refs = {a for _, a, _, _, _ in bucket_refs(f)}
        add = [x for x in f.calls('r_list_addt', 'r_list_addh') if f.expr(x.ops[0]) in refs]
        if any(x.callee != 'r_list_addt' for x in add): c.bad('%s:order' % n, f.where(), '%s does not append at the tail of the bucket' % n)
        if every_path(f, add) is not None: c.bad('%s:insert' % n, f.where(), '%s may return without linking the entry' % n)
        if key is not None:
            ks = [f.expr(x.ops[0]) for x in f.insts('store') if f.cls(x)[1] == 'key' and f.cls(x)[0] == 'rhash_node_s']
            vs = [x for x in f.insts('store') if f.cls(x)[0] in ('rhash_value_s', 'rhash_node_s') and f.expr(x.ops[0]) == ('arg', 2)]
            if set(ks) != {('arg', key)} or folds.get(n, (0, None))[1] != ('arg', key): c.bad('%s:key' % n, f.where(), '%s does not store the entry under the hashed key' % n)
            if not vs: c.bad('%s:value' % n, f.where(), '%s does not store the value' % n)
        else:
            act = [x for x in f.calls('r_list_addt', 'r_list_addh') if f.expr(x.ops[0]) == ('fld', ('arg', 0), 'rmap_s', 'active', m.field('rmap_s', 'active'))]
            if any(x.callee != 'r_list_addt' for x in act) or every_path(f, act) is not None: c.bad('%s:active' % n, f.where(), '%s does not append the entry to the list of active entries' % n)
    # lookups
    for n, dr in (('r_hash_nodelookup', 'head'), ('r_hash_nodetaillookup', 'tail'), ('r_map_lookup', 'head'), ('r_map_taillookup', 'tail')): lookup(c, m, m.fn(n), dr)
    for n, via, kind in (('r_hash_lookup_object', 'r_hash_nodelookup', 'ptr'), ('r_hash_lookup_index', 'r_hash_nodelookup', 'index'), ('r_hash_taillookup_index', 'r_hash_nodetaillookup', 'index')):
        f = m.fn(n); c.seen(f); c.ob('lookups')
        cs = list(f.calls('r_hash_nodelookup', 'r_hash_nodetaillookup'))
        if len(cs) != 1 or cs[0].callee != via or [f.expr(o) for o in cs[0].ops] != [('arg', 0), ('c', 0), ('arg', 1)]: c.bad('%s:via' % n, f.where(), '%s does not search with %s from the start of the bucket' % (n, via)); continue
        R = f.x(cs[0]); none = ('c', 0) if kind == 'ptr' else ('c', -1)
        for cse in ret_cases(f):
            fs = case_facts(f, cse); v = strip(cse[0])
            if any(q[0] == 'eq' and q[1] == R and q[2] == ('c', 0) for q in fs): ok = v == none
            elif any(q[0] == 'ne' and q[1] == R and q[2] == ('c', 0) for q in fs): ok = v[0] == 'ld' and m.root(v) is not None and byte_offset(v[1])[0] == R and v[1][0] == 'fld' and mentions(v, lambda t: t[0] == 'fld' and t[3] == 'value')
            else: ok = False
            if not ok: c.bad('%s:result' % n, f.where(cse[1]), '%s returns %s' % (n, pp(v)))
    f = m.fn('r_hash_remove'); c.seen(f); c.ob('lookups')
    cs = list(f.calls('r_hash_nodelookup', 'r_hash_nodetaillookup')); dl = list(f.calls('r_list_del', 'r_list_unlink')); fr = list(f.calls('r_free'))
    for e in f.exits():
        if not any(q[0] == 'eq' and q[2] == ('c', 0) and any(mentions(q[1], lambda t: t == f.x(x)) or q[1] == f.x(x) for x in cs) for q in f.facts(e.b.id)) and not phi_null(f, e, cs): c.bad('r_hash_remove:all', f.where(e), 'r_hash_remove may leave an entry with the key')
    for x in fr:
        if not any(f.idominst(y, x) and m.root(f.expr(y.ops[0])) == m.root(f.expr(x.ops[0])) for y in dl): c.bad('r_hash_remove:unlink', f.where(x), 'an entry is released while still linked')
    if not fr: c.bad('r_hash_remove:free', f.where(), 'removed entries are not released')
    # map entries by index
    hl = ('r_mapnode_s', 'hash')
    def node_guard(f, x, idx):
        fs = all_facts(f, x.b.id)
        inb = any(q[0] == 'ult' and q[1] == idx and q[2][0] == 'ld' and q[2][1][0] == 'fld' and q[2][1][3] == 'len' for q in fs)
        lnk = any(q[0] == 'ne' and any(a[0] == 'ld' and unver(a[1]) == unver(b) and b[0] == 'fld' and b[3] == 'hash' for a, b in ((q[1], q[2]), (q[2], q[1]))) for q in fs)
        return inb and lnk
    for n in ('r_map_key', 'r_map_value', 'r_map_setvalue', 'r_map_delete', 'r_map_next', 'r_map_prev'):
        f = m.fn(n); c.seen(f)
        for cse in ret_cases(f):
            c.ob('entry guards')
            v = strip(cse[0])
            if v == ('c', 0) or v == ('c', -1): continue
            x = cse[1] if not cse[2] else f.blocks[cse[2][0][0]].insts[-1]
            if not node_guard(f, x, ('arg', 1)): c.bad('%s:guard' % n, f.where(cse[1]), '%s can succeed for an index that is out of range or deleted' % n)
        for x in f.calls('r_memcpy', 'r_list_del', 'r_object_destroy', 'r_string_destroy', 'r_list_next', 'r_list_prev'):
            c.ob('entry guards')
            if not node_guard(f, x, ('arg', 1)): c.bad('%s:guard' % n, f.where(x), '%s uses an entry that may be out of range or deleted' % n)
    f = m.fn('r_map_delete')
    good = [x for x in f.calls('r_list_del')]
    def on(f, name, fld):
        r = []
        for x in f.calls(name):
            a = f.expr(x.ops[-1])
            if (a[0] == 'fld' and a[2] == 'r_mapnode_s' and a[3] == fld) or (fld == 'active' and not (a[0] == 'fld' and a[2] == 'r_mapnode_s')): r.append(x)
        return r
    seqs = (('hash', [on(f, 'r_list_del', 'hash'), on(f, 'r_list_init', 'hash')]), ('active', [on(f, 'r_list_del', 'active'), [x for x in f.calls('r_list_addt', 'r_list_addh') if f.expr(x.ops[0]) == ('fld', ('arg', 0), 'rmap_s', 'inactive', m.field('rmap_s', 'inactive')) and f.expr(x.ops[1]) in {f.expr(y.ops[-1]) for y in on(f, 'r_list_del', 'active')}]]))
    for cse in ret_cases(f):
        if strip(cse[0]) == ('c', 0): continue
        for fld, (d, i) in seqs:
            c.ob('deletions')
            for step in (d, i):
                if not step or path_to_case(f, cse, step): c.bad('r_map_delete:%s' % fld, f.where(cse[1]), 'a deleted entry keeps its %s link' % fld)
            if d and i and not all(any(f.idominst(a, b) for a in d) for b in i): c.bad('r_map_delete:%s' % fld, f.where(i[0]), 'the %s link is re-initialised before it is unlinked' % fld)
    for n, nav in (('r_map_first', 'r_list_first'), ('r_map_last', 'r_list_last'), ('r_map_next', 'r_list_next'), ('r_map_prev', 'r_list_prev')):
        f = m.fn(n); c.seen(f); c.ob('iterations')
        cs = [x for x in f.calls('r_list_first', 'r_list_last', 'r_list_next', 'r_list_prev')]
        act = ('fld', ('arg', 0), 'rmap_s', 'active', m.field('rmap_s', 'active'))
        if len(cs) == 1 and len(cs[0].ops) > 1 and f.expr(cs[0].ops[1])[0] == 'fld' and f.expr(cs[0].ops[1])[3] != 'active': c.bad('%s:nav' % n, f.where(cs[0]), '%s steps through the wrong link' % n)
        if len(cs) != 1 or cs[0].callee != nav or f.expr(cs[0].ops[0]) != act: c.bad('%s:nav' % n, f.where(), '%s does not step through the active entries with %s' % (n, nav)); continue
        for cse in ret_cases(f):
            fs = case_facts(f, cse); v = strip(cse[0]); R = f.x(cs[0])
            if v == ('c', -1): ok = any(q[0] == 'eq' and q[1] == R and q[2] == ('c', 0) for q in fs) or not any(q[0] == 'ne' and q[1] == R for q in fs)
            else: ok = v[0] == 'ld' and byte_offset(v[1])[0] == R and v[1][3] == 'index' and any(q[0] == 'ne' and q[1] == R and q[2] == ('c', 0) for q in fs)
            if not ok: c.bad('%s:result' % n, f.where(cse[1]), '%s returns %s' % (n, pp(v)))
    # value storage
    f = m.fn('r_map_init'); c.ob('value storage')
    voff = m.field('r_mapnode_s', 'value')
    es = [f.expr(x.ops[0]) for x in f.insts('store') if f.cls(x) == ('rmap_s', 'elt_size')]
    for x in f.calls('r_carray_create'):
        e = f.expr(x.ops[0]); lo = e
        l = aslin(e)
        if l[0] == 0 and len(l[1]) == 1 and l[1][0][0][0] in ('udiv',) and l[1][0][0][2] == ('c', l[1][0][1]): lo = mklin(*sublin(aslin(l[1][0][0][1]), (l[1][0][1] - 1, ())))
        if len(es) != 1 or not Prover(f, all_facts(f, x.b.id)).le(mklin(voff, ((es[0], 1),)), lo): c.bad('r_map_init:elt', f.where(x), 'entries of %s bytes have no room for the value' % pp(e))
    for n in ('r_map_add', 'r_map_setvalue'):
        f = m.fn(n)
        for x in f.calls('r_memcpy', 'r_memset', 'r_memmove'):
            a = f.expr(x.ops[0])
            if not (a[0] == 'fld' and a[3] == 'value'): continue
            c.ob('value storage')
            L = f.expr(x.ops[2])
            if L != ('ld', ('fld', ('arg', 0), 'rmap_s', 'elt_size', m.field('rmap_s', 'elt_size')), L[2] if L[0] == 'ld' else None): c.bad('%s:value' % n, f.where(x), '%s writes %s bytes of value' % (n, pp(L)))
    f = m.fn('r_map_add')
    w = [x for x in f.calls('r_memcpy', 'r_memset', 'r_memmove') if f.expr(x.ops[0])[0] == 'fld' and f.expr(x.ops[0])[3] == 'value']
    if every_path(f, w) is not None: c.bad('r_map_add:stale', f.where(), 'an added entry may keep the value of a deleted one')
    # key representation agreement of the hash/equality pairs in use
    for f in m.live():
        for x in f.calls('r_hash_create', 'r_hash_init'):
            k = len(x.ops) - 2
            e, h = f.expr(x.ops[k]), f.expr(x.ops[k + 1])
            if e[0] != 'g' or h[0] != 'g' or e[1] not in m.fns or h[1] not in m.fns: continue
            c.ob('hash agreements'); c.seen(f)
            a, b = keyuse(m, m.fn(e[1])), keyuse(m, m.fn(h[1]))
            if a != b: c.bad('%s:pair' % f.name, f.where(x), 'a table hashes keys with %s (reads %s) but compares them with %s (reads %s)' % (h[1], sorted(b), e[1], sorted(a)))
    c.atleast('bucket references', 6); c.atleast('lookups', 6)

def phi_null(f, e, cs):
    for q in f.facts(e.b.id):
        if q[0] == 'eq' and q[2] == ('c', 0) and q[1][0] == 'phi' and q[1][1] == f.name:
            if all(f.expr(o) in [f.x(x) for x in cs] for o, b in f.inst[q[1][2]].ops if f.reachable(b)): return True
    return False

def covers(f, h, loop, idx, y, size):
    """the call runs in every round, for each value 0..size-1"""
    if not all(f.dom(y.b.id, b) for b in headers(f)[h]): return False
    for x in f.blocks[h].insts:
        if x.op != 'phi': break
        p = ('phi', f.name, x.i); backs = headers(f)[h]
        i = {f.expr(o) for o, b in x.ops if f.reachable(b) and b not in backs}; n = {f.expr(o) for o, b in x.ops if b in backs}
        if len(i) != 1 or len(n) != 1: continue
        i = i.pop(); n = n.pop()
        if i == ('c', 0) and n == mklin(1, ((p, 1),)) and idx == p: return True
        if i == size and n == mklin(-1, ((p, 1),)) and idx == mklin(-1, ((p, 1),)): return True
        if i == mklin(-1, ((size, 1),)) and n == mklin(-1, ((p, 1),)) and idx == p: return True
    return False

def mapkey(m, f):
    """acceptable (start, length) pairs of the key hashed by a map function"""
    r = set()
    if len(f.args) >= 3: r.add((('arg', 1), ('arg', 2)))
    # the key object stored into the entry
    for x in f.insts('load', 'store'):
        cl = f.cls(x)
        if cl == ('r_mapnode_s', 'key'):
            for k in ({f.x(x), f.expr(x.ops[0])} if x.op == 'load' else {f.expr(x.ops[0])}):
                if not mentions(k, lambda t: t[0] == 'call' and t[1] == 'r_string_create_from_str_len') and not (k[0] == 'ld' and k[1][0] == 'fld' and k[1][3] == 'key'): continue
                r.add((unver(('ld', ('fld', k, 'rstring_s', 'str', m.field('rstring_s', 'str')), 0)), unver(('ld', ('fld', k, 'rstring_s', 'size', m.field('rstring_s', 'size')), 0))))
    return r

def lookup(c, m, f, dr):
    c.seen(f); c.ob('lookups')
    first, nxt = NAV[dr]; n = f.name
    nav = list(f.calls('r_list_first', 'r_list_last', 'r_list_next', 'r_list_prev'))
    refs = {unver(a) for _, a, _, _, _ in bucket_refs(f)}
    for x in nav:
        if x.callee not in (first, nxt): c.bad('%s:direction' % n, f.where(x), '%s must search from the %s but uses %s' % (n, dr, x.callee))
        if unver(f.expr(x.ops[0])) not in refs: c.bad('%s:bucket' % n, f.where(x), '%s walks a list that is not the bucket of the key' % n)
    if not [x for x in nav if x.callee == first]: c.bad('%s:direction' % n, f.where(), '%s does not start at the %s of the bucket' % (n, dr))
    hd = [h for h in headers(f) if any(x.b.id in loop_blocks(f, h) for x in nav)]
    if not hd: c.bad('%s:loop' % n, f.where(), '%s does not walk the bucket' % n); return
    h = hd[0]; loop = loop_blocks(f, h)
    navx = {f.x(x) for x in nav}
    def frompos(v): return v[0] == 'phi' and all(f.expr(o) in navx or frompos2(f.expr(o)) for o, b in f.inst[v[2]].ops if f.reachable(b))
    def frompos2(v, d=0):
        return v in navx or (v[0] == 'phi' and d < 4 and all(f.expr(o) in navx or frompos2(f.expr(o), d + 1) for o, b in f.inst[v[2]].ops if f.reachable(b) and f.expr(o) != v))
    pos = [('phi', f.name, x.i) for x in f.blocks[h].insts if x.op == 'phi' and frompos2(('phi', f.name, x.i))]
    def nodeof(a): return byte_offset(a)[0]
    def mismatch(q):
        """the edge tells that the current entry does not have the key"""
        e = q[1]
        if q[0] == 'eq' and q[2] == ('c', 0) and iseq(e): return True
        if q[0] == 'ne' and q[2] == ('c', 0) and iscmp(e): return True
        if q[0] == 'ne' and sizes(q): return True
        if q[0] in ('slt', 'sgt', 'ult', 'ugt') and sizes(q): return True
        return False
    def iseq(e):
        if e[0] != 'call' or e[1] != 'indirect': return False
        y = f.inst[e[3]]; ce = f.expr(y.d['callee'])
        return ce[0] == 'ld' and ce[1][0] == 'fld' and ce[1][3] == 'eqfunc' and keyargs(y)
    def keyargs(y):
        a, b = f.expr(y.ops[0]), f.expr(y.ops[1])
        return any(k == ('arg', 2) and o[0] == 'ld' and o[1][0] == 'fld' and o[1][3] == 'key' and nodeof(o[1]) in pos for k, o in ((a, b), (b, a)))
    def iscmp(e):
        if e[0] != 'call' or e[1] not in ('r_strncmp', 'r_memcmp', 'strncmp', 'memcmp'): return False
        y = f.inst[e[3]]; a, b, L = [f.expr(o) for o in y.ops]
        if not any(k == ('arg', 1) and mentions(o, lambda t: t in pos) for k, o in ((a, b), (b, a))): return False
        return L == ('arg', 2) or (L[0] == 'ld' and L[1][0] == 'fld' and L[1][3] == 'size')
    def sizes(q): return any(a == ('arg', 2) and b[0] == 'ld' and b[1][0] == 'fld' and b[1][3] == 'size' and mentions(b, lambda t: t in pos) for a, b in ((q[1], q[2]), (q[2], q[1])))
    # skipped entries: a round of the loop without any mismatch edge
    for b, t, fs in edge_walk(f, h, lambda t: t == h, lambda fs: any(q[0] in ir.NEG and mismatch(q) for q in fs), loop):
        c.bad('%s:skip' % n, f.where(f.blocks[b].insts[-1]), '%s can pass over an entry without comparing its key' % n)
    for x in nav:
        if x.b.id in loop and f.expr(x.ops[1] if len(x.ops) > 1 else x.ops[0]) not in pos: c.bad('%s:step' % n, f.where(x), '%s does not step from the current entry' % n)
    for cse in ret_cases(f):
        c.ob('lookup results')
        fs = case_facts(f, cse); v = strip(cse[0])
        if v in (('c', 0), ('c', -1)):
            if not any(q[0] == 'eq' and q[1] in pos and q[2] == ('c', 0) for q in fs): c.bad('%s:miss' % n, f.where(cse[1]), '%s reports a miss before the end of the bucket' % n)
            continue
        if f.name.startswith('r_map'):
            ok = v[0] == 'ld' and v[1][0] == 'fld' and v[1][3] == 'index' and nodeof(v[1]) in pos
            ok = ok and any(q[0] == 'eq' and sizes(q) for q in fs) and any(q[0] == 'eq' and q[2] == ('c', 0) and iscmp(q[1]) for q in fs)
        else: ok = nodeof(v) in pos and any(q[0] == 'ne' and q[2] == ('c', 0) and iseq(q[1]) for q in fs)
        if not ok: c.bad('%s:hit' % n, f.where(cse[1]), '%s returns %s without a successful comparison of its key' % (n, pp(v)))

def keyuse(m, f):
    """which representation of the key a hash or equality function reads"""
    r = set()
    for x in f.insts('load'):
        cl = f.cls(x)
        if cl[0] != 'raw' and mentions(f.expr(x.ops[0]), lambda t: t[0] == 'arg'): r.add(cl)
        elif cl[0] == 'raw' and f.expr(x.ops[0])[0] == 'arg' and x.d.get('sz', 8) == 8: r.add(('long', ''))
    for x in f.insts('call'):
        if x.callee in ('r_strcmp', 'strcmp'): r.add(('string', ''))
    if not r: r.add(('string', ''))
    return r

CHECKS = {'R07': check_keyed}
