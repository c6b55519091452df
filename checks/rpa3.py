"""Record navigation, program objects (rpadbex)."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, addlin, Prover, subexprs, mentions
from flow import Flow
from common import *
from rpa import STAT, IN, IP, CPU, A, fld, consts, PFlow, strip

ARR, REC = 'rarray_s', 'rparecord_s'

def merge_bounds(fn, lens, depth=3):
    """lower/upper bounds of values merged from several ways: facts (sge p 0) / (slt p len) valid wherever the merge is"""
    out = []
    hs = headers(fn)
    for _ in range(depth):
        n = len(out)
        for b in fn.rpo():
            for x in fn.blocks[b].insts:
                if x.op != 'phi': break
                if b in hs or x.t not in ('i64', 'i32'): continue
                p = ('phi', fn.name, x.i)
                for f_ in [('sge', p, ('c', 0))] + [('slt', p, l) for l in lens]:
                    if f_ in out: continue
                    ok = True
                    for o, q in x.ops:
                        if not fn.reachable(q): continue
                        e = fn.expr(o)
                        P = Prover(fn, list(all_facts(fn, q)) + fn.edge_facts(q, b) + out + fn._p07)
                        if not (P.ge0(e) if f_[0] == 'sge' else P.lt(e, f_[2])): ok = False; break
                    if ok: out.append(f_)
        if len(out) == n: break
    return out

NAVFN = ('rpa_recordtree_get', 'rpa_recordtree_firstchild', 'rpa_recordtree_lastchild', 'rpa_recordtree_next', 'rpa_recordtree_prev', 'rpa_recordtree_parent')
OTHER = ('rpa_recordtree_size', 'rpa_recordtree_copy', 'rpa_recordtree_move', 'rpa_recordtree_walk', 'rpa_record_get', 'rpa_record_getruleuid',
         'rpa_record_setusertype', 'rpa_record_getusertype', 'rpa_record_dump', 'rpa_record_dumpindented', 'rpa_records_slot', 'rpa_records_length')

class RFlow(PFlow):
    """a record is a start or an end mark: comparing its type with one of them is a test of that mark"""
    def cmp(s, p, a, b):
        if p == 'eq':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:4] == (REC, 'type') and y in (('c', 1), ('c', 2)): return s.xbit(x, y[1].bit_length() - 1)
        return super().cmp(p, a, b)

def check_recordtree(c):
    m = c.mod('core', pipe='plain'); K = {'S': 1, 'E': 2}
    ks = fe.load_consts(['rpa/rparecord.h']); S, E = ks['RPA_RECORD_START'], ks['RPA_RECORD_END']
    c.rule('every element of a record array that a record function touches lies inside of the array whatever the index given; navigation yields -1 or an index inside; each step (first/last child, next, previous, parent) starts and lands on the records its meaning says')
    rsz = m.structs[REC]['size']
    lencls = (ARR, 'len'); known = {}
    # ---------------- bounds
    for name in NAVFN + OTHER:
        f = m.fn(name); c.seen(f)
        def length_at(x, arr):
            a = fld(m, arr, ARR, 'len'); return f.load_at(a, lencls, f.ver_before(lencls, x))
        post = []; lens = set()
        for y in f.calls(*NAVFN):
            l = length_at(y, f.expr(y.ops[0])); post.append(('slt', f.x(y), l)); lens.add(l)
        for y in f.calls('rpa_recordtree_size'): pass
        for b in f.blocks:
            for x in b.insts:
                if x.op in ('load', 'store') or x.iscall:
                    for a, n, k in mem_access(f, x):
                        bse, off = byte_offset(a)
                        if bse[0] == 'ld' and bse[1][0] == 'fld' and bse[1][2:4] == (ARR, 'data'): lens.add(length_at(x, bse[1][1]))
        # the array of the caller stays as it is between two calls that cannot change its length
        f._p07 = post
        mb = merge_bounds(f, lens); known[name] = post + mb
        for x in f.insts():
            for a, n, k in mem_access(f, x):
                bse, off = byte_offset(a)
                if not (bse[0] == 'ld' and bse[1][0] == 'fld' and bse[1][2:4] == (ARR, 'data')): continue
                c.ob('element accesses')
                arr = bse[1][1]; esz = [t for t in subexprs(off) if t[0] == 'ld' and t[1] == fld(m, arr, ARR, 'elt_size')]
                if not esz: c.bad('%s:slot' % name, f.where(x), '%s uses an element address that is not computed from the element size' % name); continue
                q = esz[0]
                co = aslin(off)[0]
                idx = divide(mklin(*sublin(aslin(off), (co, ()))), q)
                if idx is None or co < 0 or n[0] == 'c' and co + n[1] > rsz: c.bad('%s:slot' % name, f.where(x), '%s uses an element address that is not computed from the element size' % name); continue
                P = Prover(f, list(all_facts(f, x.b.id)) + post + mb)
                l = length_at(x, arr)
                if not P.ge0(idx): c.bad('%s:negative' % name, f.where(x), '%s uses the record %s which may be negative' % (name, pp(idx)))
                elif not P.lt(idx, l): c.bad('%s:beyond' % name, f.where(x), '%s uses the record %s which may be beyond the end of the array' % (name, pp(idx)))
        if name in ('rpa_record_get', 'rpa_records_slot'):
            fl = RFlow(f); B = fl.b
            for v, e, edges in ret_cases(f):
                c.ob('navigation results')
                cond = casecond(fl, (v, e, edges)); ls = [l for l in length_terms(f, m)]
                inr = B.AND(B.NOT(fl.neg(A(1))), orcmp(fl, 'slt', A(1), ls), B.NOT(fl.cmp('eq', A(0), ('c', 0))))
                if v == ('c', 0):
                    if not refuted(fl, B.AND(cond, inr)): c.bad('%s:missing' % name, f.where(e), '%s finds no record for an index inside of the array' % name)
                    continue
                bse, off = byte_offset(v)
                esz = [t for t in subexprs(off) if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:4] == (ARR, 'elt_size')]
                if not esz or divide(off, esz[0]) != A(1): c.bad('%s:value' % name, f.where(e), '%s yields another record than the one of the index' % name)
                if not implies(fl, cond, B.AND(B.NOT(fl.neg(A(1))), orcmp(fl, 'slt', A(1), ls))): c.bad('%s:outside' % name, f.where(e), '%s yields a record for an index outside of the array' % name)
        if name in NAVFN:
            for v, e, edges in ret_cases(f):
                c.ob('navigation results')
                if v[0] == 'c' and v[1] < 0: continue
                P = Prover(f, case_facts(f, (v, e, edges)) + all_facts(f, edges[-1][0] if edges else e.b.id) + post + mb)
                l = length_at(e, A(0))
                if not P.lt(v, l): c.bad('%s:result' % name, f.where(e), '%s may yield %s, an index outside of the array' % (name, pp(v)))
    # callbacks get valid indices
    f = m.fn('rpa_recordtree_walk')
    # ---------------- meaning of the steps
    def tbit(fl, f, idx, bit, x):
        """truth of: the record idx (index expression) carries the bit -- in terms of the loads of the function"""
        a = None
    def rectype_loads(f):
        """index expression -> load expressions of the type of that record"""
        r = {}
        for x in f.insts('load'):
            if f.cls(x) != (REC, 'type'): continue
            bse, off = byte_offset(f.expr(x.ops[0]))
            if bse[0] != 'ld': continue
            esz = [t for t in subexprs(off) if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:4] == (ARR, 'elt_size')]
            if not esz: continue
            co = aslin(off)[0]; idx = divide(mklin(*sublin(aslin(off), (co, ()))), esz[0])
            if idx is not None: r.setdefault(idx, set()).add(f.x(x))
        return r
    STEPS = {'rpa_recordtree_firstchild': (1, S, S, 'the record after its start'), 'rpa_recordtree_next': (1, E, S, 'the record after its end'),
             'rpa_recordtree_lastchild': (-1, E, E, 'the record before its end'), 'rpa_recordtree_prev': (-1, S, E, 'the record before its start')}
    for name, (step, side, want, what) in STEPS.items():
        f = m.fn(name); fl = RFlow(f); B = fl.b; fl.extra = known[name]
        other = S if side == E else E
        tl = rectype_loads(f)
        def has(idx, bit):
            ls = tl.get(idx)
            if not ls: return None
            return fl.xbit(next(iter(ls)), bit.bit_length() - 1)
        own = has(A(1), other)
        gets = list(f.calls('rpa_recordtree_get'))
        finals = []
        fails = False
        for v, e, edges in ret_cases(f):
            c.ob('navigation steps')
            cond = casecond(fl, (v, e, edges))
            if v == ('c', -1) or v[0] == 'c' and v[1] < 0: fails = B.OR(fails, cond); continue
            y = next((g for g in gets if f.x(g) == v), None)
            if y is None: c.bad('%s:result' % name, f.where(e), '%s yields %s' % (name, pp(v))); continue
            if f.expr(y.ops[0]) != A(0) or strip(f.expr(y.ops[2])) != A(2): c.bad('%s:kind' % name, f.where(y), '%s does not look for the requested kind of record' % name)
            finals.append((y, cond))
        if not finals: c.bad('%s:never' % name, f.where(), '%s never finds a record' % name); continue
        if own is None:
            c.bad('%s:side' % name, f.where(), '%s does not look at which end of its branch the record is' % name); continue
        okall = False
        for y, cond in finals:
            land = f.expr(y.ops[1])
            base = mklin(*sublin(aslin(land), (step, ())))
            firsts = [g for g in gets if g is not y and f.expr(g.ops[1]) == A(1) and f.expr(g.ops[0]) == A(0) and f.expr(g.ops[2]) == ('c', side)]
            good = B.AND(B.NOT(own), fl.cmp('eq', base, A(1)))
            for g in firsts: good = B.OR(good, B.AND(own, fl.cmp('eq', base, f.x(g))))
            t = cond
            if not implies(fl, t, good): c.bad('%s:where' % name, f.where(y), '%s does not land on %s' % (name, what))
            w = has(land, want)
            if w is None or not implies(fl, cond, w): c.bad('%s:mark' % name, f.where(y), '%s accepts a record that is not a %s of a branch' % (name, 'start' if want == S else 'end'))
            # given up only for a reason: the found conditions negated
            L = [l for l in length_terms(f, m)]
            inr = B.AND(B.NOT(fl.neg(A(1))), orcmp(fl, 'slt', A(1), L))
            res = B.AND(inr, B.OR(B.NOT(own), *[B.NOT(fl.neg(f.x(g))) for g in firsts]))
            okl = B.AND(res, B.NOT(fl.neg(land)) if step < 0 else orcmp(fl, 'slt', land, L))
            okall = B.OR(okall, B.AND(okl, w if w is not None else False))
        x = B.AND(fails, okall)
        if x is not False and not refuted(fl, x): c.bad('%s:giveup' % name, f.where(), '%s can report no record although there is one' % name)
    # ---------------- the partner of a record
    f = m.fn('rpa_recordtree_get'); fl = RFlow(f); B = fl.b
    tl = rectype_loads(f)
    wantS = fl.xbit(A(2), S.bit_length() - 1)
    def has(idx, bit):
        ls = tl.get(idx)
        return fl.xbit(next(iter(ls)), bit.bit_length() - 1) if ls else None
    sO, eO = has(A(1), S), has(A(1), E)
    if sO is None or eO is None: c.bad('get:type', f.where(), 'the type of the record is not looked at')
    else:
        hs = headers(f); dirs = set()
        direct = B.OR(B.AND(sO, wantS), B.AND(eO, B.NOT(wantS)))
        for v, e, edges in ret_cases(f):
            c.ob('partner search')
            cond = casecond(fl, (v, e, edges))
            if v[0] == 'c' and v[1] < 0:
                inr = B.AND(B.NOT(fl.neg(A(1))), orcmp(fl, 'slt', A(1), length_terms(f, m)))
                x = B.AND(cond, inr, direct)
                if x is not False and not refuted(fl, x): c.bad('get:giveup', f.where(e), 'no record is reported for a record that is of the requested kind itself')
                continue
            if v == A(1):
                if not implies(fl, cond, direct): c.bad('get:self', f.where(e), 'a record is returned as its own partner although it is of the other kind')
                continue
            ph = [p for p in subexprs(v) if p[0] == 'phi' and p[1] == f.name and f.inst[p[2]].b.id in hs]
            if len(ph) != 1 or v != ph[0]: c.bad('get:value', f.where(e), 'the partner is reported as %s' % pp(v)); continue
            p = ph[0]; h = f.inst[p[2]].b.id; backs = hs[h]; loop = loop_blocks(f, h)
            x = f.inst[p[2]]
            ini = {f.expr(o) for o, b in x.ops if f.reachable(b) and b not in backs}
            ds = {delta(f, f.expr(o), p, loop) for o, b in x.ops if b in backs}
            if ini != {A(1)} or ds not in ({(1, 1)}, {(-1, -1)}): c.bad('get:scan', f.where(x), 'the search does not visit the records one by one from the given one'); continue
            fwd = ds == {(1, 1)}; dirs.add(fwd)
            side = B.AND(sO, B.NOT(wantS)) if fwd else B.AND(eO, wantS)
            if not implies(fl, fl.rc[h], side): c.bad('get:direction', f.where(x), 'the search goes %s although it is not for an %s' % (('forward', 'end') if fwd else ('backward', 'start')))
            sB, eB = has(p, S), has(p, E)
            if sB is None or eB is None: c.bad('get:nesting', f.where(x), 'the search does not look at the kind of the records it passes'); continue
            ls = length_terms(f, m)
            for a in loop:
                for b in f.blocks[a].succ:
                    if b in loop: continue
                    P = Prover(f, f.edge_facts(a, b))
                    if P.lt(p, ('c', 0)) or any(P.le(l, p) for l in ls): continue
                    if found_edge(f, fl, p, h, a, b): 
                        w = loses(f, a, b)
                        if w is not None: c.bad('get:lost', f.where(w), 'the partner found is not reported')
                        continue
                    c.bad('get:gap', f.where(f.blocks[a].insts[-1]), 'the search gives up before it reached the end of the array')
            # nesting counter
            cnt = None
            for y in f.blocks[h].insts:
                if y.op != 'phi': break
                q = ('phi', f.name, y.i)
                if q == p: continue
                i2 = {f.expr(o) for o, b in y.ops if f.reachable(b) and b not in backs}
                if i2 == {('c', 0)}: cnt = (y, q)
            if cnt is None: c.bad('get:nesting', f.where(x), 'the search does not count nested branches from zero'); continue
            y, q = cnt
            def upd(nxt, k): return fl.cmp('eq', nxt, mklin(*addlin(aslin(q), (k, ()))))
            for o, b in y.ops:
                if b not in backs: continue
                nxt = f.expr(o)
                law = B.ite(sB, B.ite(eB, upd(nxt, 0), upd(nxt, 1)), B.ite(eB, upd(nxt, -1), upd(nxt, 0)))
                if not implies(fl, fl.edgecond(b, h), law): c.bad('get:nesting', f.where(y), 'a start does not open or an end does not close exactly one branch in the search')
                # found exactly when balanced
                if not implies(fl, fl.edgecond(b, h), B.NOT(fl.cmp('eq', nxt, ('c', 0)))): c.bad('get:skips', f.where(y), 'the search passes over the partner')
                if not implies(fl, cond, fl.cmp('eq', nxt, ('c', 0))): c.bad('get:early', f.where(e), 'the search stops at a record of a branch inside')
        if dirs != {True, False}: c.bad('get:oneway', f.where(), 'partners are searched in one direction only')
    # ---------------- parent: the end mark that follows the last sibling
    f = m.fn('rpa_recordtree_parent'); hs = headers(f)
    for v, e, edges in ret_cases(f):
        if v[0] == 'c' and v[1] < 0: continue
        c.ob('navigation steps')
        y = next((g for g in f.calls('rpa_recordtree_get') if f.x(g) == v), None)
        if y is None or strip(f.expr(y.ops[2])) != A(2) or f.expr(y.ops[0]) != A(0): c.bad('parent:result', f.where(e), 'the parent is reported as %s' % pp(v)); continue
        t = mklin(*sublin(aslin(f.expr(y.ops[1])), (1, ())))
        ok = False
        if t[0] == 'phi' and t[1] == f.name and f.inst[t[2]].b.id in hs:
            x = f.inst[t[2]]; h = x.b.id; backs = hs[h]
            ends = [f.expr(o) for o, b in x.ops if b in backs]
            for z in f.blocks[h].insts:
                if z.op != 'phi': break
                if {f.expr(o) for o, b in z.ops if f.reachable(b) and b not in backs} != {A(1)}: continue
                cur = ('phi', f.name, z.i)
                g = [k for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[1]) == cur and f.expr(k.ops[2]) == ('c', E)]
                n = [k for k in f.calls('rpa_recordtree_next') if any(f.expr(k.ops[1]) == f.x(gg) for gg in g)]
                if g and ends and all(any(q == f.x(k) for k in g) for q in ends) and all(any(f.expr(o) == f.x(k) for k in n) for o, b in z.ops if b in backs):
                    ok = all(any(Prover(f, f.edge_facts(a, b)).lt(cur, ('c', 0)) for b in [b]) for a in loop_blocks(f, h) for b in f.blocks[a].succ if b not in loop_blocks(f, h))
        if not ok: c.bad('parent:where', f.where(y), 'the parent is not taken from the end mark behind the last sibling')
    # ---------------- size, copy, move
    f = m.fn('rpa_recordtree_size')
    gS = [f.x(k) for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[2]) == ('c', S) and f.expr(k.ops[1]) == A(1)]
    gE = [f.x(k) for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[2]) == ('c', E) and f.expr(k.ops[1]) == A(1)]
    for v, e, edges in ret_cases(f):
        if v[0] == 'c' and v[1] < 0: continue
        c.ob('navigation steps')
        P = Prover(f, case_facts(f, (v, e, edges)))
        if not any(v == mklin(*addlin(sublin(aslin(b), aslin(a)), (1, ()))) and P.ge0(a) and P.ge0(b) for a in gS for b in gE):
            c.bad('size:value', f.where(e), 'the size of a branch is reported as %s' % pp(v))
    f = m.fn('rpa_recordtree_copy')
    adds = list(f.calls('r_array_add'))
    if not adds: c.bad('copy:none', f.where(), 'nothing is copied')
    for x in adds:
        c.ob('navigation steps')
        src = f.expr(x.ops[1]); idx = None
        if f.expr(x.ops[0]) != A(0): c.bad('copy:to', f.where(x), 'records are not appended to the destination')
        for k in f.calls('rpa_record_get', 'rpa_records_slot'):
            if f.x(k) == src and f.expr(k.ops[0]) == A(1): idx = f.expr(k.ops[1])
        if idx is None: c.bad('copy:from', f.where(x), 'the records copied are not taken from the source'); continue
        st = [f.x(k) for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[2]) == ('c', S) and f.expr(k.ops[1]) == A(2) and f.expr(k.ops[0]) == A(1)]
        sz = [f.x(k) for k in f.calls('rpa_recordtree_size') if f.expr(k.ops[0]) == A(1)]
        w = 'does not start at the start of the branch'
        for a in st:
            for n in sz:
                r = sweep(f, x, idx, a, mklin(*addlin(aslin(a), aslin(n))))
                if r is None: w = None
                elif w: w = r
        if w: c.bad('copy:range', f.where(x), 'the copy of a branch %s' % w)
    f = m.fn('rpa_recordtree_move')
    hs = headers(f)
    moves = [x for x in f.insts() if x.iscall and (x.callee or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove', 'r_memcpy', 'r_memmove'))]
    for x in moves:
        c.ob('navigation steps')
        db, do = byte_offset(f.expr(x.ops[0])); sb, so = byte_offset(f.expr(x.ops[1]))
        if db != sb: c.bad('move:array', f.where(x), 'records are moved between arrays'); continue
        esz = [t for t in subexprs(do) if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:4] == (ARR, 'elt_size')]
        if not esz: continue
        di, si = divide(do, esz[0]), divide(so, esz[0])
        if di is None or si is None: continue
        if mklin(*sublin(aslin(di), aslin(si))) != mklin(*sublin(aslin(A(1)), aslin(A(2)))): c.bad('move:distance', f.where(x), 'record %s is moved to %s' % (pp(si), pp(di))); continue
        hh = [h for h in hs if x.b.id in loop_blocks(f, h)]
        if not hh:
            continue
        P = Prover(f, all_facts(f, x.b.id))
        # direction: when source and destination overlap the copy must not overwrite what is still to be moved
        for h in hh:
            for y in f.blocks[h].insts:
                if y.op != 'phi': break
                p = ('phi', f.name, y.i)
                if dict(aslin(di)[1]).get(p) is None: continue
                ds = {delta(f, f.expr(o), p, loop_blocks(f, h)) for o, b in y.ops if b in hs[h]}
                up = dict(aslin(di)[1])[p] > 0
                inc = ds == {(1, 1)} and up or ds == {(-1, -1)} and not up
                dec = ds == {(-1, -1)} and up or ds == {(1, 1)} and not up
                if not (inc and P.le(A(1), A(2)) or dec and P.le(A(2), A(1))): c.bad('move:order', f.where(x), 'records still to be moved are overwritten when the ranges overlap')
    # walk: callback for the start, the children in order, callback for the end
    f = m.fn('rpa_recordtree_walk')
    cbs = [x for x in f.insts() if x.iscall and not x.callee and f.expr(x.d['callee']) == A(3)] if True else []
    gS = [f.x(k) for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[2]) == ('c', S) and f.expr(k.ops[1]) == A(1)]
    gE = [f.x(k) for k in f.calls('rpa_recordtree_get') if f.expr(k.ops[2]) == ('c', E)]
    kinds = set()
    for x in cbs:
        c.ob('walk callbacks')
        i = f.expr(x.ops[1]); P = Prover(f, all_facts(f, x.b.id))
        if not P.ge0(i): c.bad('walk:index', f.where(x), 'the callback can be given the index %s which may be negative' % pp(i))
        if f.expr(x.ops[0]) != A(0) or f.expr(x.ops[2]) != A(4): c.bad('walk:args', f.where(x), 'the callback is given other data than its own')
        kinds.add('S' if i in gS else 'E' if i in gE else '?')
    if kinds != {'S', 'E'}: c.bad('walk:ends', f.where(), 'the walk does not visit exactly the start and the end of each branch')
    rec = list(f.calls('rpa_recordtree_walk'))
    if not rec: c.bad('walk:children', f.where(), 'the walk does not descend')
    for x in rec:
        c.ob('walk callbacks')
        ch = f.expr(x.ops[1]); P = Prover(f, all_facts(f, x.b.id))
        if not P.ge0(ch): c.bad('walk:child', f.where(x), 'the walk descends into the record %s which may be negative' % pp(ch))
        if not (P.lt(A(2), f.expr(x.ops[2]))): c.bad('walk:level', f.where(x), 'the depth of the walk is not counted')
        if [f.expr(x.ops[k]) for k in (0, 3, 4)] != [A(0), A(3), A(4)]: c.bad('walk:args', f.where(x), 'the walk descends with other arguments than its own')
        ok = False
        if ch[0] == 'phi' and ch[1] == f.name:
            y = f.inst[ch[2]]; hs = headers(f)
            if y.b.id in hs:
                ini = [f.expr(o) for o, b in y.ops if f.reachable(b) and b not in hs[y.b.id]]; nx = [f.expr(o) for o, b in y.ops if b in hs[y.b.id]]
                fc = [f.x(k) for k in f.calls('rpa_recordtree_firstchild') if f.expr(k.ops[1]) in gS + [A(1)]]
                ne = [f.x(k) for k in f.calls('rpa_recordtree_next') if f.expr(k.ops[1]) == ch]
                ok = all(i in fc for i in ini) and all(n in ne for n in nx)
        if not ok: c.bad('walk:order', f.where(x), 'the walk does not visit the children from the first to the last')
        # a failing child ends the walk
        w = [e for v, e, ed in ret_cases(f) if v[0] == 'c' and v[1] >= 0 and any(q == ('slt', f.x(x), ('c', 0)) for q in case_facts(f, (v, e, ed)))]
        if w: c.bad('walk:stop', f.where(w[0]), 'a walk that a callback stopped reports success')
    lim = [q for b in f.blocks if f.reachable(b.id) for q in f.edge_facts(b.id, b.succ[0]) if b.succ] if False else None
    for x in rec:
        fs = all_facts(f, x.b.id)
        if not any(Prover(f, fs).le(A(2), ('c', k)) for k in (1 << 7, 1 << 10, 1 << 12)): c.bad('walk:limit', f.where(x), 'the depth of the walk is not limited')
    c.atleast('element accesses', 8); c.atleast('navigation steps', 8); c.atleast('partner search', 3); c.atleast('walk callbacks', 2)

def length_terms(f, m):
    return list({f.x(x) for x in f.insts('load') if f.cls(x) == (ARR, 'len')})

def found_edge(f, fl, p, h, a, b):
    """the exit a->b of the search loop is taken only with every branch closed"""
    hs = headers(f)
    for y in f.blocks[h].insts:
        if y.op != 'phi': break
        if ('phi', f.name, y.i) == p: continue
        if {f.expr(o) for o, q in y.ops if f.reachable(q) and q not in hs[h]} != {('c', 0)}: continue
        nx = {f.expr(o) for o, q in y.ops if q in hs[h]}
        if len(nx) == 1 and implies(fl, fl.edgecond(a, b), fl.cmp('eq', next(iter(nx)), ('c', 0))): return True
    return False

def loses(f, a, b):
    """a feasible way from the edge a->b to a negative result"""
    st = [(a, b, tuple(all_facts(f, a)) + tuple(f.edge_facts(a, b)), ())]; n = 0
    while st:
        q, t, fs, path = st.pop(); n += 1
        if n > 300: return None
        path = path + ((q, t),)
        for x in f.blocks[t].insts:
            if x.op == 'ret':
                v = x.ops[0]; cur = f.inst.get(v[1]) if v[0] == 'v' else None
                for (u, w) in reversed(path):
                    if cur is not None and cur.op == 'phi' and cur.b.id == w:
                        v = next(o for o, z in cur.ops if z == u); cur = f.inst.get(v[1]) if v[0] == 'v' else None
                e = f.expr(v)
                if e[0] == 'c' and e[1] < 0 and not inconsistent(f, list(fs)): return x
        for z in f.blocks[t].succ:
            if all(z != w for u, w in path): st.append((t, z, fs + tuple(f.edge_facts(t, z)), path))
    return None

def casecond(fl, case):
    v, e, edges = case; B = fl.b
    if not edges: return fl.rc[e.b.id]
    r = fl.edgecond(*edges[-1])
    for k in range(len(edges) - 1): r = B.AND(r, fl.edgelocal(*edges[k]))
    return r

def orcmp(fl, p, a, ls):
    r = False
    for l in ls: r = fl.b.OR(r, fl.cmp(p, a, l))
    return r

def implies(fl, a, b):
    x = fl.b.AND(a, fl.b.NOT(b))
    return x is False or refuted(fl, x)

def refuted(fl, f):
    """no assignment satisfying f is consistent (linear arithmetic over its comparison atoms)"""
    if f is False: return True
    if f is True: return False
    out = []
    def paths(g, facts, depth):
        if g is False: return True
        if len(out) > 4000: return False
        if g is True:
            out.append(1)
            return inconsistent(fl.fn, facts, getattr(fl, 'extra', []))
        n = fl.b.names[g[0]]
        return paths(g[1], facts + atomfacts(n, False), depth + 1) and paths(g[2], facts + atomfacts(n, True), depth + 1)
    return paths(f, [], 0)

def atomfacts(n, t):
    if n[0] == 'eq0': return [('eq' if t else 'ne', n[1], ('c', 0))]
    if n[0] == 'neg': return [('slt' if t else 'sge', n[1], ('c', 0))]
    if n[0] in ('slt', 'ult'): return [({'slt': ('slt', 'sge'), 'ult': ('ult', 'uge')}[n[0]][0 if t else 1], n[1], n[2])]
    return []

def inconsistent(fn, facts, extra=()):
    for q in facts:
        rest = [z for z in facts if z is not q] + list(extra)
        P = Prover(fn, rest)
        if q[0] == 'slt' and P.le(q[2], q[1]): return True
        if q[0] == 'sge' and P.lt(q[1], q[2]): return True
        if q[0] == 'ne' and P.le(q[1], q[2]) and P.le(q[2], q[1]): return True
        if q[0] == 'eq' and (P.lt(q[1], q[2]) or P.lt(q[2], q[1])): return True
    return False

CHECKS = {'P07': check_recordtree}
