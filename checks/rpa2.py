"""Match instructions of the pattern engine, result cache, records."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, Prover, subexprs, mentions
from flow import Flow
from common import *
from rpa import STAT, IN, IP, CPU, A, fld, consts, PFlow, witness, strip
from vm import Spec, INS, REG

def swi_table(m, K):
    """mnemonic -> (index, handler) from the table the engine registers with its machine"""
    f = m.fn('rpavm_cpu_create'); out = []
    for x in f.calls('rvm_cpu_addswitable'):
        g = f.expr(x.ops[2])
        if g[0] != 'g': continue
        init = m.globals.get(g[1], {}).get('init')
        if not init or init[0] != 'a': continue
        for i, e in enumerate(init[1]):
            if e[0] != 'st': break
            nm, h = e[1][0], e[1][1]
            if nm[0] != 'g': break
            s = str_const(m, ('g', nm[1]))
            out.append((i, s, m.fns.get(h[1]) if h[0] == 'g' else None, h[1] if h[0] == 'g' else None, x))
    if not out: raise AnalysisBroken('instruction table of the pattern engine not found')
    return f, out

class Ghost:
    """number of executions of the given instructions so far, expressed through the program's own counters"""
    def __init__(s, fn, insts):
        s.fn = fn; s.n = {}
        for x in insts: s.n[x.b.id] = s.n.get(x.b.id, 0) + 1
        s.at = {0: ('c', 0)}
        hs = headers(fn)
        for b in fn.rpo():
            if b == 0: continue
            ps = [p for p in fn.blocks[b].pred if fn.reachable(p)]
            if b in hs:
                back = hs[b]; init = {s.end(p) for p in ps if p not in back}
                phis = [x for x in fn.blocks[b].insts if x.op == 'phi']
                pick = None
                if len(init) == 1:
                    i0 = next(iter(init))
                    for x in phis:
                        if all(fn.expr(o) == i0 for o, q in x.ops if fn.reachable(q) and q not in back): 
                            p = ('phi', fn.name, x.i)
                            if s.trial(b, p, x, back): pick = p; break
                s.at[b] = pick or ('ghost', b)
            else:
                vs = {s.end(p) for p in ps}
                if len(vs) == 1: s.at[b] = next(iter(vs))
                else: s.at[b] = s.pick(b, ps) or ('gphi', b, tuple((p, s.end(p)) for p in ps))
    def pick(s, b, ps):
        for x in s.fn.blocks[b].insts:
            if x.op != 'phi': break
            if all(s.fn.expr(o) == s.end(q) for o, q in x.ops if s.fn.reachable(q)): return ('phi', s.fn.name, x.i)
    def end(s, p):
        g = s.at[p]; k = s.n.get(p, 0)
        return g if not k else s.plus(g, k)
    def plus(s, g, k):
        if g[0] == 'gphi': return ('gphi', g[1], tuple((p, s.plus(e, k)) for p, e in g[2]))
        return mklin(aslin(g)[0] + k, aslin(g)[1])
    def trial(s, h, p, x, back):
        save = dict(s.at); s.at[h] = p
        loop = loop_blocks(s.fn, h); ok = True
        for b in s.fn.rpo():
            if b == h or b not in loop: continue
            ps = [q for q in s.fn.blocks[b].pred if s.fn.reachable(q)]
            if any(q not in s.at for q in ps): ok = False; break
            vs = {s.end(q) for q in ps}
            s.at[b] = next(iter(vs)) if len(vs) == 1 else s.pick(b, ps) or ('gphi', b, tuple((q, s.end(q)) for q in ps))
        if ok: ok = all(s.fn.expr(o) == s.end(q) for o, q in x.ops if q in back)
        s.at = save
        return ok
    def before(s, x):
        g = s.at[x.b.id]; k = sum(1 for y in x.b.insts[:x.k] if y in s.insts) if hasattr(s, 'insts') else 0
        return s.plus(g, k) if k else g

def truth_of(fl, g, w):
    """truth of w over a ghost value, merged ones resolved by the way the merge was entered"""
    if g[0] == 'gphi':
        r = False
        for p, e in g[2]: r = fl.b.OR(r, fl.b.AND(fl.edgecond(p, g[1]), truth_of(fl, e, w)))
        return r
    return w(g)

# ---------------------------------------------------------------- P03
KINDS = {'CHR': 'rpa_stat_matchchr', 'RNG': 'rpa_stat_matchrng', 'SPCHR': 'rpa_stat_matchspchr'}
def check_matchins(c):
    m = c.mod('core', pipe='plain'); K = consts(); sp = Spec(m); V = sp.c
    c.rule('each match instruction tests the current position with its own predicate and operand, consumes one character exactly per success, repeats exactly for the repeating variants and reports the number of characters (or failure) and the flags of its variant')
    f0, tab = swi_table(m, K); c.seen(f0)
    isbits = 16
    reg = lambda n: ('idx', A(0), ('c', n), sp.rsz) if n else A(0)
    STATUS = fld(m, A(0), CPU, 'status'); ABORT = fld(m, A(0), CPU, 'abort')
    sc, ac = (CPU, 'status'), (CPU, 'abort')
    u1 = fld(m, A(0), CPU, 'userdata1')
    N, Z = V['RVM_STATUS_N'], V['RVM_STATUS_Z']
    TOP = K['R_TOP']; opw = K['RVM_OPCODE_BITS'] if 'RVM_OPCODE_BITS' in K else 8
    names = set()
    for i, nm, h, hn, x in tab:
        c.ob('instruction table entries'); names.add(nm)
        if nm not in K: c.bad('table:name:%d' % i, f0.where(x), 'table entry %d names the unknown instruction %s' % (i, nm)); continue
        want = (K['RPAVM_SWI_TABLEID'] << V['RVM_SWI_NUM_BITS']) | i
        if K[nm] >> V['RVM_OPCODE_BITS'] != want: c.bad('table:index:%s' % nm, f0.where(x), 'instruction %s is entry %d of the table but its code says %d' % (nm, i, K[nm] >> V['RVM_OPCODE_BITS'])); 
        if h is None: c.bad('table:handler:%s' % nm, f0.where(x), 'instruction %s has no handler' % nm)
    for n in K:
        if n.startswith(('RPA_MATCHCHR', 'RPA_MATCHRNG', 'RPA_MATCHSPCHR')) and n not in names:
            c.bad('table:missing:%s' % n, f0.where(), 'instruction %s has no entry in the table' % n)
    def cls_reg(f): return [k for k in {f.cls(y) for y in f.insts('store')}]
    for i, nm, f, hn, x0 in tab:
        if f is None or nm is None: continue
        parts = nm.split('_'); kind = parts[1][5:] if parts[1].startswith('MATCH') else None
        if kind in KINDS and len(parts) == 3 and parts[2] in ('NAN', 'OPT', 'MUL', 'MOP', 'PEEK'): pred, var = KINDS[kind], parts[2]
        elif nm in ('RPA_MATCHBITMAP', 'RPA_EXITONBITMAP'): pred, var = 'rpa_stat_matchbitmap', nm[4:]
        elif nm == 'RPA_SHIFT': pred, var = None, 'SHIFT'
        else: continue
        c.seen(f); c.ob('match instructions')
        fl = PFlow(f); B = fl.b
        top_loads = [y for y in f.insts('load') if sp.reg(f.expr(y.ops[0])) == ('r', TOP)]
        tests = list(f.calls(*(set(KINDS.values()) | {'rpa_stat_matchbitmap'})))
        shifts = list(f.calls('rpa_stat_shift'))
        def cur_top(y):
            a = strip(f.expr(y.ops[1]))
            if a[0] != 'ld' or sp.reg(a[1]) != ('r', TOP): return None
            return a
        def stat_ok(y):
            a = f.expr(y.ops[0]); return a[0] == 'ld' and a[1] == u1
        key = nm
        for y in tests:
            if y.callee != pred: c.bad('%s:predicate' % key, f.where(y), '%s tests with %s' % (nm, y.callee)); continue
            if not stat_ok(y): c.bad('%s:state' % key, f.where(y), '%s tests another match state than the one of its machine' % nm)
            if cur_top(y) is None: c.bad('%s:position' % key, f.where(y), '%s does not test the current position' % nm)
            args = [strip(f.expr(o)) for o in y.ops[2:]]
            def isop(e, off):
                if e[0] != 'ld': return False
                a, o = e[1], 0
                base, d = byte_offset_reg(sp, a)
                return base == ('R', 1) and d == off
            offs = [0, 4][:len(args)] if pred == 'rpa_stat_matchrng' else [0] * len(args)
            for a, o in zip(args, offs):
                if not isop(a, o): c.bad('%s:operand' % key, f.where(y), '%s compares with %s instead of its operand' % (nm, pp(a)))
        if pred and not tests: c.bad('%s:predicate' % key, f.where(), '%s tests nothing' % nm); continue
        if pred and every_path(f, tests): c.bad('%s:untested' % key, f.where(), '%s can return without testing the input' % nm); continue
        tx = {y.i: f.x(y) for y in tests}
        def ok_facts(fs):
            P = Prover(f, list(fs))
            for e in tx.values():
                if P.lt(('c', 0), e): return True
                if any(q == ('ne', e, ('c', 0)) for q in fs): return True
            return False
        def fail_edge(fs, e):
            P = Prover(f, list(fs))
            return P.le(e, ('c', 0)) or ('eq', e, ('c', 0)) in fs
        topst = [y for y in f.insts('store') if sp.reg(f.expr(y.ops[1])) == ('r', TOP)]
        # consumption
        for y in topst:
            v = strip(f.expr(y.ops[0]))
            src = [z for z in shifts if f.x(z) == v]
            if not src: c.bad('%s:top' % key, f.where(y), '%s moves the position to %s' % (nm, pp(v))); continue
            if not Prover(f, all_facts(f, y.b.id)).ge0(v): c.bad('%s:topfail' % key, f.where(y), '%s moves the position although the step failed' % nm)
        for z in shifts:
            if not stat_ok(z) or cur_top(z) is None: c.bad('%s:step' % key, f.where(z), '%s steps from another position than the current one' % nm)
            w = walk_until(f, z, topst, lambda fs: Prover(f, list(fs)).lt(f.x(z), ('c', 0)), shifts + tests)
            if w is not None: c.bad('%s:steplost' % key, f.where(w), '%s steps over a character without moving the position' % nm)
        if var == 'SHIFT':
            if every_path(f, shifts): c.bad('%s:step' % key, f.where(), '%s can return without a step' % nm)
            continue
        if var in ('PEEK', 'MATCHBITMAP', 'EXITONBITMAP'):
            if shifts or topst: c.bad('%s:consumes' % key, f.where(), '%s consumes input' % nm)
        else:
            if not shifts: c.bad('%s:nostep' % key, f.where(), '%s never consumes the character' % nm); continue
            for z in shifts:
                fs = all_facts(f, z.b.id)
                dom = [y for y in tests if f.idominst(y, z)]
                good = [y for y in dom if (Prover(f, fs).lt(('c', 0), f.x(y)) or ('ne', f.x(y), ('c', 0)) in fs) and cur_top(y) == cur_top(z)]
                if not good: 
                    # guarded rotated form: every way here has just passed a successful test of this position
                    if not arrived_by_success(f, z, tests, shifts, fail_edge): c.bad('%s:blindstep' % key, f.where(z), '%s consumes a character it has not matched' % nm)
            for y in tests:
                w = walk_until(f, y, shifts, lambda fs, e=f.x(y): fail_edge(fs, e), tests)
                if w is not None: c.bad('%s:keeps' % key, f.where(w), '%s matches a character without consuming it' % nm)
            rep = var in ('MUL', 'MOP')
            for z in shifts:
                if rep:
                    w = every_path(f, tests, start=z)
                    if w is not None: c.bad('%s:repeat' % key, f.where(w), '%s stops although the next character was not tested' % nm)
                else:
                    r = f.reach_after(z) if hasattr(f, 'reach_after') else reach_from(f, z)
                    if any(r(y) for y in tests + shifts): c.bad('%s:once' % key, f.where(z), '%s can consume more than one character' % nm)
        # result
        R0 = reg(0); r0c = REGCLS(f, sp)
        if var in ('NAN', 'OPT', 'MUL', 'MOP'):
            g = Ghost(f, shifts); failr = -1 if var in ('NAN', 'MUL') else 0
            fails = N if var in ('NAN', 'MUL') else Z
            got = True
            for e in f.exits():
                n = g.end(e.b.id)
                def w0(v):
                    if v is None: return False
                    return truth_of(fl, n, lambda q: B.ite(nz(fl, q), fl.cmp('eq', strip(v), q), fl.cmp('eq', v, ('c', failr))))
                def ws(v):
                    if v is None: return False
                    return truth_of(fl, n, lambda q: B.ite(nz(fl, q), fl.cmp('eq', v, ('c', 0)), fl.cmp('eq', v, ('c', fails))))
                t = fl.memtruth(R0, r0c, e, w0)
                if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:result' % key, f.where(e), '%s does not report %s' % (nm, 'the number of characters it consumed, or %d for none' % failr))
                t = fl.memtruth(STATUS, sc, e, ws)
                if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:flags' % key, f.where(e), '%s does not set its flags to 0 after a match and to %d otherwise' % (nm, fails))
                if [y for y in f.insts('store') if f.cls(y) == ac]: c.bad('%s:abort' % key, f.where(e), '%s stops the machine' % nm)
        else:
            e0 = f.x(tests[0])
            for e in f.exits():
                M = fl.cmp('sgt', e0, ('c', 0)) if var == 'PEEK' else B.NOT(fl.cmp('eq', e0, ('c', 0)))
                t = fl.memtruth(R0, r0c, e, lambda v: M if v is None else B.AND(B.NOT(M), fl.cmp('eq', v, ('c', -1))))
                if len(tests) == 1 and B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:result' % key, f.where(e), '%s does not report -1 exactly when the test fails' % nm)
                if var == 'PEEK': w = lambda v: M if v is None else B.AND(B.NOT(M), fl.cmp('eq', v, ('c', N)))
                else: w = lambda v: False if v is None else B.ite(M, fl.cmp('eq', v, ('c', 0)), fl.cmp('eq', v, ('c', N)))
                t = fl.memtruth(STATUS, sc, e, w)
                if len(tests) == 1 and B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:flags' % key, f.where(e), '%s does not set the negative flag exactly when the test fails' % nm)
                t = fl.memtruth(ABORT, ac, e, lambda v: True if v is None and var != 'EXITONBITMAP' else M if v is None else B.AND(B.NOT(M), B.NOT(fl.cmp('eq', v, ('c', 0)))) if var == 'EXITONBITMAP' else False)
                if len(tests) == 1 and B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:abort' % key, f.where(e), '%s stops the machine in the wrong case' % nm)
    c.atleast('instruction table entries', 20); c.atleast('match instructions', 14)

def nz(fl, q):
    """a character count is non-zero"""
    if q[0] == 'lin' and q[1] > 0 and all(k > 0 for _, k in q[2]): return True
    return fl.b.NOT(fl.cmp('eq', q, ('c', 0)))

def REGCLS(f, sp):
    for y in f.insts('store'):
        if sp.reg(f.expr(y.ops[1])) == ('r', 0) or f.expr(y.ops[1]) == A(0): return f.cls(y)
    for y in f.insts('store'):
        if sp.reg(f.expr(y.ops[1])): return f.cls(y)
    return (REG, 'w')

def byte_offset_reg(sp, a):
    """(operand register, byte offset in its value)"""
    off = 0
    while True:
        r = sp.reg(a)
        if r: return r, off
        if a[0] == 'fld': off += a[4]; a = a[1]
        elif a[0] == 'idx' and a[2][0] == 'c': off += a[2][1] * a[3]; a = a[1]
        else: return None, 0

def walk_until(f, start, goals, blocked, stops):
    """first stop instruction or return reached from start without passing a goal, along edges that are not blocked"""
    def scan(b, k):
        for y in f.blocks[b].insts[k:]:
            if y in goals: return 'goal'
            if y in stops or y.op == 'ret': return y
        return None
    r = scan(start.b.id, start.k + 1)
    if r == 'goal': return None
    if r is not None: return r
    seen = set(); st = [(None, start.b.id)]
    while st:
        p, b = st.pop()
        for t in f.blocks[b].succ:
            fs = via_facts(f, p, b, t)
            if ('false',) in fs or blocked(fs) or (b, t) in seen: continue
            seen.add((b, t))
            r = scan(t, 0)
            if r == 'goal': continue
            if r is not None: return r
            st.append((b, t))
    return None

def reach_from(f, x):
    r = set(); st = list(f.blocks[x.b.id].succ)
    while st:
        b = st.pop()
        if b in r: continue
        r.add(b); st += f.blocks[b].succ
    return lambda y: y.b.id in r or y.b.id == x.b.id and y.k > x.k

def arrived_by_success(f, z, tests, shifts, fail_edge):
    """walking back from the step, every path meets a test edge known to be a success before another step"""
    seen = set(); st = [(z.b.id, z.k)]
    while st:
        b, k = st.pop()
        for y in reversed(f.blocks[b].insts[:k]):
            if y in shifts: return False
            if y in tests: return False
        if b == 0: return False
        for p in f.blocks[b].pred:
            if not f.reachable(p): continue
            fs = f.edge_facts(p, b)
            if any(Prover(f, fs).lt(('c', 0), f.x(y)) or ('ne', f.x(y), ('c', 0)) in fs for y in tests): continue
            if (p, b) in seen: continue
            seen.add((p, b)); st.append((p, len(f.blocks[p].insts)))
    return True


# ---------------------------------------------------------------- P04 result cache
ENT, CACHE = 'rpacachedentry_s', 'rpacache_s'
def handler(m, K, name):
    for i, nm, h, hn, x in swi_table(m, K)[1]:
        if nm == name:
            if h is None: raise AnalysisBroken('no handler for ' + name)
            return h
    raise AnalysisBroken('no table entry for ' + name)

def opval(sp, e):
    """which operand register an expression is the value of, ('R',k) / ('r',n), or None"""
    e = strip(e)
    return sp.reg(e[1]) if e[0] == 'ld' else None

def check_cache(c):
    m = c.mod('core', pipe='plain'); K = consts(); sp = Spec(m); V = sp.c
    c.rule('results are stored and looked up in the same bucket of the table; a stored result is complete; a result is used only for the same rule at the same position of the same execution; restoring it reproduces the result, the position and the records')
    esz = m.structs[ENT]['size']
    st, lk = m.fn('rpa_cache_set'), m.fn('rpa_cache_lookup')
    ebase = fld(m, A(0), CACHE, 'entry') if m.field(CACHE, 'entry') else A(0)
    n = m.structs[CACHE]['fields'][0] if False else K['RPA_MCACHE_SIZE']
    def entry_of(f, e):
        """bucket index of an address inside the table"""
        while e[0] == 'fld': e = e[1]
        if e[0] == 'idx' and e[3] == esz:
            b = e[1]
            if b == A(0) or b[0] == 'fld' and b[1] == A(0) and b[2:4] == (CACHE, 'entry'): return e
        return None
    addrs = {}
    for f in (st, lk):
        c.seen(f)
        for x in list(f.insts('store')) + list(f.insts('load')):
            cl = f.cls(x)
            if cl[0] != ENT: continue
            c.ob('table accesses')
            e = entry_of(f, f.expr(x.ops[1] if x.op == 'store' else x.ops[0]))
            if e is None: c.bad('%s:address' % f.name, f.where(x), 'an entry is addressed outside the bucket table'); continue
            addrs.setdefault(e, (f, x))
            P = Prover(f, f.facts(x.b.id))
            if not P.lt(e[2], ('c', n)) or not P.ge0(e[2]): c.bad('%s:bounds' % f.name, f.where(x), 'the bucket may lie outside the table')
    if len(addrs) > 1: c.bad('bucket', lk.where(), 'results are stored and looked up in different buckets: %s' % ' / '.join(pp(a) for a in addrs))
    # store: complete
    f = st
    E = next((a for a, (g, x) in addrs.items() if g is st), None) or next(iter(addrs), None)
    c.need(E, 'no cache entry is written')
    want = {'ruleid': A(2), 'top': A(1), 'ret': A(3), 'recsize': A(6), 'serial': ('ld', fld(m, A(0), CACHE, 'serial'), ('entry',))}
    ws = [x for x in f.insts('store') if f.cls(x)[0] == ENT]
    recs = lambda e: unver(e) == unver(('ld', fld(m, E, ENT, 'records'), None))
    clr = [x for x in f.calls('r_array_setlength') if recs(f.expr(x.ops[0])) and f.expr(x.ops[1]) == ('c', 0)]
    for name, v in want.items():
        c.ob('stored fields')
        good = [x for x in ws if f.cls(x)[1] == name and f.expr(x.ops[0]) == v]
        for x in ws:
            if x in good: continue
            if f.cls(x)[1] == name: c.bad('set:%s' % name, f.where(x), 'the %s of a stored result is %s' % (name, pp(f.expr(x.ops[0]))))
            elif not any(f.idominst(y, x) for y in good) and every_path(f, good, start=x) is not None: c.bad('set:%s' % name, f.where(x), 'a result is stored without its %s' % name)
    adds = [x for x in f.calls('r_array_add') if recs(f.expr(x.ops[0]))]
    for x in ws:
        c.ob('stored fields')
        if not any(f.idominst(y, x) for y in clr) and every_path(f, clr, start=x) is not None: c.bad('set:stale', f.where(x), 'a result is stored without dropping the records of the previous one')
        break
    for x in adds:
        c.ob('stored fields')
        if not any(f.idominst(y, x) for y in clr): c.bad('set:stale', f.where(x), 'records are appended to those of a previous result')
        why = slot_sweep(f, x, f.expr(x.ops[1]), A(4), A(5), m.arith('add', A(5), A(6)))
        if why: c.bad('set:records', f.where(x), 'storing the records of a result %s' % why)
    # nothing skipped: a store without copying is possible only without records (or none to copy)
    for x in ws[:1]:
        for e in f.exits():
            w = skip_copy(f, x, adds, e)
            if w is not None: c.bad('set:nocopy', f.where(w), 'a result with records can be stored without copying them')
    if not adds: c.bad('set:nocopy', f.where(), 'the records of a result are never stored')
    # lookup: exact
    f = lk; fl = PFlow(f); B = fl.b
    ld = lambda st_, nm, base: ('ld', fld(m, base, st_, nm), ('entry',)) if m.field(st_, nm) or True else None
    conj = B.AND(fl.cmp('eq', ('ld', fld(m, E, ENT, 'serial'), ('entry',)), ('ld', fld(m, A(0), CACHE, 'serial'), ('entry',))),
                 fl.cmp('eq', first_ld(m, E, ENT, 'ruleid'), A(2)), fl.cmp('eq', ('ld', fld(m, E, ENT, 'top'), ('entry',)), A(1)),
                 fl.cmp('eq', ('ld', fld(m, A(0), CACHE, 'disalbled'), ('entry',)), ('c', 0)))
    T = B.NOT(fl.cmp('eq', E, ('c', 0)))
    for e in f.exits():
        c.ob('lookup results')
        hit = B.AND(T, fl.rc[e.b.id], B.NOT(fl.cmp('eq', f.expr(e.ops[0]), ('c', 0))))
        if B.AND(hit, B.NOT(conj)) is not False: c.bad('lookup:key', f.where(e), 'a stored result can be used for another rule, position or execution (%s)' % witness(fl, B.AND(hit, B.NOT(conj))))
        if B.AND(hit, B.NOT(fl.cmp('eq', f.expr(e.ops[0]), E))) is not False: c.bad('lookup:entry', f.where(e), 'the entry returned is not the one compared')
    # serial
    f = m.fn('rpa_cache_invalidate'); c.seen(f)
    ser = ('ld', fld(m, A(0), CACHE, 'serial'), ('entry',))
    good = [x for x in f.insts('store') if f.cls(x) == (CACHE, 'serial') and f.expr(x.ops[0]) == mklin(1, ((ser, 1),))]
    c.ob('lookup results')
    if every_path(f, good) is not None: c.bad('invalidate', f.where(), 'invalidation does not change the serial number of the results')
    for g in m.live():
        for x in g.insts('store'):
            cl = g.cls(x)
            if cl == (CACHE, 'serial') or cl[0] == ENT:
                c.ob('writers of the cache')
                if cl == (CACHE, 'serial') and g.name != 'rpa_cache_invalidate' and not fresh(g, g.expr(x.ops[1])): c.bad('writer:%s' % g.name, g.where(x), '%s changes the serial number of the results' % g.name)
                if cl[0] == ENT and g.name != 'rpa_cache_set' and not fresh(g, g.expr(x.ops[1])): c.bad('writer:%s' % g.name, g.where(x), '%s modifies a stored result' % g.name)
    f = m.fn('rpa_stat_exec'); c.seen(f)
    runs = list(f.calls('rvm_cpu_exec', 'rvm_cpu_exec_debug'))
    inv = [x for x in f.calls('rpa_stat_cacheinvalidate', 'rpa_cache_invalidate')]
    g = m.fns.get('rpa_stat_cacheinvalidate')
    if g is not None:
        c.seen(g); c.ob('executions')
        q = [x for x in g.calls('rpa_cache_invalidate') if g.expr(x.ops[0]) == ('ld', fld(m, A(0), STAT, 'cache'), ('entry',))]
        w = every_path(g, q, excluded=null_blocks(g, m))
        if w is not None: c.bad('exec:noop', g.where(w), 'rpa_stat_cacheinvalidate can return without invalidating')
    for x in runs:
        c.ob('executions')
        if not any(f.idominst(y, x) and f.expr(y.ops[0]) in (A(0), ('ld', fld(m, A(0), STAT, 'cache'), ('entry',))) for y in inv): c.bad('exec:stale', f.where(x), 'a program is executed with the results of a previous execution still valid')
    # instructions
    cachep = lambda e: unver(e) == unver(('ld', fld(m, ('ld', fld(m, A(0), CPU, 'userdata1'), None), STAT, 'cache'), None))
    recsp = unver(('ld', fld(m, ('ld', fld(m, A(0), CPU, 'userdata1'), None), STAT, 'records'), None))
    f = handler(m, K, 'RPA_SETCACHE'); c.seen(f); fl = PFlow(f); B = fl.b
    calls = list(f.calls('rpa_cache_set'))
    c.ob('cache instructions')
    if every_path(f, calls) is not None: c.bad('setcache:skip', f.where(), 'RPA_SETCACHE can return without storing the result')
    for x in calls:
        a = [f.expr(o) for o in x.ops]
        r0 = a[3]
        if not cachep(a[0]) or opval(sp, a[1]) != ('r', K['R_OTP']) or opval(sp, a[2]) != ('R', 1) or opval(sp, r0) != ('r', 0) or unver(a[4]) != recsp:
            c.bad('setcache:args', f.where(x), 'RPA_SETCACHE does not store R0 for its rule at the starting position'); continue
        o2 = o3 = None
        for y in f.insts('load'):
            k = sp.reg(f.expr(y.ops[0]))
            if k == ('R', 2): o2 = f.x(y)
            if k == ('R', 3): o3 = f.x(y)
        if o2 is None or o3 is None: c.bad('setcache:range', f.where(x), 'RPA_SETCACHE ignores the record range it is given'); continue
        cnt = m.arith('sub', o3, o2)
        pos = fl.cmp('sgt', r0, ('c', 0))
        ok = B.ite(pos, B.AND(fl.cmp('eq', a[6], cnt), B.OR(fl.cmp('eq', a[5], m.arith('add', o2, ('c', 1))), fl.cmp('eq', a[6], ('c', 0)))), fl.cmp('eq', a[6], ('c', 0)))
        if B.AND(fl.rc[x.b.id], B.NOT(ok)) is not False: c.bad('setcache:range', f.where(x), 'RPA_SETCACHE does not store exactly the records after the second up to the third operand')
    f = handler(m, K, 'RPA_CHECKCACHE'); c.seen(f); fl = PFlow(f); B = fl.b
    calls = list(f.calls('rpa_cache_lookup'))
    c.ob('cache instructions')
    if len(calls) != 1 or every_path(f, calls) is not None: c.bad('checkcache:lookup', f.where(), 'RPA_CHECKCACHE does not look the result up')
    else:
        x = calls[0]; a = [f.expr(o) for o in x.ops]; ent = f.x(x)
        if not cachep(a[0]) or opval(sp, a[1]) != ('R', 2) or opval(sp, a[2]) != ('R', 1): c.bad('checkcache:args', f.where(x), 'RPA_CHECKCACHE looks up another rule or position than its operands say')
        top = a[1]; hit = B.NOT(fl.cmp('eq', ent, ('c', 0)))
        ret = next((f.x(y) for y in f.insts('load') if f.cls(y) == (ENT, 'ret')), None)
        rsz = next((f.x(y) for y in f.insts('load') if f.cls(y) == (ENT, 'recsize')), None)
        if ret is None: c.bad('checkcache:result', f.where(), 'RPA_CHECKCACHE ignores the stored result')
        else:
            R0, rc = A(0), REGCLS(f, sp)
            reg = lambda k: ('idx', A(0), ('c', k), sp.rsz)
            pos = fl.cmp('sgt', ret, ('c', 0))
            for e in f.exits():
                t = fl.memtruth(R0, rc, e, lambda v: False if v is None else B.ite(hit, fl.cmp('eq', v, ret), fl.cmp('eq', v, ('c', 0))))
                c.ob('cache instructions')
                if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('checkcache:result', f.where(e), 'RPA_CHECKCACHE does not report the stored result, or 0 without one')
                t = fl.memtruth(reg(K['R_TOP']), rc, e, lambda v: B.NOT(B.AND(hit, pos)) if v is None else B.AND(hit, pos, fl.cmp('eq', v, m.arith('add', top, ret))))
                if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('checkcache:position', f.where(e), 'RPA_CHECKCACHE does not move the position by exactly the characters of a stored match')
            fl2 = PFlow(f, loc=fld(m, A(0), CPU, 'status'), cls=(CPU, 'status'))
            bits, tot = fl2.final_bits(); B2 = fl2.b
            hit2 = B2.NOT(fl2.cmp('eq', ent, ('c', 0)))
            spec = {V['RVM_STATUS_Z']: B2.OR(B2.NOT(hit2), fl2.cmp('eq', ret, ('c', 0))), V['RVM_STATUS_N']: B2.AND(hit2, fl2.cmp('slt', ret, ('c', 0)))}
            T = B2.NOT(B2.AND(fl2.cmp('slt', ret, ('c', 0)), fl2.cmp('eq', ret, ('c', 0))))
            for k in range(5):
                w = spec.get(1 << k, False)
                if B2.AND(T, B2.XOR(bits[k], B2.AND(tot, w))) is not False: c.bad('checkcache:flags', f.where(), 'RPA_CHECKCACHE sets status bit %d in the wrong case' % k)
            # records
            setl = [y for y in f.calls('r_array_setlength') if unver(f.expr(y.ops[0])) == recsp]
            adds = [y for y in f.calls('r_array_add') if unver(f.expr(y.ops[0])) == recsp]
            rr = [y for y in f.insts('store') if sp.reg(f.expr(y.ops[1])) == ('r', K['R_REC'])]
            rrec = unver(('ld', reg(K['R_REC']), None))
            erec = ('ld', fld(m, ent, ENT, 'records'), None)
            elen = ('ld', fld(m, erec, 'rarray_s', 'len') if m.field('rarray_s', 'len') else fld(m, erec, 'rarray_s', 'len'), None)
            good = [y for y in setl if unver(f.expr(y.ops[1])) == unver(mklin(1, ((rrec, 1),)))]
            for y in adds:
                c.ob('cache instructions')
                if not any(f.idominst(z, y) for z in good): c.bad('checkcache:truncate', f.where(y), 'stored records are appended without first dropping the records after R_REC')
                lens = [unver(f.expr(z.ops[0])) for z in f.insts('load') if f.cls(z) == ('rarray_s', 'len')]
                le = next((('ld', l, None) for l in lens if l[0] == 'fld' and unver(l[1]) == unver(erec) or unver(l) == unver(erec)), rsz or ('none',))
                why = slot_sweep(f, y, f.expr(y.ops[1]), erec, ('c', 0), le)
                if why and rsz is not None: why = slot_sweep(f, y, f.expr(y.ops[1]), erec, ('c', 0), rsz)
                if why: c.bad('checkcache:records', f.where(y), 'restoring the records of a result %s' % why)
            if not adds: c.bad('checkcache:records', f.where(), 'the records of a stored result are not restored')
            # with records to restore: every path restores and updates R_REC
            need = B.AND(hit, pos, B.NOT(fl.cmp('eq', rsz, ('c', 0)))) if rsz is not None else False
            for e in f.exits():
                if need is False: break
                def wr(v):
                    if v is None: return B.NOT(need)
                    l = aslin(v)
                    okv = l[0] == -1 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0][0] == 'ld' and any(unver(l[1][0][0][1]) == unver(q) for q in [f.expr(z.ops[0]) for z in f.insts('load') if f.cls(z) == ('rarray_s', 'len')] if unver(q[1] if q[0] == 'fld' else q) == recsp)
                    okv = okv or v == m.arith('add', ('ld', reg(K['R_REC']), ('entry',)), rsz)
                    return B.AND(need, okv)
                t = fl.memtruth(reg(K['R_REC']), rc, e, wr)
                c.ob('cache instructions')
                if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('checkcache:rec', f.where(e), 'RPA_CHECKCACHE does not set R_REC to the last record exactly when records were restored')
    c.atleast('table accesses', 4); c.atleast('lookup results', 1); c.atleast('cache instructions', 3)

def first_ld(m, base, st, name):
    return ('ld', fld(m, base, st, name) if m.field(st, name) else first_addr(m, base, st, name), ('entry',))
def first_addr(m, base, st, name): return base

def fresh(f, e):
    r = f.m.root(e)
    return r[0] == 'alloca' or r[0] == 'call' and r[1] in ALLOC

def null_blocks(f, m):
    """blocks reached only when an argument or one of its members is missing"""
    r = set()
    for b in f.blocks:
        if not f.reachable(b.id): continue
        for q in f.facts(b.id):
            if q[0] == 'eq' and q[2] == ('c', 0) and (q[1] == A(0) or q[1][0] == 'ld'): r.add(b.id)
    return r

def slot_sweep(f, x, addr, arr, lo, hi):
    """x handles the elements lo..hi-1 of array arr one after the other (addr: element address it gets)"""
    root, off = byte_offset(addr)
    if addr[0] == 'call' and addr[1] == 'r_array_slot':
        y = f.inst[addr[3]]
        if unver(f.expr(y.ops[0])) != unver(arr): return 'takes elements of another array'
        return sweep(f, x, f.expr(y.ops[1]), lo, hi)
    m = f.m
    esz = ('ld', fld(m, arr, 'rarray_s', 'elt_size'), None)
    if unver(root) != unver(('ld', fld(m, arr, 'rarray_s', 'data'), None)): return 'takes elements of another array'
    e = off
    es = [t for t in subexprs(off) if unver(t) == unver(esz)]
    if not es: return 'takes no elements'
    ix = divide(off, es[0])
    if ix is None: return 'does not address elements'
    return sweep(f, x, ix, lo, hi)

def skip_copy(f, x, adds, e):
    """a way through the store x to return e that neither enters a copying loop nor knows there is nothing to copy"""
    hs = {h for h in headers(f) if any(a.b.id in loop_blocks(f, h) for a in adds)}
    def leg(b0, goal):
        seen = set(); st = [(None, b0)]
        while st:
            p, b = st.pop()
            if b == goal: return True
            for t in f.blocks[b].succ:
                if t in hs or (b, t) in seen: continue
                fs = via_facts(f, p, b, t)
                if ('false',) in fs or any(q[0] == 'eq' and q[2] == ('c', 0) and q[1] == A(4) for q in fs) or Prover(f, list(fs)).le(A(6), ('c', 0)): continue
                seen.add((b, t)); st.append((b, t))
        return False
    return e if leg(0, x.b.id) and leg(x.b.id, e.b.id) else None

# ---------------------------------------------------------------- P05 records
REC, RDATA = 'rparecord_s', 'rpa_ruledata_s'
GROW = ('r_array_replace', 'r_array_insert', 'r_array_add', 'r_array_expand', 'r_array_setlength', 'r_array_move', 'r_array_delete')
def check_records(c):
    m = c.mod('core', pipe='plain'); K = consts(); sp = Spec(m); V = sp.c
    c.rule('start and end records are appended right after the last record exactly for rules that emit, and describe the matched text: every field equals its specification on every path; record addresses are computed after the last growth of the record array')
    stat = ('ld', fld(m, A(0), CPU, 'userdata1'), None)
    recs = ('ld', fld(m, stat, STAT, 'records'), None)
    inst = ('ld', fld(m, stat, STAT, 'instack'), None); isz = m.structs[IN]['size']
    start = ('ld', fld(m, stat, STAT, 'start'), None)
    reg = lambda k: ('ld', ('idx', A(0), ('c', k), sp.rsz), None)
    for name in ('RPA_EMITSTART', 'RPA_EMITEND'):
        f = handler(m, K, name); c.seen(f); fl = PFlow(f); B = fl.b
        end = name == 'RPA_EMITEND'
        ops = {}
        for y in f.insts('load'):
            k = sp.reg(f.expr(y.ops[0]))
            if k and k[0] == 'R' and k not in ops: ops[k] = f.x(y)
        rd, tp, ln = ops.get(('R', 1)), ops.get(('R', 2)), ops.get(('R', 3))
        if rd is None or tp is None or end and ln is None: c.bad('%s:operands' % name, f.where(), '%s ignores an operand' % name); continue
        rdl = lambda n: ('ld', fld(m, rd, RDATA, n), ('entry',))
        recs_e = next((f.x(y) for y in f.insts('load') if unver(f.x(y)) == unver(recs)), None)
        if recs_e is None: c.bad('%s:records' % name, f.where(), '%s ignores the record array' % name); continue
        E = B.AND(B.NOT(fl.cmp('eq', recs_e, ('c', 0))), fl.xbit(rdl('flags'), (K['RPA_RFLAG_EMITRECORD']).bit_length() - 1))
        apps = [x for x in f.calls(*GROW) if unver(f.expr(x.ops[0])) == unver(recs)]
        good = []
        for x in apps:
            c.ob('record appends')
            if x.callee in ('r_array_replace', 'r_array_insert') and unver(f.expr(x.ops[1])) == unver(mklin(1, ((reg(K['R_REC']), 1),))) and f.expr(x.ops[2]) == ('c', 0): good.append(x)
            else: c.bad('%s:append' % name, f.where(x), '%s does not append a cleared record right after the current one' % name)
            if B.AND(fl.rc[x.b.id], B.NOT(E)) is not False: c.bad('%s:unwanted' % name, f.where(x), '%s emits a record although none is wanted (%s)' % (name, witness(fl, B.AND(fl.rc[x.b.id], B.NOT(E)))))
        if len(good) != 1: c.bad('%s:append' % name, f.where(), '%s appends %d records' % (name, len(good))) if not c.viol else None
        if len(good) != 1: continue
        x = good[0]; ix = f.x(x)
        if B.AND(E, B.NOT(fl.rc[x.b.id])) is not False and not any(e is None for e in f.exits()): c.bad('%s:missing' % name, f.where(x), '%s drops a record of a rule that emits (%s)' % (name, witness(fl, B.AND(E, B.NOT(fl.rc[x.b.id])))))
        # R_REC
        rc = REGCLS(f, sp)
        for e in f.exits():
            c.ob('record fields')
            t = fl.memtruth(('idx', A(0), ('c', K['R_REC']), sp.rsz), rc, e, lambda v: B.NOT(E) if v is None else B.AND(E, B.OR(fl.cmp('eq', v, ix), fl.cmp('eq', v, mklin(1, ((('ld', ('idx', A(0), ('c', K['R_REC']), sp.rsz), ('entry',)), 1),))))))
            if B.AND(fl.rc[e.b.id], B.NOT(t)) is not False: c.bad('%s:R_REC' % name, f.where(e), '%s does not make the new record the current one' % name)
        # addresses
        def slot_index(a):
            """index expression of a record address, or None"""
            if a[0] == 'call' and a[1] == 'r_array_slot':
                y = f.inst[a[3]]
                return (f.expr(y.ops[1]), y) if unver(f.expr(y.ops[0])) == unver(recs) else None
            root, off = byte_offset(a)
            if unver(root) != unver(('ld', fld(m, recs, 'rarray_s', 'data'), None)): return None
            es = [t for t in subexprs(off) if t[0] == 'ld' and unver(t) == unver(('ld', fld(m, recs, 'rarray_s', 'elt_size'), None))]
            if off == ('c', 0): return (('c', 0), None)
            q = divide(off, es[0]) if es else None
            return None if q is None else (q, root)
        bases = {}
        for y in f.insts('store'):
            if f.cls(y)[0] != REC: continue
            a = f.expr(y.ops[1])
            if a[0] == 'fld' and a[2] == REC: a = a[1]
            r = slot_index(a)
            c.ob('record fields')
            if r is None: c.bad('%s:address' % name, f.where(y), '%s writes a record outside the record array' % name); continue
            # the storage was read after the growth
            d = r[1]
            stale = (d is None or (d[0] == 'ld' and d[2] == ('entry',))) if not hasattr(d, 'op') else not f.idominst(x, d)
            if stale: c.bad('%s:stale' % name, f.where(y), '%s writes through an address computed before the record array grew' % name); continue
            which = 'rec' if unver(r[0]) in (unver(ix), unver(mklin(1, ((reg(K['R_REC']), 1),)))) else 'start' if end and unver(r[0]) == unver(mklin(1, ((reg(1), 1),))) else None
            if which is None: c.bad('%s:index' % name, f.where(y), '%s writes the record number %s' % (name, pp(r[0]))); continue
            bases.setdefault(which, a)
        def slot(i): return ('ld', first_addr(m, ('idx', inst, i, isz), IN, 'input'), None)
        inp = unver(slot(tp))
        want = {'rule': lambda v: unver(v) == unver(('idx', rd, rdl('name'), 1)),
                'top': lambda v: unver(strip(v)) == unver(tp), 'ruleid': lambda v: unver(strip(v)) == unver(rdl('ruleid')), 'ruleuid': lambda v: unver(strip(v)) == unver(rdl('ruleuid')),
                'type': lambda v: v == ('c', K['RPA_RECORD_END'] if end else K['RPA_RECORD_START']), 'input': lambda v: unver(v) == inp,
                'inputoff': lambda v: unver(v) == unver(mklin(0, ((inp, 1), (unver(start), -1))))}
        if end:
            past = unver(slot(m.arith('add', tp, ln)))
            want['size'] = lambda v: unver(strip(v)) == unver(ln)
            want['inputsiz'] = lambda v: unver(v) == unver(mklin(0, ((past, 1), (inp, -1))))
        else:
            want['inputsiz'] = lambda v: v == ('c', 0)
        todo = [('rec', n_, w) for n_, w in want.items()]
        if end: todo += [('start', n_, want[n_]) for n_ in ('size', 'inputsiz')]
        LR = fl.xbit(rdl('flags'), K['RPA_RFLAG_LEFTRECURSION'].bit_length() - 1)
        for which, fn_, w in todo:
            c.ob('record fields')
            if which not in bases:
                c.bad('%s:%s' % (name, which), f.where(), '%s does not fill in the %s record' % (name, 'new' if which == 'rec' else 'matching start')); continue
            a = bases[which]; off = m.field(REC, fn_)
            ad = fld(m, a, REC, fn_) if off else a
            zero = w(('c', 0)) and which == 'rec'
            for e in f.exits():
                t = fl.memtruth(ad, (REC, fn_), e, lambda v: (zero if which == 'rec' else False) if v is None else bool(w(v)), may=True)
                t = hav(fl, t, zero)
                if B.AND(fl.rc[e.b.id], E, B.NOT(t)) is not False: c.bad('%s:%s:%s' % (name, which, fn_), f.where(e), '%s does not set the %s of the %s record as specified' % (name, fn_, 'new' if which == 'rec' else 'matching start'))
        if 'rec' in bases:
            ad = fld(m, bases['rec'], REC, 'usertype')
            for e in f.exits():
                t = fl.memtruth(ad, (REC, 'usertype'), e, lambda v: B.NOT(LR) if v is None else B.ite(LR, fl.cmp('eq', v, ('c', K['RPA_LOOP_PATH'])), fl.cmp('eq', v, ('c', 0))))
                t = hav(fl, t, B.NOT(LR))
                c.ob('record fields')
                if B.AND(fl.rc[e.b.id], E, B.NOT(t)) is not False: c.bad('%s:usertype' % name, f.where(e), '%s does not mark exactly the records of left-recursive rules' % name)
    # trimming
    for name in ('RPA_EMITTAIL', 'RPA_ABORT'):
        f = handler(m, K, name); c.seen(f); fl = PFlow(f); B = fl.b
        good = [x for x in f.calls('r_array_setlength') if unver(f.expr(x.ops[0])) == unver(recs) and unver(f.expr(x.ops[1])) == unver(mklin(1, ((reg(K['R_REC']), 1),)))]
        recs_e = next((f.x(y) for y in f.insts('load') if unver(f.x(y)) == unver(recs)), None)
        c.ob('trims')
        for x in f.calls(*GROW):
            if x not in good: c.bad('%s:records' % name, f.where(x), '%s changes the records in another way than dropping those after the current one' % name)
        if not good or recs_e is None: c.bad('%s:trim' % name, f.where(), '%s keeps the records of abandoned alternatives' % name); continue
        done = False
        for x in good: done = B.OR(done, fl.rc[x.b.id])
        if B.AND(B.NOT(fl.cmp('eq', recs_e, ('c', 0))), B.NOT(done)) is not False: c.bad('%s:trim' % name, f.where(), '%s keeps the records of abandoned alternatives in some cases' % name)
        if name == 'RPA_ABORT':
            ab = list(f.calls('rvm_cpu_abort')) + [y for y in f.insts('store') if f.cls(y) == (CPU, 'abort') and f.expr(y.ops[0]) != ('c', 0)]
            if every_path(f, ab) is not None: c.bad('RPA_ABORT:abort', f.where(), 'RPA_ABORT can return without stopping the machine')
            code = [y for y in f.insts('store') if f.cls(y) == ('rpa_errinfo_s', 'code') and f.expr(y.ops[0]) == ('c', K['RPA_E_RULEABORT'])]
            if every_path(f, code) is not None: c.bad('RPA_ABORT:code', f.where(), 'RPA_ABORT can stop a match without recording why')
            uid = [y for y in f.insts('store') if f.cls(y) == ('rpa_errinfo_s', 'ruleuid')]
            rd = next((f.x(y) for y in f.insts('load') if sp.reg(f.expr(y.ops[0])) == ('R', 1)), ('none',))
            if every_path(f, [y for y in uid if unver(strip(f.expr(y.ops[0]))) == unver(('ld', fld(m, rd, RDATA, 'ruleuid'), None))]) is not None: c.bad('RPA_ABORT:rule', f.where(), 'RPA_ABORT does not record the rule that failed')
            for y in f.insts('store'):
                if f.cls(y) == ('rpa_errinfo_s', 'offset'):
                    c.ob('trims')
                    tp = next((f.x(z) for z in f.insts('load') if sp.reg(f.expr(z.ops[0])) == ('R', 2)), ('none',))
                    inp = ('ld', first_addr(m, ('idx', inst, tp, isz), IN, 'input'), None)
                    if unver(f.expr(y.ops[0])) != unver(mklin(0, ((unver(inp), 1), (unver(start), -1)))): c.bad('RPA_ABORT:offset', f.where(y), 'RPA_ABORT records another offset than that of its position')
    # rpa_stat_exec: nothing else of the engine touches the records while a program runs
    c.atleast('record appends', 2); c.atleast('record fields', 10); c.atleast('trims', 2)

def hav(fl, t, v):
    """replace the unknown content a fresh (cleared) record had by v"""
    B = fl.b
    for a in [a for a in B.support(t) if a[0] == 'havocw']:
        y = fl.fn.inst.get(a[1])
        if y is not None and y.iscall and y.callee in GROW:
            k = B.order[a]
            t = B.OR(B.AND(v, cof(B, t, k, True)), B.AND(B.NOT(v), cof(B, t, k, False)))
    return t

def cof(B, f, k, val):
    if not isinstance(f, tuple) or f[0] > k: return f
    if f[0] == k: return f[2] if val else f[1]
    return B.mk(f[0], cof(B, f[1], k, val), cof(B, f[2], k, val))

CHECKS = {'P03': check_matchins, 'P04': check_cache, 'P05': check_records}
