"""Pattern engine (rpa) checks: input handling, match instructions, cache, records."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, Prover, subexprs, mentions
from flow import Flow
from common import *
from vm import Spec, opword

STAT, IN, IP, CPU = 'rpastat_s', 'rpainput_s', 'rpainmap_s', 'rvmcpu_s'
IPIN = ((IP, 'input'), (STAT, 'ip'))
A = lambda n: ('arg', n)

def fld(m, base, st, name): return ('fld', base, st, name, m.field(st, name))

def consts():
    return fe.load_consts(['rpa/rpastatpriv.h', 'rpa/rpadbexpriv.h', 'rvm/rvmcpu.h'])

def strip(e):
    while e[0] in ('zx', 'trunc', 'sext1'): e = e[2] if e[0] != 'sext1' else e[1]
    return e

def is_first(e, m, base, st, name):
    """e is the address of base->name (offset 0 fields appear without a fld step when declared so)"""
    return e == fld(m, base, st, name) or (m.field(st, name) == 0 and e == base)

# ---------------------------------------------------------------- P01 input bounds
def check_input(c):
    m = c.mod('core', pipe='plain')
    c.rule('the accepted range is validated before anything is recorded; input positions are only dereferenced (or handed to a decoder together with the end) below the end; the stack of input characters has room for every character plus the end marker')
    S = A(0)
    # 1. initialisation
    f = m.fn('rpa_stat_init'); c.seen(f)
    st_input, st_start, st_end = A(2), A(3), A(4)
    for case in ret_cases(f):
        v, e, edges = case
        if v is None: continue
        if v[0] == 'c' and v[1] < 0: continue
        c.ob('range obligations')
        facts = case_facts(f, case)
        # collect facts over every incoming path: dominating facts only (sound)
        P = Prover(f, facts)
        last = edges[-1][0] if edges else e.b.id
        for a, b, msg in ((st_start, st_end, 'start <= end'), (st_start, st_input, 'start <= input'), (st_input, st_end, 'input <= end')):
            if not P.le(a, b): c.bad('init:%s' % msg.replace(' ', ''), f.where(e), 'an execution is set up without having established %s' % msg)
    for fn_, val in (('input', A(2)), ('start', A(3)), ('end', A(4))):
        good = [x for x in f.insts('store') if f.cls(x) == (STAT, fn_) and f.expr(x.ops[0]) == val]
        c.ob('range obligations')
        for case in ret_cases(f):
            v, e, _ = case
            if v is not None and v[0] == 'c' and v[1] >= 0 and path_to_case(f, case, good): c.bad('init:%s' % fn_, f.where(e), 'the %s of the range is not recorded' % fn_)
    ipin = fld(m, S, STAT, 'ip')
    good = [x for x in f.insts('store') if f.cls(x) in IPIN and f.expr(x.ops[0]) == A(2)]
    good2 = [x for x in f.insts('store') if f.cls(x) == (IP, 'serial') and f.expr(x.ops[0]) == ('c', 0)]
    for g, what in ((good, 'start at the given input'), (good2, 'start with an empty input stack')):
        c.ob('range obligations')
        for case in ret_cases(f):
            v, e, _ = case
            if v is not None and v[0] == 'c' and v[1] >= 0 and path_to_case(f, case, g): c.bad('init:pos:%s' % what, f.where(e), 'the reading position does not %s' % what)
    # 2. capacity of the input stack: instacksize slots follow instack[0], one more in front, one more behind
    esz = m.structs[IN]['size']
    cap = fld(m, S, STAT, 'instacksize'); capc = (STAT, 'instacksize')
    need = m.arith('sub', A(4), A(3))
    for case in ret_cases(f):
        v, e, edges = case
        if v is None or v[0] == 'c' and v[1] < 0: continue
        c.ob('capacity obligations')
        x = f.blocks[edges[-1][0]].insts[-1] if edges else e
        w = ge_now(f, x, cap, capc, need, extra=[('ule', A(3), A(4))])
        if w is not None: c.bad('init:capacity', f.where(w), 'the recorded size of the input stack may be smaller than the input range')
    allocs = []
    for g in m.live():
        for x in g.insts('store'):
            if g.cls(x) != (STAT, 'instackbuffer'): continue
            v = g.expr(x.ops[0]); sz = alloc_size(g, v)
            if v == ('c', 0): continue
            c.ob('capacity obligations')
            if sz is None: c.bad('alloc:%s' % g.name, g.where(x), 'the input stack buffer is not a fresh allocation'); continue
            allocs.append((g, x, v, sz))
            # the size recorded together with it: every path from the allocation to a return stores instacksize = n, sz >= (n+2)*esz, instack = buffer + 1
            ns = [y for y in g.insts('store') if g.cls(y) == capc]
            ok = [y for y in ns if Prover(g, all_facts(g, y.b.id)).le(m.arith('mul', m.arith('add', g.expr(y.ops[0]), ('c', 2)), ('c', esz)), sz)]
            for y in ns:
                if y not in ok: c.bad('alloc:size:%s' % g.name, g.where(y), 'the recorded size of the input stack needs more than the %s bytes allocated' % pp(sz))
            if every_path(g, ok, start=x) is not None and not any(g.idominst(y, x) for y in ok): c.bad('alloc:unrecorded:%s' % g.name, g.where(x), 'the size of the new input stack is not recorded')
            okp = [y for y in g.insts('store') if g.cls(y) == (STAT, 'instack') and byte_offset(g.expr(y.ops[0])) == (v, ('c', esz))]
            if every_path(g, okp, start=x) is not None: c.bad('alloc:instack:%s' % g.name, g.where(x), 'the input stack pointer is not set one entry into the new buffer (the entry before the first must be valid)')
            z = [y for y in g.calls('r_memset', 'memset') if byte_offset(g.expr(y.ops[0])) == (v, ('c', 0)) and g.expr(y.ops[1]) == ('c', 0) and Prover(g, []).le(('c', esz), g.expr(y.ops[2]))]
            if every_path(g, z, start=x) is not None and not g.expr(x.ops[0])[1].endswith(('zmalloc', 'calloc')): c.bad('alloc:clear:%s' % g.name, g.where(x), 'the entry before the first is not cleared: its end marker decides the first step')
    for g in m.live():
        for x in g.insts('store'):
            if g.cls(x) in (capc, (STAT, 'instack')) and not any(a[0] is g and g.idominst(a[1], x) or a[0] is g and every_path(g, [x], start=a[1]) is None for a in allocs):
                c.ob('capacity obligations'); c.bad('alloc:other:%s' % g.name, g.where(x), 'the input stack bounds are changed apart from its allocation')
    # 3. stepping
    f = m.fn('rpa_stat_shift'); c.seen(f)
    cur = None
    ipaddr = [x for x in f.insts('load') if f.cls(x) in IPIN]
    c.need(ipaddr, 'rpa_stat_shift reads no position')
    cur = ('ld', f.expr(ipaddr[0].ops[0]), ('entry',))
    ends = [x for x in f.insts('load') if f.cls(x) == (STAT, 'end')]
    end = f.x(ends[0]) if ends else ('none',)
    def below(fn, x):
        return Prover(fn, all_facts(fn, x.b.id)).lt(cur, end)
    for x in f.insts('load'):
        a = f.expr(x.ops[0]); root, off = byte_offset(a)
        if root == cur:
            c.ob('input reads')
            if off != ('c', 0) or x.d.get('sz', 1) != 1 or not below(f, x): c.bad('read:load', f.where(x), 'an input byte is read without knowing that the position is below the end')
    for x in f.calls():
        if x.callee is None or x.callee.startswith('llvm.'): continue
        es = [f.expr(o) for o in x.ops]
        if any(byte_offset(e)[0] == cur for e in es):
            c.ob('input reads')
            if x.callee not in ('r_utf8_mbtowc', 'r_utf16_mbtowc'): c.bad('read:call', f.where(x), 'the input is handed to %s' % x.callee); continue
            if es[1] != cur or es[2] != end: c.bad('read:decoder', f.where(x), 'the decoder is not given the current position and the end of the range')
    TOP1 = m.arith('add', A(1), ('c', 1))
    # results of the step
    succ = [x for x in f.insts('store') if f.cls(x) in IPIN]
    for x in succ:
        c.ob('step obligations')
        v = f.expr(x.ops[0]); d = None
        if v[0] == 'idx' and v[1] == cur and v[3] == 1: d = v[2]
        if d is None or not consumed(f, d, cur, end): c.bad('step:advance', f.where(x), 'the position is not advanced by the number of bytes the decoder consumed'); continue
        if not below(f, x): c.bad('step:guard', f.where(x), 'the position may advance past the end')
        for cl, vals, what in (((IN, 'wcsize'), [d], 'the size of the character'), ((IN, 'eof'), [('c', 0)], 'a clear end marker'), ((IP, 'serial'), None, 'the new number of characters read')):
            ys = [y for y in f.insts('store') if f.cls(y) == cl and (vals is None and f.expr(y.ops[0]) == mklin(1, ((('ld', f.expr(y.ops[1]), ('entry',)), 1),)) or vals is not None and f.expr(y.ops[0]) in vals)]
            if not any(f.dom(y.b.id, x.b.id) for y in ys) and every_path(f, ys, start=x) is not None: c.bad('step:%s' % cl[1], f.where(x), 'a character is read without recording %s' % what)
    for x in f.insts('store'):
        if f.cls(x) == (IP, 'serial'):
            c.ob('step obligations')
            if not below(f, x): c.bad('step:serial', f.where(x), 'a character is counted without one being read')
        if f.cls(x)[0] == IN:
            c.ob('step obligations')
            root, off = byte_offset(f.expr(x.ops[1]))
            want = m.arith('mul', TOP1, ('c', esz)); d = mklin(*sublin(aslin(off), aslin(want)))
            if not (root[0] == 'ld' and root[1] == fld(m, S, STAT, 'instack')) or d[0] != 'c' or not 0 <= d[1] < esz: c.bad('step:slot', f.where(x), 'the character is recorded in another entry than the next one')
            if not Prover(f, all_facts(f, x.b.id)).le(('ld', fld(m, fld(m, S, STAT, 'ip'), IP, 'serial'), ('entry',)), TOP1): c.bad('step:reread', f.where(x), 'an entry that was already read is overwritten')
    # at the end: marker set
    marks = [x for x in f.insts('store') if f.cls(x) == (IN, 'eof') and f.expr(x.ops[0])[0] == 'c' and f.expr(x.ops[0])[1] != 0]
    reads = succ
    serial = ('ld', fld(m, fld(m, S, STAT, 'ip'), IP, 'serial'), ('entry',))
    eof = [x for x in f.insts('load') if f.cls(x) == (IN, 'eof') and f.expr(x.ops[0])[1] == ('idx', ('ld', fld(m, S, STAT, 'instack'), ('entry',)), A(1), esz)]
    for case in ret_cases(f):
        v, e, edges = case
        c.ob('step obligations')
        if v[0] == 'c' and v[1] < 0:
            P = case_facts(f, case)
            if not any(q[0] == 'ne' and q[2] == ('c', 0) and any(q[1] == f.x(y) for y in eof) for q in P): c.bad('step:refuse', f.where(e), 'a step is refused although the end was not reached')
        elif v == TOP1:
            def have(fs): return Prover(f, list(fs)).lt(TOP1, serial)
            # every way to here either read a character, set the end marker, or the entry was already read
            ok = reads + marks
            bad = False
            blocks = {x.b.id for x in ok}
            seen = set(); stk = [(None, 0)]
            while stk:
                p, b = stk.pop()
                if b in blocks: continue
                tgt = edges[-1][0] if edges else e.b.id
                if b == tgt and not have(f.facts(b)): 
                    if p is None or not have(f.edge_facts(p, b)): bad = True
                for t in f.blocks[b].succ:
                    fs = via_facts(f, p, b, t)
                    if ('false',) in fs or have(fs) or (b, t) in seen: continue
                    seen.add((b, t)); stk.append((b, t))
            if bad: c.bad('step:entry', f.where(e), 'a step succeeds without the next entry having been read or marked as the end')
            if not any(q[0] == 'eq' and q[2] == ('c', 0) and any(q[1] == f.x(y) for y in eof) for q in f.facts(edges[-1][0] if edges else e.b.id)): c.bad('step:past', f.where(e), 'a step beyond the end marker succeeds')
        else: c.bad('step:result', f.where(e), 'a step returns %s instead of the next position' % pp(v))
    # 4. nobody else moves the range
    for g in m.live():
        for x in g.insts('store'):
            cl = g.cls(x)
            if cl in ((STAT, 'end'), (STAT, 'start'), (STAT, 'input'), (IP, 'input'), (STAT, 'ip'), (IP, 'serial')) or cl[0] == IN:
                c.ob('writers of the input state')
                if g.name not in ('rpa_stat_init', 'rpa_stat_shift') and not m.noalias(g, g.expr(x.ops[1]), S): c.bad('writer:%s' % g.name, g.where(x), '%s changes the input state of a running match' % g.name)
    # 5. exec refuses
    f = m.fn('rpa_stat_exec'); c.seen(f)
    runs = list(f.calls('rvm_cpu_exec', 'rvm_cpu_exec_debug'))
    c.need(runs, 'rpa_stat_exec runs nothing')
    for x in runs:
        c.ob('executions')
        inits = [y for y in f.calls('rpa_stat_init') if f.idominst(y, x)]
        if not inits: c.bad('exec:init', f.where(x), 'a program is executed without setting up its input'); continue
        if not any(Prover(f, all_facts(f, x.b.id)).ge0(f.x(y)) for y in inits): c.bad('exec:refused', f.where(x), 'a program is executed although its input range was refused')
        for y in inits:
            if [f.expr(o) for o in y.ops[1:]] != [A(3), A(4), A(5), A(6), A(7)]: c.bad('exec:args', f.where(y), 'the input is set up with other arguments than given')
    c.atleast('range obligations', 5); c.atleast('capacity obligations', 2); c.atleast('input reads', 2); c.atleast('step obligations', 4); c.atleast('executions', 1)

def consumed(f, d, cur, end, depth=0):
    """d is the result of a decoder at the current position, or 1 where one byte is read"""
    d = strip(d)
    if d[0] == 'call' and d[1] in ('r_utf8_mbtowc', 'r_utf16_mbtowc'): return True
    if d[0] == 'c': return d[1] == 1
    if d[0] == 'sel': return consumed(f, d[2], cur, end, depth + 1) and consumed(f, d[3], cur, end, depth + 1)
    if d[0] == 'phi' and d[1] == f.name and depth < 6:
        x = f.inst[d[2]]
        if x.b.id in headers(f): return False
        for o, b in x.ops:
            if not f.reachable(b): continue
            # an alternative is only possible where the position is below the end
            fs = f.facts(b) + f.edge_facts(b, x.b.id)
            if Prover(f, fs).le(end, cur) and Prover(f, fs).lt(cur, end): continue
            if not consumed(f, f.expr(o), cur, end, depth + 1): return False
        return True
    return False

# ---------------------------------------------------------------- P02 match predicates
def check_predicates(c):
    m = c.mod('core', pipe='plain', unbound=('rpa_special_char',)); K = consts()
    c.rule('the truth of each match predicate, as a decision diagram over the comparisons it makes, equals the specification: never at the end of input; the character (or, in case-insensitive mode, its case swap) equals the given one / lies in the range / has its bit set')
    esz = m.structs[IN]['size']
    S = A(0)
    slot = ('idx', ('ld', fld(m, S, STAT, 'instack'), ('entry',)), A(1), esz)
    def L(name): return ('ld', fld(m, slot, IN, name), ('entry',))
    enc = ('ld', fld(m, S, STAT, 'encoding'), ('entry',))
    icase = ('and', ('c', K['RPA_ENCODING_ICASE']), enc)
    def spec(fl, name, f):
        B = fl.b
        def one(w):
            if name == 'rpa_stat_matchchr': return fl.cmp('eq', w, A(2))
            if name == 'rpa_stat_matchrng': return B.AND(fl.cmp('ule', A(2), w), fl.cmp('ule', w, A(3)))
            if name == 'rpa_stat_matchbitmap':
                bits = K['RPA_BITMAP_BITS']
                forms = [('and', A(2), ('shl', ('c', 1), ('urem', w, ('c', bits)))), ('and', ('lshr', A(2), ('urem', w, ('c', bits))), ('c', 1)), ('and', ('c', 1), ('lshr', A(2), ('urem', w, ('c', bits))))]
                forms += [('and', A(2), ('shl', ('c', 1), q)) for q in (('and', ('c', bits - 1), w), ('and', w, ('c', bits - 1)))]
                used = {e for v in fl.b.names for e in subexprs(v)}
                for q in forms:
                    if q in used: return B.NOT(fl.cmp('eq', q, ('c', 0)))
                return B.NOT(fl.cmp('eq', forms[0], ('c', 0)))
            if name == 'rpa_stat_matchspchr':
                r = B.OR(fl.cmp('eq', A(2), ('c', ord('.'))))
                rest = fl.cmp('eq', w, A(2))
                for ch, v in (('t', 9), ('r', 13), ('n', 10)):
                    q = fl.cmp('eq', A(2), ('c', ord(ch)))
                    rest = B.ite(q, fl.cmp('eq', w, ('c', v)), rest)
                return B.OR(r, rest)
        t = one(L('wc'))
        if name != 'rpa_stat_matchspchr': t = B.OR(t, B.AND(B.NOT(fl.cmp('eq', icase, ('c', 0))), one(L('iwc'))))
        return B.AND(fl.cmp('eq', L('eof'), ('c', 0)), t)
    for name in ('rpa_stat_matchchr', 'rpa_stat_matchrng', 'rpa_stat_matchbitmap', 'rpa_stat_matchspchr'):
        f = m.fn(name); c.seen(f); c.ob('match predicates')
        fl = PFlow(f)
        if f.exits() == []: raise AnalysisBroken(name + ' does not return')
        got = False
        pos = fl.b
        for e in f.exits():
            got = fl.b.OR(got, fl.b.AND(fl.rc[e.b.id], fl.b.NOT(fl.cmp('eq', f.expr(e.ops[0]), ('c', 0)))))
        want = spec(fl, name, f)
        T = distinct(fl, [A(2)], (ord('.'), ord('t'), ord('r'), ord('n')))
        T = fl.b.AND(T, fl.theory(got, want))
        if fl.b.AND(T, got) != fl.b.AND(T, want):
            d = fl.b.AND(T, fl.b.XOR(got, want))
            c.bad('%s:truth' % name, f.where(), '%s does not match exactly the specified characters: differs when %s' % (name, witness(fl, d)))
        # matches are reported as 1 (the callers test > 0)
        neg = False
        for e in f.exits(): neg = fl.b.OR(neg, fl.b.AND(fl.rc[e.b.id], fl.neg(f.expr(e.ops[0]))))
        if fl.b.AND(T, neg) is not False: c.bad('%s:sign' % name, f.where(), '%s may return a negative result' % name)
        if [x for x in f.insts('store')]: c.bad('%s:pure' % name, f.where(), '%s modifies memory' % name)
        c.sample('%s: %d comparisons' % (name, len(fl.b.names)))
    # the case swap used
    f = m.fn('rpa_stat_shift'); c.seen(f)
    for x in f.insts('store'):
        if f.cls(x) != (IN, 'iwc'): continue
        c.ob('case swaps')
        v = strip(f.expr(x.ops[0]))
        ok = v[0] == 'call' and v[1] == 'r_charicase' and (lambda a: a[0] == 'ld' and a[1][0] == 'fld' and a[1][2:4] == (IN, 'wc') and a[1][1] == f.expr(x.ops[1])[1])(f.expr(f.inst[v[3]].ops[0]))
        if not ok: c.bad('iwc:value', f.where(x), 'the stored alternative of a character is not its case swap')
    adv = [x for x in f.insts('store') if f.cls(x) == (IP, 'serial')]
    iw = [x for x in f.insts('store') if f.cls(x) == (IN, 'iwc')]
    fl = PFlow(f)
    for x in adv:
        c.ob('case swaps')
        ic = fl.cmp('eq', icase, ('c', 0)); have = False
        for y in iw:
            if f.dom(y.b.id, x.b.id): have = True
            elif f.reach([y.b.id]) & {x.b.id}: have = fl.b.OR(have, fl.rc[y.b.id])
            else: have = fl.b.OR(have, fl.rc[y.b.id])
        if fl.b.AND(fl.rc[x.b.id], fl.b.NOT(ic), fl.b.NOT(have)) is not False: c.bad('iwc:missing', f.where(x), 'a character is read in case-insensitive mode without computing its case swap')
    c.atleast('match predicates', 4); c.atleast('case swaps', 1)

class PFlow(Flow):
    def strip(s, e): return e
    def single(s, e):
        return Flow.single(s, e)

def distinct(fl, terms, vals):
    """equalities of one term with different constants exclude each other"""
    B = fl.b; T = True
    for t in terms:
        vs = [fl.cmp('eq', t, ('c', v)) for v in vals]
        for i in range(len(vs)):
            for j in range(i): T = B.AND(T, B.NOT(B.AND(vs[i], vs[j])))
    return T

def witness(fl, d):
    r = []
    while isinstance(d, tuple):
        lo, hi = d[1], d[2]
        if hi is not False: r.append(pp(fl.b.names[d[0]])); d = hi
        else: r.append('not ' + pp(fl.b.names[d[0]])); d = lo
    return ', '.join(r[:5])

CHECKS = {'P01': check_input, 'P02': check_predicates}
