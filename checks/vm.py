"""Virtual machine (rvm) checks."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin
from flow import Flow, Bdd
from common import *

CPU, INS, REG = 'rvmcpu_s', 'rvm_asmins_s', 'rvmreg_s'

def opcodes(m):
    e = m.enums.get('<anon:RVM_EXT>')
    if not e: raise AnalysisBroken('opcode enumeration not found')
    return {n: v for n, v in e.items() if not n.startswith(('RVM_RESERVED', 'RVM_USER')) and n != 'RVM_COUNT'}, e

def handlers(m):
    """opcode value -> (handler Fn, mnemonic, registering instruction)"""
    f = m.fn('rvm_cpu_create'); r = {}
    for x in f.calls('rvm_cpu_setophandler'):
        if len(x.ops) < 4: continue
        op = f.expr(x.ops[1]); nm = f.expr(x.ops[2]); h = f.expr(x.ops[3])
        if op[0] != 'c': raise AnalysisBroken('non-constant opcode registration at ' + f.where(x))
        s = None
        if nm[0] == 'g':
            g = m.globals.get(nm[1], {}).get('init'); s = g[1] if g and g[0] == 's' else None
        r.setdefault(op[1], []).append((m.fns.get(h[1]) if h[0] == 'g' else None, s, x))
    if len(r) < 40: raise AnalysisBroken('only %d opcode registrations found in rvm_cpu_create' % len(r))
    return f, r

# ---- expression spec helpers
def opword(e, bits):
    """which operand register (1..3) an index expression selects, or None"""
    while e[0] in ('zx', 'trunc'): e = e[2]
    if e[0] == 'and':
        for c, x in ((e[1], e[2]), (e[2], e[1])):
            if c == ('c', (1 << bits) - 1):
                sh = 0
                while x[0] in ('zx', 'trunc'): x = x[2]
                if x[0] == 'lshr' and x[2][0] == 'c': sh = x[2][1]; x = x[1]
                while x[0] in ('zx', 'trunc'): x = x[2]
                if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == INS and x[1][1] == ('arg', 1) and sh % bits == 0:
                    return sh // bits + 1
    if e[0] == 'lshr' and e[2][0] == 'c':
        x = e[1]
        if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == INS: 
            return None
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == INS and e[1][3] in ('op1', 'op2', 'op3'):
        return int(e[1][3][2])
    return None

class Spec:
    def __init__(s, m):
        c = fe.load_consts(['rvm/rvmcpu.h'])
        s.c = c; s.bits = c['RVM_OPERAND_BITS']; s.m = m
        s.rsz = m.structs[REG]['size']
    def reg(s, e):
        """('R',k) when e is the address of operand register k; ('r',n) for a fixed register"""
        if e[0] == 'idx' and e[3] == s.rsz:
            b = e[1]
            if b[0] == 'fld' and b[2] == CPU and b[3] == 'r': b = b[1]
            if b == ('arg', 0):
                k = opword(e[2], s.bits)
                if k: return ('R', k)
                if e[2][0] == 'c': return ('r', e[2][1])
        if e == ('arg', 0) : return ('r', 0)
        return None
    def norm(s, e):
        """replace register reads by symbolic names R1..R3 / r<n>"""
        if not isinstance(e, tuple): return e
        if e[0] == 'ld' and e[2] == ('entry',):
            r = s.reg(e[1])
            if r: return r
        if e[0] == 'lin':
            return mklin(e[1], tuple((s.norm(t), k) for t, k in e[2]))
        if e[0] == 'mul': 
            xs = sorted((s.norm(x) for x in e[1:]), key=repr); return ('mul',) + tuple(xs)
        r = tuple(s.norm(x) if isinstance(x, tuple) else x for x in e)
        if e[0] in ('and', 'or', 'xor') and repr(r[2]) < repr(r[1]): r = (r[0], r[2], r[1])
        return r

A, B2 = ('R', 2), ('R', 3)
def L(c, *ts): return mklin(c, ts)
def sym(op, a, b): return (op,) + tuple(sorted((a, b), key=repr))
NOT = lambda x: [L(-1, (x, -1)), sym('xor', x, ('c', -1))]
SIGNC = ('c', -(1 << 63))

def value_specs():
    R1 = ('R', 1)
    return {
        'ADD': [L(0, (A, 1), (B2, 1))], 'ADDS': [L(0, (A, 1), (B2, 1))], 'SUB': [L(0, (A, 1), (B2, -1))], 'SUBS': [L(0, (A, 1), (B2, -1))],
        'INC': [L(1, (R1, 1))], 'DEC': [L(-1, (R1, 1))],
        'AND': [sym('and', A, B2)], 'ORR': [sym('or', A, B2)], 'XOR': [sym('xor', A, B2)],
        'BIC': [sym('and', A, n) for n in NOT(B2)], 'NOT': NOT(A),
        'MUL': [sym('mul', A, B2)], 'MULS': [sym('mul', A, B2)], 'MLS': [sym('mul', A, B2)],
        'LSL': [('shl', A, B2)], 'LSR': [('lshr', A, B2)], 'LSRS': [('ashr', A, B2)],
        'DIV': [('udiv', A, B2)], 'DIVS': [('udiv', A, B2)], 'DVS': [('sdiv', A, B2)],
        'MOD': [('urem', A, B2)], 'MODS': [('srem', A, B2)],
        'MOVS': [A],
        'ASR': [sym('or', ('lshr', A, B2), sym('and', A, SIGNC)), ('ashr', A, B2)],
    }
# x / -1 and x % -1 in forms that do not trap
BYNEG1 = {'DVS': L(0, (A, -1)), 'MODS': ('c', 0)}
def cond_facts(e):
    if e[0] == 'cmp' and e[1] in ('eq', 'ne'):
        t = [('eq', e[2], e[3])]; f = [('ne', e[2], e[3])]
        return (t, f) if e[1] == 'eq' else (f, t)
    return [], []
FLAGZN = {'MOVS': A, 'ADDS': 'res', 'ADC': 'res', 'AND': 'res', 'ORR': 'res', 'XOR': 'res', 'NOT': 'res', 'BIC': 'res', 'LSL': 'res', 'ASR': 'res',
          'SUBS': 'res', 'SBC': 'res', 'MLS': 'res', 'MULS': 'res', 'DIVS': 'res', 'DVS': 'res', 'MODS': 'res',
          'TST': [sym('and', ('R', 1), ('R', 2))], 'TEQ': [sym('xor', A, B2)],
          'CMP': [L(0, (('R', 1), 1), (('R', 2), -1))], 'CMN': [L(0, (('R', 1), 1), (('R', 2), 1))]}
ZONLY = {'LSR': 'res', 'LSRS': 'res'}

def reg1_store(s, f):
    """stores to the destination register word, with their values"""
    out = []
    for x in f.insts('store'):
        if s.reg(f.expr(x.ops[1])) == ('R', 1): out.append((x, s.norm(f.expr(x.ops[0]))))
    return out

def errblocks(h):
    return error_blocks(h, lambda x: x.op == 'store' and h.cls(x) == (CPU, 'error'))

class NFlow(Flow):
    """Flow over normalised (R1/R2/R3) expressions"""
    def __init__(s, spec, fn, **kw):
        s.spec = spec; s.dead = errblocks(fn); Flow.__init__(s, fn, **kw)
    def strip(s, e): return s.spec.norm(e)
    def single(s, e): return Flow.single(s, s.spec.norm(e))

def check_values(c):
    c.rule('value graph of each arithmetic/logic opcode handler: the word stored in the destination operand register is the documented function of the source operands read at entry, on every returning path')
    m = c.mod('core', pipe='plain'); ops, _ = opcodes(m); s = Spec(m)
    cf, H = handlers(m); specs = value_specs()
    C = s.c['RVM_STATUS_C']
    for n, want in specs.items():
        opc = ops.get('RVM_' + n)
        if opc is None or opc not in H: raise AnalysisBroken('opcode %s is not registered' % n)
        h = H[opc][-1][0]
        c.need(h is not None, 'handler of %s unresolved' % n)
        c.seen(h); c.ob('arithmetic opcodes')
        st = reg1_store(s, h)
        ex = h.exits()
        def fits(v, facts, depth=0):
            if v in want: return True
            if n in BYNEG1 and ('eq', B2, ('c', -1)) in facts and v == BYNEG1[n]: return True
            if v[0] == 'phi' and v[1] == h.name and v[2] in h.inst and depth < 6:
                x = h.inst[v[2]]
                if x.b.id in headers(h): return False
                return all(fits(s.norm(h.expr(o)), [s.norm(q) for q in h.facts(b) + h.edge_facts(b, x.b.id)], depth + 1) for (o, b) in x.ops if h.reachable(b))
            if v[0] == 'sel':
                t, f2 = cond_facts(v[1])
                return fits(v[2], facts + t, depth + 1) and fits(v[3], facts + f2, depth + 1)
            return False
        good = [x for x, v in st if fits(v, [s.norm(q) for q in h.facts(x.b.id)])]
        bad = [(x, v) for x, v in st if x not in good]
        for x, v in bad:
            c.bad('%s:value' % n, h.where(x), 'opcode %s stores %s in its destination, expected %s' % (n, pp(v), ' or '.join(pp(w) for w in want)))
        for e in ex:
            if not bad and every_path(h, good, exits=[e], excluded=errblocks(h)) is not None:
                c.bad('%s:value' % n, h.where(e), 'opcode %s returns without storing its result in the destination register' % n)
        c.sample('%s -> %s' % (n, pp(want[0])))
    # ADC / SBC: carry in
    for n, base, on, off in (('ADC', L(0, (A, 1), (B2, 1)), 1, 0), ('SBC', L(0, (A, 1), (B2, -1)), 0, -1)):
        opc = ops.get('RVM_' + n); c.need(opc in H, 'opcode %s is not registered' % n)
        h = H[opc][-1][0]; c.seen(h); c.ob('arithmetic opcodes')
        fl = NFlow(s, h, loc=('fld', ('arg', 0), CPU, 'status', m.field(CPU, 'status')), cls=(CPU, 'status'))
        st = reg1_store(s, h)
        cbit = fl.b.var(('bit', 'S', C.bit_length() - 1))
        if not st: c.bad('%s:value' % n, h.where(), 'opcode %s never stores a result' % n)
        for x, v in st:
            # value = base + t ; t must be on when carry set, off otherwise
            d = mklin(*sublin(aslin(v), aslin(base)))
            ok = carry_term(fl, h, s, d, cbit, on, off)
            if not ok: c.bad('%s:value' % n, h.where(x), 'opcode %s adds %s to op2%sop3 instead of %d when carry is set and %d otherwise' % (n, pp(d), '+' if n == 'ADC' else '-', on, off))
    for n, law, text in (('ROR', rotates, 'op2 rotated right by op3'), ('CLZ', leading, 'the number of leading zero bits of op2')):
        opc = ops.get('RVM_' + n); c.need(opc in H, 'opcode %s is not registered' % n)
        h = H[opc][-1][0]; c.seen(h); c.ob('arithmetic opcodes')
        st = reg1_store(s, h)
        for x, v in st:
            if not law(s, h, v): c.bad('%s:value' % n, h.where(x), 'opcode %s stores %s in its destination, which is not %s' % (n, pp(v), text))
        for e in h.exits():
            if every_path(h, [x for x, v in st], exits=[e], excluded=errblocks(h)) is not None: c.bad('%s:value' % n, h.where(e), 'opcode %s returns without storing its result in the destination register' % n)
    # MOV / SWP copy whole registers
    h = H[ops['RVM_MOV']][-1][0]; c.seen(h); c.ob('arithmetic opcodes')
    if not copies(s, h, ('R', 1), ('R', 2)):
        c.bad('MOV:value', h.where(), 'opcode MOV does not copy the whole op2 register into op1')
    h = H[ops['RVM_SWP']][-1][0]; c.seen(h); c.ob('arithmetic opcodes')
    if not swaps(s, h): c.bad('SWP:value', h.where(), 'opcode SWP does not exchange the two whole registers')
    c.atleast('arithmetic opcodes', 25)

def rounds(s, h, v):
    """the value is carried round a loop: (header, {phi: (initial values, [(facts, next value)])}, facts of leaving)"""
    import nest
    if v[0] != 'phi' or v[1] != h.name or h.inst[v[2]].b.id not in headers(h): return None
    hd = h.inst[v[2]].b.id; back = headers(h)[hd]; tab = {}; out = []
    for x in h.blocks[hd].insts:
        if x.op == 'phi': tab[x.i] = ([s.norm(h.expr(o)) for o, b in x.ops if b not in back and h.reachable(b)], [])
    for end, path, facts, val in nest.loop_paths(h, hd):
        facts = [tuple([q[0]] + [s.norm(t) for t in q[1:]]) for q in facts]
        if end[0] == 'exit': out.append((end, facts)); continue
        for i in tab: tab[i][1].append((facts, s.norm(val([o for o, b in h.inst[i].ops if b == end[1]][0]))))
    return hd, tab, out

def untrunc(e):
    while e[0] in ('zx', 'trunc'): e = e[2]
    return e

def rotates(s, h, v):
    W = 64; k = [sym('and', B2, ('c', W - 1)), ('urem', B2, ('c', W))]
    if v[0] in ('or', 'lin') or v[0] == 'call':
        for q in k:
            back = [L(W, (q, -1)), sym('and', L(0, (q, -1)), ('c', W - 1)), sym('and', L(0, (B2, -1)), ('c', W - 1)), sym('and', L(W, (q, -1)), ('c', W - 1)), sym('and', L(W, (B2, -1)), ('c', W - 1))]
            for b in back[1:]:
                if v == sym('or', ('lshr', A, q), ('shl', A, b)): return True
        return v[0] == 'call' and 'fshr' in v[1] and v[-1] in (B2,) + tuple(k)
    if v[0] == 'sel' or v[0] == 'phi' and h.inst[v[2]].b.id not in headers(h): return False
    r = rounds(s, h, v)
    if r is None: return False
    hd, tab, out = r
    me = ('phi', h.name, v[2])
    if tab[v[2]][0] != [A]: return False
    half = ('lshr', me, ('c', 1)); low = sym('and', me, ('c', 1))
    full = [sym('or', half, ('shl', me, ('c', W - 1)))]
    for facts, nx in tab[v[2]][1]:
        if nx in full: continue
        on = ('ne', low, ('c', 0)) in facts or ('eq', low, ('c', 1)) in facts; off = ('eq', low, ('c', 0)) in facts
        if on and nx == sym('or', half, SIGNC) or off and nx == half: continue
        return False
    # as many rounds as op3 says (multiples of the width may be left out)
    for i, (ini, steps) in tab.items():
        p = ('phi', h.name, i)
        if i == v[2] or len(ini) != 1: continue
        if ini[0] == ('c', 0) and all(nx == L(1, (p, 1)) for fc, nx in steps):
            # (a counter narrower than op3 never reaches an op3 that does not fit it)
            wide = h.inst[i].t not in ('i32', 'i16', 'i8')
            def bound(t): return untrunc(t) in [B2] + k and (wide or t != B2)
            if all(len(out) == 1 and any(q[0] in ('uge', 'eq') and q[1] == p and bound(q[2]) or q[0] in ('ule', 'eq') and q[2] == p and bound(q[1]) for q in fc) for e, fc in out): return True
        if untrunc(ini[0]) in [B2] + k and all(nx == L(-1, (p, 1)) for fc, nx in steps):
            if len(out) == 1 and any(q[0] in ('eq', 'ule', 'sle') and q[1:3] == (p, ('c', 0)) for q in out[0][1]): return True
    return False

def leading(s, h, v):
    if v[0] == 'call': return 'ctlz' in v[1] and A in v
    r = rounds(s, h, v)
    if r is None: return False
    hd, tab, out = r
    me = ('phi', h.name, v[2])
    for i, (ini, steps) in tab.items():
        p = ('phi', h.name, i)
        if i == v[2] or ini != [A] or not all(nx == ('lshr', p, ('c', 1)) for fc, nx in steps): continue
        if tab[v[2]][0] == [('c', 64)] and all(nx == L(-1, (me, 1)) for fc, nx in tab[v[2]][1]) and len(out) == 1 and ('eq', p, ('c', 0)) in out[0][1]: return True
    return False

def carry_term(fl, h, s, d, cbit, on, off):
    B = fl.b
    if d[0] == 'sel':
        t = B_eq(fl, fl.boolx(d[1]), cbit)
        if t is True: return d[2] == ('c', on) and d[3] == ('c', off)
        if t is False: return d[3] == ('c', on) and d[2] == ('c', off)
        return False
    if d[0] == 'zx' and d[1] == 'i1': return on == 1 and off == 0 and fl.boolx(d[2]) == cbit
    if d[0] == 'sext1': return on == 0 and off == -1 and fl.boolx(d[1]) == fl.b.NOT(cbit)
    if d[0] == 'lin' and len(d[2]) == 1:
        t, k = d[2][0]
        if t[0] in ('zx', 'sel', 'phi', 'sext1') and k in (1, -1): return carry_term(fl, h, s, t, cbit, (on - d[1]) * k, (off - d[1]) * k)
    if d[0] == 'phi' and d[1] == h.name:
        x = h.inst[d[2]]
        for (o, b) in x.ops:
            v = h.expr(o)
            if v[0] != 'c': return False
            g = fl.edgecond(b, x.b.id)
            if v[1] == on and B.AND(g, B.NOT(cbit)) is False: continue
            if v[1] == off and B.AND(g, cbit) is False: continue
            return False
        return True
    if d[0] == 'c': return False
    return False
def B_eq(fl, x, y):
    if x == y: return True
    if x == fl.b.NOT(y): return False
    return None

def copies(s, h, dst, src):
    for x in h.insts('call'):
        if (x.callee or '').startswith(('llvm.memcpy', 'llvm.memmove')) or x.callee in ('r_memcpy', 'r_memmove'):
            if s.reg(h.expr(x.ops[0])) == dst and s.reg(h.expr(x.ops[1])) == src and h.expr(x.ops[2]) == ('c', s.rsz): return True
    return False
def swaps(s, h):
    """tmp <- X; X <- Y; Y <- tmp through block copies, X,Y the two operand registers"""
    seq = []
    for x in h.insts('call'):
        if (x.callee or '').startswith(('llvm.memcpy', 'llvm.memmove')) or x.callee in ('r_memcpy', 'r_memmove'):
            if h.expr(x.ops[2]) != ('c', s.rsz): return False
            seq.append((s.reg(h.expr(x.ops[0])) or h.expr(x.ops[0]), s.reg(h.expr(x.ops[1])) or h.expr(x.ops[1])))
    env = {}
    for d, src in seq: env[d] = env.get(src, ('init', src))
    return env.get(('R', 1)) == ('init', ('R', 2)) and env.get(('R', 2)) == ('init', ('R', 1))

def status_flow(s, m, h):
    return NFlow(s, h, loc=('fld', ('arg', 0), CPU, 'status', m.field(CPU, 'status')), cls=(CPU, 'status'))

def check_flags(c):
    c.rule('bitwise boolean dataflow of the status word through each flag-setting handler: at every return Z is exactly (result == 0), N the sign of the result, C/V the documented carry and overflow')
    m = c.mod('core', pipe='plain'); ops, _ = opcodes(m); s = Spec(m); cf, H = handlers(m)
    bit = {k: s.c['RVM_STATUS_' + k].bit_length() - 1 for k in 'ZNCV'}
    specs = value_specs()
    specs['ADC'] = specs['SBC'] = None
    for n, r in list(FLAGZN.items()) + list(ZONLY.items()):
        opc = ops.get('RVM_' + n); c.need(opc in H, 'opcode %s is not registered' % n)
        h = H[opc][-1][0]; c.seen(h)
        fl = status_flow(s, m, h)
        c.need(fl.loopfree, 'handler of %s contains a loop' % n)
        bits, tot = fl.final_bits()
        if r == 'res':
            st = reg1_store(s, h)
            res = st[-1][1] if st else None
            if res is None: c.bad('%s:flags' % n, h.where(), 'opcode %s stores no result' % n); continue
            cands = [res]
        else: cands = r if isinstance(r, list) else [r]
        def want(f): return [fl.b.AND(tot, f(x)) for x in cands]
        zs = want(lambda x: fl.cmp('eq', x, ('c', 0))); ns = want(fl.neg)
        c.ob('flag obligations')
        if not any(fl.equiv(bits[bit['Z']], q) for q in zs):
            c.bad('%s:Z' % n, h.where(), 'opcode %s: Z at return is %s, expected result==0' % (n, fl.b.show(bits[bit['Z']])))
        if n not in ZONLY:
            c.ob('flag obligations')
            if not any(fl.equiv(bits[bit['N']], q) for q in ns):
                c.bad('%s:N' % n, h.where(), 'opcode %s: N at return is %s, expected the sign of the result' % (n, fl.b.show(bits[bit['N']])))
        B = fl.b; r2, r3 = (A, B2) if n not in ('CMP', 'CMN') else (('R', 1), ('R', 2))
        if n in ('ADDS', 'CMN', 'SUBS', 'CMP'):
            x = cands[0]; c.ob('flag obligations', 2)
            if n in ('ADDS', 'CMN'):
                cs = [fl.cmp('ult', x, r2), fl.cmp('ult', x, r3), B.OR(fl.cmp('ult', x, r2), fl.cmp('ult', x, r3))]
                v = B.AND(B.NOT(B.XOR(fl.neg(r2), fl.neg(r3))), B.XOR(fl.neg(x), fl.neg(r2)))
            else:
                nb = [B.NOT(fl.cmp('ult', r2, x)), B.NOT(fl.cmp('ult', r2, r3))]      # SUBS: carry = no borrow
                cs = nb if n == 'SUBS' else [B.NOT(q) for q in nb]                    # CMP: C = (op1 < op2)
                v = B.AND(B.XOR(fl.neg(r2), fl.neg(r3)), B.NOT(B.XOR(fl.neg(x), fl.neg(r2))))
            if not any(fl.equiv(bits[bit['C']], B.AND(tot, q)) for q in cs):
                c.bad('%s:C' % n, h.where(), 'opcode %s: C at return is %s' % (n, B.show(bits[bit['C']])))
            if not fl.equiv(bits[bit['V']], B.AND(tot, v)):
                c.bad('%s:V' % n, h.where(), 'opcode %s: V at return is %s' % (n, B.show(bits[bit['V']])))
        if n in ('ADC', 'SBC'):
            c.ob('flag obligations', 2)
            x = cands[0]; ci = B.var(('bit', 'S', bit['C']))
            v = B.AND(B.NOT(B.XOR(fl.neg(r2), fl.neg(r3))), B.XOR(fl.neg(x), fl.neg(r2))) if n == 'ADC' else \
                B.AND(B.XOR(fl.neg(r2), fl.neg(r3)), B.NOT(B.XOR(fl.neg(x), fl.neg(r2))))
            if not fl.equiv(bits[bit['V']], B.AND(tot, v)):
                c.bad('%s:V' % n, h.where(), 'opcode %s: V at return is %s' % (n, B.show(bits[bit['V']])))
            lt, gt = (lambda a, b: fl.cmp('ult', a, b)), (lambda a, b: fl.cmp('ult', b, a))
            if n == 'ADC': ok = [B.ite(ci, B.NOT(lt(q, x)), lt(x, q)) for q in (r2, r3)]           # carry ? res <= op : res < op
            else: ok = [B.ite(ci, B.NOT(lt(r2, r3)), lt(r3, r2)), B.ite(ci, B.NOT(lt(r2, x)), lt(x, r2))]  # carry ? op2 >= op3 : op2 > op3
            if not any(fl.equiv(bits[bit['C']], B.AND(tot, q)) for q in ok):
                c.bad('%s:C' % n, h.where(), 'opcode %s: C at return is %s, which is not the carry out of the full sum (carry-in ignored)' % (n, B.show(bits[bit['C']])))
    c.atleast('flag obligations', 40)

COND = {'EQ': lambda B, Z, N: Z, 'NEQ': lambda B, Z, N: B.NOT(Z), 'LEQ': lambda B, Z, N: B.OR(N, Z), 'GEQ': lambda B, Z, N: B.OR(B.NOT(N), Z),
        'LES': lambda B, Z, N: N, 'GRE': lambda B, Z, N: B.AND(B.NOT(N), B.NOT(Z)), '': lambda B, Z, N: True}

def check_branches(c):
    c.rule('path condition (reduced decision diagram over status bits) under which each branch handler changes the program counter equals the documented condition; the target is the documented one, the link variants save the program counter, nothing else of the machine state is written')
    m = c.mod('core', pipe='plain'); ops, _ = opcodes(m); s = Spec(m); cf, H = handlers(m)
    zb, nb = s.c['RVM_STATUS_Z'].bit_length() - 1, s.c['RVM_STATUS_N'].bit_length() - 1
    PC, LR = s.c['PC'], s.c['LR']
    isz = m.structs[INS]['size']
    for pre in ('B', 'BX'):
        for cn, f in COND.items():
            n = pre + cn
            opc = ops.get('RVM_' + n); c.need(opc in H, 'opcode %s is not registered' % n)
            branch(c, m, s, H[opc][-1][0], n, f, pre == 'BX', zb, nb, PC, LR, False, isz)
    for n, x in (('BL', False), ('BXL', True)):
        branch(c, m, s, H[ops['RVM_' + n]][-1][0], n, COND[''], x, zb, nb, PC, LR, True, isz)
    # RET: PC = LR
    h = H[ops['RVM_RET']][-1][0]; c.seen(h); c.ob('branch handlers')
    st = [x for x in h.insts('store') if s.reg(h.expr(x.ops[1])) == ('r', PC)]
    if not st or any(s.norm(h.expr(x.ops[0])) != ('r', LR) for x in st) or not all(any(h.idominst(x, e) for x in st) for e in h.exits()):
        c.bad('RET', h.where(), 'RET does not set the program counter to the link register')
    c.atleast('branch handlers', 17)

def branch(c, m, s, h, n, cond, absolute, zb, nb, PC, LR, link, isz):
    c.need(h is not None, 'handler of %s unresolved' % n)
    c.seen(h); c.ob('branch handlers')
    fl = status_flow(s, m, h); B = fl.b
    Z, N = B.var(('bit', 'S', zb)), B.var(('bit', 'S', nb))
    want = cond(B, Z, N); taken = False
    tot = False
    for e in h.exits(): tot = B.OR(tot, fl.rc[e.b.id])
    for x in h.insts('store'):
        r = s.reg(h.expr(x.ops[1])); v = s.norm(h.expr(x.ops[0]))
        if r == ('r', PC):
            taken = B.OR(taken, fl.rc[x.b.id])
            tgt = [('R', 1)] if absolute else [('idx', ('r', PC), mklin(-1, ((('R', 1), 1),)), isz), mklin(-isz, ((('r', PC), 1), (('R', 1), isz)))]
            if v not in tgt: c.bad('%s:target' % n, h.where(x), 'branch %s sets the program counter to %s' % (n, pp(v)))
        elif r == ('r', LR):
            if not link or v != ('r', PC): c.bad('%s:link' % n, h.where(x), 'branch %s stores %s in the link register' % (n, pp(v)))
            elif link: link = 'done'
        elif r is not None or (h.cls(x)[0] == CPU):
            c.bad('%s:effect' % n, h.where(x), 'branch %s writes %s' % (n, pp(h.expr(x.ops[1]))))
    if B.AND(taken, tot) != B.AND(want, tot): c.bad('%s:cond' % n, h.where(), 'branch %s is taken when %s' % (n, B.show(taken)))
    if link is True: c.bad('%s:link' % n, h.where(), 'branch %s does not save the return address' % n)


def vmcore(c): return c.mod('core')

def elem_off(a):
    """(element address, byte offset inside the element)"""
    o = 0
    while a[0] == 'fld': o += a[4]; a = a[1]
    return a, o

def check_optable(c):
    c.rule('every named opcode of the instruction enumeration is installed exactly once at machine creation, with a handler and with the mnemonic that is its own name; installation stores handler and name at the given opcode and only under opcode < table size')
    m = c.mod('core'); ops, allops = opcodes(m); cf, H = handlers(m); c.seen(cf)
    byval = {}; cases = ret_cases(cf)
    for n, v in ops.items(): byval.setdefault(v, []).append(n)
    for v, names in byval.items():
        c.ob('opcodes')
        nm = names[0]
        if v not in H:
            c.bad('missing:%s' % nm, cf.where(), 'opcode %s has no handler installed' % nm); continue
        regs = H[v]
        if len(regs) > 1: c.bad('dup:%s' % nm, cf.where(regs[1][2]), 'opcode %s is installed %d times' % (nm, len(regs)))
        for h, s, x in regs:
            if h is None: c.bad('nohandler:%s' % nm, cf.where(x), 'opcode %s is installed without a handler function' % nm)
            if s is None or not any('RVM_' + s == k for k in names):
                c.bad('mnemonic:%s' % nm, cf.where(x), 'opcode %s is installed under the mnemonic %r' % (nm, s))
        if any(k[0] != ('c', 0) and path_to_case(cf, k, [x for h, s, x in regs]) for k in cases):
            c.bad('cond:%s' % nm, cf.where(regs[0][2]), 'opcode %s is not installed on every successful creation path' % nm)
    for v in H:
        if v not in byval: c.bad('alien:%d' % v, cf.where(H[v][0][2]), 'installation for the unnamed opcode %d' % v)
    # the installer itself
    f = m.fn('rvm_cpu_setophandler'); c.seen(f); c.ob('opcodes')
    ns = m.structs[CPU]['off']; cnt = allops.get('RVM_COUNT')
    fields = {'handler': ('arg', 3), 'name': ('arg', 2)}; got = {}
    for x in f.insts('store'):
        a = f.expr(x.ops[1])
        a, off = elem_off(a)
        if a[0] == 'idx':
            i = a[2]
            if not Prover(f, f.facts(x.b.id), lambda q: q == ('arg', 1)).le(i, ('c', cnt - 1)):
                c.bad('setop:bound', f.where(x), 'opcode table written at index %s without index < %d' % (pp(i), cnt))
            if i != ('arg', 1): c.bad('setop:index', f.where(x), 'opcode table written at index %s' % pp(i))
            got.setdefault({0: 'name', 8: 'handler'}.get(off, off), []).append((x, f.expr(x.ops[0])))
    for fld, want in fields.items():
        vs = got.get(fld, [])
        if not vs or any(v != want for x, v in vs): c.bad('setop:%s' % fld, f.where(), 'installing a handler does not store the given %s' % fld)
    c.atleast('opcodes', 80)

def stack_index(e):
    """index k of an address stack[k], or None"""
    while e[0] == 'fld': e = e[1]
    if e[0] == 'idx':
        b = e[1]
        if b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == CPU and b[1][3] == 'stack': return e[2], b[1][1]
    return None
def stack_base(e):
    while e[0] == 'fld': e = e[1]
    return e[1][1] if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == CPU and e[1][3] == 'stack' else None

def check_stack(c):
    c.rule('every read and write of the machine stack, and every stack-slot address handed to the program, is dominated by facts that entail slot < stack capacity (linear entailment with loop induction); the capacity recorded at creation equals the number of slots allocated')
    m = vmcore(c)
    for f in m.live():
        if not any(a for a in f.insts('load') if f.cls(a) == (CPU, 'stack')): continue
        c.seen(f)
        def need(x, idx, base, what):
            c.ob('stack accesses')
            P = prover(f, x)
            lim = None
            for q in all_facts(f, x.b.id): 
                pass
            ok = False
            for y in f.insts('load'):
                e = f.x(y)
                if f.cls(y) == (CPU, 'stacksize') and e[1][0] == 'fld' and e[1][1] == base and P.lt(idx, e) and unwrapped(f, x, idx): ok = True; break
            if not ok: c.bad('%s:%s' % (f.name, what), f.where(x), '%s at stack[%s] without a check that the slot is below the stack size' % (what, pp(idx)))
        for x in f.insts('store', 'call', 'load'):
            if x.op == 'load':
                r = stack_index(f.expr(x.ops[0]))
                if r: need(x, r[0], r[1], 'read')
            elif x.op == 'store':
                for k, o in ((1, 'write'), (0, 'address')):
                    e = f.expr(x.ops[k]); r = stack_index(e)
                    if r: need(x, r[0], r[1], o)
                    elif k == 1 and stack_base(e) is not None and e[0] != 'fld': need(x, ('c', 0), stack_base(e), o)
            elif x.callee in ir.MEMFN or (x.callee or '').startswith('llvm.mem'):
                r = stack_index(f.expr(x.ops[0]))
                if r: need(x, r[0], r[1], 'write')
                if x.callee not in ('r_memset', 'memset') and not x.callee.startswith('llvm.memset'):
                    r = stack_index(f.expr(x.ops[1]))
                    if r: need(x, r[0], r[1], 'read')
                if stack_base(f.expr(x.ops[0])) is not None and f.name not in ('rvm_cpu_create', 'rvm_cpu_destroy'): need(x, ('c', 0), stack_base(f.expr(x.ops[0])), 'write')
    c.atleast('stack accesses', 4)
    f = m.fn('rvm_cpu_create'); c.seen(f); c.ob('capacity agreement')
    sz = [f.expr(x.ops[0]) for x in f.insts('store') if f.cls(x) == (CPU, 'stacksize')]
    al = [x for x in f.insts('store') if f.cls(x) == (CPU, 'stack')]
    rs = m.structs[REG]['size']
    for x in al:
        v = f.expr(x.ops[0])
        if v[0] != 'call': c.bad('capacity', f.where(x), 'stack is not freshly allocated'); continue
        y = f.inst[v[3]]
        bytes_ = f.expr(y.ops[0]) if len(y.ops) == 1 else m.arith('mul', f.expr(y.ops[0]), f.expr(y.ops[1]))
        if not sz or any(m.arith('mul', s, ('c', rs)) != bytes_ for s in sz):
            c.bad('capacity', f.where(x), 'stack allocation of %s bytes does not match the recorded capacity %s' % (pp(bytes_), [pp(s) for s in sz]))
    if not al or not sz: c.bad('capacity', f.where(), 'stack or its capacity is not set at creation')
    for g in m.live():
        for x in g.insts('store'):
            if g.name != 'rvm_cpu_create' and g.cls(x)[0] == CPU and g.cls(x)[1] in ('stack', 'stacksize'):
                c.bad('capacity:%s' % g.name, g.where(x), '%s changes the stack or its capacity after creation' % g.name)

def unwrapped(f, x, idx):
    """the slot itself (not a slot plus an allowance, which may wrap around) is compared"""
    return any(q[0] in ('ult', 'ugt', 'ule', 'uge', 'eq') and idx in q[1:3] for q in all_facts(f, x.b.id)) or idx[0] == 'c'

def opcode_div(nm): return bool(nm) and nm[:2] in ('DI', 'DV', 'MO')

def check_div(c):
    c.rule('every integer division or remainder executed by an opcode handler is dominated by a test that its divisor is non-zero; the zero branch raises the division error and leaves the destination unwritten')
    m = c.mod('core', pipe='plain'); cf, H = handlers(m); s = Spec(m); ops, _ = opcodes(m)
    err = s.c.get('RVM_E_DIVZERO')
    for v, regs in sorted(H.items()):
        for h, nm, x0 in regs:
            if h is None: continue
            for x in h.insts('udiv', 'sdiv', 'urem', 'srem'):
                d = h.expr(x.ops[1])
                if d[0] == 'c':
                    if d[1] == 0: c.bad('%s:zero' % nm, h.where(x), 'division by constant zero')
                    continue
                c.seen(h); c.ob('divisions')
                if not Prover(h, h.facts(x.b.id)).nonzero(d): c.bad('%s:guard' % nm, h.where(x), 'opcode %s divides by %s without a zero test on every path' % (nm, pp(s.norm(d))))
                if x.op in ('sdiv', 'srem') and not any(q[0] == 'ne' and {q[1], q[2]} == {d, ('c', -1)} for q in h.facts(x.b.id)):
                    c.bad('%s:overflow' % nm, h.where(x), 'opcode %s divides the smallest value by -1 (which traps): the divisor -1 is not excluded' % nm)
                es = [y for y in h.insts('store') if h.cls(y) == (CPU, 'error')]
                if x.op in ('udiv', 'sdiv', 'urem', 'srem') and opcode_div(nm) and not any(h.expr(y.ops[0]) == ('c', err) for y in es): c.bad('%s:error' % nm, h.where(), 'opcode %s does not raise the division-by-zero error' % nm)
                for y in es:
                    if h.expr(y.ops[0]) != ('c', err): continue
                    if not any(q[0] == 'eq' and q[2] == ('c', 0) and q[1] == d for q in h.facts(y.b.id)):
                        c.bad('%s:errcond' % nm, h.where(y), 'opcode %s raises the division error although the divisor may be non-zero' % nm)
                    if any(st.b.id in h.reach([y.b.id]) or h.idominst(st, y) for st, _ in reg1_store(s, h)):
                        c.bad('%s:errwrite' % nm, h.where(y), 'opcode %s writes its destination although the divisor is zero' % nm)
    c.atleast('divisions', 4)

def check_errors(c):
    c.rule('every store of a machine error code by an opcode handler is followed on all paths by the abort request and a normal return: no handler path that raised an error reaches process termination, and the interpreter loops stop on abort and report failure exactly when an error is set')
    m = vmcore(c); cf, H = handlers(m)
    hs = {h.name: h for regs in H.values() for h, _, _ in regs if h is not None}
    for h in list(hs.values()) + [m.fn('rvm_cpu_abort')]:
        es = [x for x in h.insts('store') if h.cls(x) == (CPU, 'error')]
        if not es: continue
        c.seen(h)
        ab = [x for x in h.insts('store') if h.cls(x) == (CPU, 'abort') and h.expr(x.ops[0])[0] == 'c' and h.expr(x.ops[0])[1] != 0]
        for e in es:
            c.ob('error raises')
            r = h.reach([e.b.id])
            for b in r:
                t = h.blocks[b].insts[-1]
                calls = [y for y in h.blocks[b].insts if y.iscall and y.callee in ('__assert_fail', 'abort', 'exit', '_exit', '__assert')]
                for y in calls: c.bad('%s:terminate' % h.name, h.where(y), '%s terminates the process after raising a machine error instead of returning to the interpreter' % h.name)
            pre = any(h.idominst(a, e) for a in ab)
            if not pre:
                q = every_path(h, ab, start=e)
                if q is not None: c.bad('%s:noabort' % h.name, h.where(e), '%s sets a machine error without requesting the stop of the program' % h.name)
            v = h.expr(e.ops[0])
            if v == ('c', 0): c.bad('%s:zeroerror' % h.name, h.where(e), '%s raises error code 0' % h.name)
    c.atleast('error raises', 8)
    for n in ('rvm_cpu_exec', 'rvm_cpu_exec_debug'):
        f = m.fn(n); c.seen(f); c.ob('interpreter loops')
        ind = [x for x in f.insts('call') if x.callee is None]
        c.need(ind, 'no dispatch in ' + n)
        # cleared before the first dispatch
        for fld in ('abort', 'error'):
            z = [x for x in f.insts('store') if f.cls(x) == (CPU, fld) and f.expr(x.ops[0]) == ('c', 0)]
            if not any(f.dom(x.b.id, ind[0].b.id) and not f.in_loop(x.b.id) for x in z):
                c.bad('%s:init:%s' % (n, fld), f.where(), '%s does not clear the %s state before executing' % (n, fld))
            for x in f.insts('store'):
                if f.cls(x) == (CPU, fld) and (f.in_loop(x.b.id) or not f.dom(x.b.id, ind[0].b.id)): c.bad('%s:set:%s' % (n, fld), f.where(x), '%s overwrites the %s state set by the program' % (n, fld))
        # after the dispatch, re-dispatching requires abort == 0
        okloop = True
        for (a, b) in loop_exit_edges(f, ind[0]):
            pass
        if not abort_tested(f, ind): c.bad('%s:stop' % n, f.where(ind[0]), '%s can execute another instruction after a stop request' % n)
        for e in f.exits():
            check_result(c, m, f, e, n)

def loop_exit_edges(f, x): return []

def abort_tested(f, ind):
    """every cycle through the dispatch passes an edge establishing abort == 0 loaded after it"""
    for x in ind:
        good = set()
        for b in f.blocks:
            if not f.reachable(b.id): continue
            for t in b.succ:
                for q in f.edge_facts(b.id, t):
                    if q[0] == 'eq' and q[2] == ('c', 0) and q[1][0] == 'ld' and q[1][1][0] == 'fld' and q[1][1][2] == CPU and q[1][1][3] == 'abort' and q[1][2] != ('entry',):
                        good.add((b.id, t))
        # search a path from x back to x avoiding good edges
        seen = set(); st = [x.b.id]; first = True
        while st:
            b = st.pop()
            for t in f.blocks[b].succ:
                if (b, t) in good: continue
                if t == x.b.id: return False
                if t not in seen: seen.add(t); st.append(t)
    return True

def check_result(c, m, f, e, n):
    """-1 exactly when cpu->error != 0"""
    v = f.expr(e.ops[0])
    def iserr(q): return q[1][0] == 'ld' and q[1][1][0] == 'fld' and q[1][1][2] == CPU and q[1][1][3] == 'error' and q[2] == ('c', 0)
    def judge(val, facts, where):
        if val[0] == 'sel':
            cnd = val[1]
            if cnd[0] == 'cmp' and iserr(('x', cnd[2], cnd[3])):
                a, b = (val[2], val[3]) if cnd[1] == 'ne' else (val[3], val[2])
                return a == ('c', -1) and b == ('c', 0)
        if val[0] == 'sext1' and val[1][0] == 'cmp' and iserr(('x', val[1][2], val[1][3])): return val[1][1] == 'ne'
        es = {q[0] for q in facts if q[0] in ('eq', 'ne') and iserr(q)}
        if val == ('c', 0): return 'eq' in es
        if val[0] == 'c' and val[1] < 0: return 'ne' in es
        return False
    if v[0] == 'phi' and v[1] == f.name:
        x = f.inst[v[2]]
        for (o, b) in x.ops:
            if not f.reachable(b): continue
            if not judge(f.expr(o), f.facts(b) + f.edge_facts(b, x.b.id), None): c.bad('%s:result' % n, f.where(e), '%s returns %s where the error state is not established accordingly' % (n, pp(f.expr(o))))
    elif not judge(v, f.facts(e.b.id), None): c.bad('%s:result' % n, f.where(e), '%s returns %s, not the error state' % (n, pp(v)))

def check_swi(c):
    c.rule('every read of the software-interrupt table list by a dispatching handler is dominated by index < number of registered tables; a register content is called as native code only under the native-handler type tag, entered as code only under the function tag, dispatched as interrupt only under the interrupt tag')
    m = c.mod('core', pipe='plain'); cf, H = handlers(m); ops, _ = opcodes(m); s = Spec(m)
    k = fe.load_consts(['rvm/rvmreg.h'])
    for v, regs in sorted(H.items()):
        for h, nm, _ in regs:
            if h is None: continue
            ind = [x for x in h.insts('call') if x.callee is None]
            if not ind: continue
            c.seen(h)
            for x in ind:
                c.ob('indirect dispatches')
                e = h.expr(x.d['callee'])
                r = s.norm(e)
                if r == ('R', 1) or (r[0] == 'ld' and s.reg(r[1])):
                    ok = any(q[0] == 'eq' and q[2] == ('c', k['RVM_DTYPE_OPHANDLER']) and typeof(q[1]) for q in h.facts(x.b.id))
                    if not ok: c.bad('%s:native' % nm, h.where(x), '%s calls a register content as native code without checking its type tag' % nm)
                    continue
                # table dispatch: find the index of the table list inside the callee expression
                n = 0
                for q in subexprs(e):
                    if q[0] == 'idx' and mentions(q[1], lambda t: t[0] == 'fld' and t[2] == CPU and t[3] == 'switables') and not any(mentions(z, lambda t: t[0] == 'fld' and t[2] == CPU and t[3] == 'switables') for z in [q[2]]):
                        n += 1
                idx = table_index(e)
                if not idx: c.bad('%s:callee' % nm, h.where(x), '%s dispatches through %s, which is not a registered table entry' % (nm, pp(e))); continue
                i, arr = idx
                c.ob('table index bounds')
                if not any(q[0] in ('ult', 'ugt', 'ule', 'uge') and bounded(q, e) for q in h.facts(x.b.id)):
                    c.bad('%s:table' % nm, h.where(x), '%s uses interrupt table %s without checking it against the number of registered tables' % (nm, pp(i)))
    c.atleast('table index bounds', 2)
    # RVM_CALL: entering code / interrupt dispatch by tag
    h = H[ops['RVM_CALL']][-1][0]; c.seen(h)
    for x in h.insts('store'):
        if s.reg(h.expr(x.ops[1])) == ('r', s.c['PC']):
            c.ob('indirect dispatches')
            if not any(q[0] == 'eq' and q[2] == ('c', k['RVM_DTYPE_FUNCTION']) and typeof(q[1]) for q in h.facts(x.b.id)):
                c.bad('CALL:function', h.where(x), 'CALL enters code at a register content without checking its type tag')
    for x in h.insts('call'):
        if x.callee is None and table_index(h.expr(x.d['callee'])):
            if not any(q[0] == 'eq' and q[2] == ('c', k['RVM_DTYPE_SWIID']) and typeof(q[1]) for q in h.facts(x.b.id)):
                c.bad('CALL:swiid', h.where(x), 'CALL dispatches an interrupt without checking the type tag')

def typeof(e):
    while e[0] in ('zx', 'trunc'): e = e[2]
    if e[0] == 'and':
        for x in e[1:]:
            if typeof(x): return True
        return False
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'type'

def table_index(e):
    """index used on the interrupt table list inside a callee expression"""
    for q in subexprs(e):
        if q[0] == 'idx' and q[1][0] == 'ld' and q[1][1][0] == 'fld' and q[1][1][3] == 'data' and mentions(q[1], lambda t: t[0] == 'fld' and t[2] == CPU and t[3] == 'switables'):
            return q[2], q[1]
    return None

def bounded(q, idx):
    """q states table-number < length and the table number is the one used in idx"""
    p, a, b = q
    if p in ('ugt', 'uge'): p, a, b = {'ugt': 'ult', 'uge': 'ule'}[p], b, a
    if p != 'ult': return False
    while b[0] in ('zx', 'trunc'): b = b[2]
    if not (b[0] == 'ld' and b[1][0] == 'fld' and b[1][3] == 'len' and mentions(b, lambda t: t[0] == 'fld' and t[2] == CPU and t[3] == 'switables')): return False
    return mentions(idx, lambda t: t == a)


ASM = ('asm', 'asma', 'asmp', 'asms', 'asmf', 'asml', 'asmb', 'asmd', 'asm2')

class AsmFlow(Flow):
    """atoms 'operand k names the data register' independent of masking/truncation"""
    def __init__(s, da, fn, **kw): s.da = da; Flow.__init__(s, fn, **kw)
    def cmp(s, p, a, b):
        if p in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if y == ('c', s.da):
                    z = x
                    while True:
                        if z[0] in ('zx', 'trunc'): z = z[2]
                        elif z[0] == 'and' and z[1][0] == 'c' and z[1][1] in (15, 255, 65535): z = z[2]
                        elif z[0] == 'and' and z[2][0] == 'c' and z[2][1] in (15, 255, 65535): z = z[1]
                        else: break
                    if z[0] == 'arg':
                        v = s.b.var(('isda', z[1])); return v if p == 'eq' else s.b.NOT(v)
        return Flow.cmp(s, p, a, b)

def final_value(f, st, fld, cls=None):
    """expressions stored last in field fld of *arg0 on return paths"""
    cls = cls or (st, fld); out = set()
    for e in f.exits():
        loc = ('fld', ('arg', 0), st, fld, f.m.field(st, fld))
        out.add(f.load_at(loc, cls, f.ver_before(cls, e)))
    return out

def low(e):
    while e[0] in ('trunc', 'zx'): e = e[2]
    return e
def lowbits(fl, e, n): return [fl.xbit(e, k) for k in range(n)]

def check_asm(c):
    c.rule('bit-level value graph of every instruction constructor (conditional and unconditional): operand nibbles, opcode byte, interrupt number and condition are the given ones, and the "load data register" bit is set exactly when one of the three operands names the data register')
    names = open(fe.HERE + '/boundaries.txt').read().split()
    ub = tuple(n for n in names if n.startswith('rvm_cond_asm'))
    m = c.mod('core', pipe='plain', unbound=ub)
    k = fe.load_consts(['rvm/rvmcpu.h']); DA = k['DA']; ob = k['RVM_OPERAND_BITS']; pb = k['RVM_OPCODE_BITS']
    OPOFF = next(off for n, t, off in m.structs[INS]['el'] if n == 'op1')
    for a in ASM:
        for cond in (True, False):
            f = m.fn('rvm_cond_' + a if cond else 'rvm_' + a); c.seen(f)
            sh = 2 if cond else 1      # arg0 is the result object
            fl = AsmFlow(DA, f, loc=('fld', ('arg', 0), INS, 'op1', OPOFF), cls=(INS, 'op1'), nbits=3 * ob + 1)
            c.need(fl.loopfree, '%s contains a loop' % f.name)
            bits, tot = fl.final_bits(); B = fl.b
            c.ob('encoded fields', 7)
            for i in range(3):
                src = ('arg', sh + 1 + i)
                if any(bits[i * ob + j] != fl.xbit(src, j) for j in range(ob)):
                    c.bad('%s:op%d' % (f.name, i + 1), f.where(), '%s does not encode its operand %d in the operand field %d' % (f.name, i + 1, i + 1))
            want = B.OR(*[B.var(('isda', sh + 1 + i)) for i in range(3)])
            if bits[3 * ob] != want: c.bad('%s:da' % f.name, f.where(), '%s marks the instruction as using its data when %s' % (f.name, B.show(bits[3 * ob])))
            for fld, n, src, off in (('opcode', 8, ('arg', sh), 0), ('swi', 16, ('arg', sh), pb), ('cond', 8, ('arg', 1) if cond else ('c', 0), 0)):
                vs = final_value(f, INS, fld)
                for v in vs:
                    if lowbits(fl, v, n) != [fl.xbit(src, j + off) for j in range(n)]:
                        c.bad('%s:%s' % (f.name, fld), f.where(), '%s encodes %s as the %s' % (f.name, pp(v), fld))
    c.atleast('encoded fields', 126)

SETTERS = {'unsigned': ('UNSIGNED', 0, None), 'signed': ('SIGNED', 0, None), 'boolean': ('BOOLEAN', 0, 'bool'), 'double': ('DOUBLE', 0, None), 'pointer': ('POINTER', 0, None),
           'ophandler': ('OPHANDLER', 0, None), 'prophandler': ('PROPHANDLER', 0, None), 'string': ('STRING', 1, None), 'array': ('ARRAY', 1, None),
           'map': ('MAP', 1, None), 'jsobject': ('MAP', 1, None), 'harray': ('HARRAY', 1, None), 'swi': ('SWIID', 0, None), 'undef': ('UNDEF', 0, 'none'), 'pair': ('PAIR', 0, 'none'), 'strptr': ('STRPTR', 0, None)}
ASMDATA = {'asm': ('UNSIGNED', None), 'asma': ('STRPTR', None), 'asmp': ('POINTER', None), 'asms': ('SWIID', None), 'asmf': ('FUNCTION', None), 'asml': ('SIGNED', None), 'asmb': ('BOOLEAN', 'bool'), 'asmd': ('DOUBLE', None), 'asm2': ('PAIR', 'none')}

def check_setters(c):
    c.rule('value graph of every register setter / instruction-data constructor: on return the type tag, the managed-object flag and the stored value are exactly those of the named type')
    names = open(fe.HERE + '/boundaries.txt').read().split()
    ub = tuple(n for n in names if n.startswith(('rvm_cond_asm', 'rvm_reg_set', 'rvm_reg_clr')))
    m = c.mod('core', pipe='plain', unbound=ub); k = fe.load_consts(['rvm/rvmreg.h'])
    todo = [('rvm_reg_set' + n, t, fl, mode, 1) for n, (t, fl, mode) in SETTERS.items()]
    todo += [('rvm_' + a, t, 0, mode, 5) for a, (t, mode) in ASMDATA.items()] + [('rvm_cond_' + a, t, 0, mode, 6) for a, (t, mode) in ASMDATA.items()]
    for name, t, robj, mode, arg in todo:
        f = m.fn(name); c.seen(f); c.ob('tagged constructors')
        if not f.exits(): c.bad(name + ':noreturn', f.where(), '%s never returns' % name)
        def last(off):
            """final value at byte offset off of *arg0"""
            out = set()
            for e in f.exits(): out.add(byte_value(m, f, off, e))
            return out
        ty = last(m.field(REG, 'type'))
        if ty != {('c', k['RVM_DTYPE_' + t])}: c.bad(name + ':type', f.where(), '%s leaves type tag %s, expected %s' % (name, [pp(x) for x in ty], t))
        for v in last(m.field(REG, 'flags')):
            w = fold(v)
            if w != ('c', k['RVM_INFOBIT_ROBJECT'] if robj else 0):
                c.bad(name + ':flags', f.where(), '%s leaves flags %s: a managed object must be marked and nothing else' % (name, pp(v)))
        if mode == 'none': continue
        for v in last(0):
            ok = v == ('arg', arg)
            if mode == 'bool':
                ok = (v[0] == 'sel' and v[1][0] == 'cmp' and v[1][2] == ('arg', arg) and v[1][3] == ('c', 0) and (v[1][1], v[2], v[3]) in (('ne', ('c', 1), ('c', 0)), ('eq', ('c', 0), ('c', 1)))) or \
                     (v[0] == 'zx' and v[1] == 'i1' and v[2][0] == 'cmp' and v[2][1] == 'ne' and v[2][2] == ('arg', arg) and v[2][3] == ('c', 0)) or bool_phi(f, v, arg)
            if not ok: c.bad(name + ':value', f.where(), '%s stores %s, not its argument' % (name, pp(v)))
    c.atleast('tagged constructors', 30)

def fold(w):
    if w[0] in ('trunc', 'zx'):
        x = fold(w[2])
        return ('c', x[1] & ((1 << int(w[1][1:])) - 1)) if x[0] == 'c' else (w[0], w[1], x)
    if w[0] in ('or', 'and'):
        a, b = fold(w[1]), fold(w[2])
        if a[0] == 'c' and b[0] == 'c': return ('c', a[1] | b[1] if w[0] == 'or' else a[1] & b[1])
    return w

def bool_phi(f, v, arg):
    if v[0] != 'phi': return False
    x = f.inst[v[2]]
    for (o, b) in x.ops:
        e = f.expr(o); fs = f.facts(b) + f.edge_facts(b, x.b.id)
        w = {('c', 1): 'ne', ('c', 0): 'eq'}.get(e)
        if w is None or (w, ('arg', arg), ('c', 0)) not in fs: return False
    return True

def byte_value(m, f, off, e, depth=0):
    """value last written at byte offset off of the object *arg0 before instruction e (straight-line or merged)"""
    b = e.b; k = e.k
    seen = 0
    while True:
        for y in reversed(b.insts[:k]):
            if y.op == 'store':
                a = f.expr(y.ops[1])
                if m.root(a) == ('arg', 0) and addr_off(a) == off: return resolve(m, f, y, f.expr(y.ops[0]), off)
            elif y.iscall and (y.callee in ('r_memset', 'memset') or (y.callee or '').startswith('llvm.memset')):
                d = f.expr(y.ops[0]); n = f.expr(y.ops[2])
                if m.root(d) == ('arg', 0) and addr_off(d) <= off and n[0] == 'c' and addr_off(d) + n[1] > off: return f.expr(y.ops[1])
            elif y.iscall and y.callee and not y.callee.startswith('llvm.') and y.callee not in ('r_strlen',) and any(o[0] == 'v' and m.root(f.expr(o)) == ('arg', 0) for o in y.ops):
                return ('unknown', y.callee)
        ps = [p for p in b.pred if f.reachable(p)]
        if not ps or depth > 8: return ('unknown',)
        if len(ps) == 1: b = f.blocks[ps[0]]; k = len(b.insts); continue
        vs = {byte_value(m, f, off, Pseudo(f.blocks[p]), depth + 1) for p in ps}
        return vs.pop() if len(vs) == 1 else ('mixed',) + tuple(sorted(vs, key=repr))

class Pseudo:
    def __init__(s, b): s.b = b; s.k = len(b.insts)

def addr_off(a):
    o = 0
    while a[0] in ('fld', 'idx'):
        if a[0] == 'fld': o += a[4]
        elif a[2][0] == 'c': o += a[2][1] * a[3]
        else: return -1
        a = a[1]
    return o

def resolve(m, f, y, v, off):
    """a read-modify-write of the same byte: substitute the previous value"""
    def sub(e):
        if not isinstance(e, tuple): return e
        if e[0] == 'ld' and m.root(e[1]) == ('arg', 0) and addr_off(e[1]) == off: return byte_value(m, f, off, y)
        return tuple(sub(x) if isinstance(x, tuple) else x for x in e)
    return sub(v)

CHECKS = {'V01': check_values, 'V02': check_flags, 'V03': check_branches, 'V04': check_optable, 'V05': check_stack, 'V06': check_div, 'V07': check_swi, 'V08': check_errors, 'V09': check_asm, 'V10': check_setters}
