"""Code the RPA compiler emits: each construct's instructions are taken from the generator (interpreted, link.py) and run as a stack program."""
import ir
from ir import AnalysisBroken
from explore import St, U
from link import Link, atom, add, scale, C, parts, place, PTR, P
from common import str_const

R0, R1, R3, REC, LOO, OTP, TOP, FP, SP, LR, PC, DA, XX = 0, 1, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
NAMES = {0: 'R0', 1: 'R1', 2: 'R2', 3: 'R3', REC: 'R_REC', LOO: 'R_LOO', OTP: 'R_OTP', TOP: 'R_TOP', LR: 'LR'}

def masked(a, n):
    if a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1 and a[2][0][0][0] == 'and': return masked(a[2][0][0][1], a[2][0][0][2] & n)
    return atom('and', a, n)

class Gen(Link):
    FORKS = True
    """the code generator is a boundary: what is added to the code is recorded"""
    def __init__(s, m):
        super().__init__(m)
        fo = m.field
        s.sz['exprs'] = m.structs['rpa_ruledef_s']['size']
        s.sub[('co', fo('rpa_compiler_s', 'cg'))] = 'cg'
        s.sub[('co', fo('rpa_compiler_s', 'expressions'))] = 'exprs'
        s.sub[('co', fo('rpa_compiler_s', 'ruleprefs'))] = 'prefs'
        s.site = 0
    def boundary(s, n):
        w = s.m.fns[n].where().split(':')[0]
        return not w.endswith(('rpacompiler.c', 'rpacompiler.h')) or n == 'rpa_compiler_addblob' or n.startswith('rpa_compiler_rulepref')
    def fresh(s, st, *k):
        n = st.mem.get(('fresh',), 0); st.mem[('fresh',)] = n + 1
        return atom(*k, n)
    def base(s, f, x, st, v):
        if x.op == 'store':
            p = place(s.glob(v[1]))
            if p and p[0] == ('exprs',) and p[1] == C(s.alen): st.mem[('len', 'exprs')] = v[0]; return U
        if x.op == 'and' and x.t != 'i1':
            a, b = v
            if a[0] == 'c': a, b = b, a
            if a[0] == 'l' and b[0] == 'c': return masked(a, b[1])
        if x.op == 'mul' and v[0][0] == v[1][0] == 'l': return atom('mul', *sorted(v, key=repr))
        return super().base(f, x, st, v)
    def load(s, f, x, st, a):
        if place(a) is None and parts(a) is not None: return atom('ld', '?', a)      # nothing is stored through such an address
        return super().load(f, x, st, a)
    def put(s, st, kind, *e):
        n = s.length(st, 'code')
        st.mem[('len', 'code')] = add(n, C(1))
        s.event(st, kind, n, *e)
        return n
    def word(s, st, a):
        w = s.snapshot(st, a, 'code')
        return w[1:] if isinstance(w, tuple) and w and w[0] == 'ins' else None
    def inst(s, f, x, st, v):
        if x.op in ('zext', 'sext') and v[0][0] == 'cmp':
            out = []
            for t in (True, False): out += [(q, C(int(t) if x.op == 'zext' else -int(t))) for q in s.cond(f, v[0], t, st.copy())]
            return out
        if not x.iscall: return U
        n = x.callee or ''; v = [s.glob(w) for w in v]
        if n == 'r_harray_lookup':
            q = st.copy(); w = atom('n', 'pref')
            return [(st, w), (q, C(-1))]
        if n in ('r_harray_slot', 'r_harray_get'): return atom('addr', ('pref',))
        if n in ('rvm_asm', 'rvm_asml', 'rvm_asms', 'rvm_asm2', 'rvm_asmd', 'rvm_asmp'):
            p = place(v[0]); s.calls += 1
            if p: st.mem[('m', p[0], 'ins')] = ('ins', n) + tuple(v[1:])
            return U
        if n == 'rvm_codegen_addins': return s.put(st, 'ins', s.word(st, v[1]))
        if n == 'rvm_codegen_index_addrelocins': return s.put(st, 'rel', s.word(st, v[3]), v[1], v[2])
        if n in ('rvm_codegen_addrelocins', 'rvm_codegen_addrelocins_s'): return s.put(st, 'rel', s.word(st, v[-1]), v[1], s.fresh(st, 'lab'))
        if n == 'rvm_codegen_getcodesize': return s.length(st, 'code')
        if n in ('rvm_codegen_addlabel_default', 'rvm_codegen_addlabel_default_s'):
            w = s.fresh(st, 'lab'); s.event(st, 'label', s.length(st, 'code'), w); return w
        if n in ('rvm_codegen_addlabel', 'rvm_codegen_addlabel_s'):
            w = s.fresh(st, 'lab'); s.event(st, 'label', v[-1], w); return w
        if n in ('rvm_codegen_invalid_addlabel', 'rvm_codegen_invalid_addlabel_s', 'rvm_codemap_lookupadd', 'rvm_codemap_lookupadd_s'): return s.fresh(st, 'lab')
        if n == 'rvm_codegen_redefinelabel_default': s.event(st, 'label', s.length(st, 'code'), v[1]); return v[1]
        if n == 'rvm_codegen_redefinelabel': s.event(st, 'label', v[2], v[1]); return v[1]
        if n == 'rvm_codegen_replaceins': s.event(st, 'replace', v[1], s.word(st, v[2])); return v[1]
        if n in ('rpa_compiler_addblob', 'rpa_compiler_addblob_s', 'rvm_codegen_adddata_s', 'rvm_codegen_adddata'): return s.fresh(st, 'blob')
        if n in ('rpa_compiler_rulepref_lookup', 'rpa_compiler_rulepref_lookup_s'):
            q = st.copy()
            return [(st, atom('addr', ('pref',))), (q, C(0))]
        if n == 'r_array_add' and place(v[0]) and place(v[0])[0] == ('exprs',):
            i = s.length(st, 'exprs'); p = place(v[1])
            s.grow(st, 'exprs', add(i, C(1)))
            for k, w in list(st.mem.items()):
                if p and k[0] == 'm' and k[1] == p[0] and k[2] not in ('ins', 'zero', 'text'):
                    st.mem[('m', ('data', 'exprs'), add(scale(i, s.sz['exprs']), add(k[2], p[1], -1)))] = w
            z = st.mem.get(('m', p[0], 'zero')) if p else None
            for o in s.m.structs['rpa_ruledef_s']['off']:
                k = ('m', ('data', 'exprs'), add(scale(i, s.sz['exprs']), C(int(o))))
                if k not in st.mem: st.mem[k] = z if z == C(0) else atom('unset', int(o))
            return i
        if n in ('r_array_removelast',) and place(v[0]) and place(v[0])[0] == ('exprs',):
            st.mem[('len', 'exprs')] = add(s.length(st, 'exprs'), C(-1)); return U
        return super().inst(f, x, st, v)

# ---- the stack program
class Prog:
    def __init__(s, evs, entry, end, hole, ops, swi, size0):
        s.at = {}; s.lab = {}; s.ops = ops; s.swi = swi; s.hole = hole; s.end = end; s.entry = entry
        for e in evs:
            if e[0] in ('ins', 'rel'): s.at[e[1]] = e
            elif e[0] == 'label': s.lab[e[2]] = e[1]
            elif e[0] == 'replace' and e[1] in s.at: s.at[e[1]] = ('ins', e[1], e[2])
            elif e[0] == 'replace': s.at[e[1]] = ('ins', e[1], None)

NEG, ZER, POS = 1, 2, 4
class Stop(Exception): pass

class Run:
    """all runs of the code of one construct; values are linear terms over atoms of known sign"""
    def __init__(s, prog, kind, callee):
        s.p = prog; s.kind = kind; s.callee = callee; s.out = []; s.errs = {}; s.steps = 0; s.holes = 0
    def bad(s, k, msg): s.errs.setdefault(k, msg)
    def sign(s, st, v):
        p = parts(v)
        if p is None: return NEG | ZER | POS
        if not p[1]: return NEG if p[0] < 0 else ZER if p[0] == 0 else POS
        if p[0] == 0 and len(p[1]) == 1:
            (t, c), = p[1].items()
            g = st['sg'].get(t, 7)
            return g if c > 0 else (g & ZER) | (POS if g & NEG else 0) | (NEG if g & POS else 0)
        lo = p[0] + sum(c * (1 if st['sg'].get(t, 7) == POS else 0) for t, c in p[1].items())
        if all(c > 0 and not st['sg'].get(t, 7) & NEG for t, c in p[1].items()) and lo > 0: return POS
        return 7
    def split(s, st, v):
        """the states in which v is negative, zero, positive"""
        g = s.sign(st, v); r = []
        for b in (NEG, ZER, POS):
            if not g & b: continue
            q = s.copy(st); p = parts(v)
            if p is not None and p[0] == 0 and len(p[1]) == 1:
                (t, c), = p[1].items()
                if b == ZER: s.subst(q, t, C(0))
                else: q['sg'][t] = b if c > 0 else {NEG: POS, POS: NEG}[b]
            r.append((b, q))
        return r
    def subst(s, st, t, w):
        def f(v):
            p = parts(v)
            if p is None or t not in p[1]: return v
            c = p[1][t]
            return add(add(v, atom(*t), -c), scale(w, c))
        st['r'] = {k: f(v) for k, v in st['r'].items()}
        st['s'] = tuple(f(v) for v in st['s'])
        if st['f'] is not None: st['f'] = f(st['f'])
        st['ev'] = tuple((e[0],) + tuple(f(v) if isinstance(v, tuple) and v and v[0] in 'cl' else v for v in e[1:]) for e in st['ev'])
    def copy(s, st): return {'r': dict(st['r']), 's': st['s'], 'f': st['f'], 'sg': dict(st['sg']), 'ev': st['ev'], 'n': st['n']}
    def fresh(s, st, k, g):
        # names are reused once nothing holds them: the number of states stays finite
        used = repr((st['r'], st['s'], st['f'], st['ev']))
        n = 0
        while repr((k, n)) in used: n += 1
        st['sg'][(k, n)] = g
        return atom(k, n)
    def key(s, pc, st): return repr((pc, sorted(st['r'].items()), st['s'], st['f'], st['n'], sorted((t, g) for t, g in st['sg'].items() if repr(t) in repr((st['r'], st['s'], st['f'], st['ev']))), st['ev']))
    def go(s, pc, st):
        seen = set(); work = [(pc, st)]
        while work and len(seen) < 4000:
            pc, st = work.pop()
            k = s.key(pc, st)
            if k in seen: continue
            seen.add(k); s.steps += 1
            try: work += s.step(pc, st)
            except Stop: pass
        if work and not s.errs: raise AnalysisBroken('the code of %s is not followed to its end' % s.kind)
        if not s.out: s.bad('endless', 'the code never ends')
        return s
    def reg(s, st, r, p1):
        if r == DA: return p1
        if r == XX: return U
        return st['r'].get(r, U)
    def jump(s, pc, e):
        if e[0] == 'rel':
            if e[4] in s.p.lab: return s.p.lab[e[4]]
            return ('out', e[4])
        return add(pc, e[2][5])
    def branch(s, pc, e, taken, other):
        t = s.jump(pc, e); r = [(t, q) for q in taken] + [(add(pc, C(1)), q) for q in other]
        return r
    def step(s, pc, st):
        p = s.p
        if pc[0] == 'out': s.out.append(('out', st, pc[1])); return []
        if pc == p.end: s.out.append(('end', st, None)); return []
        if pc == p.hole:
            s.holes += 1
            return s.callee.hole(s, st)
        e = p.at.get(pc)
        if e is None: s.bad('target', 'control leaves the code of the construct: it goes to a place that is neither an instruction of it, its body, nor its end'); raise Stop
        if e[2] is None: s.bad('word', 'an instruction that is emitted is not known'); raise Stop
        rel = e[0] == 'rel'
        kind, op, r1, r2, r3, p1 = (e[2] + (U,))[:6]
        e = (e[0], e[1], (kind, op, r1, r2, r3, p1)) + tuple(e[3:])
        if rel: p1 = ('blob', e[4]) if e[3] == s.callee.BLOB else p1
        if op[0] != 'c': s.bad('word', 'an instruction that is emitted is not known'); raise Stop
        o = p.ops.get(op[1]); r1, r2, r3 = r1[1], r2[1], r3[1]
        if op[1] & 255 == p.swi: o = p.ops.get(('swi', op[1] >> 8))
        nx = add(pc, C(1)); R = st['r']
        if len(st['s']) > 40: s.bad('stack', 'the stack grows without bound'); raise Stop
        def put(r, v, flags=False):
            R[r] = v
            if flags: st['f'] = v
        if o == 'B' and s.jump(pc, e) == pc: s.bad('endless', 'an instruction branches to itself'); raise Stop
        if o == 'B': return [(s.jump(pc, e), st)]
        if o == 'BL': return s.call(s.jump(pc, e), nx, st)
        if o in COND or o and o.startswith('BX') and o[1:] in COND2:
            want = COND.get(o) if o in COND else COND2[o[1:]]
            if st['f'] is None: s.bad('flags', 'a branch depends on a status nothing has set'); raise Stop
            yes, no = [], []
            for b, q in s.split(st, st['f']): (yes if b & want else no).append(q)
            if o in COND: return s.branch(pc, e, yes, no)
            for q in yes: s.ret(q, r1)
            return [(nx, q) for q in no]
        if o == 'BX': s.ret(st, r1); return []
        if o == 'PUSH': st['s'] += (s.reg(st, r1, p1),); return [(nx, st)]
        if o == 'POP':
            s.pop(st, r1); return [(nx, st)]
        if o == 'PUSHM':
            for r in range(16):
                if p1[0] == 'c' and p1[1] >> r & 1: st['s'] += (R.get(r, U),)
            return [(nx, st)]
        if o == 'POPM':
            for r in range(15, -1, -1):
                if p1[0] == 'c' and p1[1] >> r & 1: s.pop(st, r)
            return [(nx, st)]
        if o in ('MOV', 'MOVS'): put(r1, s.reg(st, r2, p1), o == 'MOVS'); return [(nx, st)]
        if o == 'CLR': put(r1, C(0)); return [(nx, st)]
        if o in ('ADD', 'ADDS', 'SUB', 'SUBS'):
            put(r1, add(s.reg(st, r2, p1), s.reg(st, r3, p1), 1 if o[:3] == 'ADD' else -1), o.endswith('S')); return [(nx, st)]
        if o in ('INC', 'DEC'):
            put(r1, add(R.get(r1, U), s.reg(st, r2, p1), 1 if o == 'INC' else -1)); return [(nx, st)]
        if o == 'CMP': st['f'] = add(s.reg(st, r1, p1), s.reg(st, r2, p1), -1); return [(nx, st)]
        if o == 'CMN': st['f'] = add(s.reg(st, r1, p1), s.reg(st, r2, p1)); return [(nx, st)]
        if o == 'NOP': return [(nx, st)]
        if o == 'RPA_MATCHBITMAP':
            q = s.copy(st); q['r'][R0] = C(-1); q['f'] = C(-1); st['f'] = C(1)
            return [(nx, st), (nx, q)]
        if o == 'RPA_CHECKCACHE':
            if s.reg(st, r2, p1) != s.callee.T0: s.bad('cache-top', 'the cache is asked for another position than the one the rule starts at')
            st['ev'] += (('key', s.reg(st, r1, p1)),)
            a, b = s.copy(st), s.copy(st)
            R[R0] = C(0); st['f'] = C(0)
            n = s.fresh(a, 'hit', POS); a['r'][R0] = n; a['f'] = n; a['r'][TOP] = add(a['r'][TOP], n); a['r'][REC] = atom('cached'); a['ev'] += (('hit',),)
            b['r'][R0] = C(-1); b['f'] = C(-1); b['ev'] += (('hit',),)
            return [(nx, st), (nx, a), (nx, b)]
        if o == 'RPA_SETCACHE':
            st['ev'] += (('cache', s.reg(st, r1, p1), R.get(OTP), R.get(R0), s.reg(st, r2, p1), s.reg(st, r3, p1), R.get(REC)),); return [(nx, st)]
        if o in ('RPA_EMITSTART', 'RPA_EMITEND'):
            v = s.reg(st, r1, p1)
            st['ev'] += ((o, v, s.reg(st, r2, p1)) + ((s.reg(st, r3, p1), R.get(TOP)) if o[-1] == 'D' else ()),)
            R[REC] = add(R.get(REC), C(1)); return [(nx, st)]
        if o == 'RPA_ABORT': s.out.append(('abort', st, s.reg(st, r2, p1))); return []
        if o and o.startswith('RPA_MATCH') and o.endswith('_NAN'):
            q = s.copy(st); n = C(1)
            q['r'][R0] = C(-1); q['f'] = C(-1)
            R[TOP] = add(R[TOP], n); R[R0] = n; st['f'] = n
            return [(nx, st), (nx, q)]
        if o in ('RPA_PRNINFO', 'RPA_VERIFYBITMAP', 'RPA_SHIFT'): return [(nx, st)]
        raise AnalysisBroken('%s: instruction %s (%s) is not modelled' % (s.kind, o, op[1]))
    def pop(s, st, r):
        if not st['s']: s.bad('stack', 'more is taken from the stack than the construct put there'); raise Stop
        st['r'][r] = st['s'][-1]; st['s'] = st['s'][:-1]
    def ret(s, st, r): s.out.append(('ret', st, st['r'].get(r, U)))
    def call(s, target, nx, st):
        """the body, called: it fails and changes nothing, or matches a number of characters"""
        s.callee.called(s, target, st)
        R = st['r']
        for r in (R0, R1, R3, OTP, LR): R[r] = s.fresh(st, 'x%d' % r, 7)
        r = []
        q = s.copy(st); q['r'][R0] = C(-1); q['f'] = C(-1); q['n'] = (q['n'][0], NEG); r.append((nx, q))
        q = s.copy(st); q['r'][R0] = C(0); q['f'] = C(0); q['n'] = (q['n'][0], ZER); r.append((nx, q))
        d = add(R[TOP], s.callee.T0, -1)
        q = s.copy(st); n = atom('m', 0); q['sg'][('m', 0)] = POS
        if d == C(0): q['r'][TOP] = add(s.callee.T0, n); q['r'][R0] = n
        else: q['r'][TOP] = add(s.callee.T0, n); q['r'][R0] = s.fresh(q, 'k', POS)       # the sum is a number of characters again
        q['f'] = q['r'][R0]; q['r'][REC] = atom('recs'); q['n'] = (q['n'][0], POS); r.append((nx, q))
        return r
COND = {'BEQ': ZER, 'BNEQ': NEG | POS, 'BLEQ': NEG | ZER, 'BGEQ': ZER | POS, 'BLES': NEG, 'BGRE': POS}
COND2 = {'XEQ': ZER, 'XNEQ': NEG | POS, 'XLEQ': NEG | ZER, 'XGEQ': ZER | POS, 'XLES': NEG, 'XGRE': POS}

T0, C0, L0, O0 = atom('T'), atom('C'), atom('L'), atom('O')
class Construct:
    """what the code of one construct owes its caller, and what its body owes it"""
    def __init__(s, kind, BLOB, start, end, after):
        s.kind = kind; s.BLOB = BLOB; s.T0 = T0; s.start = start; s.endlab = end; s.after = after
    def entry(s):
        return {'r': {TOP: T0, REC: C0, LR: L0, LOO: O0, OTP: atom('otp'), R0: atom('r0'), R1: atom('r1'), 2: atom('r2'), R3: atom('r3')}, 's': (), 'f': None, 'sg': {}, 'ev': (), 'n': (0, 0)}
    def hole(s, run, st):
        k = s.kind; out = []
        for way in ('through', 'jump'):
            q = run.copy(st); R = q['r']
            for r in (R0, R1, 2, R3, OTP, LR): R[r] = run.fresh(q, 'x', 7)
            ok = (way == 'through') == (k not in ('altexp', 'class'))      # the body matched
            h = run.fresh(q, 'h', ZER | POS)
            if ok: R[TOP] = add(T0, h); R[REC] = run.fresh(q, 'rec', 7)
            elif k in ('altexp', 'class', 'notexp', 'negexp'): R[TOP] = T0; R[REC] = C0     # the one thing that was tried has failed
            else: R[TOP] = run.fresh(q, 'top', 7); R[REC] = run.fresh(q, 'rec', 7)
            if ok: R[LOO] = run.fresh(q, 'loo', 7)
            q['f'] = None; q['ev'] = q['ev'][-8:] + ((('way', way),)); q['n'] = (min(q['n'][0] + 1, 2), 0)
            if way == 'jump':
                if s.endlab not in run.p.lab: run.bad('endlab', 'the label a failed or matched item goes to is never placed'); continue
                out.append((run.p.lab[s.endlab], q))
            else: out.append((s.after, q))
        return out
    def called(s, run, target, st):
        if target != s.start: run.bad('call', 'the reference does not call the code of the construct')
        if st['r'].get(TOP) is None: run.bad('call', 'called without a position')
        st['n'] = (min(st['n'][0] + 1, 2), 0)

def body(run, k, emits, must):
    """every way the code of the construct ends"""
    B = run.bad
    if must is not True or k not in ('rule', 'loop'):
        if not any(w == 'ret' and st['r'].get(R0) == C(-1) for w, st, x in run.out): B('never-fails', 'never fails')
    if not any(w == 'ret' and st['r'].get(R0) != C(-1) and not any(e[0] == 'hit' for e in st['ev']) for w, st, x in run.out): B('never-matches', 'never matches')
    for what, st, x in run.out:
        R = st['r']; ev = st['ev']
        way = [e[1] for e in ev if e[0] == 'way']; way = way[-1] if way else None
        hit = any(e[0] == 'hit' for e in ev)
        if what == 'abort':
            if k not in ('rule', 'loop') or must is not True: B('abort', 'the machine is stopped although the rule need not match')
            if x != T0: B('abort', 'the position reported is not the one the rule was tried at')
            if R.get(R0) != C(-1): B('abort', 'the execution is aborted although the rule matched')
            continue
        if what != 'ret': B('falls', 'control runs off the end of the construct, or out of it, without a return'); continue
        if st['s'] != (): B('stack', 'returns with something left on the stack'); continue
        if x != L0: B('lr', 'returns to another place than the one it was called from'); continue
        r, t = R.get(R0), R.get(TOP)
        if st['f'] is None or st['f'] != r and run.sign(st, st['f']) != run.sign(st, r): B('status', 'the status does not go with the result that is returned'); continue
        fail = r == C(-1)
        if fail:
            if k in ('rule', 'loop') and must is not False and not hit: B('abort', 'a rule that must match fails without stopping the machine')
            if t != T0: B('top', 'fails without restoring the position')
            if R.get(REC) != C0 and not (k == 'loop' and st['n'][0] > 1): B('rec', 'fails without dropping the records of what was tried')
        else:
            if add(t, T0, -1) != r: B('length', 'the result is not the number of characters matched')
            if run.sign(st, r) & NEG: B('length', 'the result may be negative although the construct matched')
        if k not in ('nonloopybranch',) and R.get(LOO) != O0 and k == 'loop': B('loo', 'the loop register of the outer loop is lost')
        # which end is which
        if not hit:
            if way is None:
                if not fail: B('untried', 'matches without having tried its body')
            elif k == 'loop':
                if way == 'through' and not fail: B('way', 'matches although the last round added nothing')
                if way == 'jump' and fail != (st['n'][0] == 1): B('way', 'a loop matches if and only if a round before the last did')
            elif k in ('notexp', 'negexp'):
                if way == 'through' and not fail: B('way', 'matches although its body matched')
                if way == 'jump' and not fail and r != C(1): B('way', 'matches another number of characters than one')
            elif k in ('altexp', 'class'):
                if fail != (way == 'through'): B('way', 'it fails if and only if every alternative failed' )
            else:
                if way == 'jump' and not fail: B('way', 'matches although an item of its body failed')
                if way == 'through':
                    zero = t == T0 or (k in ('rule', 'inlinerule') and fail)
                    if k in ('rule', 'inlinerule'):
                        if not fail and run.sign(st, r) != POS: B('way', 'a rule matches that matched nothing')
                    elif fail: B('way', 'fails although every item of its body matched')
        if (way == 'through') and k in ('rule', 'inlinerule') and fail:
            pass
        # records
        starts = [e for e in ev if e[0] == 'RPA_EMITSTART']; ends = [e for e in ev if e[0] == 'RPA_EMITEND']
        if not hit and way is not None and k in ('rule', 'inlinerule', 'loop'):
            if emits is not False and not starts: B('emit', 'the rule does not emit its record although asked to')
            if emits is not True and (starts or ends): B('emit', 'the rule emits a record although not asked to')
        if starts and not fail and not ends: B('emit', 'a record is started and not ended')
        if ends and fail and k != 'loop': B('emit', 'a record is ended although the rule failed')
        for e in starts:
            if e[2] != T0: B('emit', 'the record starts at another position than the rule')
        for e in ends:
            if not starts or e[1] != starts[-1][1]: B('emit', 'the record that is ended is not the one started')
            if e[2] != T0 or k != 'loop' and e[3] != add(t, T0, -1) or add(e[4], T0, -1) != e[3] : B('emit', 'the record does not end where the match ends')
        # the cache
        keys = [e for e in ev if e[0] == 'key']
        for e in (e for e in ev if e[0] == 'cache'):
            if not keys or e[1] != keys[-1][1]: B('cache', 'the result is kept under another rule than it is asked for')
            if e[2] != T0: B('cache', 'the result is kept under another position than the rule started at')
            if e[3] != r: B('cache', 'the result kept is not the one returned')
            if not fail and (e[4] != C0 or e[5] != R.get(REC)): B('cache', 'the records kept are not the ones the rule added')

def inline(run, k, q, parent):
    """every way the code around a construct ends: q is its quantifier"""
    B = run.bad
    if run.holes: B('skip', 'the body is run where it is defined instead of being called'); return
    for what, st, x in run.out:
        R = st['r']; r, t = R.get(R0), R.get(TOP)
        if what in ('ret', 'abort'): B('inline-ret', 'the reference returns from the construct around it'); continue
        if st['s'] != (): B('inline-stack', 'the reference leaves something on the stack, or takes too much from it'); continue
        calls, last = st['n']
        if st['f'] is None or st['f'] != r and run.sign(st, st['f']) != run.sign(st, r): B('inline-status', 'the status does not go with the result of the reference'); continue
        fail = r == C(-1)
        if not calls: B('inline-none', 'the construct is not called'); continue
        if fail:
            if t != T0: B('inline-top', 'the reference fails although it moved the position')
            if q in ('OPTIONAL', 'MULTIOPT'): B('inline-opt', 'an optional reference fails')
        else:
            if add(t, T0, -1) != r: B('inline-length', 'the result of the reference is not the number of characters matched')
            if q == 'MULTIPLE' and run.sign(st, r) != POS: B('inline-mul', 'a reference that must match at least once matches nothing')
        if q in ('MULTIPLE', 'MULTIOPT'):
            if last == POS: B('inline-rep', 'the repetition stops although the construct may match again')
        elif calls > 1: B('inline-once', 'a construct that is not repeated is called again')
        if k in ('branch', 'nonloopybranch'):
            if what == 'out':
                if x != parent: B('branch-out', 'an alternative that matched goes elsewhere than to the end of the alternatives')
                if run.sign(st, r) != POS: B('branch-out', 'the alternatives are left although this one matched nothing')
            elif run.sign(st, r) & POS: B('branch-next', 'the next alternative is tried although this one matched')
        elif what == 'out': B('inline-out', 'the reference leaves the construct around it')

KINDS = {'rule': ('name',), 'inlinerule': ('name',), 'loop': ('name',), 'exp': (), 'altexp': (), 'branch': (), 'nonloopybranch': (), 'class': (), 'notexp': (), 'negexp': ()}
PREF = atom('addr', ('pref',))
def check_emit(c):
    from rpa2 import swi_table
    from link import known
    m = ir.module('core', pipe='plain', extra_boundary=('*noinline*',))
    c.rule('for every construct, the public begin and end functions of the compiler are interpreted with the code generator as a boundary, so that the instructions between them are known for every combination of flags; they are then run as a stack program over linear terms, the body of the construct and the construct called from its surroundings standing for any code that keeps the same contract; every return, and every way out of the reference around it, is compared with the contract')
    f0, tab = swi_table(m, None)
    en = next((e for e in (dict(e) for e in m.enums.values()) if 'RVM_BX' in e), None)
    if en is None: raise AnalysisBroken('instruction numbers not found')
    ops = {v: k[4:] for k, v in en.items() if k.startswith('RVM_')}
    for i, nm, h, hn, x in tab: ops[('swi', i)] = nm
    E = {}
    for e in m.enums.values(): E.update(dict(e))
    for kind, lead in KINDS.items():
        fb, fe = m.fn('rpa_compiler_%s_begin' % kind), m.fn('rpa_compiler_%s_end' % kind)
        c.seen(fb); c.seen(fe)
        templates(c, m, kind, fb, fe, ops, en['RVM_SWI'], E)
    references(c, m, ops, en['RVM_SWI'], E)

def start_mem(R):
    n = atom('len', 'exprs')
    return {('ge', add(n, C(-1))): True}

def report(c, R, where, errs):
    for k, (w, msg) in R.errs.items(): c.bad('gen-' + k, w, msg)

def quant(st, t):
    if t[0] == 'c': return {0: 'NONE', 1: 'MULTIPLE', 2: 'OPTIONAL', 3: 'MULTIOPT'}.get(t[1] & 3, 'NONE')
    from link import known
    for n, q in ((1, 'MULTIPLE'), (2, 'OPTIONAL'), (3, 'MULTIOPT')):
        if known(st, t, n): return q
    return 'NONE'

def templates(c, m, kind, fb, fe, ops, swi, E):
    from link import known
    R = Gen(m)
    L = atom('len', 'exprs'); z = R.sz['exprs']; off = {v: int(k) for k, v in m.structs['rpa_ruledef_s']['off'].items()}
    args = [atom('addr', ('co',))]
    if kind in ('rule', 'inlinerule', 'loop'): args += [PTR('name'), atom('n', 'size')]
    args += [atom('arg', 'flags'), atom('arg', 'bitmap')] if kind in ('exp', 'altexp', 'branch') else [atom('arg', 'bitmap')] if kind == 'rule' else [] if kind == 'loop' else [atom('arg', 'flags')]
    seen = set(); n = 0
    for rv, mm, g in R.solve(fb, St(dict(enumerate(args)), start_mem(R), {})):
        mm = dict(mm); st = St({}, mm, {})
        if R.length(st, 'exprs') != add(L, C(1)): R.bad('depth', fb, None, '%s: does not enter exactly one construct' % fb.name); continue
        cell = lambda k: mm.get(('m', ('data', 'exprs'), add(scale(L, z), C(off[k]))), U)
        hole = R.length(st, 'code'); after = add(hole, atom('n', 'H')); mm[('len', 'code')] = after
        start, endl = cell('startidx'), cell('endidx')
        E2 = Gen(m)
        for rv2, mm2, g2 in E2.solve(fe, St({0: args[0]}, dict(mm), {})):
            st2 = St({}, dict(mm2), {})
            if E2.length(st2, 'exprs') != L: E2.bad('depth', fe, None, '%s: does not leave exactly the construct entered' % fe.name); continue
            evs = st2.mem.get(('ev',), ()); end = E2.length(st2, 'code')
            fl = cell('flags')
            q = quant(st2, C(0) if kind == 'inlinerule' and fl == C(0) else masked(fl, 3) if fl[0] == 'l' else fl)
            em = ab = None
            if kind in ('rule', 'inlinerule', 'loop'):
                pr = cell('rulepref')
                if pr == C(0) or pr[0] == 'l' and place(pr) is None and known(st2, pr, 0): em = ab = False
                else:
                    w = add(pr, C(m.field('rpa_rulepref_s', 'flags')))
                    w = atom('ld', ('pref',), place(w)[1]) if place(w) is not None else atom('ld', '?', w)
                    em, ab = (None if b is None else not b for b in (known(st2, atom('and', w, n), 0) for n in (1, 4)))
            key = repr((evs, q, em, ab))
            if key in seen: continue
            seen.add(key); n += 1
            pg = Prog(evs, None, end, hole, ops, swi, None)
            K = Construct(kind, C(E['RVM_RELOC_BLOB']), pg.lab.get(start, U), endl, after)
            if kind in ('exp', 'altexp', 'branch', 'nonloopybranch', 'class', 'notexp', 'negexp') and known_flags(fl) is False: c.bad('%s-flags' % kind, fb.where(), '%s: the quantifier of the construct is not kept' % fb.name)
            if start not in pg.lab: c.bad('%s-start' % kind, fb.where(), '%s: the label of the construct is never placed' % fb.name); continue
            r = Run(pg, kind, K).go(pg.lab[start], K.entry()); body(r, kind, em, ab)
            c.ob('templates'); c.ob('instructions', len(pg.at)); c.ob('ends', len(r.out)); c.ob('steps', r.steps)
            for k, msg in r.errs.items(): c.bad('%s-%s' % (kind, k), fe.where(), 'code of %s: %s' % (kind, msg))
            if kind in ('rule', 'loop'): continue
            first = min((e[1] for e in evs if e[0] in ('ins', 'rel')), key=lambda p: parts(add(p, atom('len', 'code'), -1))[0] if not parts(add(p, atom('len', 'code'), -1))[1] else 1 << 30)
            r = Run(pg, kind, K).go(first, K.entry())
            parent = atom('ld', 'exprs', add(scale(add(L, C(-1)), z), C(off['endidx'])))
            inline(r, kind, q, parent)
            c.ob('ends', len(r.out)); c.ob('steps', r.steps)
            for k, msg in r.errs.items(): c.bad('%s-%s' % (kind, k), fe.where(), 'code around %s (%s): %s' % (kind, q.lower(), msg))
        report(c, E2, fe, None)
    report(c, R, fb, None)
    if not n and not R.errs: c.bad('%s-never' % kind, fb.where(), '%s: emits no code that ends' % fb.name)

def known_flags(fl): return None if fl[0] == 'l' and masked(fl, 3) == masked(atom('arg', 'flags'), 3) else False

def references(c, m, ops, swi, E):
    for suffix, q in (('nan', 'NONE'), ('opt', 'OPTIONAL'), ('mul', 'MULTIPLE'), ('mop', 'MULTIOPT'), (None, None)):
        fn = m.fn('rpa_compiler_index_reference' + ('_' + suffix if suffix else '')); c.seen(fn)
        R = Gen(m); lab = atom('arg', 'index')
        args = [atom('addr', ('co',)), lab] + ([] if suffix else [atom('arg', 'flags')])
        for rv, mm, g in R.solve(fn, St(dict(enumerate(args)), start_mem(R), {})):
            st = St({}, dict(mm), {})
            evs = st.mem.get(('ev',), ())
            pg = Prog(evs, None, R.length(st, 'code'), None, ops, swi, None)
            K = Construct('reference', C(E['RVM_RELOC_BLOB']), ('out', lab), None, None)
            r = Run(pg, 'reference', K).go(atom('len', 'code'), K.entry())
            inline(r, 'reference', q or quant(st, atom('arg', 'flags')), None)
            c.ob('references'); c.ob('ends', len(r.out)); c.ob('steps', r.steps)
            for k, msg in r.errs.items(): c.bad('%s-%s' % (fn.name, k), fn.where(), '%s: %s' % (fn.name, msg))
        report(c, R, fn, None)

CHECKS = {'P09': check_emit}
