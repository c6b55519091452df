"""Regular expression compiler: the grammar it accepts and the fragments it builds for it."""
import os
from collections import namedtuple
import ir, fe
from ir import AnalysisBroken
from common import *
from rsm import *

Lv = namedtuple('Lv', 'kind cp gs frags sep cq saved')        # an open expression: document, group, or the copy of a factor
Fr = namedtuple('Fr', 'loc sep need got')                     # a fragment of it, in text order; loc: s(tack) o(ut) p(ending) g(one)
Cq = namedtuple('Cq', 'form f1 t2 rel made lt ge done')       # what is known about the count being applied

EOF = -2
DIG = frozenset(range(48, 58)); HEX = DIG | frozenset(range(65, 71)) | frozenset(range(97, 103))
SPACE = frozenset([9, 10, 11, 12, 13, 32])
ALL = frozenset(range(128)) | {0xE9, 0x20AC, EOF}
SPECIAL = frozenset(map(ord, '{}*?+])|')); QUANT = frozenset(map(ord, '*?+{'))
ESC = {ord('r'): 13, ord('n'): 10, ord('t'): 9, ord('0'): 0, ord('f'): 12, ord('v'): 11}
VOID = frozenset([0, 10, 13])                                 # refusing these is left open
CLASSNO = frozenset(map(ord, '[]-'))
O = ord
X = ('x',)
LEVEL = ('fs', 'fe', 'nsf', 'n1', 'n2', 'F', 'cnt'); TEXT = ('tok', 'p', 'tp', 'en', 'esc', 'p+', 'by')

def stepnum(ph, t):
    if ph == 'n0': return 'nx' if t in (O('x'), O('X')) else 'nz' if t == 48 else 'nd' if t in DIG else None
    if ph == 'nx': return 'nx' if t in HEX else 'end'
    if ph == 'nz': return 'nx' if t in (O('x'), O('X')) else 'nz8' if t in DIG else 'end'
    if ph == 'nz8': return 'nz8' if t in DIG else 'end'
    return 'nd' if t in DIG else 'end'

def step(lv, t):
    """(next state, event) of the grammar, or None"""
    gs = lv.gs
    if t == EOF: return None
    if gs in ('first', 'alt', 'more', 'quant'):
        if gs == 'quant' and t in QUANT:
            return ('q0', 'q') if t == O('{') else ('more', 'q')
        if gs in ('more', 'quant'):
            if t == O('|'): return ('alt', 'bar')
            if t == O(')'): return ('quant', 'close') if lv.kind == 'grp' else None
        if t in SPECIAL: return None
        if t == O('['): return ('c0', 'cls')
        if t == O('('): return ('grp', 'open')
        if t == O('.'): return ('quant', 'dot')
        if t == O('\\'): return ('litesc', 'esc')
        return ('quant', 'lit')
    if gs == 'litesc': return ('quant', 'lit')
    if isinstance(gs, tuple) and gs[0] == 'num':
        n = stepnum(gs[1], t)
        if n is None: return None
        if n != 'end': return (('num', n, gs[2]), 'dig')
        gs = 'c2' if gs[2] == 1 else 'ci'
    if isinstance(gs, tuple) and gs[0] == 'cesc': return ('c2', 'lo') if gs[1] == 1 else ('ci', 'hi')
    if gs == 'c2' and t == O('-'): return ('c3', 'dash')
    if gs == 'c0' and t == O('^'): return ('c1', 'neg')
    if gs in ('c2', 'ci') and t == O(']'): return ('quant', 'clsend')
    if gs in ('c0', 'c1', 'c2', 'ci', 'c3'):
        if t in CLASSNO: return None
        w = 2 if gs == 'c3' else 1
        if t == O('#'): return (('num', 'n0', w), 'num')
        if t == O('\\'): return (('cesc', w), 'esc')
        return ('c2', 'lo') if w == 1 else ('ci', 'hi')
    if gs in ('q0', 'q1', 'q1b', 'q2', 'q3', 'q3b'):
        if t in DIG and gs in ('q0', 'q1', 'q2', 'q3'): return ({'q0': 'q1', 'q2': 'q3'}.get(gs, gs), 'qdig')
        if gs in ('q1', 'q1b') and t == O(','): return ('q2', 'comma')
        if gs != 'q0' and t == O('}'): return ('more', 'qend')
        return None
    return None

def permitted(lv):
    r = frozenset(t for t in ALL if step(lv, t))
    if lv.gs in ('more', 'quant') and lv.kind == 'doc' or lv.gs == 'cend': r |= {EOF}
    return r
_perm = {}
def perm(lv):
    k = (lv.kind, lv.gs)
    if k not in _perm: _perm[k] = permitted(lv)
    return _perm[k]

def shl(v, d):
    return (v[0], v[1] + d) + v[2:] if isinstance(v, tuple) and v and v[0] in LEVEL else v
def sht(v, d):
    if isinstance(v, tuple) and v and v[0] in TEXT: return (v[0], v[1] + d) + v[2:]
    return v
def ev_at(v, fam): return v[1] if isinstance(v, tuple) and len(v) > 1 and v[0] in fam else None

def gbytes(m, name):
    """the bytes of a constant table"""
    gl = m.globals.get(name)
    if not gl or not gl.get('const') or 'init' not in gl: return None
    v = gl['init']
    try: return [q[1] & 255 for q in v[1]] if v[0] == 'a' else list(v[2]) + [0] if v[0] == 's' else [0] if v[0] == 'z' else None
    except Exception: return None

class Compiler(RSM):
    def __init__(s, m, K):
        super().__init__(m); s.K = K; s.read = 0; s.ops = 0; s.copies = 0; s.leaves = 0; s.fails = 0
        s.LIMIT = 120000; s.wide = False; s.tcache = {}
    def boundary(s, n):
        f = s.m.fn(n)
        src = f.where()
        return 'rexcompiler' not in src
    # ---- values
    def volatile(s, v):
        if not super().volatile(v): return False
        if v[0] in ('co', 'db', 'ud', 'g', 'x', 'ns0', 'stk', 'tmp', 'states', 'al', 'alp', 'inc', 'big', 'ctl', 'ctab'): return False
        if v[0] == 'pf' and v[1][0] in ('co', 'db', 'stk', 'tmp', 'states'): return False
        if v[0] in LEVEL or v[0] in TEXT: return v[1] == 0
        return True
    def ren(s, st, fn):
        """rename values everywhere, inside compound values too"""
        def deep(v):
            if not isinstance(v, tuple) or not v: return v
            if v[0] in LEVEL or v[0] in TEXT or len(v) == 1: return fn(v)
            if v[0] in ('cmp', 'pf', 'cta', 'ctv', 'ctm', 'scm', 'ext', 'not', 'and', 'or', 'slot', 'ts', 'tm'): return tuple(deep(q) if isinstance(q, tuple) else q for q in v)
            return fn(v)
        s.rename(st, deep)
        g = st.g
        g['lt'] = tuple(tuple(deep(q) for q in p) if p and isinstance(p, tuple) and isinstance(p[0], tuple) else p for p in g['lt'])
        g['pop'] = deep(g['pop'])
    def top(s, g): return g['ctx'][-1]
    def setlv(s, g, **k): g['ctx'] = g['ctx'][:-1] + (g['ctx'][-1]._replace(**k),)
    def setfr(s, g, i, **k):
        fr = s.top(g).frags; s.setlv(g, frags=fr[:i] + (fr[i]._replace(**k),) + fr[i + 1:])
    # ---- activation
    def call(s, P, x, g, v, st):
        ctx = st.g['ctx']; k = 2 if s.pure(g) and isinstance(ctx[-1], Lv) and ctx[-1].kind == 'grp' and ctx[-1].gs in ('more', 'quant') else 1
        if s.wide: k = 2
        rest, top = ctx[:-k], ctx[-k:]
        q = st.copy(); q.g['ctx'] = top
        out = []
        for r, rv in super().call(P, x, g, v, q):
            if not r.g['fail']: r.g['ctx'] = rest + r.g['ctx']
            out.append((r, rv))
        return out
    def aside(s, w, g0, g1):
        if g1['fail']: return X if isinstance(w, tuple) and w and (w[0] in LEVEL or w[0] in TEXT) else w
        d = len(g1['ctx']) - len(g0['ctx'])
        t = sum(l.kind == 'copy' for l in g1['ctx']) - sum(l.kind == 'copy' for l in g0['ctx'])
        if ev_at(w, LEVEL) is not None and w[1] >= 1: return shl(w, d)
        if ev_at(w, TEXT) is not None and w[1] >= 1: return sht(w, t)
        return w
    def reads(s, f):
        r = f._bf.get('x6reads')
        if r is None:
            f._bf['x6reads'] = False
            r = any(x.iscall and x.callee and (x.callee == 'r_utf8_mbtowc' or x.callee in s.m.fns and not s.boundary(x.callee) and s.reads(s.m.fn(x.callee))) for x in f.insts())
            f._bf['x6reads'] = r
        return r
    def pure(s, f):
        """reads at most: builds nothing"""
        r = f._bf.get('x6pure')
        if r is None:
            f._bf['x6pure'] = True
            r = all(not x.iscall or not x.callee or not (x.callee.startswith('rex_') and s.m.fns.get(x.callee) and s.boundary(x.callee) or x.callee.startswith('r_array')) and (x.callee not in s.m.fns or s.boundary(x.callee) or s.pure(s.m.fn(x.callee))) for x in f.insts())
            f._bf['x6pure'] = r
        return r
    def enter(s, f, st):
        if s.reads(f): st.g['bf'] = frozenset(); st.g['pop'] = None
        if st.g['pop'] is not None and st.g['pop'][0] == 'F' and st.g['pop'][1] >= 1: st.g['pop'] = None
        far = lambda v: X if (ev_at(v, LEVEL) or 0) >= 2 or (ev_at(v, TEXT) or 0) >= 2 else v
        st.mem = {k: (w if k == ('fr',) else far(w)) for k, w in st.mem.items()}
        st.mem = {k: w for k, w in st.mem.items() if w[:1] not in (('x',), ('?',)) or k == ('fr',)}
    def returned(s, f, x, st, v):
        st.mem = {k: w for k, w in st.mem.items() if not (k[0] == 'al' and k[1] == f.name)}
        s.normal(st)
        if v is not None and v[0] == 'c' and v[1] < 0 and v[1] != EOF and not st.g['fail'] and s.legit(st.g): s.failing(st)
        return v
    # ---- failing
    def legit(s, g):
        """the text read so far cannot be continued to an expression"""
        if g['tok'] is None: return False
        lv = s.top(g)
        if not (g['tok'] & perm(lv)) - VOID: return True
        if g['tb'] is False and False: return True
        if g['long'] and (lv.gs in ('q1', 'q3') or isinstance(lv.gs, tuple) and lv.gs[0] == 'num'): return True
        if lv.cq and lv.cq.rel == frozenset(['gt']): return True
        return False
    def failing(s, st):
        g = st.g
        if g['fail']: return
        s.fails += 1
        g['fail'] = True; g['ctx'] = ('fail',); g['tok'] = None; g['emp'] = None
        for k in ('S', 'lt', 'fr', 'want', 'tr', 'tmp', 'it', 'lo', 'hi', 'bf', 'sv', 'nul', 'long', 'tb', 'pop', 'lk', 'ac', 'done'): g[k] = s.G0[k]
        dead = lambda v: X if isinstance(v, tuple) and v and (v[0] in LEVEL or v[0] in TEXT or v[0] in ('lit', 'lo', 'hi', 'S', 'lf', 'uid')) else v
        s.ren(st, dead)
        st.mem = {k: w for k, w in st.mem.items() if k == ('fr',)}
    def refuse(s, f, x, st, what):
        """a step that only failing permits"""
        if st.g['fail']: return True
        if s.legit(st.g): s.failing(st); return True
        s.bad('refuse-%s' % (s.gsn(st.g),), f, x, '%s although the text so far is well formed (%s)' % (what, s.desc(st.g))); return False
    def gsn(s, g):
        gs = s.top(g).gs if g['ctx'] and isinstance(g['ctx'][-1], Lv) else 'failed'
        return gs if isinstance(gs, str) else '.'.join(map(str, gs))
    def desc(s, g):
        if g['tok'] is None: return 'nothing read'
        t = sorted((g['tok'] & perm(s.top(g))) - VOID)
        n = lambda c: 'end' if c == EOF else repr(chr(c))
        return 'state %s, next %s' % (s.gsn(g), ' '.join(n(c) for c in t[:6]) + (' ...' if len(t) > 6 else ''))
    # ---- leaves
    def leafdone(s, f, x, st, loc='s'):
        """the fragment of a factor just read is complete"""
        g = st.g; w = g['want']
        k = len(s.top(g).frags) - 1
        ok = True
        lt = g['lt']; lit = [v for v in (('lit',), ('c', g['lk']) if g['lk'] is not None else None) if v]
        if w[0] == 'lit': ok = len(lt) == 1 and lt[0][0] in lit and lt[0][1] in lit
        elif w[0] == 'dot': ok = sorted(lt) == [(('c', 0), ('c', 9)), (('c', 11), ('c', 0xFFFFFFFF))]
        elif w[0] == 'cls': ok = lt == () and g['tr'] == ('neg' if w[1] else 'items')
        elif w[0] == 'eps': ok = lt == (('e',),)
        if not ok: s.bad('leaf-%s' % w[0], f, x, 'the state of a %s does not have the transitions of the characters it stands for%s' % ({'lit': 'character', 'dot': 'dot', 'cls': 'character class', 'eps': 'factor repeated zero times'}[w[0]], '' if w[0] != 'cls' else ' (%s)' % g['tr'])); return False
        s.leaves += 1
        s.setfr(g, k, loc=loc)
        s.ren(st, lambda v: ('F', 0, k) if v == ('lf',) else ('Sold',) if v == ('S',) else X if v in (('lit',), ('lo',), ('hi',), ('uid',)) else v)
        g['want'] = None; g['S'] = 0; g['tmp'] = None; g['lt'] = (); g['fr'] = 0; g['tr'] = None; g['it'] = None; g['lo'] = g['hi'] = g['lk'] = None
        return True
    def settle(s, f, x, st, out=False):
        g = st.g
        if g['fail'] or g['want'] is None: return True
        if g['fr'] == 2: return s.leafdone(f, x, st)
        if out and g['fr'] == 1: return s.leafdone(f, x, st, 'o')
        return False
    def closecopy(s, f, x, st):
        """the end of the text of a factor being copied"""
        g = st.g; lv = s.top(g); up = g['ctx'][-2] if len(g['ctx']) > 1 else None
        if lv.kind != 'copy' or lv.gs != 'cend' or g['tok'] != frozenset([EOF]) or g['want'] is not None or up is None: return
        if len(lv.frags) != 1 or lv.frags[0].loc != 's' or lv.frags[0].got is not None: return
        n = len(up.frags); s.copies += 1
        up = up._replace(frags=up.frags + (Fr('s', 'copy', None, None),))
        g['ctx'] = g['ctx'][:-2] + (up,)
        g['tok'] = lv.saved; g['tb'] = None; g['bf'] = frozenset()
        def mv(v):
            if v == ('F', 0, 0): return ('F', 0, n)
            if ev_at(v, LEVEL) is not None: return X if v[1] == 0 else shl(v, -1)
            if ev_at(v, TEXT) is not None: return (('c', EOF) if v == ('tok', 0) else X) if v[1] == 0 else sht(v, -1)
            return v
        s.ren(st, mv)
    def normal(s, st):
        g = st.g
        if g['fail']: return
        if g['want'] is not None and g['fr'] == 2: s.leafdone(s.m.fn('rex_compiler_expression'), None, st)
        if g['ctx'] and isinstance(s.top(g), Lv) and s.top(g).kind == 'copy': s.closecopy(None, None, st)
    # ---- counts
    def derive(s, cq):
        """consequences of what is known"""
        lt, ge = cq.lt, cq.ge
        if cq.f1 <= frozenset([0, 1]): ge = True
        elif cq.made == 1 and cq.f1 == frozenset([2]) and ge is None: ge = False
        if cq.form == 'exact':
            if lt is None and ge is not None: lt = not ge
            if ge is None and lt is not None: ge = not lt
        elif cq.form == 'inf': lt = not cq.done
        else:
            if lt is None and cq.t2 <= frozenset([1, 0]): lt = False
            if lt is None and cq.made == 1 and cq.t2 == frozenset([2]): lt = True
            if lt is False and ge is None and 'gt' not in cq.rel: ge = True
        return cq._replace(lt=lt, ge=ge)
    def finish(s, f, x, st, k):
        """fragment k of the current level has had everything applied that follows it in the text"""
        g = st.g; lv = s.top(g); fr = lv.frags[k]
        if fr.sep == 'copy': s.bad('copy', f, x, 'the copy of a repeated factor is not joined to it'); return False
        if fr.need in (None, '*', '?', '+'):
            if fr.got != fr.need:
                s.bad('quant-%s' % (fr.need or 'none'), f, x, ('the operator %s is not applied to its factor' % fr.need if fr.got is None else 'the operator %s is applied to a factor followed by %s' % (fr.got, fr.need or 'none'))); return False
            return True
        if fr.need == 'eps': return True
        cq = s.derive(lv.cq) if lv.cq else None
        if cq is None: return True
        e = None
        zero = cq.f1 == frozenset([0])
        n0 = zero and (cq.form == 'exact' or cq.t2 == frozenset([0]))
        if cq.rel == frozenset(['gt']) or cq.form == 'rng' and 'gt' in cq.rel: e = 'a count from more to less is accepted'
        elif fr.loc == 'g': e = 'the factor is gone'
        elif fr.got == '*': e = None if zero and cq.form == 'inf' and cq.made == 1 else 'every repetition is allowed for a factor counted otherwise'
        elif fr.got == '+': e = None if cq.f1 == frozenset([1]) and cq.form == 'inf' and cq.made == 1 else 'one or more repetitions are allowed for a factor counted otherwise'
        elif fr.got == '?':
            if not zero or cq.form == 'inf': e = 'a factor is made optional that has to be there'
            elif cq.form == 'exact' or 0 in cq.t2: e = 'a factor repeated zero times stays'
            elif cq.lt is not False: e = 'the factor is repeated too few times'
        else:
            if 0 in cq.f1: e = 'a factor that may be missing is not optional'
            elif cq.lt is not False: e = 'the factor is repeated too few times'
        if e:
            s.bad('count-%s-%s-%s' % (cq.form, ''.join(map(str, sorted(cq.f1))), fr.got), f, x, 'counted repetition: %s' % e); return False
        return True
    # ---- reading
    def consume(s, f, x, st):
        """the current token is passed over: the possible states after it"""
        g = st.g
        if g['tok'] is None: return [st]
        if g['tok'] == frozenset([EOF]): return [st]
        lv0 = s.top(g)
        if lv0.gs in ('first', 'alt', 'more', 'quant') or lv0.kind == 'copy':
            if not s.settle(f, x, st) and g['want'] is not None:
                s.bad('leaf', f, x, 'the parser goes on although the factor read has no fragment'); return []
        groups = {}; esc0 = lv0.gs == 'litesc' or isinstance(lv0.gs, tuple) and lv0.gs[0] == 'cesc'
        seen = s.has(st, ('esc', 0)) or s.has(st, ('tok', 0)) and not (esc0 and g['tok'] & set(ESC))
        blank = lv0.gs in ('q1', 'q3') and g['tb'] is True
        for t in g['tok']:
            if t == EOF: continue
            r = (lv0.gs + 'b', 'blank') if blank else step(lv0, t)
            if r is None:
                if t in (10, 13): continue
                if g['tok'] - VOID == frozenset() and t == 0: continue
                s.bad('accept-%s' % s.gsn(g), f, x, 'a character is passed over where the grammar has none (%r, %s)' % (chr(t), s.gsn(g))); return []
            if r[1] == 'q': r = r + (chr(t),)
            if r[1] in ('lit', 'lo', 'hi') and not seen:
                if (lv0.gs == 'litesc' or isinstance(lv0.gs, tuple)) and t in ESC: r = r + (('k', ESC[t], t),)
                elif len(g['tok']) == 1: r = r + (('k', t, t),)
            groups.setdefault(r, set()).add(t)
        out = []
        for r, ts in sorted(groups.items(), key=repr):
            q = st.copy(); q.g['tok'] = frozenset(ts)
            for w in s.event(f, x, q, r): out.append(w)
        return out
    def has(s, st, v):
        return v in st.env.values() or v in st.mem.values() or v in st.mem.get(('fr',), ()) or any(v in p for p in st.g['lt'])
    def event(s, f, x, st, r):
        g = st.g; lv = s.top(g); gs2, ev = r[0], r[1]; ts = g['tok']
        esc = lv.gs == 'litesc' or isinstance(lv.gs, tuple) and lv.gs[0] == 'cesc'
        # values of the character
        def chr_(name):
            k = r[2][1] if len(r) > 2 and r[2][0] == 'k' else None
            t = r[2][2] if k is not None else None
            def fn(v):
                if v == ('esc', 0): return (name,)
                if v == ('tok', 0): return (name,) if not esc or not (ts & set(ESC)) else ('c', t) if t is not None else ('raw',)
                return v
            s.ren(st, fn)
            return k
        st2 = st
        gone = lambda v: X if v in (('tok', 0), ('esc', 0)) else v
        factor = ev in ('cls', 'open', 'dot', 'lit', 'esc') and lv.gs in ('first', 'alt', 'more', 'quant')
        if factor or ev in ('bar', 'close'):
            if any(q.loc == 'o' for q in lv.frags): s.bad('held', f, x, 'the parser goes on while a fragment is off the stack'); return []
            n = len(lv.frags)
            if lv.frags and not (factor and g['want'] is not None):
                if not s.finish(f, x, st, n - 1): return []
                s.setfr(g, n - 1, need=None, got=None)
            if n > 3: s.bad('pile', f, x, 'fragments pile up: they are not joined'); return []
            s.setlv(g, cq=None)
            s.ren(st, lambda v: X if v in (('fs', 0), ('fe', 0), ('n1', 0), ('n2', 0)) or v[0] == 'nsf' and v[1] == 0 and g['S'] == 0 or v[0] == 'cnt' and v[1] == 0 else v)
            lv = s.top(g)
        if factor:
            sep = {'first': 'start', 'alt': 'alt'}.get(lv.gs, 'cat')
            s.ren(st, lambda v: ('fs', 0) if v == ('tp', 0) else ('nsf', 0) if v == ('ns',) and g['S'] == 0 else v)
            s.setlv(g, sep=sep)
        sep = s.top(g).sep
        if ev == 'lit' or ev == 'dot':
            if ev == 'lit': g['lk'] = chr_('lit')
            s.setlv(g, frags=s.top(g).frags + (Fr('p', sep, None, None),))
            g['want'] = ('lit',) if ev == 'lit' else ('dot',)
            s.settle(f, x, st)
        elif ev == 'cls': g['tr'] = g['tr'] or 'items'; g['it'] = None; g['neg'] = False
        elif ev == 'neg': g['neg'] = True
        elif ev in ('lo', 'hi'):
            if not s.item(f, x, st, lv, ts): return []
            g['lok' if ev == 'lo' else 'hik'] = chr_(ev)
            g['it'] = 0
            if ev == 'lo': g['hik'] = None
        elif ev in ('dash', 'clsend', 'num') or ev == 'esc' and not factor:
            if not s.item(f, x, st, lv, ts): return []
            if ev == 'num': g['nval'] = False
            if ev in ('num', 'esc') and gs2[-1] == 1: g['it'] = None
            if ev == 'clsend':
                s.setlv(g, frags=s.top(g).frags + (Fr('p', sep, None, None),))
                g['want'] = ('cls', g['neg']); g['neg'] = None; g['it'] = None; g['lok'] = g['hik'] = None
        elif ev == 'dig':
            need = not (gs2[1] == 'nx' and ts <= {O('x'), O('X')} and lv.gs[1] in ('n0', 'nz')) and not (lv.gs[1] == 'n0' and gs2[1] == 'nz')
            if need and not g['sv']: s.bad('digit', f, x, 'a digit of a character number is passed over without being kept'); return []
        elif ev == 'qdig':
            if not g['sv']: s.bad('digit', f, x, 'a digit of a count is passed over without being kept'); return []
            g['nval'] = False if lv.gs in ('q0', 'q2') else g['nval']
        elif ev == 'q':
            n = len(lv.frags)
            op = r[2]
            fr = lv.frags[n - 1]
            if op == '{':
                s.ren(st, lambda v: ('fe', 0) if v == ('tp', 0) else v)
                s.setlv(g, cq=Cq('exact', frozenset([0, 1, 2]), frozenset([0, 1, 2]), frozenset(['lt', 'eq', 'gt']), 1, None, None, False))
                if fr.got: s.bad('quant-early', f, x, 'an operator is applied to a factor with a count'); return []
            s.setfr(g, n - 1, need=op)
        elif ev == 'comma': s.setlv(g, cq=lv.cq._replace(form='inf'))
        elif ev == 'qend':
            if lv.gs in ('q3', 'q3b'): s.setlv(g, cq=lv.cq._replace(form='rng'))
        if ev in ('comma', 'qend') or ev == 'blank':
            if lv.gs in ('q1', 'q3') and not g['nval']: s.bad('number', f, x, 'the number of a count is not taken'); return []
        if ev == 'open':
            if len(g['ctx']) >= 4: pass
            s.setlv(g, gs='grp')
            s.ren(st, lambda v: shl(v, 1))
            g['ctx'] += (Lv('grp', False, 'first', (), 'start', None, None),)
        elif ev == 'close':
            lv = s.top(g)
            if len(lv.frags) != 1 or lv.frags[0].loc != 's': s.bad('group', f, x, 'a group ends with more than one fragment'); return []
            if len(g['ctx']) < 2: s.bad('form', f, x, 'the end of a group is read outside of it'); return []
            up = g['ctx'][-2]; n = len(up.frags)
            g['ctx'] = g['ctx'][:-2] + (up._replace(gs='cend' if up.kind == 'copy' else 'quant', frags=up.frags + (Fr('s', up.sep, None, None),)),)
            def mv(v):
                if v == ('F', 0, 0): return ('F', 0, n)
                if ev_at(v, LEVEL) is not None: return X if v[1] == 0 else shl(v, -1)
                return v
            s.ren(st, mv)
        else:
            if gs2 == 'quant' and s.top(g).kind == 'copy': gs2 = 'cend'
            s.setlv(g, gs=gs2)
        if ev not in ('dig', 'qdig'): g['nul'] = False
        if not (isinstance(gs2, tuple) and gs2[0] == 'num') and gs2 not in ('q1', 'q1b', 'q3', 'q3b'): g['nval'] = False
        g['sv'] = False; g['long'] = False
        s.ren(st, gone)
        s.ren(st, lambda v: X if v == ('tp', 0) else v)
        return [st]
    def itemend(s, lv): return lv.gs in ('c2', 'ci') or isinstance(lv.gs, tuple) and lv.gs[0] == 'num' and lv.gs[1] != 'n0'
    def item(s, f, x, st, lv, ts):
        """before the token: the item of the class that ended must be in the state's transitions"""
        g = st.g
        if not s.itemend(lv): return True
        if isinstance(lv.gs, tuple) and not g['nval']: s.bad('number', f, x, 'the number of a character is not taken'); return False
        one = lv.gs == 'c2' or isinstance(lv.gs, tuple) and lv.gs[2] == 1
        if one and ts == frozenset([O('-')]):
            if g['it'] == 1: s.bad('item', f, x, 'the start of a range is added as a character'); return False
            return True
        if g['it'] != 1: s.bad('item', f, x, 'a character or range of a class is passed over without being added'); return False
        s.ren(st, lambda v: X if v in (('lo',), ('hi',)) else v)
        g['lok'] = g['hik'] = None
        return True
    def readtok(s, f, x, v, st):
        g = st.g; m = st.mem
        if g['fail']: return [(st, ('c', 0))]
        if v[0][0] != 'al': s.bad('wc', f, x, 'a character is read into something else than a local variable'); return []
        ptr, end = v[1], v[2]
        s.closecopy(f, x, st)
        if ptr == ('fs', 0) and end == ('fe', 0):
            lv = s.top(g); n = len(lv.frags)
            cq = s.derive(lv.cq) if lv.cq else None
            if lv.gs != 'more' or cq is None or not lv.frags or lv.frags[-1].sep == 'copy' or lv.frags[-1].need != '{': s.bad('reread', f, x, 'a factor is read again where no count repeats it'); return []
            if lv.frags[-1].loc != 's': s.bad('held', f, x, 'a factor is read again while its fragment is off the stack'); return []
            if cq.lt is not True or cq.done: s.bad('reread', f, x, 'a factor is repeated although its count may be reached'); return []
            s.setlv(g, cq=cq)
            s.ren(st, lambda w: sht(shl(w, 1), 1))
            g['ctx'] += (Lv('copy', True, 'first', (), 'start', None, g['tok']),)
            g['tok'] = None; g['bf'] = frozenset(); g['tb'] = None
            m = st.mem
            if m.get(('co', 'ptr')) == ('fs', 1): m[('co', 'ptr')] = ('p', 0)
            if m.get(('co', 'end')) == ('fe', 1): m[('co', 'end')] = ('en', 0)
            ptr, end = ('p', 0), ('en', 0)
        ateof = g['tok'] == frozenset([EOF])
        if end != ('en', 0) or ptr != ('p', 0) and not (ptr == ('tp', 0) and ateof):
            s.bad('where', f, x, 'characters are read from somewhere else than the place reached (%s, %s)' % (ptr, end)); return []
        s.read += 1; g['pop'] = None
        out = []
        for q in s.consume(f, x, st):
            g2 = q.g
            if ptr == ('p', 0): s.ren(q, lambda w: ('tp', 0) if w == ('p', 0) else X if w == ('tp', 0) else w)
            lv = s.top(g2)
            g2['tok'] = ALL; g2['bf'] = frozenset(); g2['tb'] = None
            toks = ALL
            if ateof: toks = frozenset([EOF])
            if lv.cp: toks = (toks & perm(lv)) - VOID
            if EOF in toks:
                w = q.copy(); w.g['tok'] = frozenset([EOF]); out.append((w, ('c', 0)))
            if toks - {EOF}:
                w = q.copy(); w.g['tok'] = toks - {EOF}; w.mem[v[0]] = ('tok', 0); out.append((w, ('inc',)))
        return out
    # ---- fragments
    def frag(s, f, x, st, v, what):
        """v as a fragment of the current level off the stack"""
        g = st.g
        s.closecopy(f, x, st)
        return v
    def theop(s, f, x, st, v, op):
        g = st.g
        if g['fail']: return [(st, X)]
        if v == ('lf',):
            if not s.settle(f, x, st, True): s.bad('op', f, x, 'an operator is applied to an unfinished fragment'); return []
            v = ('F', 0, len(s.top(g).frags) - 1)
        lv = s.top(g)
        if v[0] != 'F' or v[1] != 0 or v[2] != len(lv.frags) - 1 or lv.frags[v[2]].loc not in ('o',):
            s.bad('op', f, x, 'the operator %s is applied to another fragment than the last factor' % op); return []
        fr = lv.frags[v[2]]; k = v[2]
        if fr.got is not None: s.bad('twice', f, x, 'a second operator is applied to a factor'); return []
        s.ops += 1
        if fr.sep == 'copy':
            cq = s.derive(lv.cq)
            ok = cq.ge is True and (op == '*') == (cq.form == 'inf') and op in '*?'
            if not ok: s.bad('copy-%s' % op, f, x, 'the operator %s is applied to a repetition that %s' % (op, 'may be one that has to be there' if cq.ge is not True else 'is another one')); return []
            s.setlv(g, cq=cq)
        elif lv.gs == 'quant':
            if fr.need is None and not g['tok'] <= frozenset([O(op)]): s.bad('op', f, x, 'the operator %s is applied although the text may not have it' % op); return []
        elif fr.need == '{':
            cq = s.derive(lv.cq); zero = cq.f1 == frozenset([0])
            ok = {'*': zero and cq.form == 'inf', '+': cq.f1 == frozenset([1]) and cq.form == 'inf', '?': zero and cq.form == 'rng'}[op] and cq.made == 1
            if not ok: s.bad('count-%s' % op, f, x, 'the operator %s is applied to a factor counted otherwise' % op); return []
            if op in '*+': s.setlv(g, cq=cq._replace(done=True))
        elif fr.need != op:
            s.bad('op-%s' % op, f, x, 'the operator %s is applied to a factor followed by %s' % (op, fr.need or 'none')); return []
        s.setfr(g, k, got=op)
        return [(st, ('F', 0, k))]
    def cat(s, f, x, st, a, b):
        g = st.g
        if g['fail']: return [(st, X)]
        lv = s.top(g)
        if b == ('lf',) and g['ac']:
            # the accepting state behind the whole expression
            if len(lv.frags) != 1 or a != ('F', 0, 0) or lv.frags[0].loc != 'o' or lv.kind != 'doc' or g['tok'] != frozenset([EOF]) or lv.gs not in ('more', 'quant') or g['fr'] < 1:
                s.bad('accept', f, x, 'the accepting state is not put behind the whole expression'); return []
            if not s.finish(f, x, st, 0): return []
            g['done'] = 'cat'; s.setfr(g, 0, need=None, got=None); s.setlv(g, cq=None)
            s.ren(st, lambda v: X if v == ('lf',) else v)
            return [(st, ('F', 0, 0))]
        if b == ('lf',):
            if not s.settle(f, x, st, True): s.bad('cat', f, x, 'an unfinished fragment is joined'); return []
            lv = s.top(g); b = ('F', 0, len(lv.frags) - 1)
        if a[0] != 'F' or b[0] != 'F' or a[1] or b[1] or b[2] != len(lv.frags) - 1 or a[2] != b[2] - 1 or any(lv.frags[q].loc != 'o' for q in (a[2], b[2])):
            s.bad('cat', f, x, 'fragments are joined that do not follow each other in the text'); return []
        i, k = a[2], b[2]; fr = lv.frags[k]; s.ops += 1
        if fr.sep == 'copy':
            cq = s.derive(lv.cq)
            want = None if cq.ge is False else ('*' if cq.form == 'inf' else '?') if cq.ge is True else 'unknown'
            if fr.got != want: s.bad('copy-%s' % cq.form, f, x, 'a repetition that %s is joined%s' % ('may be missing' if want else 'has to be there', ' without a check which one it is' if want == 'unknown' else '')); return []
            main = lv.frags[i]
            zero = cq.f1 == frozenset([0])
            if main.got in ('*', '+') or main.got == '?' and not zero or main.got is None and 0 in cq.f1: s.bad('count-first', f, x, 'the first repetition is %s' % ('optional although it has to be there' if main.got else 'not optional although it may be missing')); return []
            s.setlv(g, frags=lv.frags[:k], cq=cq._replace(made=2, lt=None, ge=None, done=fr.got == '*'))
            s.setlv(g, cq=s.top(g).cq._replace(lt=False if fr.got == '*' else None))
            s.ren(st, lambda v: X if v == ('F', 0, k) else ('cnt', 0, v[2] - 1) if v[0] == 'cnt' and v[1] == 0 else v)
            return [(st, ('F', 0, i))]
        if fr.sep != 'cat': s.bad('cat', f, x, 'alternatives are joined one behind the other'); return []
        if lv.gs == 'quant' and g['tok'] & QUANT: s.bad('cat-quant', f, x, 'a factor is joined to the one before it before its operator is read'); return []
        if lv.gs not in ('quant', 'more') or not s.finish(f, x, st, k):
            if lv.gs not in ('quant', 'more'): s.bad('cat', f, x, 'fragments are joined in the middle of a factor')
            return []
        s.setlv(g, frags=lv.frags[:i] + (Fr('o', lv.frags[i].sep, None, None),), cq=None, gs='more')
        s.ren(st, lambda v: X if v == ('F', 0, k) else v)
        return [(st, ('F', 0, i))]
    def alt(s, f, x, st, a, b):
        g = st.g
        if g['fail']: return [(st, X)]
        if b == ('lf',):
            if not s.settle(f, x, st, True): s.bad('alt', f, x, 'an unfinished fragment is joined'); return []
            b = ('F', 0, len(s.top(g).frags) - 1)
        lv = s.top(g); k = len(lv.frags) - 1
        if {a, b} != {('F', 0, k), ('F', 0, k - 1)} or any(lv.frags[q].loc != 'o' for q in (k, k - 1)): s.bad('alt', f, x, 'fragments are combined as alternatives that do not follow each other in the text'); return []
        s.ops += 1
        if lv.frags[k].sep != 'alt': s.bad('alt', f, x, 'factors that follow each other are combined as alternatives'); return []
        if lv.frags[k - 1].sep == 'cat': s.bad('alt', f, x, 'an alternative begins in the middle of the sequence before it'); return []
        if lv.gs not in ('quant', 'more') or g['tok'] & perm(lv) - VOID - {O('|'), O(')'), EOF}: s.bad('alt', f, x, 'an alternative is combined before its end'); return []
        if not s.finish(f, x, st, k): return []
        s.setlv(g, frags=lv.frags[:k - 1] + (Fr('o', lv.frags[k - 1].sep, None, None),), cq=None, gs='more')
        r = ('F', 0, k - 1)
        s.ren(st, lambda v: X if v[0] == 'F' and v[1] == 0 and v[2] >= k - 1 else v)
        return [(st, r)]
    def push(s, f, x, st, v):
        g = st.g
        if g['fail']: return [(st, U)]
        s.closecopy(f, x, st)
        if v == ('lf',):
            if g['fr'] != 1: s.bad('push', f, x, 'a fragment is put on the stack twice'); return []
            if any(q.loc == 'o' for q in s.top(g).frags): s.bad('order', f, x, 'a fragment is put on the stack before the one before it'); return []
            g['fr'] = 2; s.sl(st, -1)
            if g['want'] is not None and not s.settle(f, x, st): return []
            return [(st, U)]
        lv = s.top(g)
        if v[0] != 'F' or v[1] != 0 or lv.frags[v[2]].loc != 'o': s.bad('push', f, x, 'something else than the fragment taken is put on the stack'); return []
        if any(q.loc == 's' for q in lv.frags[v[2] + 1:]) or any(q.loc == 'o' for q in lv.frags[:v[2]]): s.bad('order', f, x, 'fragments are put on the stack out of order'); return []
        s.setfr(g, v[2], loc='s'); s.sl(st, -1)
        return [(st, U)]
    def sl(s, st, d):
        def fn(v): return ('sl', v[1] + d) if v[0] == 'sl' else ('slot', ('sl', v[1][1] + d)) if v[0] == 'slot' and v[1][0] == 'sl' else v
        st.env = {k: s.slv(w, d) for k, w in st.env.items()}
        st.mem = {k: (tuple(s.slv(u, d) for u in w) if k == ('fr',) else s.slv(w, d)) for k, w in st.mem.items()}
    def slv(s, v, d):
        if not isinstance(v, tuple) or not v: return v
        if v[0] == 'sl': return ('sl', v[1] + d)
        if v[0] in ('slot', 'cmp', 'ext', 'not', 'and', 'or', 'sm'): return tuple(s.slv(q, d) if isinstance(q, tuple) else q for q in v)
        return v
    def pop(s, f, x, st):
        """the length of the stack is taken down by one"""
        g = st.g
        if g['fail']: g['pop'] = X; return True
        s.closecopy(f, x, st)
        if g['want'] is not None and not s.settle(f, x, st): s.bad('pop', f, x, 'a fragment is taken while the one being built is missing'); return False
        fr = s.top(g).frags
        k = [i for i, q in enumerate(fr) if q.loc == 's']
        if not k:
            if s.refuse(f, x, st, 'a fragment is taken that does not belong to the expression being read'):
                g['pop'] = X; return True
            return False
        s.setfr(g, k[-1], loc='o'); g['pop'] = ('F', 0, k[-1])
        s.sl(st, 1)
        return True
    def destroy(s, f, x, st, v):
        g = st.g
        if g['fail']: return [(st, U)]
        if g['done'] == 'cat' and v == ('F', 0, 0): g['done'] = 'freed'; return [(st, U)]
        lv = s.top(g)
        if v[0] == 'F' and v[1] == 0 and v[2] == len(lv.frags) - 1 and lv.frags[v[2]].loc == 'o' and lv.frags[v[2]].need == '{' and lv.gs == 'more' and lv.cq:
            cq = s.derive(lv.cq)
            if cq.f1 == frozenset([0]) and (cq.form == 'exact' or cq.form == 'rng' and cq.t2 == frozenset([0])) and lv.frags[v[2]].got is None:
                s.setfr(g, v[2], loc='g'); s.ren(st, lambda w: X if w == v else w); return [(st, U)]
        if not s.refuse(f, x, st, 'a fragment is thrown away'): return []
        return [(st, U)]
    # ---- instructions
    def tabix(s, f, x):
        """it is the index of a constant table of characters"""
        k = ('tabix', x.i); r = f._bf.get(k)
        if r is None:
            ids = {x.i}
            for y in f.insts():
                if y.op in ('sext', 'zext', 'add') and y.ops[0][0] == 'v' and y.ops[0][1] in ids: ids.add(y.i)
            r = f._bf[k] = any(y.op == 'getelementptr' and y.ops[0][0] == 'g' and gbytes(s.m, y.ops[0][1]) is not None and y.ops[-1][0] == 'v' and y.ops[-1][1] in ids for y in f.insts())
        return r
    def merge(s, f, x, v, st):
        g = st.g
        # induction variables
        ind = None
        for o, q in x.ops:
            if o[0] == 'v':
                y = f.inst.get(o[1])
                if y is not None and y.op == 'add' and tuple(y.ops[0]) == ('v', x.i) and y.ops[1][0] == 'c' and y.ops[1][1] == 1: ind = True
        if ind:
            if v in (('ns0',),) or v[0] == 'nsf': return ('zi', v, 0)
            if v[0] == 'c':
                if not g['fail'] and isinstance(s.top(g), Lv):
                    lv = s.top(g)
                    if x.t == 'i64' and lv.cq and lv.gs == 'more' and lv.frags and lv.frags[-1].need == '{' and lv.cq.made == 1: return ('cnt', 0, v[1] - 1)
                    if g['tmp'] == 'neg' and g['tr'] == 'empty' and v[1] == 0: return ('ci', 0)
        if v[0] == 'c' and x.t in ('i32', 'i64') and v[1] > 4 and v[1] < 128 and x.n and not s.tabix(f, x) and any(o[0] == 'v' and f.inst.get(o[1]) is not None and f.inst.get(o[1]).op == 'add' for o, q in x.ops): return ('big',)
        if v[0] == 'zi' and v[2] != 0 or v[0] == 'ci' and v[1] != 0: return U
        return v
    def base(s, f, x, st, v):
        op = x.op
        if op in ('sext', 'zext', 'trunc'):
            if v[0][0] in ('tok', 'esc', 'lit', 'lo', 'hi', 'inc', 'by', 'fb', 'num', 'n1', 'n2', 'big', 'ctv', 'ctm'): return v[0]
            if op == 'trunc' and v[0][0] == 'c' and x.t == 'i8': return v[0]
        if op == 'add' and v[1][0] == 'c':
            a, n = v[0], v[1][1]
            if n >= 1 << 31: n -= 1 << (64 if n >= 1 << 63 else 32)
            if a[0] == 'big': return a
            if a[0] in ('cnt',): return ('cnt', a[1], a[2] + n)
            if a[0] in ('zi',): return ('zi', a[1], a[2] + n)
            if a[0] in ('ci', 'sl'): return (a[0], a[1] + n)
        if op == 'sub' and v[1][0] == 'c' and v[0][0] in ('sl',): return ('sl', v[0][1] - v[1][1])
        if op == 'mul':
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a[0] == 'es': return ('sm', b)
        if op == 'and':
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a[0] == 'ctv' and b[0] == 'c': return ('ctm', a[1], b[1])
        return None
    def inst(s, f, x, st, v):
        op = x.op; g = st.g; m = st.mem
        if op == 'alloca': return ('al', f.name, x.i)
        if op == 'getelementptr':
            p = v[0]; path = x.d.get('path') or []
            if p[0] in ('co', 'db', 'stk', 'tmp', 'states', 'S', 'lf', 'F', 'SS', 'tr', 'zs') and path and path[0][0] == 'f':
                return ('pf', p, path[0][2])
            if p[0] == 'pf' and p[1] == ('co',): return p
            if p[0] == 'al' or p[0] == 'alp': return ('alp', p[1], p[2])
            if p[0] in ('g', 'gp') and v[-1][0] == 'c' and x.d.get('path') and all(q[0] == 'i' for q in path): return ('gp', p[1], (p[2] if p[0] == 'gp' else 0) + v[-1][1])
            if len(v) > 1:
                i = v[1]
                if p == ('p', 0) and i == ('size',): return ('en', 0)
                if p in (('p', 0), ('tp', 0), ('fs', 1)) and i == ('inc',): return ('adv',)
                if p[0] == 'p' and i[0] == 'c': return ('p+', p[1], i[1]) if i[1] else p
                if p[0] == 'p+' and i[0] == 'c': return ('p+', p[1], p[2] + i[1])
                if p[0] == 'fs' and i[0] == 'c': return ('fs+', i[1]) if i[1] else p
                if p[0] == 'fs+' and i[0] == 'c': return ('fs+', p[1] + i[1])
                if p[0] == 'data' and i[0] == 'sm': return ('slot', i[1], p[1])
                if p == ('ctab',): return ('cta', i)
            return U
        if op == 'load':
            p = v[0]
            if p == ('c', 0): s.bad('null', f, x, 'a null pointer is used'); return []
            if p == ('ctl',): return ('ctab',)
            if p[0] == 'g' and x.t == 'i8': p = ('gp', p[1], 0)
            if p[0] == 'gp' and x.t == 'i8':
                b = gbytes(s.m, p[1])
                return ('c', b[p[2]] - 256 if b[p[2]] > 127 else b[p[2]]) if b and 0 <= p[2] < len(b) else U
            if p[0] == 'cta':
                if p[1] == ('tok', 0) and g['tok'] is not None and any(t > 255 or t < -128 for t in g['tok']): s.bad('ctype', f, x, 'a character beyond the table of character types is looked up in it'); return []
                return ('ctv', p[1])
            if p[0] in ('al', 'alp'): return m.get(('al', p[1], p[2]), U) if p[0] == 'al' else U
            if p[0] in ('p', 'p+') and p[1] == 0 and not g['fail']:
                k = p[2] if p[0] == 'p+' else 0
                if not any(('in', q) in g['bf'] for q in (k, k + 1, k + 2)): s.bad('beyond', f, x, 'the text is read without a check that its end is not reached'); return []
                return ('by', 0, k)
            if p[0] == 'fs': return ('fb', 0)
            if p[0] == 'fs+': return ('fb', p[1])
            if p[0] == 'slot': return s.slotload(f, x, st, p)
            k = s.place(f, x, p)
            if k is None: return U
            return s.loadfield(f, x, st, k)
        if op == 'store':
            p, w = v[1], v[0]
            if p == ('c', 0): s.bad('null', f, x, 'a null pointer is used'); return []
            if p[0] in ('al', 'alp'):
                if p[0] == 'al': m[('al', p[1], p[2])] = w
                if x.d.get('vt') == 'i8' and not g['fail']:
                    if w in (('tok', 0),) or w[0] == 'c' and g['tok'] == frozenset([w[1]]): g['sv'] = True; g['nul'] = False
                    elif w == ('c', 0): g['nul'] = True
                return U
            k = s.place(f, x, p)
            if k is None: return U
            return s.storefield(f, x, st, k, w)
        if x.iscall: return s.callee(f, x, st, v)
        return U
    def place(s, f, x, p):
        if p[0] == 'pf': return (p[1], p[2])
        c = f.cls(x)
        if p[0] in ('co', 'db', 'stk', 'tmp', 'states', 'S', 'lf', 'F', 'SS', 'tr'): return (p, c[-1]) if c else None
        return None
    def loadfield(s, f, x, st, k):
        p, n = k; g = st.g; m = st.mem
        if p == ('co',):
            if n == 'stack': return ('stk',)
            if n == 'temptrans': return ('tmp',)
            return m.get(('co', n), U)
        if p == ('db',): return ('states',) if n == 'states' else U
        if p == ('states',):
            if n == 'len':
                if g['ns'] and not g['fail'] and g['tok'] is None: return ('ns0',)
                return ('ns',)
            return U
        if p == ('stk',):
            return {'len': ('sl', 0), 'data': ('data', 'stk'), 'elt_size': ('es',)}.get(n, U)
        if p == ('tmp',):
            return {'len': ('tl',), 'data': ('data', 'tmp'), 'elt_size': ('es',)}.get(n, U)
        if p[0] in ('S', 'SS'):
            if n == 'trans': return ('tr',) if p[0] == 'S' else U
            if n == 'uid': return ('uid',) if p[0] == 'S' else ('SU',)
            return U
        if p == ('lf',) and n == 'sstate': return ('S',)
        if p[0] == 'F' and n == 'sstate': return ('SS',) if p == ('F', 0, 0) and g['done'] else U
        return U
    def slotload(s, f, x, st, p):
        g = st.g
        if p[2] == 'stk':
            if g['fail']: return X
            if p[1] == ('sl', 0) and g['pop'] is not None: return g['pop']
            if p[1] == ('sl', -1):
                # the top without taking it
                s.settle(f, x, st)
                k = [i for i, q in enumerate(s.top(g).frags) if q.loc == 's']
                return ('F', 0, k[-1]) if k else U
            if p[1] == ('c', 0): return X
            s.bad('slot', f, x, 'another fragment than the last one is taken from the stack'); return []
        return U
    def storefield(s, f, x, st, k, w):
        p, n = k; g = st.g; m = st.mem
        if p == ('co',):
            if g['fail'] or n in ('start', 'tokenstr'): return U
            if n == 'token':
                if w[0] == 'c' and g['tok'] is not None:
                    lv = s.top(g)
                    if w[1] == EOF:
                        if g['tok'] <= frozenset([EOF, 10, 13]): g['tok'] = frozenset([EOF]); w = ('tok', 0)
                    elif len(g['tok']) == 1 and (lv.gs == 'litesc' or isinstance(lv.gs, tuple) and lv.gs[0] == 'cesc'):
                        t = next(iter(g['tok']))
                        if ESC.get(t, t) == w[1]: w = ('esc', 0)
                m[('co', n)] = w; return U
            if n == 'ptr':
                if w == ('adv',): w = ('p', 0)
                elif w[0] == 'p+' and w[1] == 0: return s.skip(f, x, st, w)
                m[('co', n)] = w; return U
            m[('co', n)] = w; return U
        if p == ('stk',):
            if n == 'len':
                if w == ('sl', -1): return U if s.pop(f, x, st) else []
                if w == ('sl', 0): return U
                s.bad('stack', f, x, 'the stack is changed by something else than one fragment'); return []
            return U
        if p == ('tmp',) and n == 'len': g['tmp'] = 'empty' if w == ('c', 0) else 'dirty'; return U
        if p == ('SS',) and n == 'type':
            if w != ('c', s.K['START']): s.bad('start', f, x, 'the first state of the expression is not made the start state'); return []
            g['st'] = True; return U
        if p == ('S',) and n == 'userdata': g['ud'] = w == ('ud',); return U
        return U
    def skip(s, f, x, st, w):
        g = st.g; k = w[2]; bf = g['bf']; lv = s.top(g)
        ok = False
        if k == 1:
            ok = ('bl', 0) in bf or ('sp', 0) in bf and (lv.gs in ('more', 'quant') and g['tok'] == frozenset([O('|')]) or g['tok'] is None)
        elif k == 2: ok = ('is', 0, O('\\')) in bf and ('is', 1, 10) in bf
        elif k == 3: ok = ('is', 0, O('\\')) in bf and ('is', 1, 13) in bf and ('is', 2, 10) in bf
        if not ok: s.bad('skip', f, x, 'something else than blanks and continued lines is skipped'); return []
        # not inside a class, an escape or a number
        t = g['tok']
        after = {s.key(step(lv, c)) for c in t if c != EOF and step(lv, c)} if t else {lv.gs}
        if lv.gs in ('q1', 'q3') and g['tb'] is True: after = {lv.gs + 'b'}
        inner = {'litesc', 'c0', 'c1', 'c2', 'c3', 'ci', 'q1', 'q3'}
        if after & inner or any(isinstance(a, tuple) for a in after): s.bad('skip-in', f, x, 'blanks are skipped where they count (%s)' % s.gsn(g)); return []
        s.ren(st, lambda v: X if v == ('p', 0) or v[0] in ('p+',) and v != w else v)
        s.ren(st, lambda v: ('p', 0) if v == w else v)
        g['bf'] = frozenset(); st.mem[('co', 'ptr')] = ('p', 0)
        return U
    def key(s, r): return r[0] if r[0] != 'grp' else 'first'
    def newstate(s, f, x, st, v):
        g = st.g
        if g['fail']: return [(st, X)]
        lv = s.top(g)
        if g['S'] and g['want'] is not None and g['fr'] == 2: s.settle(f, x, st); lv = s.top(g)
        if g['S']: s.bad('state', f, x, 'a second state is made for a factor'); return []
        k = len(lv.frags) - 1
        if v[1] == ('c', s.K['ACCEPT']):
            if not (lv.kind == 'doc' and lv.gs in ('more', 'quant') and g['tok'] == frozenset([EOF])): s.bad('accept', f, x, 'the accepting state is made before the end of the expression'); return []
            g['ac'] = True
        elif v[1] != ('c', s.K['NONE']): s.bad('type', f, x, 'a state of another type is made'); return []
        elif k >= 0 and lv.frags[k].loc == 'g':
            if g['zap'] != 'done': s.bad('zero', f, x, 'the states of a factor repeated zero times are still there'); return []
            s.setfr(g, k, loc='p', need='eps'); g['want'] = ('eps',); g['zap'] = None
        elif g['want'] is None and lv.gs in ('first', 'alt', 'more', 'quant'):
            # the length of the states where the factor begins
            s.ren(st, lambda w: ('nsf', 0, 'new') if w == ('ns',) else w)
        s.ren(st, lambda w: ('nsf', 0) if w == ('nsf', 0, 'new') else X if w == ('nsf', 0) and g['want'] is None and lv.gs in ('first', 'alt', 'more', 'quant') else X if w == ('ns',) else w)
        g['S'] = 1; g['lt'] = (); g['fr'] = 0; g['ns'] = False; g['tr'] = 'items'
        s.ren(st, lambda w: ('Sold',) if w == ('S',) else w)
        return [(st, ('uid',))]
    def trans(s, f, x, st, v):
        g = st.g
        if g['fail']: return U
        if v[0] != ('S',): s.bad('trans', f, x, 'a transition is added to another state'); return []
        if v[3] not in (('c', -1), ('c', 0xFFFFFFFF), ('c', (1 << 64) - 1)): s.bad('dst', f, x, 'a transition of a new state leads somewhere already'); return []
        a, b = [('c', w[1] & 0xFFFFFFFF) if w[0] == 'c' else w for w in v[1:3]]
        lv = s.top(g)
        if s.itemend(lv):
            one = lv.gs == 'c2' or isinstance(lv.gs, tuple) and lv.gs[2] == 1
            if isinstance(lv.gs, tuple) and (not g['nval'] or any(stepnum(lv.gs[1], t) != 'end' for t in g['tok'] if t != EOF)): s.bad('item', f, x, 'a character number is added before its end'); return []
            if one and O('-') in g['tok']: s.bad('item', f, x, 'the start of a range may be added as a character'); return []
            lo = [('lo',)] + ([('c', g['lok'])] if g['lok'] is not None else []); hi = lo if one else [('hi',)] + ([('c', g['hik'])] if g['hik'] is not None else [])
            if a not in lo or b not in hi: s.bad('range', f, x, 'another range of characters is added than the one read (%s, %s)' % (a, b)); return []
            if g['it'] == 1: s.bad('item', f, x, 'a range of characters is added twice'); return []
            g['it'] = 1; return U
        if len(g['lt']) < 3: g['lt'] += ((a, b),)
        if g['want'] is None and lv.gs == 'litesc':
            # the translated character
            fix = lambda w: ('esc', 0) if w == ('tok', 0) and not g['tok'] & set(ESC) or w[0] == 'c' and len(g['tok']) == 1 and ESC.get(min(g['tok']), min(g['tok'])) == w[1] else w
            g['lt'] = g['lt'][:-1] + ((fix(a), fix(b)),)
        return U
    def callee(s, f, x, st, v):
        n = x.callee or ''; g = st.g; m = st.mem
        if n == 'r_utf8_mbtowc': return s.readtok(f, x, v, st)
        if n.startswith('llvm.lifetime'):
            if n.startswith('llvm.lifetime.end') and v[-1][0] == 'al': m.pop(('al', v[-1][1], v[-1][2]), None)
            return U
        if n in ('strchr', 'r_strchr'):
            a, c = v[0], v[1]
            if a[0] == 'pf' and a[2] == 'blankchars' or a[0] == 'co': return ('blq', c)
            if a[0] == 'g':
                t = s.cstr(a[1])
                if t is not None: return ('scm', a[1], c)
            return U
        if n == '__ctype_b_loc': return ('ctl',)
        if n == 'isspace': return ('ctm', v[0], 8192)
        if n == 'isxdigit': return ('ctm', v[0], 4096)
        if n == 'isdigit': return ('ctm', v[0], 2048)
        if n in ('strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull', 'strtol', '__isoc23_strtol'): return s.number(f, x, st, v)
        if n == 'rex_db_createstate': return s.newstate(f, x, st, v)
        if n == 'rex_db_getstate':
            if v[1] == ('uid',): return ('S',)
            if v[1][0] == 'zi' and v[1][2] == 0: return ('zs', v[1][1])
            return U
        if n == 'rex_state_addtransition': return s.trans(f, x, st, v)
        if n in ('rex_state_addtransition_e', 'rex_state_addtransition_e_dst', 'rex_state_addtransition_dst'):
            if g['fail']: return U
            if v[0] == ('S',) and n == 'rex_state_addtransition_e' and v[1] in (('c', -1), ('c', (1 << 64) - 1)): g['lt'] += (('e',),); return U
            s.bad('trans', f, x, 'another transition is added'); return []
        if n == 'rex_state_setuserdata':
            if v[0] == ('S',) and g['ac']: g['ud'] = v[1] == ('ud',)
            return U
        if n == 'rex_state_destroy': return s.zap(f, x, st, v)
        if n == 'rex_fragment_create':
            if g['fail']: return X
            if v[0] != ('S',) or g['fr']: s.bad('fragment', f, x, 'a fragment is made of another state than the one just built'); return []
            g['fr'] = 1; return ('lf',)
        if n == 'rex_fragment_destroy': return s.destroy(f, x, st, v[0])
        if n in ('rex_fragment_mop', 'rex_fragment_opt', 'rex_fragment_mul'):
            return s.theop(f, x, st, v[1], {'mop': '*', 'opt': '?', 'mul': '+'}[n[-3:]])
        if n == 'rex_fragment_cat': return s.cat(f, x, st, v[1], v[2])
        if n == 'rex_fragment_alt': return s.alt(f, x, st, v[1], v[2])
        if n == 'r_array_add':
            if v[0] == ('stk',): return s.push(f, x, st, m.get(v[1], U))
            if v[0] == ('tr',):
                if v[1] == ('slot', ('ci', 0), 'tmp') and g['tr'] in ('empty', 'copying'):
                    g['tr'] = 'copying'
                    st.env = {k: ('ci', w[1] - 1) if w[0] == 'ci' else w for k, w in st.env.items()}
                elif not g['fail']: s.bad('neg', f, x, 'other transitions are added to a character class'); return []
            return U
        if n == 'r_array_setlength':
            if v[0] == ('states',): return s.setstates(f, x, st, v[1])
            if v[0] == ('tmp',): g['tmp'] = 'empty' if v[1] == ('c', 0) else 'dirty'; return U
            if v[0] == ('tr',):
                if g['fail']: return U
                g['tr'] = 'empty' if v[1] == ('c', 0) else 'other'; return U
            if v[0] == ('stk',) and not g['fail']: s.bad('stack', f, x, 'the length of the stack is set'); return []
            return U
        if n == 'rex_transitions_negative':
            if g['fail']: return U
            ok = v[0] == ('tmp',) and v[1] == ('tr',) and g['tmp'] == 'empty' and g['tr'] == 'items' and g['want'] is not None and g['want'] == ('cls', True)
            if not ok: s.bad('neg', f, x, 'the complement of a character class is taken %s' % ('of another set' if v[1] != ('tr',) or g['tmp'] != 'empty' else 'although it is not asked for')); return []
            g['tmp'] = 'neg'; return U
        if n == 'rex_transitions_normalize': return U
        if n in ('memset', 'llvm.memset.p0.i64', 'r_memset'): return U
        return U
    def cstr(s, name):
        gl = s.m.globals.get(name)
        if not gl or not gl.get('const') or 'init' not in gl: return None
        v = gl['init']
        try:
            if v[0] == 'a': b = [q[1] & 255 for q in v[1]]
            elif v[0] == 's': b = list(v[2])
            else: return None
        except Exception: return None
        return frozenset(b) | {0}
    def number(s, f, x, st, v):
        g = st.g
        if g['fail']: return U
        lv = s.top(g); gs = lv.gs; base = v[2][1] if v[2][0] == 'c' else None
        if not g['nul']: s.bad('number', f, x, 'a number is taken from digits that are not terminated'); return []
        if v[0][0] not in ('al', 'alp'): s.bad('number', f, x, 'a number is taken from somewhere else than the digits kept'); return []
        if gs in ('q1', 'q3') or gs in ('q1b', 'q3b'):
            if gs in ('q1', 'q3') and g['tok'] & DIG: s.bad('number', f, x, 'a count is taken before its last digit'); return []
            if base != 10: s.bad('base', f, x, 'a count is not taken as a decimal number'); return []
            g['nval'] = True
            return ('n1', 0) if gs[1] == '1' else ('n2', 0)
        if isinstance(gs, tuple) and gs[0] == 'num' and gs[1] != 'n0':
            if any(stepnum(gs[1], t) != 'end' for t in g['tok'] if t != EOF): s.bad('number', f, x, 'a character number is taken before its last digit'); return []
            want = {'nx': (16,), 'nz': (8, 0, 10), 'nz8': (8, 0), 'nd': (10, 0)}[gs[1]]
            if base not in want: s.bad('base', f, x, 'a character number is taken with another base (%s)' % base); return []
            g['nval'] = True; w = 'lo' if gs[2] == 1 else 'hi'
            g['it'] = 0; g['lok' if gs[2] == 1 else 'hik'] = None
            if gs[2] == 1: g['hik'] = None
            return (w,)
        s.bad('number', f, x, 'a number is taken where none was read'); return []
    def zap(s, f, x, st, v):
        g = st.g
        if v[0][0] != 'zs': s.bad('destroy', f, x, 'a state is destroyed that is not counted off'); return []
        b = v[0][1]
        if b == ('ns0',):
            if not s.refuse(f, x, st, 'the states of the expression are destroyed'): return []
        elif not g['fail']:
            lv = s.top(g)
            if not (lv.frags and lv.frags[-1].loc == 'g'): s.bad('destroy', f, x, 'the states of a factor are destroyed while it is in use'); return []
        st.env = {k: ('zi', w[1], w[2] - 1) if w[0] == 'zi' and w[1] == b else X if w == v[0] else w for k, w in st.env.items()}
        return U
    def setstates(s, f, x, st, v):
        g = st.g
        if v == ('ns0',):
            if not s.refuse(f, x, st, 'the states of the expression are taken back'): return []
            if g['zap'] != ('ns0',): s.bad('leak', f, x, 'states are taken back without being destroyed'); return []
            g['zap'] = 'all'; g['ns'] = True; return U
        if g['fail']: return U
        if v == ('nsf', 0) and g['zap'] == ('nsf', 0): g['zap'] = 'done'; return U
        s.bad('states', f, x, 'the number of states is set to something else than what it was before the factor'); return []
    # ---- conditions
    def cond(s, f, c, truth, st):
        g = st.g
        if c[0] == 'cmp': p, a, b = c[1], c[2], c[3]
        else: p, a, b = 'ne', c, ('c', 0)
        FL = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
        if a[0] == 'c' and b[0] != 'c': a, b = b, a; p = FL.get(p, p)
        if a == ('tok', 0) and b[0] == 'c' and g['tok'] is not None:
            k = b[1]
            q = (p, k, truth, g['tok']); keep = s.tcache.get(q)
            if keep is None:
                keep = s.tcache[q] = frozenset(t for t in g['tok'] if s.truth(('cmp', p, ('c', t if p[0] != 'u' else t & 0xFFFFFFFF), ('c', k if p[0] != 'u' else k & 0xFFFFFFFF))) == truth)
            if not keep: return []
            g['tok'] = keep; return [st]
        if a[0] == 'inc' and b[0] == 'c' and b[1] in (0, 1):
            r = s.truth(('cmp', p, ('c', 1), b)) if b[1] == 0 else {'slt': False, 'sge': True, 'ult': False, 'uge': True}.get(p)
            return [st] if r is None or r == truth else []
        if a[0] == 'scm' and b == ('c', 0) and p in ('eq', 'ne'):
            t = s.cstr(a[1]); hit = truth == (p == 'ne'); c1 = a[2]
            if c1 == ('tok', 0) and g['tok'] is not None:
                keep = frozenset(q for q in g['tok'] if ((q & 255) in t) == hit)
                if not keep: return []
                g['tok'] = keep
            elif c1[0] == 'c': return [st] if ((c1[1] & 255) in t) == hit else []
            return [st]
        if a[0] == 'blq' and b == ('c', 0) and p in ('eq', 'ne'):
            hit = truth == (p == 'ne'); w = a[1]
            if w[0] == 'by' and hit: g['bf'] |= {('bl', w[2])}
            elif w[0] == 'fb' and hit: return []
            elif w == ('tok', 0) and g['tok'] is not None:
                if g['tok'] <= {EOF} and hit: pass
                if g['tb'] is not None and g['tb'] != hit: return []
                g['tb'] = hit
            return [st]
        if a[0] in ('ctm',) and b == ('c', 0) and p in ('eq', 'ne'):
            hit = truth == (p == 'ne'); w = a[1]; cls = {8192: SPACE, 4096: HEX, 2048: DIG}.get(a[2])
            if cls is None: return [st]
            if w == ('tok', 0) and g['tok'] is not None:
                keep = frozenset(q for q in g['tok'] if (q in cls) == hit)
                if not keep: return []
                g['tok'] = keep
            elif w[0] == 'by' and hit and cls is SPACE: g['bf'] |= {('sp', w[2])}
            elif w[0] == 'fb' and hit and cls is SPACE: return []
            return [st]
        if a[0] == 'by' and b[0] == 'c' and p in ('eq', 'ne'):
            if truth == (p == 'eq'): g['bf'] |= {('is', a[2], b[1])}
            return [st]
        if a[0] == 'fb' and b[0] == 'c' and p in ('eq', 'ne'):
            if truth == (p == 'eq') and a[1] > 0 and b[1] in (10, 13): return []
            return [st]
        if a[0] in ('p', 'p+') and b == ('en', 0) and a[1] == 0:
            k = a[2] if a[0] == 'p+' else 0
            q = p[1:] if p not in ('eq', 'ne') else p
            inb = truth if q == 'lt' else not truth if q == 'ge' else None
            if q in ('ne', 'eq') and k == 0: inb = truth == (q == 'ne')
            if inb: g['bf'] |= {('in', k)}
            return [st]
        if a[0] == 'en' and b[0] in ('p', 'p+') and b[1] == 0: return s.cond(f, ('cmp', FL.get(p, p), b, a), truth, st)
        if a[0] == 'big' and b[0] == 'c':
            if 0 <= b[1] <= 4:
                r = s.truth(('cmp', p, ('c', 5), b))
                return [st] if r is None or r == truth else []
            if b[1] >= 64 and p in ('sge', 'uge', 'sgt', 'ugt') and truth or p in ('slt', 'ult') and not truth: g['long'] = True
            return [st]
        if a == ('sl', 0) and b == ('c', 0) and p in ('eq', 'ne', 'ugt', 'sgt', 'ule'):
            nz = truth == (p in ('ne', 'ugt', 'sgt'))
            if g['fail']: g['emp'] = not nz; return [st]
            s.closecopy(f, None, st)
            lv = s.top(g)
            has = g['fr'] == 2 or any(q.loc == 's' for q in lv.frags)
            if has: return [st] if nz else []
            if len(g['ctx']) == 1 and lv.kind == 'doc' and not any(q.loc == 's' for q in lv.frags):
                g['emp'] = not nz
                return [] if nz else [st]
            return [st]
        if a[0] == 'zi' and b in (('ns',), ('ns0',)) and p in ('ult', 'uge', 'ne', 'eq', 'slt', 'sge'):
            more = truth == (p in ('ult', 'ne', 'slt'))
            if b == ('ns0',): return [] if more else [s.zapped(st, a)]
            if more and g['ns'] and a[1] == ('ns0',): return []
            if not more and a[2] == 0: return [s.zapped(st, a)]
            return [st]
        if b[0] == 'zi': return s.cond(f, ('cmp', FL.get(p, p), b, a), truth, st)
        if a == ('ns0',) and b == ('ns',):
            if g['ns'] and truth == (p in ('ult', 'ne', 'slt')): return []
            if p in ('ult', 'ne', 'slt') and not truth or p in ('uge', 'eq', 'sge') and truth: g['zap'] = 'all'
            return [st]
        if a == ('ns0',) and b == ('ns0',) or a == ('ns',) and b == ('ns',):
            r = {'ult': False, 'uge': True, 'eq': True, 'ne': False, 'slt': False}.get(p)
            if r is not None and r == truth and a == ('ns0',): g['zap'] = 'all'
            return [st] if r is None or r == truth else []
        if a == ('ns',) and b == ('ns0',): return s.cond(f, ('cmp', FL.get(p, p), b, a), truth, st)
        if a[0] == 'ci' and b == ('tl',) and a[1] == 0:
            more = truth == (p in ('ult', 'ne', 'slt'))
            if not more and g['tr'] in ('empty', 'copying'): g['tr'] = 'neg'
            return [st]
        if b[0] == 'ci': return s.cond(f, ('cmp', FL.get(p, p), b, a), truth, st)
        if a[0] in ('n1', 'n2', 'cnt') or b[0] in ('n1', 'n2', 'cnt'): return s.count(f, p, a, b, truth, st)
        if a[0] in ('S', 'lf', 'F', 'co', 'db', 'al', 'stk', 'tr', 'slot', 'p', 'str') and b == ('c', 0) and p in ('eq', 'ne'):
            return [st] if truth == (p == 'ne') else []
        if p in ('eq', 'ne') and a == b and a[0] not in ('?', 'x'): return [st] if truth == (p == 'eq') else []
        return [st]
    def zapped(s, st, a): st.g['zap'] = a[1]; return st
    def count(s, f, p, a, b, truth, st):
        g = st.g
        if g['fail']: return [st]
        s.closecopy(f, None, st)
        lv = s.top(g)
        FL = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
        if a[0] == 'c' or b[0] == 'cnt' or b[0] == 'n1' and a[0] == 'n2': a, b = b, a; p = FL.get(p, p)
        if lv.cq is None or a[1] != 0 or b[0] in ('n1', 'n2') and b[1] != 0: return [st]
        cq = lv.cq; M = 1 << 64
        def put(**k): s.setlv(g, cq=lv.cq._replace(**k)); return [st]
        if a[0] in ('n1', 'n2') and b[0] == 'c':
            k = b[1] % M; rep = {0: [0], 1: [1], 2: [2, 3, 1 << 40]}
            S_ = cq.f1 if a[0] == 'n1' else cq.t2
            keep = set()
            for q in S_:
                vals = {bool({'eq': w == k, 'ne': w != k, 'ult': w < k, 'ule': w <= k, 'ugt': w > k, 'uge': w >= k}.get(p, None)) if p in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') else None for w in rep[q] + ([k] if q == 2 and 2 <= k < M - 1 else [])}
                if truth in vals or None in vals: keep.add(q)
            if not keep: return []
            if a[0] == 'n1':
                r = put(f1=frozenset(keep))
                return r
            return put(t2=frozenset(keep))
        if a[0] == 'n1' and b[0] == 'n2':
            R = {'lt': {'ult', 'ule', 'ne'}, 'eq': {'eq', 'ule', 'uge'}, 'gt': {'ugt', 'uge', 'ne'}}
            keep = frozenset(r for r in cq.rel if (p in R[r]) == truth)
            if not keep: return []
            return put(rel=keep)
        if a == b:
            r = {'eq': True, 'ne': False, 'ult': False, 'ugt': False, 'ule': True, 'uge': True}.get(p)
            if cq.form == 'exact' and r is not None and r == truth: put(rel=frozenset(['eq']))
            return [st] if r is None or r == truth else []
        if a[0] == 'cnt' and a[2] == 0:
            cq = s.derive(cq); lt, ge = cq.lt, cq.ge
            if b[0] == 'n1':
                w = {'uge': truth, 'ult': not truth}.get(p)
                if p == 'eq' and truth or p == 'ne' and not truth: w = True
                if w is None: return [st]
                if ge is not None and ge != w: return []
                return put(ge=w)
            if b[0] == 'n2':
                w = {'ult': truth, 'uge': not truth}.get(p)
                if p == 'eq' and truth or p == 'ne' and not truth: w = False
                if w is None: return [st]
                if lt is not None and lt != w: return []
                return put(lt=w)
            if b[0] == 'c' and b[1] % M == M - 1:
                r = {'ult': True, 'uge': False, 'eq': False, 'ne': True, 'ule': True, 'ugt': False}.get(p)
                return [st] if r is None or r == truth else []
        return [st]

def check_compile(c):
    c.rule('an expression is accepted exactly when the grammar derives it, and its fragments are combined as the grammar says: operators on their factor, factors before alternatives, counts with as many repetitions')
    m = c.mod('core', pipe='plain', extra_boundary=('*noinline*',))
    kc = fe.load_consts([os.path.join(fe.REPO, 'rex/rexstate.h')])
    K = {'NONE': kc.get('REX_STATETYPE_NONE', 0), 'START': kc.get('REX_STATETYPE_START', 1), 'ACCEPT': kc.get('REX_STATETYPE_ACCEPT', 2)}
    R = Compiler(m, K)
    R.G0 = {'S': 0, 'lt': (), 'fr': 0, 'want': None, 'tr': None, 'tmp': None, 'it': None, 'lo': None, 'hi': None, 'lok': None, 'hik': None, 'lk': None, 'bf': frozenset(), 'sv': False, 'nul': False, 'long': False, 'tb': None, 'pop': None, 'ac': False, 'done': None, 'neg': None, 'nval': False}
    f = m.fn('rex_compiler_expression'); c.seen(f)
    g = dict(R.G0, ctx=(Lv('doc', False, 'first', (), 'start', None, None),), tok=None, fail=False, emp=None, zap=None, ns=True, st=False, ud=False)
    st = St({0: ('co',), 1: ('db',), 2: ('p', 0), 3: ('size',), 4: ('ud',)}, {('fr',): ()}, g)
    res = R.solve(f, st)
    good = bad = 0
    for rv, mem, g in res:
        g = dict(g)
        if rv is not None and rv[0] == 'c' and (rv[1] < 0 or rv[1] >= 1 << 63):
            bad += 1
            if not g['fail'] and not R.legit(g): R.bad('refuse-%s' % R.gsn(g), f, None, 'an expression is refused although it is well formed (%s)' % R.desc(g)); continue
            if g['zap'] != 'all' and not g['ns']: R.bad('left', f, None, 'states of a refused expression are left behind')
            if not g['emp']: R.bad('stackleft', f, None, 'fragments of a refused expression are left on the stack')
            continue
        good += 1
        if g['fail']: R.bad('success', f, None, 'an expression that is not well formed is accepted'); continue
        if g['done'] != 'freed': R.bad('end', f, None, 'an expression is accepted without its accepting state' if not g['done'] else 'the last fragment is not freed'); continue
        if rv != ('SU',): R.bad('uid', f, None, 'the number returned is not that of the first state')
        if not g['st']: R.bad('start', f, None, 'the first state is not made the start state')
        if not g['ud']: R.bad('userdata', f, None, 'the accepting state does not get the user data')
    for k, (w, msg) in R.errs.items(): c.bad(k, w, msg)
    c.ob('abstract states', R.visited); c.ob('summaries', len(R.table)); c.ob('tokens read', R.read); c.ob('operators', R.ops); c.ob('leaves', R.leaves); c.ob('copies', R.copies); c.ob('successful ends', good); c.ob('failing ends', bad)
    if not R.errs and (not good or not bad): c.bad('ends', f.where(), 'the compiler never %s' % ('succeeds' if not good else 'fails'))

CHECKS = {'X06': check_compile}
