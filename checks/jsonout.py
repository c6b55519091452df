"""JSON, the C++ library: what the writer puts out for a value, and which strings a value keeps."""
import re
import ir
from ir import AnalysisBroken
from common import *
from explore import *
from rsm import *
from jsoncpp import demangle, member, decoders
from jsonw import encoders, gbytes, params, STR

KINDS = ['null', 'object', 'array', 'string', 'bool', 'int', 'real']
GET = {'get_bool', 'get_int', 'get_int64', 'get_real', 'get_str', 'get_obj', 'get_array', 'get_type', 'type', 'is_null'}
OSTREAM = ('std::basic_ostream<char', 'std::ostream')
ITER = r'(?:std::_Rb_tree_(?:const_)?iterator<std::pair<|__gnu_cxx::__normal_iterator<rexjson::value)'
POS = ('pos', 'kv', 'el', 'nm', 'isnull', 'etype', 'elS')

class Writer(RSM):
    LIMIT = 60000
    def __init__(s, m, root, enc, npfield):
        super().__init__(m); s.d = demangle(m); s.root = root; s.enc = enc; s.npfield = npfield; s.tokens = 0; s.idx = {}
    # ---- which calls are interpreted
    def boundary(s, n):
        d = s.d.get(n, '')
        return n == s.root or n in s.enc or d in s.outer or not 'rexjson' in d or bool(re.match(r'_ZN?K?(St|9__gnu_cxx|Sa|Ss|So)', n)) or bool(member(d)) and member(d)[0] != 'val' or bool(member(d)) and (member(d)[1] in GET or member(d)[1] in ('ctor', 'dtor'))
    outer = {}
    def volatile(s, v): return isinstance(v, tuple) and len(v) > 1 and v[0] in POS
    # ---- values
    def isidx(s, f, x):
        k = (f.name, x.i)
        if k not in s.idx:
            ids = {x.i}; r = False
            for _ in range(2):
                for y in f.insts():
                    if y.op in ('sext', 'zext', 'trunc', 'phi', 'add') and any(o and o[0] == 'v' and o[1] in ids for o in ([q for q, _ in y.ops] if y.op == 'phi' else y.ops)) and y.t in ('i64', 'i32'): ids.add(y.i)
            for y in f.insts():
                if y.iscall and y.callee:
                    kk = member(s.d.get(y.callee, ''))
                    if kk and kk[0] == 'arr' and kk[1] in ('operator[]', 'at') and y.ops[1][0] == 'v' and y.ops[1][1] in ids: r = True
            s.idx[k] = r
        return s.idx[k]
    def merge(s, f, x, v, st):
        if v == ('c', 0) and x.t in ('i64', 'i32') and s.isidx(f, x): return ('bg',)
        if v[0] == 'c' and v[1] > 0 and x.t in ('i64', 'i32') and any(o[0] == 'v' and f.inst.get(o[1]) is not None and f.inst[o[1]].op == 'add' for o, _ in x.ops): return ('nz',)
        return v
    def base(s, f, x, st, v):
        op = x.op
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('pos', 'bg', 'end', 'nz'): return v[0]
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('bv', 'np'): return v[0]
        if op in ('add', 'sub') and v[1][0] == 'c':
            n = v[1][1] if op == 'add' else -v[1][1]
            if n >= 1 << 31: n -= 1 << (64 if n >= 1 << 63 else 32)
            if n <= -(1 << 31): n += 1 << (64 if n <= -(1 << 63) else 32)
            if v[0][0] == 'pos': return ('pos', v[0][1] + n)
            if v[0][0] == 'bg': return ('pos', n) if st.g['abs0'] else U
            if v[0][0] == 'end': return ('end', v[0][1] + n)
            if v[0] == ('nz',) and n > 0: return ('nz',)
        if op == 'fcmp':
            p = x.d.get('p')
            if v[0] == v[1] == ('real',):
                if p == 'uno' or p == 'une': return ('flag', 'nan')
                if p == 'ord' or p == 'oeq': return ('not', ('flag', 'nan'))
            return U
        if op == 'fpext': return v[0]
        return None
    # ---- the elements
    def positions(s, st):
        r = []
        def go(w):
            if isinstance(w, tuple) and w:
                if w[0] in ('pos', 'kv', 'el', 'nm', 'elS') and len(w) > 1: r.append(w[1])
                else: [go(q) for q in w[1:] if isinstance(q, tuple)]
        for w in st.env.values(): go(w)
        for k, w in st.mem.items():
            if k == ('fr',): [go(q) for q in w]
            else: go(w)
        return r
    def shift(s, f, st, x=None):
        g = st.g
        if not g['done'] and not (g['kind'] == 1 and g['np'] is False and g['el'] is True):
            s.bad('skip', f, x, 'an element of the %s is left out%s' % (KINDS[g['kind']] if g['kind'] is not None else 'value', '' if g['kind'] == 2 else ' although it is not known to be null and null members to be unwanted'))
        def mv(w):
            if isinstance(w, tuple) and len(w) > 1 and w[0] in POS:
                return (w[0], w[1] - 1) if w[1] > -1 else ('old', w[0])
            if isinstance(w, tuple) and w and w[0] in ('cmp', 'not', 'and', 'or', 'ext'): return tuple(mv(q) if isinstance(q, tuple) else q for q in w)
            return w
        st.env = {k: mv(w) for k, w in st.env.items()}
        st.mem = {k: tuple(mv(q) for q in w) if k == ('fr',) else mv(w) for k, w in st.mem.items()}
        g['lo'] = max(g['lo'] - 1, 0); g['hi'] = None if g['hi'] is None else g['hi'] - 1
        g['abs0'] = False; g['done'] = False; g['el'] = None
    def normal(s, st):
        g = st.g
        p = [q for q in s.positions(st)]
        n = 0
        while p and min(p) >= 1 and n < 4: s.shift(s.rootf, st); p = s.positions(st); n += 1
        if g['lo'] > 3: g['lo'] = 3
        if g['hi'] is not None and g['hi'] > 3: g['hi'] = 3
    def size(s, st, q, k):
        """remaining number of elements q k"""
        g = st.g; lo, hi = g['lo'], g['hi']; big = 1 << 40; h = big if hi is None else hi
        if q == 'lt': h = min(h, k - 1)
        elif q == 'le': h = min(h, k)
        elif q == 'gt': lo = max(lo, k + 1)
        elif q == 'ge': lo = max(lo, k)
        elif q == 'eq': lo = max(lo, k); h = min(h, k)
        elif q == 'ne':
            if lo == k: lo = k + 1
            if h == k: h = k - 1
        if lo > h: return []
        g['lo'] = lo; g['hi'] = None if h == big else h
        return [st]
    # ---- conditions
    def setf(s, st, k, t):
        if st.g[k] not in (None, t): return []
        st.g[k] = t; return [st]
    def cond(s, f, c, truth, st):
        g = st.g
        if c[0] in ('bv', 'np'): return s.setf(st, c[0], truth)
        if c[0] == 'flag':
            k = c[1]
            if k == 'fin':
                if g['nan'] is True or g['inf'] is True: return [st] if not truth else []
                if g['nan'] is False and g['inf'] is False: return [st] if truth else []
                if truth: g['nan'] = g['inf'] = False
                else: g['nonf'] = True
                return [st]
            if truth and g['nonf'] is False: return []
            r = s.setf(st, k, truth)
            if r and g['nan'] is False and g['inf'] is False and g['nonf']: return []
            return r
        if c[0] == 'isnull':
            if c[1] == 0 and not g['done']: return s.setf(st, 'el', truth)
            return [st]
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]
        if a[0] == 'c' and b[0] != 'c' or b[0] == 'pos' and a[0] in ('end', 'bg') or b[0] == 'bg' and a[0] == 'end':
            a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if b in (('c', 0), ('c', 1), ('c', -1)) and p in ('eq', 'ne') and a[0] in ('bv', 'np', 'flag', 'isnull'):
            return s.cond(f, a, truth == ((p == 'ne') == (b == ('c', 0))), st)
        q = p[1:] if p not in ('eq', 'ne') else p
        if not truth: q = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[q]
        if a[0] == 'etype' and b[0] == 'c':
            if a[1] == 0 and not g['done']:
                if q == 'eq': return s.setf(st, 'el', b[1] == 0)
                if q == 'ne' and b[1] == 0: return s.setf(st, 'el', False)
            return [st]
        if a == ('bg',):
            if b[0] == 'c' or b == ('bg',): a = ('c', 0); b = ('c', 0) if b == ('bg',) else b; return [st] if s.truth(('cmp', p, a, b)) == truth else []
            if b[0] == 'end':
                if not g['abs0']: return [st] if q in ('ne', 'lt', 'le') else []
                a = ('pos', 0)
        if a[0] == 'pos' and b == ('bg',): b = ('c', 0)
        if a[0] == 'pos' and b[0] == 'c':
            if g['abs0']: return [st] if s.truth(('cmp', p, ('c', a[1]), b)) == truth else []
            if b[1] == 0 and a[1] >= 0: return [st] if q in ('ne', 'gt', 'ge') else []
            return [st]
        if a[0] == b[0] == 'pos': return [st] if s.truth(('cmp', p, ('c', a[1]), ('c', b[1]))) == truth else []
        if a[0] == 'pos' and b[0] == 'end':        # a ? remaining
            k = a[1] - b[1]; q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
            return s.size(st, q, k)
        if a[0] == 'end' and b[0] == 'c':
            k = b[1] - a[1]
            if g['abs0']: return s.size(st, q, k)
            return ([st] if q in ('ne', 'gt', 'ge') else []) if k == 0 else [st]
        if a == ('nz',) and b[0] == 'c' and b[1] == 0: return [st] if q in ('ne', 'gt', 'ge') else []
        if b == ('c', 0) and p in ('eq', 'ne') and a[0] in ('A', 'O', 'OS', 'V', 'self', 'el', 'F'): return [st] if truth == (p == 'ne') else []
        if p in ('eq', 'ne') and a == b and a != U: return [st] if truth == (p == 'eq') else []
        return [st]
    # ---- what is put out
    def emit(s, f, x, st, o, tok):
        if o == ('OS',): return s.feed(f, x, st, tok)
        b = st.mem.get(('buf', o), ())
        if len(b) < 16: st.mem[('buf', o)] = b + (tok,)
    def more(s, st, d=0):
        """element d is there"""
        return st.g['lo'] > d
    def begin(s, f, x, st, d):
        """element d is put out next"""
        g = st.g
        while d > 0: s.shift(f, st, x); d -= 1
        if d < 0 or g['done']: s.bad('again', f, x, 'an element of the %s is written again' % KINDS[g['kind']]); g['dead'] = True; return
        if g['lo'] < 1: s.bad('behind', f, x, 'an element is written without a check that there is one'); g['dead'] = True
    def feed(s, f, x, st, tok):
        g = st.g
        if g['dead']: return
        k = g['kind']; ph = g['ph']; s.tokens += 1
        what = {'b': repr(chr(tok[1])) if tok[0] == 'b' else '', 'int': 'a number', 'real': 'a number', 'bool': 'true or false', 'str': 'a string', 'nm': 'a name', 'val': 'a value', 'raw': 'a string as it is', 'ws': 'a blank', '?': 'something unknown'}[tok[0]]
        def no(msg=None):
            s.bad('out-%s-%s' % (KINDS[k] if k is not None else 'any', ph if isinstance(ph, str) else ph[0]), f, x, msg or '%s is written %s' % (what, 'before it is known what the value is' if k is None else 'where the JSON text of %s %s cannot have it' % ('an' if k in (1, 2, 5) else 'a', KINDS[k]))); g['dead'] = True
        inq = ph in ('q1', 'q2', 'nq', 'nb')
        if tok[0] == 'b' and tok[1] in (32, 9, 10, 13) and not inq and not (ph[0] == 'lit'): return
        if tok == ('ws',): return no('blanks are written inside of a string') if inq or ph[0] == 'lit' else None
        if ph[0] == 'lit':
            if tok[0] == 'b' and ph[1][:1] == chr(tok[1]): g['ph'] = ('lit', ph[1][1:]) if ph[1][1:] else 'end'; return
            return no()
        if k is None: return no()
        if ph == 'end': return no('more is written behind the value')
        nonfin = g['nan'] is True or g['inf'] is True or g['nonf']
        if k in (0, 4, 5, 6):
            w = 'null' if k == 0 else {True: 'true', False: 'false', None: ''}[g['bv']] if k == 4 else 'null' if k == 6 and nonfin else ''
            if tok[0] == 'b' and w and chr(tok[1]) == w[0]: g['ph'] = ('lit', w[1:]); return
            if k == 4 and tok == ('bool',): g['ph'] = 'end'; return
            if k == 5 and tok == ('int',) or k == 6 and tok == ('real',) and g['nan'] is False and g['inf'] is False: g['ph'] = 'end'; return
            if k == 6 and tok == ('real',): return no('a number is written without a check that it is finite')
            return no()
        if k == 3:
            if ph == 'start' and tok == ('b', 34): g['ph'] = 'q1'; return
            if ph == 'q1' and tok == ('str',): g['ph'] = 'q2'; return
            if ph == 'q2' and tok == ('b', 34): g['ph'] = 'end'; return
            return no()
        if ph == 'start' and tok == ('b', ord('{[   '[k - 1])): g['ph'] = 'open'; return
        if tok == ('b', ord('}]'[k - 1])):
            if ph == 'comma': return no('a comma is written behind the last element')
            if ph not in ('open', 'elem'): return no()
            while g['lo'] >= 1 and (g['done'] or k == 1 and g['np'] is False and g['el'] is True): s.shift(f, st, x)
            if g['hi'] is None and g['done']: s.shift(f, st, x)
            if g['hi'] == 1 and g['done']: s.shift(f, st, x)
            if g['hi'] != 0: return no('the %s is closed although elements may be left' % KINDS[k])
            g['ph'] = 'end'; return
        if tok == ('b', 44):
            if ph != 'elem': return no('a comma is written that stands behind no element')
            g['ph'] = 'comma'; return
        if tok[0] == 'val' and k == 2:
            if ph == 'elem': return no('an element is written without a comma before it')
            if ph not in ('open', 'comma'): return no()
            s.begin(f, x, st, tok[1]); g['done'] = True; g['ph'] = 'elem'; return
        if k == 1:
            if tok == ('b', 34) and ph == 'elem': return no('a member is written without a comma before it')
            if tok == ('b', 34) and ph in ('open', 'comma'): g['ph'] = 'nq'; return
            if tok[0] == 'nm' and ph == 'nq':
                s.begin(f, x, st, tok[1])
                if not g['dead'] and g['np'] is not True and g['el'] is not False: return no('a member is written although it may be null and null members unwanted')
                g['ph'] = 'nb'; return
            if tok == ('b', 34) and ph == 'nb': g['ph'] = 'ne'; return
            if tok == ('b', 58) and ph == 'ne': g['ph'] = 'colon'; return
            if tok[0] == 'val' and ph == 'colon':
                if tok[1] != 0: return no('the value of another member is written')
                g['done'] = True; g['ph'] = 'elem'; return
        no()
    def sym(s, st, w):
        if w[0] == 'c': return ('b', w[1] & 255)
        return ('?',)
    def text(s, st, w):
        """the tokens of a string object or C string"""
        if w[0] in ('g', 'gp'):
            b = gbytes(s.m, w[1])
            if b is None: return [('?',)]
            b = b[w[2] if w[0] == 'gp' else 0:]
            return [('b', c) for c in (b[:b.index(0)] if 0 in b else b)]
        if w == ('sv',): return [('raw',)]
        if w[0] in ('nm', 'kv'): return [('raw',)]
        if w[0] == 'F': return [('ws',)]
        if w[0] == 'cs': return s.text(st, w[1])
        b = st.mem.get(('buf', w))
        return list(b) if b is not None else [('?',)]
    # ---- instructions
    def inst(s, f, x, st, v):
        op = x.op; m = st.mem; g = st.g
        if op == 'alloca': return ('A', f.name, x.i)
        if op == 'getelementptr':
            p = v[0]; path = [q for q in (x.d.get('path') or []) if q[0] == 'f']
            if p == ('self',): return ('F', path[0][2]) if path else U
            if p == ('V',): return ('con',) if path and path[-1][2] not in ('value_type_',) else p
            if p[0] == 'el' and path: return ('elS', p[1]) if path[-1][2] != 'value_type_' else p
            if p[0] == 'kv': return ('el', p[1]) if path and len(path[-1]) > 3 and path[-1][3] > 0 else ('nm', p[1])
            if p == ('OS',): return p
            if p[0] in ('g', 'gp') and v[-1][0] == 'c': return ('gp', p[1], (p[2] if p[0] == 'gp' else 0) + v[-1][1])
            if p[0] in ('A', 'O'): return p
            return U
        if op == 'load':
            p = v[0]
            if p == ('self',): return s.field(s.fld0)
            if p[0] == 'F': return s.field(p[1])
            if p == ('V',) and x.t == 'i32': return s.kindof(st)
            if p == ('con',):
                k = g['kind']
                return {5: ('int',), 6: ('real',), 4: ('bv',), 3: ('sv',), 1: ('con', 'obj'), 2: ('con', 'arr')}.get(k, U)
            if p[0] == 'el' and x.t == 'i32': return ('etype', p[1])
            return m.get(('v', p), U)
        if op == 'store':
            w, p = v
            if p[0] in ('A', 'O'): m[('v', p)] = w
            elif p[0] in ('V', 'con', 'el', 'elS', 'nm', 'kv'): s.bad('changed', f, x, 'the value that is written is changed')
            return U
        if x.iscall: return s.lib(f, x, st, v)
        return U
    def field(s, n):
        return ('np',) if n == s.npfield else U
    def kindof(s, st):
        g = st.g
        if g['kind'] is not None: return ('c', g['kind'])
        out = []
        for k in range(7):
            q = st.copy(); q.g['kind'] = k; out.append((q, ('c', k)))
        return out
    def need(s, f, x, st, ks, w):
        """a getter that throws for other kinds"""
        r = s.kindof(st)
        if isinstance(r, list):
            s.bad('kind', f, x, 'the value is read as %s without a look at what it is' % KINDS[ks[0]]); return []
        if r[1] not in ks: s.bad('kind', f, x, 'a value that is %s is read as %s' % (KINDS[r[1]], KINDS[ks[0]])); return []
        return w
    def truth(s, c):
        return Explore.truth(None, c)
    def lib(s, f, x, st, v):
        m = st.mem; g = st.g; n = x.callee or ''
        if n == '__cxa_throw': s.bad('throw', f, x, 'writing a value ends with an exception'); return []
        if n.startswith('llvm.lifetime'):
            for k in [k for k in m if len(k) > 1 and k[1] == v[-1]]: del m[k]
            return U
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if ('v', v[1]) in m: m[('v', v[0])] = m[('v', v[1])]
            return U
        if n.startswith('llvm.is.fpclass'):
            if v[0] != ('real',) or v[1][0] != 'c': return U
            return {0x1f8: ('flag', 'fin'), 3: ('flag', 'nan'), 0x204: ('flag', 'inf'), 0x207: ('not', ('flag', 'fin'))}.get(v[1][1] & 0x3ff, U)
        d = s.d.get(n, '')
        if re.match(r'(?:bool )?(?:std::)?isfinite(\(|$)', d or n) or n in ('finite', '__finite'): return ('flag', 'fin') if v[0] == ('real',) else U
        if re.match(r'(?:bool )?(?:std::)?isnan(\(|$)', d or n): return ('flag', 'nan') if v[0] == ('real',) else U
        if re.match(r'(?:bool )?(?:std::)?isinf(\(|$)', d or n): return ('flag', 'inf') if v[0] == ('real',) else U
        if n == s.root:
            a = v[s.rootv]; o = v[s.rooto]
            if a[0] == 'el': s.emit(f, x, st, o, ('val', a[1]))
            elif a == ('V',) and s.mode == 'outer': s.emit(f, x, st, o, ('val', 0))
            else: s.bad('rec', f, x, 'a value is written that is no element of the one to be written' if a != ('V',) else 'the value itself is written as part of itself'); g['dead'] = True
            return U
        if n in s.enc:
            si, oi = s.enc[n]; w = v[si]
            t = ('str',) if w == ('sv',) else ('nm', w[1]) if w[0] in ('nm', 'kv') else ('?',)
            if params(d) and f and len(v) > oi and (oi == 0): m[('buf', v[0])] = (t,)
            else: s.emit(f, x, st, v[oi], t)
            return U
        if d in s.outer: return s.outer[d](s, f, x, st, v)
        # iterators
        mm = re.match(r'(?:bool )?(?:std|__gnu_cxx)::operator(==|!=|<) ?(?:<|\()', d)
        if mm and len(v) >= 2:
            a, b = (m.get(('v', w), w) for w in v[:2])
            if a[0] in ('pos', 'bg', 'end') and b[0] in ('pos', 'bg', 'end'): return ('cmp', {'==': 'eq', '!=': 'ne', '<': 'ult'}[mm.group(1)], a, b)
            return U
        mm = re.match(r'(?:.* )?' + ITER + r'.*> ?>?::(operator[^(]*|__normal_iterator[^(]*|_Rb_tree_(?:const_)?iterator[^(]*|base)\((.*)\)', d)
        if mm:
            k, ps = mm.groups(); k = k.strip(); w = m.get(('v', v[0]), U)
            if 'iterator' in k: m[('v', v[0])] = m.get(('v', v[1]), v[1]) if len(v) > 1 else U; return U
            if k in ('operator++', 'operator--'):
                dl = 1 if k == 'operator++' else -1
                if w == ('bg',): nw = ('pos', dl) if g['abs0'] else U
                elif w[0] in ('pos', 'end'): nw = (w[0], w[1] + dl)
                else: nw = U
                m[('v', v[0])] = nw
                if ps == 'int': return w
                return v[0]
            if k in ('operator*', 'operator->'):
                if w == ('bg',) and g['abs0']: w = ('pos', 0)
                if w[0] == 'end': s.bad('end', f, x, 'an element behind the last one is looked at'); return []
                if w[0] != 'pos': return U
                if w[1] >= 0 and g['lo'] <= w[1]: s.bad('end', f, x, 'an element is looked at without a check that there is one'); return []
                return ('kv', w[1]) if '_Rb_tree' in d.split('::operator')[0] else ('el', w[1])
            if k in ('operator+', 'operator-', 'operator+=') and v[1][0] == 'c':
                n_ = v[1][1] if '+' in k else -v[1][1]
                if w == ('bg',): w = ('pos', 0) if g['abs0'] else U
                r = (w[0], w[1] + n_) if w[0] in ('pos', 'end') else U
                if k[-1] == '=': m[('v', v[0])] = r; return v[0]
                return r
            return U
        mm = re.search(r'std::(next|prev)<', d)
        if mm and 'iterator' in d:
            w = v[0] if v[0][0] in ('pos', 'bg', 'end') else m.get(('v', v[0]), U)
            if w == ('bg',): w = ('pos', 0) if g['abs0'] else U
            k = v[1][1] if len(v) > 1 and v[1][0] == 'c' else None
            return (w[0], w[1] + (k if mm.group(1) == 'next' else -k)) if w[0] in ('pos', 'end') and k is not None else U
        mm = re.search(r'std::get<(\d)ul', d)
        if mm and v and v[0][0] == 'kv': return ('nm', v[0][1]) if mm.group(1) == '0' else ('el', v[0][1])
        # streams
        k = member(d)
        mm = re.search(r'operator<< ?<(?:char, )?std::char_traits<char>.*?, (char|signed char|unsigned char|char const\*|std::__cxx11::basic_string<.*const&)\)$', d)
        if mm and not k:
            t = mm.group(1)
            for tk in ([s.sym(st, v[1])] if t.endswith('char') else s.text(st, v[1])): s.emit(f, x, st, v[0], tk)
            return v[0]
        mm = re.search(r'basic_ostream<char, std::char_traits<char> >::(put|write|operator<<)\((.*)\)$', d)
        if mm:
            t = mm.group(2)
            if mm.group(1) == 'put': s.emit(f, x, st, v[0], s.sym(st, v[1]))
            elif mm.group(1) == 'write':
                b = s.text(st, v[1][1] if v[1][0] == 'cs' else v[1])
                if v[1][0] != 'cs': b = b[:v[2][1]] if v[2][0] == 'c' else [('?',)]
                for tk in b: s.emit(f, x, st, v[0], tk)
            elif t in ('long', 'long long'): s.emit(f, x, st, v[0], v[1] if v[1] == ('int',) else ('?',))
            elif t in ('double', 'long double'): s.emit(f, x, st, v[0], v[1] if v[1] == ('real',) else ('?',))
            elif t == 'bool': s.emit(f, x, st, v[0], ('bool',) if v[1] == ('bv',) and g['alpha'] else ('?',))
            elif '(*' in t:
                a = v[1][1] if v[1][0] == 'g' else ''
                da = s.dem1(a)
                if 'boolalpha' in da: g['alpha'] = 'no' not in da
                elif 'endl' in da: s.emit(f, x, st, v[0], ('b', 10))
                elif 'hex' in da or 'oct' in da or 'showpos' in da or 'showbase' in da: s.emit(f, x, st, v[0], ('?',))
            else: s.emit(f, x, st, v[0], ('?',))
            return v[0]
        if 'operator<<' in d and 'std::_Set' in d: return v[0]
        if re.search(r'ios_base::setf\(', d) or re.search(r'std::boolalpha', d):
            if v[1:] and v[1][0] == 'c' and v[1][1] == 1 or 'boolalpha' in d: g['alpha'] = True
            if 'setf' in d and v[1][0] == 'c' and v[1][1] & (8 | 64 | 512 | 1024 | 2048) : s.emit(f, x, st, ('OS',), ('?',)) if 0 else None
            return U
        if re.search(r'basic_(?:o?string|string)stream<.*>::str\(\) const', d):
            m[('buf', v[0])] = m.get(('buf', v[1]), ()); return U
        if re.search(r'basic_(?:o?string|string)stream<.*>::basic_', d): m.setdefault(('buf', v[0]), ()); return U
        if re.search(r'std::__cxx11::to_string\((long|long long)\)', d) or d.startswith('std::to_string(long'): m[('buf', v[0])] = (v[1] if v[1] == ('int',) else ('?',),); return U
        if re.search(r'basic_string<.*> std::operator\+ ?<char', d):
            m[('buf', v[0])] = tuple(t for w in v[1:3] for t in (s.text(st, w) if w[0] != 'c' else [s.sym(st, w)]))[:16]; return U
        if not k: return U
        cl, mn, ps = k; o = v[0]
        if cl == 'val':
            if o == ('V',):
                if mn in ('get_type', 'type'): return s.kindof(st)
                if mn == 'is_null':
                    r = s.kindof(st)
                    return [(q, ('c', int(w == ('c', 0)))) for q, w in r] if isinstance(r, list) else ('c', int(r[1] == 0))
                if mn == 'get_bool': return s.need(f, x, st, (4,), ('bv',))
                if mn == 'get_int64': return s.need(f, x, st, (5, 6), ('int',) if g['kind'] == 5 else U)
                if mn == 'get_int': return s.need(f, x, st, (5, 6), U)
                if mn == 'get_real': return s.need(f, x, st, (6, 5), ('real',) if g['kind'] == 6 else U)
                if mn == 'get_str': return s.need(f, x, st, (3,), ('sv',))
                if mn == 'get_obj': return s.need(f, x, st, (1,), ('con', 'obj'))
                if mn == 'get_array': return s.need(f, x, st, (2,), ('con', 'arr'))
                return U
            if o[0] == 'el':
                if mn == 'is_null': return ('isnull', o[1])
                if mn in ('get_type', 'type'): return ('etype', o[1])
                return U
            return U
        if cl in ('obj', 'arr') and o[0] == 'con':
            if mn in ('begin', 'cbegin'): return ('bg',)
            if mn in ('end', 'cend', 'size'): return ('end', 0)
            if mn == 'empty': return ('cmp', 'eq', ('end', 0), ('c', 0))
            if mn in ('operator[]', 'at') and cl == 'arr':
                w = v[1]
                if w == ('bg',) or w == ('c', 0): w = ('pos', 0) if g['abs0'] else U
                if w[0] != 'pos': return U
                if g['lo'] <= w[1]: s.bad('end', f, x, 'an element is looked at without a check that there is one'); return []
                return ('el', w[1])
            return U
        if cl == 'str':
            if o == ('sv',) or o[0] in ('nm', 'kv'):
                return ('cs', o) if mn in ('c_str', 'data') else U
            if o[0] not in ('A', 'O'):
                return ('cs', o) if mn in ('c_str', 'data') and o[0] == 'F' else U
            if mn == 'ctor':
                p1 = ps.split(',')[0]
                if p1 == 'unsigned long': m[('buf', o)] = (('ws',),) if v[2][0] == 'c' and v[2][1] in (32, 9, 10) else (s.sym(st, v[2]),)
                elif len(v) == 1 or ps == '': m[('buf', o)] = ()
                else: m[('buf', o)] = tuple(s.text(st, v[1]))[:16]
                return U
            if mn in ('operator=', 'assign'): m[('buf', o)] = tuple(s.text(st, v[1]) if v[1][0] != 'c' else [('ws',)])[:16]; return o
            if mn in ('operator+=', 'append', 'push_back'):
                m[('buf', o)] = (m.get(('buf', o), ()) + tuple(s.text(st, v[1]) if v[1][0] not in ('c', '?') else [s.sym(st, v[1])]))[:16]; return o
            if mn in ('c_str', 'data'): return ('cs', o)
            if mn == 'dtor': m.pop(('buf', o), None)
        return U
    def dem1(s, a):
        if a not in s.d:
            import subprocess
            s.d[a] = subprocess.run(['c++filt', a], capture_output=True, text=True).stdout.strip()
        return s.d[a]

G0 = {'kind': None, 'ph': 'start', 'bv': None, 'nan': None, 'inf': None, 'nonf': None, 'np': None, 'abs0': True, 'lo': 0, 'hi': None, 'el': None, 'done': False, 'dead': False, 'alpha': False}

def check_output(c):
    c.rule('for every kind of value exactly its JSON text is put out: each element once and in order, commas between, names and strings encoded, null for what JSON cannot say')
    m0 = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    d = demangle(m0); E = encoders(m0)
    B = [n for n in m0.fns if (lambda k: k and (k[0] == 'val' and (k[1] in GET or k[1] in ('ctor', 'dtor')) or 'rexjson::array' in d[n] and k[1] == 'operator[]'))(member(d.get(n, '')))]
    entry = [n for n in m0.fns if d.get(n, '').startswith('rexjson::output::write(rexjson::value const&, std::')]
    entry2 = [n for n in m0.fns if re.match(r'rexjson::output::write(\[abi:cxx11\])?\(rexjson::value const&\)', d.get(n, ''))]
    vw = [n for n in m0.fns if re.match(r'rexjson::value::write(\[abi:cxx11\])?\(bool, bool', d.get(n, ''))]
    oc = [n for n in m0.fns if d.get(n, '').startswith('rexjson::output::output(bool, bool, unsigned long, unsigned long')]
    if len(entry) != 1 or len(entry2) != 1 or len(vw) != 1 or not oc: raise AnalysisBroken('the functions of output are not found')
    m = c.mod('cxx', pipe='plain', extra_boundary=tuple(B) + tuple(sorted(E)) + tuple(entry + entry2 + oc + vw))
    # the field of the wish about null members
    npf = None; fo = m.fn(oc[0])
    for x in fo.insts():
        if x.op == 'store':
            w = x.ops[0]
            while w[0] == 'v' and w[1] >= fo.nargs and fo.inst[w[1]].op in ('zext', 'trunc', 'and'): w = fo.inst[w[1]].ops[0]
            if tuple(w) == ('v', 2) and fo.cls(x): npf = fo.cls(x)[-1]
    if npf is None: c.bad('nullprop', fo.where(), 'the wish about null members is not kept'); return
    # the function that writes one value
    fe = m.fn(entry[0]); root = rootv = rooto = None
    for x in fe.insts():
        if x.iscall and x.callee in m.fns and 'rexjson' in d.get(x.callee, ''):
            ia = [i for i, o in enumerate(x.ops) if tuple(o) == ('v', 1)]; io = [i for i, o in enumerate(x.ops) if tuple(o) == ('v', 2)]
            if len(ia) == 1 and len(io) == 1: root, rootv, rooto = x.callee, ia[0], io[0]
    if root is None: root, rootv, rooto = entry[0], 1, 2
    f = m.fn(root); c.seen(f)
    first = None
    for n in m.fns:
        for x in m.fn(n).insts():
            if x.op == 'getelementptr' and x.d.get('path') and x.d['path'][0][0] == 'f' and x.d['path'][0][1] == 'rexjson::output' and len(x.d['path'][0]) > 3 and x.d['path'][0][3] == 0: first = x.d['path'][0][2]
    W = Writer(m, root, E, npf); W.rootf = f; W.rootv = rootv; W.rooto = rooto; W.mode = 'value'
    W.fld0 = first
    st = St({i: ('self',) if i == 0 and rootv != 0 else ('V',) if i == rootv else ('OS',) if i == rooto else U for i in range(f.nargs)}, {('fr',): ()}, dict(G0))
    ends = 0; kinds = set()
    for rv, mem, g in W.solve(f, st):
        g = dict(g)
        if g['dead']: continue
        ends += 1
        if g['ph'] != 'end': W.bad('end-%s' % (KINDS[g['kind']] if g['kind'] is not None else ''), f, None, 'writing a value%s ends before its text is complete' % (' that is %s' % KINDS[g['kind']] if g['kind'] is not None else ''))
        if g['kind'] is not None: kinds.add(g['kind'])
    for k, (w, msg) in W.errs.items(): c.bad(k, w, msg)
    c.ob('abstract states', W.visited); c.ob('pieces of text', W.tokens); c.ob('kinds of values', len(kinds)); c.ob('ends', ends)
    if not W.errs and not ends: c.bad('ends', f.where(), 'writing never ends')
    # the functions around it
    def around(fn, args, want, what, outer):
        g_ = m.fn(fn); c.seen(g_)
        Q = Writer(m, root, E, npf); Q.rootf = g_; Q.rootv = rootv; Q.rooto = rooto; Q.mode = 'outer'; Q.fld0 = first; Q.outer = outer
        n = 0
        for rv, mem, gg in Q.solve(g_, St(args, {('fr',): ()}, dict(G0, kind=0, ph='start'))):
            n += 1
            got = want(dict(mem), dict(gg))
            if got is not True: Q.bad('around', g_, None, what)
        for k, (w, msg) in Q.errs.items(): c.bad('%s-%s' % (k, d[fn].split('(')[0].split('::')[-2]), w, msg)
        if not n and not Q.errs: c.bad('around-%s' % d[fn][:20], g_.where(), what)
        c.ob('functions around', 1)
    if root != entry[0]:
        def seen(mem, g): return mem.get(('buf', ('O', 'os'))) == (('val', 0),)
        around(entry[0], {0: ('self',), 1: ('V',), 2: ('O', 'os')}, seen, 'not exactly the text of the value is written', {})
    def dst(mem, g): return mem.get(('buf', ('O', 'dst'))) == (('val', 0),)
    outer = {}
    if root != entry[0]: outer[d[entry[0]]] = lambda s, f, x, st, v: (s.emit(f, x, st, v[2], ('val', 0) if v[1] == ('V',) else ('?',)), U)[1]
    around(entry2[0], {0: ('O', 'dst'), 1: ('self',), 2: ('V',)}, dst, 'not exactly the text of the value is returned', outer)
    def octor(s, f, x, st, v): st.mem[('out', v[0])] = tuple(v[1:5]); return U
    def owrite(s, f, x, st, v):
        ok = v[2] == ('V',) and st.mem.get(('out', v[1])) == tuple(('arg', i) for i in range(4))
        st.mem[('buf', v[0])] = (('val', 0),) if ok else (('?',),); return U
    def owrite2(s, f, x, st, v):
        ok = v[1] == ('V',) and st.mem.get(('out', v[0])) == tuple(('arg', i) for i in range(4))
        s.emit(f, x, st, v[2], ('val', 0) if ok else ('?',)); return U
    around(vw[0], dict([(0, ('O', 'dst')), (1, ('V',))] + [(i + 2, ('arg', i)) for i in range(4)]), dst, 'the text of the value is not written as the arguments ask for', dict([(d[n], octor) for n in oc] + [(d[entry2[0]], owrite), (d[entry[0]], owrite2)]))

CHECKS = {'J06': check_output}
