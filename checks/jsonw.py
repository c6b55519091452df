"""JSON, the C++ library: strings decoded and encoded, values written."""
import re
import ir
from ir import AnalysisBroken
from common import *
from explore import *
from rsm import *
from jsoncpp import demangle, member, decoders

CH = r'std::char_traits<char>'
SHORT = {'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, '"': 34, '\\': 92, '/': 47}
def bl(t): return tuple(('b', ord(c)) for c in t)
def enc(c):
    """the ways to write a character (a byte) in a JSON string"""
    r = []
    if c >= 0x20 and c not in (34, 92): r.append((('b', c),))
    for k, w in SHORT.items():
        if w == c: r.append(bl('\\' + k))
    if c < 0x80: r.append(bl('\\u%04x' % c)); r.append(bl('\\u%04X' % c))
    return tuple(r)
def utf8(w):
    if w < 0x80: return (w,)
    if w < 0x800: return (0xc0 | w >> 6, 0x80 | w & 63)
    return (0xe0 | w >> 12, 0x80 | w >> 6 & 63, 0x80 | w & 63)
def ev(e, w):
    """an expression over the number of an escape"""
    if e[0] == 'c': return e[1]
    if e[0] == 'wc': return w
    op = e[1]; a = ev(e[2], w)
    if op == 't8': return a & 255
    if op == 't16': return a & 0xffff
    b = ev(e[3], w)
    return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b, 'mul': a * b, 'sdiv': int(a / b) if b else 0, 'udiv': a // b if b else 0, 'srem': a - b * int(a / b) if b else 0, 'urem': a % b if b else 0, 'shl': a << b if 0 <= b < 64 else 0, 'lshr': a >> b if 0 <= b < 64 else 0, 'ashr': a >> b if 0 <= b < 64 else 0}[op]
def gbytes(m, name):
    gl = m.globals.get(name)
    if not gl or not gl.get('const') or 'init' not in gl: return None
    v = gl['init']
    try: return [q[1] & 255 for q in v[1]] if v[0] == 'a' else list(v[2]) + [0] if v[0] == 's' else [0] if v[0] == 'z' else None
    except Exception: return None

class Trans(Explore):
    """a function over the characters of a string, followed character by character: what it puts out is what the characters read ask for"""
    LIMIT = 400000
    def __init__(s, f, m, mode, src, dst):
        super().__init__(f); s.m = m; s.mode = mode; s.src = src; s.dst = dst; s.d = demangle(m); s.errs = {}; s.units = set(); s.rets = 0
        s.idx = set(); work = []
        for x in f.insts():
            if x.iscall and x.callee:
                k = member(s.d.get(x.callee, ''))
                if k and k[0] == 'str' and k[1] in ('operator[]', 'at', 'substr') and x.ops[:1] == [['v', src]] or k and k[0] == 'str' and k[1] == 'substr' and len(x.ops) > 1 and x.ops[1] == ['v', src]:
                    work += [o[1] for o in x.ops[1:] if o[0] == 'v']
        while work:
            i = work.pop()
            if i in s.idx or i not in f.inst: continue
            x = f.inst[i]
            if x.op == 'phi': s.idx.add(i); work += [o[1] for o, _ in x.ops if o[0] == 'v']
            elif x.op in ('add', 'sub', 'sext', 'zext', 'trunc'): s.idx.add(i); work += [o[1] for o in x.ops if o[0] == 'v']
    def bad(s, key, x, msg):
        if key not in s.errs: s.errs[key] = (x, msg)
    def stop(s):
        s.n = getattr(s, 'n', 0) + 1
        return len(s.errs) > 4 or bool(s.errs) and s.n > 60000
    def init(s): return St({}, {}, {'lo': 0, 'hi': None, 'win': (), 'out': (), 'pend': (), 'at0': True, 'wl': None, 'wh': None, 'sink': None, 'ret': False, 'drop': False, 'hexq': False})
    def arg(s, k): return ('S',) if k == s.src else ('O', 'dst') if k == s.dst else ('arg', k)
    # ---- values
    def merge(s, x, v, st):
        if x.i in s.idx and v[0] == 'c' and st.g['at0']: return ('pos', v[1])
        return v
    def base(s, x, st, v):
        op = x.op
        sym = lambda w: w[0] in ('wc', 'e')
        if op in ('zext', 'sext', 'trunc') and sym(v[0]): return ('e', 't8', v[0]) if x.t == 'i8' else ('e', 't16', v[0]) if x.t == 'i16' else v[0]
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem') and (sym(v[0]) or sym(v[1])) and all(sym(w) or w[0] == 'c' for w in v): return ('e', op, v[0], v[1])
        if op in ('lshr', 'ashr') and v[0][0] == v[1][0] == 'c' and 0 <= v[1][1] < 64:
            n = v[0][1]
            if op == 'lshr' and n < 0: n &= (1 << {'i8': 8, 'i16': 16, 'i32': 32}.get(x.t, 64)) - 1
            return ('c', n >> v[1][1])
        if op in ('sdiv', 'udiv', 'srem', 'urem') and v[0][0] == v[1][0] == 'c' and v[1][1] > 0:
            n, b = v[0][1], v[1][1]
            if op[0] == 'u' and n < 0: n &= (1 << {'i8': 8, 'i16': 16, 'i32': 32}.get(x.t, 64)) - 1
            q = abs(n) // b * (1 if n >= 0 else -1)
            return ('c', q if op[1:] == 'div' else n - q * b)
        if op in ('zext', 'sext', 'trunc') and v[0][0] in ('pos', 'end'): return v[0]
        if op in ('add', 'sub') and v[0][0] in ('pos', 'end') and v[1][0] == 'c':
            n = v[1][1]
            if n >= 1 << 63: n -= 1 << 64
            return (v[0][0], v[0][1] + (n if op == 'add' else -n))
        if op == 'add' and v[1][0] == 'pos' and v[0][0] == 'c': return ('pos', v[1][1] + v[0][1])
        if op == 'sub' and v[0][0] == v[1][0] == 'pos': return ('c', v[0][1] - v[1][1])
        if op == 'sub' and v[0][0] == 'end' and v[1][0] == 'pos': return ('left', v[0][1] - v[1][1])
        return super().base(x, st, v)
    def shift(s, st, m):
        def mv(w):
            if isinstance(w, tuple) and w and w[0] in ('pos', 'ref', 'raw'): return (w[0], w[1] - m) + w[2:]
            if isinstance(w, tuple) and w and w[0] == 'left': return (w[0], w[1] + m)
            if isinstance(w, tuple) and w and w[0] in ('sub', 'cstr', 'cmp', 'and', 'or', 'not', 'ext'): return tuple(mv(q) if isinstance(q, tuple) else q for q in w)
            return w
        st.env = {k: mv(w) for k, w in st.env.items()}; st.mem = {k: mv(w) for k, w in st.mem.items()}
        g = st.g; g['lo'] = max(g['lo'] - m, 0); g['hi'] = None if g['hi'] is None else g['hi'] - m
        g['win'] = tuple((k - m, c) for k, c in g['win'] if k >= m); g['at0'] = False
        g['hexq'] = False
    def positions(s, st):
        r = []
        def go(w):
            if isinstance(w, tuple) and w:
                if w[0] in ('pos', 'ref'): r.append(w[1])
                elif w[0] in ('cmp', 'sub', 'cstr', 'and', 'or', 'not', 'ext'): [go(q) for q in w[1:] if isinstance(q, tuple)]
        for w in st.env.values(): go(w)
        for w in st.mem.values(): go(w)
        return r
    def unit(s, g):
        """the first unit of the characters seen: (length, what is to be put out or None: open) or None: not complete"""
        win = dict(g['win'])
        if 0 not in win: return None
        c = win[0] & 255
        if s.mode == 'enc': return 1, ('lit', enc(c), c)
        if c != 92: return 1, ('lit', ((('b', c),),), c)
        if g['hi'] == 1: return 1, None
        if 1 not in win: return None
        d = chr(win[1] & 255)
        if d in SHORT: return 2, ('lit', ((('b', SHORT[d]),),), '\\' + d)
        if d == 'u':
            if g['hi'] is not None and g['hi'] < 6: return 1, None
            return 6, ('u', g['wl'], g['wh']) if not g['hexq'] else None
        return 2, None
    def commit(s, st, m, x=None):
        g = st.g
        while m > 0:
            u = s.unit(g)
            if u is None:
                if 0 not in dict(g['win']): s.bad('skip', x, 'a character is passed over without being looked at'); g['drop'] = True
                return
            n, w = u
            if w is None: g['drop'] = True; return
            if n > m:
                if m >= 1 and w[0] == 'u' and g['hi'] is None and m <= 2 and g['out']: n = m     # taken for something else than an escape of six characters
                else: return
            g['pend'] += (w,)
            if len(g['pend']) > 2:
                q = g['pend'][0]
                s.bad('late', x, 'nothing is put out for %s although the text goes on' % (show(q[2]) if q[0] == 'lit' else 'a \\u escape')); g['drop'] = True; return
            s.units.add(w[2] if w[0] == 'lit' else 'u')
            if w[0] == 'u': g['wl'] = g['wh'] = None; s.unwc(st)
            s.shift(st, n); m -= n
        s.settle(st, x)
    def unwc(s, st):
        """the number of an escape belongs to the unit put aside"""
        st.env = {k: U if w[0] in ('wc', 'e') else w for k, w in st.env.items()}
        st.mem = {k: U if w[0] in ('wc', 'e') else w for k, w in st.mem.items()}
    def settle(s, st, x=None):
        g = st.g
        while g['pend']:
            w = g['pend'][0]; out = g['out']
            if w[0] == 'lit':
                hit = [o for o in w[1] if out[:len(o)] == o]
                if hit: g['out'] = out[len(hit[0]):]; g['pend'] = g['pend'][1:]; continue
                if any(o[:len(out)] == out for o in w[1]): return
                s.bad('char', x, 'the %s of %s is %s' % (('code', show(w[2]), text(out)) if s.mode == 'enc' else ('character', show(w[2]), text(out)))); g['drop'] = True; return
            lo, hi = (w[1], w[2]) if w[1] is not None else (0, 0xffff)
            vals = [q for q in range(lo, hi + 1) if not 0xd800 <= q < 0xe000]
            if not vals: g['drop'] = True; return
            n = len(utf8(vals[0]))
            if out and not all(q[0] in 'be' for q in out[:n]): s.bad('utf8', x, 'the escape \\u%04x becomes other characters than its own' % vals[0]); g['drop'] = True; return
            if len(out) < n and all(q[0] == 'e' or q[0] == 'b' for q in out): return
            for q in vals:
                u8 = utf8(q)
                got = tuple(b[1] & 255 if b[0] == 'b' else ev(b[1], q) & 255 for b in out[:len(u8)]) if all(b[0] in 'be' for b in out[:len(u8)]) else None
                if got != u8: s.bad('utf8', x, 'the escape \\u%04x becomes %s' % (q, 'other characters than its own' if got is None or len(got) == len(u8) else 'a wrong number of bytes')); g['drop'] = True; return
            if len(utf8(vals[-1])) != n: s.bad('utf8', x, 'escapes become a wrong number of bytes'); g['drop'] = True; return
            g['out'] = out[n:]; g['pend'] = g['pend'][1:]
        if len(g['out']) > 12: s.bad('more', x, 'more is put out than the characters read ask for'); g['drop'] = True
    def normal(s, st):
        p = s.positions(st); g = st.g
        m = min(p) if p else len(g['win'])
        if m > 0: s.commit(st, m)
    def forks(s, st): return [] if st.g['drop'] else None
    # ---- conditions
    def cond(s, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]; g = st.g
        if a[0] == 'c' and b[0] != 'c' or a[0] == 'end' and b[0] == 'pos':
            a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        q = p[1:] if p not in ('eq', 'ne') else p
        if not truth: q = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[q]
        k = None
        if a[0] == 'pos' and b[0] == 'end': k = a[1] - b[1]             # k ? n
        elif a[0] == 'end' and b[0] == 'c' and g['at0']:
            k = b[1] - a[1]; q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
        elif a[0] == 'left' and b[0] == 'c':
            k = b[1] - a[1]; q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
        elif a[0] == b[0] == 'pos': return [st] if {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'lt': a[1] < b[1], 'le': a[1] <= b[1], 'gt': a[1] > b[1], 'ge': a[1] >= b[1]}[q] else []
        if k is not None:
            lo, hi = g['lo'], g['hi']; big = 1 << 60; h = big if hi is None else hi
            if q == 'lt': lo = max(lo, k + 1)
            elif q == 'le': lo = max(lo, k)
            elif q == 'gt': h = min(h, k - 1)
            elif q == 'ge': h = min(h, k)
            elif q == 'eq': lo = max(lo, k); h = min(h, k)
            elif q == 'ne':
                if lo == k: lo = k + 1
                if h == k: h = k - 1
            if lo > h: return []
            g['lo'] = lo; g['hi'] = None if h == big else h
            return [st]
        if a == ('wc',) and b[0] == 'c' and g['wl'] is not None:
            lo, hi = g['wl'], g['wh']; k = b[1]
            if q == 'lt': hi = min(hi, k - 1)
            elif q == 'le': hi = min(hi, k)
            elif q == 'gt': lo = max(lo, k + 1)
            elif q == 'ge': lo = max(lo, k)
            elif q == 'eq': lo = max(lo, k); hi = min(hi, k)
            if lo > hi: return []
            g['wl'], g['wh'] = lo, hi
            return [st]
        if b == ('c', 0) and p in ('eq', 'ne') and a[0] in ('S', 'O', 'A', 'raw', 'cstr'): return [st] if truth == (p == 'ne') else []
        if a[0] == 'hx': g['hexq'] = True
        return [st]
    # ---- characters
    def read(s, x, st, k, soft):
        g = st.g; win = dict(g['win'])
        if k in win: return ('c', win[k])
        if k < 0: s.bad('before', x, 'a character before the one looked at is read'); return []
        if g['hi'] is not None and g['hi'] <= k:
            if soft and g['hi'] == k: return ('c', 0)
            s.bad('past', x, 'a character behind the end of the text is read'); return []
        out = []
        if g['lo'] <= k:
            if not soft: s.bad('past', x, 'a character is read without a check that the text goes on'); return []
            if g['lo'] <= k:
                q = st.copy(); q.g['lo'] = q.g['hi'] = k; out.append((q, ('c', 0)))
            st = st.copy(); st.g['lo'] = k + 1
        if k == 0 or k == 1 and s.mode == 'dec' and win.get(0) == 92:
            for c in range(-128, 128):
                q = st.copy(); q.g['win'] = tuple(sorted(q.g['win'] + ((k, c),))); out.append((q, ('c', c)))
        else: out.append((st, ('hx', k)))
        return out
    def emit(s, x, st, o, syms):
        g = st.g
        if g['sink'] is None: g['sink'] = o
        if g['sink'] != o: s.bad('sink', x, 'text is put out to several places'); return
        g['out'] += tuple(syms)
        if len(g['out']) > 24: s.bad('more', x, 'more is put out than the characters read ask for'); g['drop'] = True
    def sym(s, w):
        if w[0] == 'c': return ('b', w[1] & 255)
        if w[0] in ('wc', 'e'): return ('e', w)
        return ('?',)
    def lit(s, st, w):
        """the bytes of a C string"""
        if w[0] == 'g': w = ('gp', w[1], 0)
        if w[0] == 'gp':
            b = gbytes(s.m, w[1])
            if b is None: return None
            b = b[w[2]:]
            return tuple(('b', c) for c in (b[:b.index(0)] if 0 in b else b))
        if w[0] == 'A': w = ('bp', w, 0)
        if w[0] == 'bp':
            b = st.mem.get(('buf', w[1]))
            if b is None: return None
            b = b[w[2]:]
            return b[:b.index(('b', 0))] if ('b', 0) in b else None
        return None
    def inst(s, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', x.i)
        if op == 'getelementptr':
            p = v[0]; w = v[-1]
            path = x.d.get('path') or []
            ix = [q for q in path if q[0] == 'i']
            if p[0] in ('g', 'gp') and w[0] == 'c': return ('gp', p[1], (p[2] if p[0] == 'gp' else 0) + w[1])
            if p[0] == 'raw' and w[0] == 'c': return ('raw', p[1] + w[1])
            if p[0] == 'raw' and w[0] == 'pos' and p[1] == 0 and p[2:] == ('b',): return ('raw', w[1])
            if p[0] in ('A', 'bp') and ix and w[0] == 'c': return ('bp', p if p[0] == 'A' else p[1], (p[2] if p[0] == 'bp' else 0) + w[1])
            if p[0] in ('A', 'O'): return p
            return U
        if op == 'load':
            p = v[0]
            if p[0] == 'ref': return s.read(x, st, p[1], p[2])
            if p[0] == 'raw': return s.read(x, st, p[1], True)
            if p[0] == 'g': p = ('gp', p[1], 0)
            if p[0] == 'gp':
                b = gbytes(s.m, p[1])
                return ('c', b[p[2]] - 256 if b[p[2]] > 127 else b[p[2]]) if b and x.t == 'i8' and 0 <= p[2] < len(b) else U
            if p[0] == 'bp':
                b = m.get(('buf', p[1]))
                if b and 0 <= p[2] < len(b) and b[p[2]][0] == 'b': return ('c', b[p[2]][1])
                if b and 0 <= p[2] < len(b) and b[p[2]][0] == 'e': return b[p[2]][1]
                return U
            return m.get(('v', p), U)
        if op == 'store':
            w, p = v
            if p[0] == 'bp' or p[0] == 'A' and ('buf', p) in m:
                o, k = (p[1], p[2]) if p[0] == 'bp' else (p, 0)
                b = list(m.get(('buf', o), ()))
                if k < 64:
                    while len(b) <= k: b.append(('?',))
                    b[k] = s.sym(w); m[('buf', o)] = tuple(b)
                return U
            if p[0] in ('S', 'ref', 'raw'): s.bad('source', x, 'the text read is changed'); return U
            m[('v', p)] = w
            return U
        if x.iscall: return s.call(x, st, v)
        return U
    def call(s, x, st, v):
        m = st.mem; g = st.g; n = x.callee or ''
        if n.startswith('llvm.lifetime'):
            for k in [k for k in m if k[1] == v[-1]]: del m[k]
            return U
        if n.startswith('llvm.memcpy'):
            if v[1][0] in ('g', 'gp'):
                b = gbytes(s.m, v[1][1])
                if b is not None and v[0][0] in ('A', 'bp'): m[('buf', v[0] if v[0][0] == 'A' else v[0][1])] = tuple(('b', c) for c in b)
            elif ('v', v[1]) in m: m[('v', v[0])] = m[('v', v[1])]
            return U
        if n.startswith('llvm.memset'):
            if v[0][0] == 'A' and v[2][0] == 'c' and v[2][1] <= 64: m[('buf', v[0])] = tuple(('b', v[1][1] & 255 if v[1][0] == 'c' else 0) for _ in range(v[2][1]))
            return U
        if n in ('strtol', '__isoc23_strtol', 'strtoul', '__isoc23_strtoul', 'strtoll', 'strtoull'):
            return s.number(x, st, v[0], v[2])
        if n in ('snprintf', 'sprintf', '__snprintf_chk', '__sprintf_chk'):
            k = {'snprintf': 2, 'sprintf': 1, '__snprintf_chk': 4, '__sprintf_chk': 3}[n]
            f = s.lit(st, v[k])
            if f is not None and all(w[0] == 'c' for w in v[k + 1:]) and v[0][0] in ('A', 'bp'):
                try:
                    t = ''.join(chr(q[1]) for q in f) % tuple(w[1] & 0xffffffff for w in v[k + 1:])
                    m[('buf', v[0] if v[0][0] == 'A' else v[0][1])] = bl(t) + (('b', 0),)
                    return ('c', len(t))
                except Exception: pass
            return U
        if n == 'isxdigit' and v[0][0] == 'hx': return ('hx', v[0][1])
        d = s.d.get(n, '')
        mm = re.match(r'bool __gnu_cxx::operator(==|!=|<|<=|>|>=) ?<char', d)
        if mm:
            a, b = (m.get(('v', w), U) for w in v[:2])
            return ('cmp', {'==': 'eq', '!=': 'ne', '<': 'slt', '<=': 'sle', '>': 'sgt', '>=': 'sge'}[mm.group(1)], a, b)
        if re.match(r'.*__gnu_cxx::operator-<char', d):
            a, b = (m.get(('v', w), U) for w in v[:2])
            return ('left', a[1] - b[1]) if a[0] == 'end' and b[0] == 'pos' else ('c', a[1] - b[1]) if a[0] == b[0] == 'pos' else U
        mm = re.match(r'(?:.* )?__gnu_cxx::__normal_iterator<char.*?> >::(operator[^(]*|__normal_iterator[^(]*|base)\((.*)\)', d)
        if mm:
            k, ps = mm.groups(); w = m.get(('v', v[0]), U)
            if k.startswith('__normal'): m[('v', v[0])] = m.get(('v', v[1]), U) if len(v) > 1 else U; return U
            if w[0] not in ('pos', 'end'): return U
            if k == 'operator*': return ('ref', w[1], False) if w[0] == 'pos' else s.bad('past', x, 'the end of the text is read') or []
            if k == 'operator[]' and v[1][0] == 'c': return ('ref', w[1] + v[1][1], False) if w[0] == 'pos' else U
            if k in ('operator++', 'operator--'):
                dlt = 1 if k == 'operator++' else -1
                m[('v', v[0])] = (w[0], w[1] + dlt)
                if w[0] == 'pos' and dlt > 0 and (g['lo'] < w[1] + 1) and g['hi'] is not None and g['hi'] < w[1] + 1: s.bad('step', x, 'the text is left behind its end'); return []
                return w if ps == 'int' else v[0]
            if k in ('operator+', 'operator-', 'operator+=', 'operator-=') and v[1][0] == 'c':
                r = (w[0], w[1] + (v[1][1] if '+' in k else -v[1][1]))
                if k[-1] == '=': m[('v', v[0])] = r; return v[0]
                return r
            return U
        k = member(d)
        mm = re.search(r'operator<< ?<(?:char, )?std::char_traits<char>.*, (char|signed char|unsigned char|char const\*|std::__cxx11::basic_string<.*const&)\)$', d)
        if mm and not k:
            t = mm.group(1)
            if t.endswith('char'): s.emit(x, st, v[0], (s.sym(v[1]),))
            else:
                b = s.lit(st, v[1]) if t == 'char const*' else m.get(('lit', v[1]))
                s.emit(x, st, v[0], b if b is not None else (('?',),))
            return v[0]
        mm = re.search(r'basic_ostream<char, std::char_traits<char> >::(put|write|operator<<)\((.*)\)$', d)
        if mm:
            if mm.group(1) == 'put': s.emit(x, st, v[0], (s.sym(v[1]),))
            elif mm.group(1) == 'write':
                b = s.lit(st, v[1])
                s.emit(x, st, v[0], b[:v[2][1]] if b is not None and v[2][0] == 'c' and v[2][1] <= len(b) else (('?',),))
            else: s.emit(x, st, v[0], (('?',),))
            return v[0]
        if re.search(r'basic_ostringstream<.*>::str\(\) const', d) or re.search(r'basic_stringstream<.*>::str\(\) const', d):
            if v[0] == ('O', 'dst') and g['sink'] in (None, v[1]): g['ret'] = True
            return U
        if re.search(r'stoul|stol|stoi', d) and len(v) >= 3: return s.number(x, st, ('cstr', m.get(('sub', v[0]), U)), v[2])
        if not k or k[0] != 'str':
            return U
        cl, mn, ps = k; o = v[0]
        if o == ('S',):
            if mn in ('begin', 'cbegin'): return ('pos', 0) if g['at0'] else U
            if mn in ('end', 'cend'): return ('end', 0)
            if mn in ('size', 'length'): return ('end', 0)
            if mn == 'empty': return ('cmp', 'eq', ('end', 0), ('c', 0)) if g['at0'] else U
            if mn in ('data', 'c_str'): return ('raw', 0, 'b') if g['at0'] else U
            if mn in ('operator[]', 'at'):
                w = v[1]
                if w[0] == 'c' and g['at0']: w = ('pos', w[1])
                if w[0] != 'pos': return U
                return ('ref', w[1], mn == 'operator[]')
            return U
        if mn == 'substr' and len(v) >= 4 and v[1] == ('S',):
            w = v[2] if v[2][0] == 'pos' else ('pos', v[2][1]) if v[2][0] == 'c' and g['at0'] else U
            m[('sub', v[0])] = ('sub', w[1], w[1] + v[3][1]) if w[0] == 'pos' and v[3][0] == 'c' else U
            return U
        if o[0] not in ('A', 'O'): return U
        if mn == 'ctor':
            if len(v) >= 3 and all(w[0] == 'pos' for w in v[1:3]): m[('sub', o)] = ('sub', v[1][1], v[2][1])
            elif len(v) >= 2 and 'char const*' in ps.split(',')[0]:
                b = s.lit(st, v[1])
                if b is not None: m[('lit', o)] = b
            elif len(v) >= 2 and v[1] == g['sink'] and o == ('O', 'dst'): g['ret'] = True
            elif len(v) >= 4 and v[1] == ('S',) and 'basic_string' in ps.split(',')[0]:
                w = v[2] if v[2][0] == 'pos' else U
                m[('sub', o)] = ('sub', w[1], w[1] + v[3][1]) if w[0] == 'pos' and v[3][0] == 'c' else U
            return U
        if mn in ('c_str', 'data'): return ('cstr', m.get(('sub', o), U))
        if mn in ('operator=', 'assign') and len(v) == 2 and v[1] == g['sink'] and o == ('O', 'dst'): g['ret'] = True; return o
        if mn in ('push_back', 'operator+=', 'append'):
            t = ps.split(',')[0]
            if t == 'char' : s.emit(x, st, o, (s.sym(v[1]),))
            elif t.startswith('char const'):
                b = s.lit(st, v[1])
                if b is not None and len(v) > 2: b = b[:v[2][1]] if v[2][0] == 'c' and v[2][1] <= len(b) else None
                s.emit(x, st, o, b if b is not None else (('?',),))
            elif t == 'unsigned long' and len(v) > 2 and v[1][0] == 'c' and v[1][1] <= 8: s.emit(x, st, o, (s.sym(v[2]),) * v[1][1])
            elif v[1] in [q[1] for q in m if q[0] == 'lit']: s.emit(x, st, o, m[('lit', v[1])])
            else: s.emit(x, st, o, (('?',),))
            return o
        return U
    def number(s, x, st, w, base):
        g = st.g
        if w[0] == 'cstr' and w[1][:1] == ('sub',) and base == ('c', 16):
            a, b = w[1][1:]; win = dict(g['win'])
            if (a, b) == (2, 6) and win.get(0) == 92 and win.get(1) == ord('u'):
                if g['lo'] < 6: s.bad('past', x, 'a number is read without a check that the text goes on'); return []
                g['wl'], g['wh'] = 0, 0xffff
                return ('wc',)
        return U
    def ret(s, x, st, v):
        g = st.g; s.rets += 1
        s.commit(st, len(g['win']), x)
        if g['drop']: return
        s.settle(st, x)
        if g['drop']: return
        u = s.unit(g)
        if u is not None and u[1] is None: return
        if g['hi'] != 0: s.bad('rest', x, 'it ends before all of the text is read'); return
        if g['pend']:
            w = g['pend'][0]
            s.bad('char', x, 'nothing is put out for %s' % (show(w[2]) if w[0] == 'lit' else 'a \\u escape')); return
        if g['out']: s.bad('more', x, 'more is put out (%s) than the characters read ask for' % text(g['out']))
        if s.mode == 'dec' and not (g['ret'] or g['sink'] in (None, ('O', 'dst')) and not (g['sink'] is None)): s.bad('ret', x, 'the text put out is not what is returned')

def show(c): return 'the escape %s' % c if isinstance(c, str) else 'the character %s' % (repr(chr(c)) if 32 <= c < 127 else '0x%02x' % c)
def text(out): return repr(''.join(chr(b[1] & 255) if b[0] == 'b' else '<?>' for b in out)) if out else 'nothing'

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
def params(d):
    """the parameter types of a demangled name"""
    i = d.rfind(') const') if d.endswith(' const') else len(d) - 1
    j = i - 1; dep = 0
    while j >= 0:
        if d[j] in '>)': dep += 1
        elif d[j] in '<(':
            if dep == 0: break
            dep -= 1
        j -= 1
    r = []; cur = ''; dep = 0
    for c in d[j + 1:i]:
        if c in '<(': dep += 1
        elif c in '>)': dep -= 1
        if c == ',' and dep == 0: r.append(cur.strip()); cur = ''
        else: cur += c
    return r + [cur.strip()] if cur.strip() else r
def encoders(m):
    """what writes the characters of a string to a stream, called (through others) from output"""
    d = demangle(m); r = {}
    seen = set(); work = [n for n in m.fns if d.get(n, '').startswith('rexjson::output::write')]
    while work:
        n = work.pop()
        if n in seen or n not in m.fns: continue
        seen.add(n); f = m.fn(n)
        for x in f.insts():
            if x.iscall and x.callee and x.callee in m.fns and 'rexjson' in d.get(x.callee, ''): work.append(x.callee)
    for n in seen:
        f = m.fn(n); dn = d.get(n, ''); ps = params(dn); off = f.nargs - len(ps)
        si = [i + off for i, p in enumerate(ps) if p == STR + ' const&']; oi = [i + off for i, p in enumerate(ps) if p.startswith(('std::basic_ostream<char', 'std::ostream'))]
        if len(si) != 1: continue
        its = any(x.iscall and x.callee and (lambda k: k and k[0] == 'str' and k[1] in ('begin', 'cbegin', 'operator[]', 'at', 'data', 'c_str', 'size', 'length') and x.ops[:1] == [['v', si[0]]])(member(d.get(x.callee, ''))) for x in f.insts())
        if not its: continue
        if len(oi) == 1: r[n] = (si[0], oi[0])
        elif off == 1 and not dn.startswith('rexjson::output'): r[n] = (si[0], 0)
    return r

class Keeps(Explore):
    """a member that makes a value a string: what the value keeps is the decoded argument"""
    LIMIT = 20000
    def __init__(s, f, m, D, isstr):
        super().__init__(f); s.m = m; s.D = D; s.isstr = isstr; s.d = demangle(m); s.err = None; s.rets = 0
    def init(s): return St({}, {}, {'t0': None})
    def arg(s, k): return ('this',) if k == 0 else ('sp',) if s.isstr else ('cp',)
    def content(s, st, w):
        if w == ('sp',): return 'arg'
        return st.mem.get(('str', w))
    def cond(s, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]
        if p not in ('eq', 'ne'): return [st]
        eq = truth == (p == 'eq')
        if a == ('t0',) and b[0] == 'c':
            t = st.g['t0']
            if eq:
                if t is not None and (t[0] == '=' and t[1] != b[1] or t[0] == '!' and b[1] in t[1]): return []
                st.g['t0'] = ('=', b[1])
            else:
                if t is not None and t[0] == '=': return [st] if t[1] != b[1] else []
                st.g['t0'] = ('!', tuple(sorted(set((t[1] if t else ())) | {b[1]})))
            return [st]
        if b == ('c', 0) and a[0] in ('H', 'A', 'cp', 'sp', 'this'): return [st] if not eq else []
        if a == b and a != U: return [st] if eq else []
        if {a, b} == {('this',), ('sp',)}: return [st] if not eq else []
        return [st]
    def place(s, x, p):
        if p == ('this',): return 'typ'
        if p[0] == 'F': return p[1]
        return None
    def inst(s, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', x.i)
        if op == 'getelementptr':
            p = v[0]; path = [q for q in (x.d.get('path') or []) if q[0] == 'f']
            if p == ('this',) and path: return ('F', 'typ' if path[0][3] == 0 else 'store')
            return p if p[0] in ('A', 'H', 'F') else U
        if op == 'load':
            k = s.place(x, v[0])
            if k: return m.get((k,), ('t0',) if k == 'typ' else ('old',))
            return m.get(('v', v[0]), U)
        if op == 'store':
            w, p = v; k = s.place(x, p)
            if k: m[(k,)] = w
            elif p[0] in ('A', 'H'): m[('v', p)] = w
            return U
        if not x.iscall: return U
        n = x.callee or ''; d = s.d.get(n, '')
        if n.startswith('llvm.'): return U
        if d.startswith('operator new'): return ('H', x.i)
        if n == '__cxa_throw': s.err = s.err or (x, 'a value is not given a string but refuses it'); return []
        if n in s.D:
            m[('str', v[0])] = {'arg': 'dec', 'dec': 'twice'}.get(s.content(st, v[1]), 'other'); return U
        if n == 'strlen' and v[0] == ('cp',): return ('len',)
        k = member(d)
        if d.startswith(('std::move', 'std::forward', 'std::remove_reference')) or 'std::move<' in d: return v[0]
        if k and k[0] == 'str':
            mn = k[1]; ps = k[2]
            if mn in ('ctor', 'operator=', 'assign'):
                if len(v) < 2 or ps == '': m[('str', v[0])] = 'empty'
                elif v[1] == ('cp',): m[('str', v[0])] = 'arg' if len(v) < 3 or v[2] == ('len',) or 'allocator' in ps.split(',')[-1] and len(v) == 3 else 'part'
                elif 'basic_string' in ps.split(',')[0]: m[('str', v[0])] = (s.content(st, v[1]) or 'other') if len(v) == 2 or 'allocator' in ps.split(',')[-1] and len(v) == 3 else 'part'
                elif v[1] == ('data',) : m[('str', v[0])] = 'arg' if len(v) > 2 and v[2] == ('len',) else 'part'
                else: m[('str', v[0])] = 'other'
                return v[0] if mn != 'ctor' else U
            if mn == 'swap': a, b = m.get(('str', v[0])), s.content(st, v[1]); m[('str', v[0])] = b; m[('str', v[1])] = a; return U
            if mn in ('c_str', 'data'): return ('data',) if s.content(st, v[0]) == 'arg' else U
            if mn in ('size', 'length'): return ('len',) if s.content(st, v[0]) == 'arg' else U
            if mn == 'dtor': m.pop(('str', v[0]), None); return U
            if mn in ('append', 'operator+=', 'push_back', 'clear', 'erase', 'insert', 'resize', 'replace', 'pop_back'): m[('str', v[0])] = 'changed'; return v[0]
            return U
        if k and v[:1] == [('this',)] or any(w == ('this',) for w in v) and 'rexjson' in d: m[('open',)] = ('c', 1)
        return U
    def ret(s, x, st, v):
        m = st.mem; s.rets += 1
        if ('open',) in m: return
        t = m.get(('typ',), ('t0',)); w = m.get(('store',), ('old',))
        if t == ('t0',) and st.g['t0'] == ('=', 3): t = ('c', 3)
        if t != ('c', 3): s.err = s.err or (x, 'the value is not made a string'); return
        r = s.content(st, w)
        if r != 'dec': s.err = s.err or (x, 'the value does not keep the decoded string it is given' + (' but the string as it is' if r == 'arg' else ''))

def check_strings(c):
    c.rule('followed character by character, what a decoder puts out is the character each (escaped) character stands for, and what the writer puts out for a character is a JSON code of it')
    m0 = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    D = sorted(decoders(m0)); E = encoders(m0)
    if not D: c.bad('decoder', 'rexjson++.cpp', 'strings given to a value are not decoded')
    if not E: c.bad('encoder', 'rexjson++.cpp', 'no function of output encodes the characters of strings')
    m = c.mod('cxx', pipe='plain', extra_boundary=tuple(D) + tuple(sorted(E)))
    n = 0
    for name, mode, (src, dst) in [(q, 'dec', (1, 0)) for q in D] + [(q, 'enc', E[q]) for q in sorted(E)]:
        f = m.fn(name); c.seen(f)
        T = Trans(f, m, mode, src, dst); T.run(T.init())
        for k, (x, msg) in T.errs.items(): c.bad('%s:%s' % (mode, k), f.where(x) if x is not None else f.where(), msg)
        c.ob('%s states' % mode, T.visited); c.ob('%s units' % mode, len(T.units))
        if not T.errs and not T.rets: c.bad('%s:ret' % mode, f.where(), 'it never returns')
    # what values keep
    d = demangle(m); n = 0
    for q in sorted(m.fns):
        k = member(d.get(q, ''))
        if not (k and k[0] == 'val' and k[1] in ('ctor', 'operator=') and k[2] in ('char const*', STR + ' const&')): continue
        f = m.fn(q); c.seen(f); n += 1
        K = Keeps(f, m, D, k[2] != 'char const*'); K.run(K.init())
        if K.err: c.bad('keep:%s:%s' % (k[1], 'string' if K.isstr else 'chars'), f.where(K.err[0]), K.err[1])
        elif not K.rets: c.bad('keep:%s:%s' % (k[1], 'string' if K.isstr else 'chars'), f.where(), 'it never returns')
    c.ob('members that keep strings', n)
    if n < 4: c.bad('keep', 'rexjson++.cpp', 'not all members that make a value a string are there')

CHECKS = {'J05': check_strings}
