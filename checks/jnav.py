"""JSON records: navigation between children and siblings."""
import ir, fe, os
from ir import AnalysisBroken
from common import *
from explore import *

class Nav(Explore):
    """indices ('ix', k) and depths ('dep', k) count from the frontier: the first record whose mark is not known yet"""
    def __init__(s, f, K, what):
        super().__init__(f); s.N, s.B, s.E = K; s.what = what; s.errs = {}; s.touched = 0; s.results = 0
    def bad(s, key, x, msg):
        if key not in s.errs: s.errs[key] = (s.f.where(x) if x is not None else s.f.where(), msg)
    def init(s):
        return St({0: ('recs', None), 1: ('n', 0), 2: ('ix', 0)}, {},
                  {'q': 'start', 'neg': None, 'lo': 0, 'hi': None, 'ty': frozenset((s.N, s.B, s.E)), 'Z': 'zero', 'res': None, 'D': 0, 'last': None})
    def val(s, o, st):
        if o[0] == 'v' and o[1] < s.f.nargs: return st.env.get(o[1], U)
        if o[0] == 'c' and o[1] >= 1 << 31: return ('c', o[1] - (1 << 64) if o[1] >= 1 << 63 else o[1])
        return super().val(o, st)
    def shift(s, st, d, fix):
        def mv(v):
            if not isinstance(v, tuple) or not v: return v
            if v[0] in ('ix', 'recs', 'ty') and isinstance(v[1], int):
                k = v[1] - 1
                if v[0] == 'ty' and v[1] == 0: return ('c', fix)
                return (v[0], k) if k >= -3 else (v[0], 'far')
            if v[0] == 'dep' and isinstance(v[1], int):
                k = v[1] - d
                return ('dep', k) if abs(k) < 4 else ('dep', 'far')
            if v[0] in ('cmp', 'and', 'or', 'ext', 'not'): return tuple(mv(q) for q in v)
            return v
        st.env = {k: mv(w) for k, w in st.env.items()}
    def passed(s, st):
        """the mark of the frontier record is known: it is counted"""
        g = st.g; t = next(iter(g['ty'])); q = g['q']
        s.shift(st, {s.B: 1, s.E: -1}.get(t, 0), t)
        g['D'] = 1 if q == 'start' and t == s.B else None
        if g['res'] is not None: g['res'] = g['res'] - 1 if isinstance(g['res'], int) and g['res'] > -3 else 'far'
        if q == 'start':
            g['q'] = ('walk' if s.what == 'next' else 'look') if t == s.B else 'no'; g['Z'] = 'pos' if t == s.B else '?'
        elif q == 'walk':
            if t == s.N: g['q'] = 'no'
            g['Z'] = 'pos' if t == s.B else '?' if t == s.E else g['Z']
        elif q == 'look':
            g['q'] = 'yes' if t == s.B else 'no'
            if t == s.B: g['res'] = -1
            g['Z'] = '?' if q != 'look' or t != s.B else 'pos'
        else: g['Z'] = '?'
        g['last'] = t
        g['lo'] = max(0, g['lo'] - 1); g['neg'] = False
        if g['hi'] is not None: g['hi'] = max(0, g['hi'] - 1)
        g['ty'] = frozenset((s.N, s.B, s.E))
    def zero(s, st, z):
        """the balance at the frontier is (not) zero"""
        g = st.g
        if g['Z'] != '?': return [st] if (g['Z'] == 'zero') == z else []
        g['Z'] = 'zero' if z else 'pos'
        if z and g['q'] == 'walk': g['q'] = 'look'
        return [st]
    def settle(s, sts):
        out = []
        for st in sts:
            if len(st.g['ty']) == 1:
                if st.g['q'] == 'walk' and st.g['Z'] == '?':
                    for z in (True, False):
                        for r in s.zero(st.copy(), z): s.passed(r); out.append(r)
                    continue
                s.passed(st)
            out.append(st)
        return out
    def touch(s, x, k, st):
        s.touched += 1; g = st.g
        if not isinstance(k, int): return
        if g['q'] == 'start' and g['neg'] is not False: s.bad('negative', x, 'a record with a negative index may be read')
        if k >= g['lo'] and k >= 0: s.bad('beyond', x, 'a record beyond the end of the array may be read')
    def split(s, c, st):
        return [(q, t) for t in (True, False) for q in s.refine(c, t, st.copy())]
    def inst(s, x, st, v):
        op = x.op
        if op in ('sext', 'zext', 'trunc'):
            if x.d.get('st') == 'i1': return [(q, ('c', (-1 if op == 'sext' else 1) if t else 0)) for q, t in s.split(v[0], st)]
            if v[0][0] in ('ix', 'dep', 'ty', 'n'): return v[0]
        if op == 'select': return [(q, s.again(x, 1 if t else 2, q)) for q, t in s.split(v[0], st)]
        if op == 'getelementptr':
            path = x.d.get('path') or []; p = v[0]
            if p[0] == 'recs' and path:
                k = p[1]; i = 1
                if path[0][0] == 'i':
                    j = v[1]
                    if k is None: k = j[1] if j[0] == 'ix' else 'far' if j != ('c', 0) or len(path) < 1 else 'far'
                    elif isinstance(k, int) and j[0] == 'c': k += j[1]
                    else: k = 'far'
                    path = path[1:]
                elif k is None: k = 'far'
                return ('fld', k, path[0][2]) if path else ('recs', k)
            return U
        if op == 'load':
            p = v[0]
            if p[0] == 'recs': p = ('fld', p[1], s.f.cls(x)[-1] if s.f.cls(x) else '?')
            if p[0] == 'fld':
                s.touch(x, p[1], st)
                if p[2] == 'rectype': return ('c', st.g['last']) if p[1] == -1 and st.g['last'] is not None else ('ty', p[1])
            return U
        if op == 'store': s.bad('store', x, 'navigation writes to memory'); return U
        if op in ('add', 'sub') and v[0][0] != 'c' or op == 'add':
            a, b = v
            if op == 'add' and a[0] == 'c': a, b = b, a
            if b[0] == 'c' and a[0] in ('ix', 'dep', 'n') and isinstance(a[1], int):
                k = a[1] + (b[1] if op == 'add' else -b[1])
                return (a[0], k) if abs(k) < 5 else (a[0], 'far')
        return U
    def again(s, x, k, st): return s.val(x.ops[k], st)
    def merge(s, x, v, st):
        # a counter that starts from a constant where the balance is known
        D = st.g['D']
        if v[0] == 'c' and D is not None and x.t in ('i64', 'i32') and abs(v[1] - D) < 4 and x.b.id in headers(s.f) and any(o[0] == 'v' for o, q in x.ops): return ('dep', v[1] - D)
        return v
    def below(s, st, k, truth, unsigned=False):
        """k < number of records"""
        g = st.g
        if not isinstance(k, int): return [st]
        if truth:
            if unsigned and g['neg'] is None and k == 0: g['neg'] = False
            elif unsigned and g['neg'] is True and k == 0: return []
            if g['hi'] is not None and k >= g['hi'] and g['neg'] is not True: return []
            g['lo'] = max(g['lo'], k + 1); return [st]
        out = []
        if unsigned and g['neg'] is not False and k == 0:
            r = st.copy(); r.g['neg'] = True; out.append(r)
            if g['neg'] is True: return out
            g['neg'] = False
        if g['lo'] > k: return out
        g['hi'] = k if g['hi'] is None else min(g['hi'], k)
        return out + [st]
    def forks(s, st): return s.settle([st]) if len(st.g['ty']) == 1 else None
    def cond(s, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]; g = st.g
        sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
        if a[0] in ('c', 'n') and b[0] not in ('c', 'n') or a[0] == 'c' and b[0] == 'n':
            a, b = b, a
            if p not in ('eq', 'ne'): p = p[0] + sw[p[1:]]
        q = p if p in ('eq', 'ne') else p[1:]
        if a[0] == 'ty' and a[1] == 0 and b[0] == 'c':
            keep = frozenset(t for t in g['ty'] if s.truth(('cmp', p, ('c', t), b)) == truth)
            if not keep: return []
            g['ty'] = keep; return [st]
        if a[0] == 'dep' and b[0] == 'c' and isinstance(a[1], int):
            j = b[1] - a[1]                    # compared with the balance itself
            if q in ('eq', 'ne'):
                eq = truth == (q == 'eq')
                if j < 0: return [] if eq else [st]
                if j == 0: return s.zero(st, eq)
                return s.zero(st, False) if eq else [st]
            t = {'ge': j, 'gt': j + 1, 'lt': j, 'le': j + 1}[q]; ge = truth == (q in ('ge', 'gt'))
            if t <= 0: return [st] if ge else []
            if t == 1: return s.zero(st, not ge)
            return s.zero(st, False) if ge else [st]
        if a[0] == 'ix' and b[0] == 'n' and isinstance(a[1], int) and isinstance(b[1], int):
            k = a[1] - b[1]; un = p[0] == 'u'
            if un and b[1] < 0: return [st]
            if q == 'lt': return s.below(st, k, truth, un and a[1] == 0)
            if q == 'ge': return s.below(st, k, not truth, un and a[1] == 0)
            if q == 'le': return s.below(st, k - 1, truth)
            if q == 'gt': return s.below(st, k - 1, not truth)
            if q in ('eq', 'ne') and g['lo'] >= k and g['neg'] is False: return s.below(st, k, truth == (q == 'ne'))
            return [st]
        if a[0] == 'ix' and b[0] == 'c' and isinstance(a[1], int):
            if g['q'] == 'start':
                # index >= t
                t = {'ge': b[1], 'lt': b[1], 'gt': b[1] + 1, 'le': b[1] + 1}.get(q)
                if t is None or p[0] == 'u': return [st]
                ge = truth == (q in ('ge', 'gt')); t -= a[1]
                if t == 0:
                    if g['neg'] is not None: return [st] if g['neg'] != ge else []
                    g['neg'] = not ge; return [st]
                if t < 0 and g['neg'] is False: return [st] if ge else []
                if t > 0 and g['neg'] is True: return [] if ge else [st]
                if t > 0 and ge: g['neg'] = False
                if t < 0 and not ge: g['neg'] = True
                return [st]
            if a[1] >= -1 and b[1] <= 0 and p[0] == 's':
                t = {'ge': b[1], 'lt': b[1], 'gt': b[1] + 1, 'le': b[1] + 1}[q]
                if t <= 0: return [st] if truth == (q in ('ge', 'gt')) else []
            if a[1] >= -1 and b[1] < 0 and q in ('eq', 'ne'): return [st] if truth == (q == 'ne') else []
            return [st]
        if a[0] == 'recs' and b == ('c', 0) and q in ('eq', 'ne'): return [st] if truth == (q == 'ne') else []
        if a[0] == b[0] == 'ix' and q in ('eq', 'ne') and isinstance(a[1], int) and isinstance(b[1], int): return [st] if truth == ((a[1] == b[1]) == (q == 'eq')) else []
        return [st]
    def ret(s, x, st, v):
        s.results += 1; g = st.g; q = g['q']
        if v is not None and v[0] == 'c' and v[1] < 0:
            ok = q == 'no' or g['neg'] is True or q != 'yes' and g['hi'] == 0 or q == 'start' and g['hi'] is not None and g['hi'] <= 1
            ok = ok or q in ('start', 'look') and s.B not in g['ty']
            if not ok: s.bad('missed', x, 'the %s is not found although it is there' % s.word())
            return
        if q == 'yes' and v == ('ix', g['res']): return
        s.bad('wrong', x, 'another record than the %s is returned' % s.word())
    def word(s): return {'next': 'next sibling', 'first': 'first child'}[s.what]
    def stop(s): return len(s.errs) > 4

def check_nav(c):
    c.rule('the first child is the record right after a BEGIN record if that is a BEGIN record; the next sibling is the record right after the END record that balances a BEGIN record, if that is a BEGIN record; anything else is negative; no record outside of the array is read')
    m = c.mod('rexjson', pipe='plain')
    for name, what in (('rexjson_recordtree_firstchild', 'first'), ('rexjson_recordtree_next', 'next')):
        f = m.fn(name); c.seen(f)
        S = Nav(f, (0, 1, 2), what); S.run(S.init())
        for k, (w, msg) in S.errs.items(): c.bad('%s:%s' % (name, k), w, '%s: %s' % (name, msg))
        c.ob('abstract states', S.visited); c.ob('record reads', S.touched); c.ob('results', S.results)
        if not S.errs and not S.results: c.bad('%s:end' % name, f.where(), '%s never returns' % name)

CHECKS = {'J02': check_nav}
