"""JSON, the C parser: grammar over the tokens, records, tokenizer, navigation."""
import re, os
import ir, fe, jtok
from ir import AnalysisBroken, pp, mklin, aslin, sublin, addlin
from common import *
from nest import *
from rex import *
from rex import View, Law, A, F, D, EL, FOR, I, J, C0, CM1
from rsm import *

def tokens():
    """token names and numbers of the lexer description"""
    t = open(os.path.join(fe.REPO, 'rexjson/rexjsondfa.rexcc'), encoding='utf-8', errors='replace').read()
    d = jtok.numbers(re.split(r'^%%', t, maxsplit=1, flags=re.M)[0])
    need = {'SPACE', 'STRING', 'INT', 'NUMBER', 'TRUE', 'FALSE', 'NULL', 'COMMA', 'COLON', 'LEFTSB', 'RIGHTSB', 'LEFTCB', 'RIGHTCB'}
    if not need <= set(d): raise AnalysisBroken('the lexer description lacks tokens')
    return {k: d[k] for k in need}

class Stop(Exception): pass

class Grammar(RSM):
    """ghost: ctx (open containers, innermost last), st (what may come next), tok (the current token)"""
    def __init__(s, m, T):
        super().__init__(m); s.T = T; s.N = {v: k for k, v in T.items()}
        s.ALL = frozenset(T.values()) | {-1}
        s.prims = {T[k] for k in ('STRING', 'INT', 'NUMBER', 'TRUE', 'FALSE', 'NULL')}
        s.consumed = 0
    def tn(s, t): return s.N.get(t, 'no token').lower()
    def permitted(s, g):
        T = s.T; val = s.prims | {T['LEFTSB'], T['LEFTCB']}
        st = g['st']; r = {T['SPACE']}
        if st == 'val': r |= val
        elif st == 'valend': r |= val | {T['RIGHTSB']}
        elif st == 'name': r |= {T['STRING']}
        elif st == 'nameend': r |= {T['STRING'], T['RIGHTCB']}
        elif st == 'colon': r |= {T['COLON']}
        elif st == 'after':
            if not g['ctx']: return None
            k = g['ctx'][-1]
            if k == 'arr': r |= {T['COMMA'], T['RIGHTSB']}
            elif k == 'obj': r |= {T['COMMA'], T['RIGHTCB']}
        return r
    def kind_of(s, t):
        T = s.T
        return {T['LEFTSB']: 'arr', T['LEFTCB']: 'obj'}.get(t)
    def step(s, t, g):
        """the ghost after token t; returns the event"""
        T = s.T
        if t == T['SPACE']: return 'space'
        st = g['st']
        if t in (T['RIGHTSB'], T['RIGHTCB']):
            g['ctx'] = g['ctx'][:-1]; g['st'] = 'after'; return 'close'
        if st in ('val', 'valend'):
            if t == T['LEFTSB']: g['ctx'] += ('arr',); g['st'] = 'valend'; return 'open'
            if t == T['LEFTCB']: g['ctx'] += ('obj',); g['st'] = 'nameend'; return 'open'
            g['st'] = 'after'; return 'prim'
        if st in ('name', 'nameend'): g['st'] = 'colon'; return 'name'
        if st == 'colon': g['st'] = 'val'; return 'colon'
        g['st'] = 'val' if g['ctx'][-1] == 'arr' else 'name'; return 'comma'

def level(v): return v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], int) and v[0] in ('off', 'size', 'end', 'R') else v[2] if isinstance(v, tuple) and len(v) > 2 and v[0] == 'nm' and isinstance(v[2], int) else v[1] if isinstance(v, tuple) and v and v[0] == 'RF' and isinstance(v[1], int) else None

def reid(v, fn):
    """rename the identities in a value; fn(id) gives the new identity or None (stale)"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] in ('off', 'size', 'end', 'R'):
        n = fn(v[1]); return (v[0], n) if n is not None else ('R', 'stale') if v[0] == 'R' else ('len',)
    if v[0] == 'nm':
        n = fn(v[2], True); return ('nm', v[1], n) if n is not None else ('len',)
    if v[0] == 'RF':
        n = fn(v[1]); return ('RF', n, v[2]) if n is not None else None
    return v

class CParser(Grammar):
    def __init__(s, m, T, tokfn, K):
        super().__init__(m, T); s.tokfn = tokfn; s.K = K; s.begun = 0; s.ended = 0; s.fails = 0; s.oks = 0
    def boundary(s, n): return n == s.tokfn
    # -- activation: the outer containers stay aside
    def call(s, P, x, g, v, st):
        ctx = st.g['ctx']; rest, top = ctx[:-2], ctx[-2:]
        aside = {k: w for k, w in st.mem.items() if k[0] == 'RF' and isinstance(k[1], int) and k[1] >= 1}
        q = st.copy(); q.g['ctx'] = top
        for k in aside: del q.mem[k]
        out = []
        for r, rv in super().call(P, x, g, v, q):
            d = len(r.g['ctx']) - len(top)
            r.g['ctx'] = ('fail',) if r.g['fail'] else rest + r.g['ctx']
            for k, w in aside.items(): r.mem[('RF', k[1] + d, k[2])] = w
            out.append((r, rv))
        return out
    def aside(s, w, g0, g1):
        d = len(g1['ctx']) - len(g0['ctx'])
        return reid(w, lambda i, n=False: i + d if isinstance(i, int) and i >= 1 else i) if d else w
    def volatile(s, v):
        if not super().volatile(v) or v[0] in ('ctx', 'recs', 'ssz', 'buf', 'bsz', 'ptr', 'stale', 'len', 'g') or v[0] == 'pf' and v[1] == ('ctx',): return False
        l = level(v)
        return l is None or l < 1
    # -- renaming
    def ids(s, st, fn, name=None):
        """fn: identity -> identity of values; name: the same for names"""
        def go(i, n=False): return (name or fn)(i) if n else fn(i)
        s.rename(st, lambda v: reid(v, go))
    def settle(s, f, x, st):
        """the last value's END record is complete"""
        g = st.g
        if g['rec'] == 'end':
            K = s.K; m = st.mem
            def fld(i, n): return m.get(('RF', i, n))
            inobj = g['ctx'] and g['ctx'][-1] == 'obj'
            kind = g['kind']
            want = {'valtype': ('c', K['VALUE'][kind]), 'value': ('off', 'last'), 'valuesize': ('size', 'last'),
                    'name': ('nm', 'off', 'last') if inobj else ('c', 0), 'namesize': ('nm', 'size', 'last') if inobj else ('c', 0)}
            for i, rt, t in (('last', K['BEGIN'], 'BEGIN'), ('e', K['END'], 'END')):
                if fld(i, 'rectype') != ('c', rt): s.bad('rec-%s' % t, f, x, 'the %s record of a value has another record type' % t)
                for n, w in want.items():
                    if fld(i, n) != w: s.bad('rec-%s-%s' % (t, n), f, x, 'the %s record of a value (%s) has %s %s' % (t, s.tn(kind) if isinstance(kind, int) else kind, n, fld(i, n)))
            s.ended += 1
            st.mem = {k: w for k, w in st.mem.items() if not (k[0] == 'RF' and k[1] in ('last', 'e'))}
            s.ids(st, lambda i: None if i in ('last', 'e') else i)
            g['rec'] = 'none'
        elif g['rec'] == 'open':
            s.bad('noend', f, x, 'the parser goes on although the value just read has no END record')
    # -- tokens
    def consume(s, f, x, st):
        g = st.g; out = []
        if g['tok'] is None: return [st]
        if g['fail']:
            s.bad('goon', f, x, 'the parser reads on after an error'); return []
        per = s.permitted(g)
        if per is None: s.bad('form', f, x, 'the parser reads a token outside of the value it was called for'); return []
        for t in sorted(g['tok']):
            q = st.copy(); g2 = q.g
            q.env = {k: ('c', t) if w == ('tok',) else w for k, w in q.env.items()}
            q.mem = {k: (tuple(('c', t) if u == ('tok',) else u for u in w) if k == ('fr',) else ('c', t) if w == ('tok',) else w) for k, w in q.mem.items()}
            if t not in per:
                s.bad('grammar-%s-%s' % (g['st'], s.tn(t)), f, x, 'a token (%s) is passed over where the grammar has none (%s)' % (s.tn(t), g['st'])); continue
            s.consumed += 1
            if t != s.T['SPACE']:
                s.settle(f, x, q)
                opens = g2['st'] in ('val', 'valend') and t != s.T['RIGHTSB']
                if q.mem.get(('ctx', 'levels')) != ('lv', 1 if opens else 0): s.bad('levels-%s' % ('in' if opens else 'out'), f, x, 'the number of levels left is not %s' % ('taken down for a value' if opens else 'restored after a value')); continue
                if opens and g2['lz'] != 'nz': s.bad('depth', f, x, 'a value is read without a check that levels are left'); continue
                if opens and g2['rec'] != 'beg': s.bad('nobegin', f, x, 'a value is read without a BEGIN record'); continue
                if not opens and g2['rec'] == 'beg': s.bad('begin', f, x, 'a BEGIN record is written where no value starts'); continue
            ev = s.step(t, g2)
            cur = lambda i: None if i == 'cur' else i
            if ev == 'open':
                s.ids(q, lambda i: 0 if i == 'cur' else i + 1 if isinstance(i, int) else i, lambda i: 0 if i == 'n' else i + 1 if isinstance(i, int) else i)
                q.env = {k: s.lvshift(w, -1) for k, w in q.env.items()}
                q.mem = {k: (tuple(s.lvshift(u, -1) for u in w) if k == ('fr',) else s.lvshift(w, -1)) for k, w in q.mem.items()}
                g2['rec'] = 'none'; g2['lz'] = None
            elif ev == 'prim':
                s.ids(q, lambda i: 'last' if i == 'cur' else i, lambda i: 'last' if i == 'n' else i)
                g2['rec'] = 'open'; g2['kind'] = t; g2['lz'] = None
            elif ev == 'close':
                # sizes: the end of the closing token is the end of the value
                s.rename(q, lambda v: ('end', 'last') if v == ('end', 'cur') else v)
                s.ids(q, lambda i: 'last' if i == 0 else None if i == 'cur' else i - 1 if isinstance(i, int) else i, lambda i: 'last' if i == 0 else i - 1 if isinstance(i, int) else i)
                s.rename(q, lambda v: ('size', 'last') if v == ('endoff', 0) else v)
                q.env = {k: s.lvshift(w, 1) for k, w in q.env.items()}
                q.mem = {k: (tuple(s.lvshift(u, 1) for u in w) if k == ('fr',) else s.lvshift(w, 1)) for k, w in q.mem.items()}
                g2['rec'] = 'open'; g2['kind'] = 'arr' if t == s.T['RIGHTSB'] else 'obj'; g2['lz'] = None
            elif ev == 'name':
                s.rename(q, lambda v: ('nm', v[0], 'n') if v in (('off', 'cur'), ('size', 'cur')) else v)
                s.ids(q, cur)
            else: s.ids(q, cur)
            out.append(q)
        return out
    def lvshift(s, v, d): return ('lv', v[1] + d) if isinstance(v, tuple) and v and v[0] == 'lv' else v
    def token(s, f, x, v, st):
        out = []
        if v[0] != ('ctx',): s.bad('ctx', f, x, 'the tokenizer is given another context'); return []
        if st.g['tok'] is None:
            m = st.mem
            for k, w, t in (('levels', ('lv', 0), 'levels'), ('stack', ('recs',), 'records'), ('stacksize', ('ssz',), 'number of records'), ('buffer', ('buf',), 'buffer'), ('bufsize', ('bsz',), 'size of the buffer'), ('offset', ('c', 0), 'start'), ('top', ('c', 0), 'first record'), ('error', ('c', 0), 'error')):
                if m.get(('ctx', k)) != w: s.bad('init-' + k, f, x, 'parsing starts with another %s' % t)
            m[('ctx', 'top')] = ('top', 0)
        for q in s.consume(f, x, st):
            q.g['tok'] = s.ALL; m = q.mem
            m[('ctx', 'token_id')] = ('tok',); m[('ctx', 'token_offset')] = ('off', 'cur'); m[('ctx', 'token_size')] = ('size', 'cur'); m[('ctx', 'offset')] = ('end', 'cur'); m[('ctx', 'token_str')] = ('ptr',)
            out.append((q, U))
        return out
    # -- places
    def place(s, f, x, p):
        """('ctx', field) / ('RF', id, field) of a load or store"""
        if p[0] == 'pf': return ('ctx', p[2]) if p[1] == ('ctx',) else ('RF', p[1][1], p[2]) if p[1][0] == 'R' else None
        c = f.cls(x)
        if p == ('ctx',): return ('ctx', c[-1]) if c else None
        if p[0] == 'R': return ('RF', p[1], c[-1]) if c else None
        return None
    FIELDS = ('rectype', 'valtype', 'name', 'namesize', 'value', 'valuesize')
    def writing(s, f, x, st, i):
        """a record is written: it must be one of ours"""
        g = st.g
        if i == 'new0' and g['room'] is not True:
            s.bad('room', f, x, 'a record is written without a check that there is room for it'); return False
        if i in ('stale', 'other'): s.bad('where', f, x, 'a record that is not the one being built is written'); return False
        return True
    def classify(s, f, x, st, i, w):
        """the record type of a new record is known"""
        g = st.g
        to = None
        if w == ('c', s.K['BEGIN']) and i in ('new', 'new0'):
            if g['fail']: pass
            else:
                s.settle(f, x, st)
                if g['rec'] != 'none' or g['st'] not in ('val', 'valend'): s.bad('begin', f, x, 'a BEGIN record is written where no value starts'); return
            to = 'cur'; ph = 'beg'; s.begun += 1
        elif w == ('c', s.K['END']) and i in ('new', 'new0'):
            if not g['fail'] and g['rec'] != 'open': s.bad('end', f, x, 'an END record is written where no value ends'); return
            to = 'e'; ph = 'end'
        if to is None: return
        n0 = i == 'new0'
        if not n0: g['topid'] = to
        else: g['nid'] = to
        # the fields written so far move along
        st.mem = {(('RF', to, k[2]) if k[0] == 'RF' and k[1] == i else k): w2 for k, w2 in st.mem.items()}
        s.ids(st, lambda j: to if j == i else j)
        if not g['fail']: g['rec'] = ph
    def store(s, f, x, p, w, st):
        if st.g['fail'] and p[0] in ('R', 'pf') and p[-1] != 'error' and (p[0] == 'R' or p[1] == ('R', 'dead')) and p[1] != 'new0' and p[1] != ('R', 'new0'): return
        k = s.place(f, x, p); g = st.g
        if k is None: s.bad('store', f, x, 'something else than the context and the records is written'); return
        if k[0] == 'ctx':
            n = k[1]
            if g['tok'] is None: st.mem[k] = w; return
            if n == 'top':
                if w == ('top', 1):
                    if g['room'] is not True: s.bad('room', f, x, 'a record is taken without a check that there is room for it')
                    nid = g['nid']
                    s.rename(st, lambda v: ('top', v[1] - 1) if isinstance(v, tuple) and v and v[0] == 'top' else ('R', 'new') if v == ('R', 'new0') else ('R', 'other') if v == ('R', 'new') else v)
                    st.mem = {(('RF', 'new', q[2]) if q[0] == 'RF' and q[1] == 'new0' else q): u for q, u in st.mem.items()}
                    st.mem[k] = ('top', 0); g['topid'] = nid if nid is not None else 'new'; g['nid'] = None; g['room'] = None; g['some'] = True
                elif w != ('top', 0): s.bad('top', f, x, 'the number of records changes by something else than one')
                return
            if n == 'levels':
                if g['fail']: return
                if w[0] != 'lv': s.bad('levels', f, x, 'the number of levels left changes to something else'); return
                st.mem[k] = w; return
            if n in ('stack', 'stacksize', 'buffer', 'bufsize', 'offset', 'token_id', 'token_offset', 'token_size'):
                if st.mem.get(k) != w: s.bad('set-' + n, f, x, 'the parser changes %s' % n)
                return
            if n == 'error':
                if w[0] == 'c' and w[1] != 0:
                    g['fail'] = True; s.fails += 1; E = s.K['E']
                    per = s.permitted(g) or set()
                    tk = g['tok'] & per
                    if w[1] == E['NOMEM']:
                        if g['room'] is not False: s.bad('nomem', f, x, 'out of records is reported with records left')
                    elif w[1] == E['MAXREC']:
                        if g['lz'] != 'z': s.bad('maxrec', f, x, 'too many levels are reported with levels left')
                        elif g['st'] not in ('val', 'valend') or g['st'] == 'valend' and s.T['RIGHTSB'] in g['tok']: s.bad('maxrec', f, x, 'too many levels are reported where no value starts')
                    elif w[1] == E['CHAR']:
                        if tk: s.bad('refuse-%s' % g['st'], f, x, 'a token the grammar allows (%s, expecting %s) is refused' % (', '.join(sorted(s.tn(t) for t in tk)), g['st']))
                    g['code'] = w[1]
                else: s.bad('error', f, x, 'the error is set to %s' % (w,))
                st.mem[k] = w; return
            st.mem[k] = w; return
        i = k[1]
        if not s.writing(f, x, st, i): return
        st.mem[k] = w
        if k[2] == 'rectype': s.classify(f, x, st, i, w)
    # -- meaning of instructions
    def base(s, f, x, st, v):
        op = x.op
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('top', 'lv', 'ssz', 'off', 'size', 'end', 'tok', 'bsz', 'nm'): return v[0]
        if op in ('add', 'sub') and v[0][0] in ('top', 'lv') and v[1][0] == 'c':
            n = v[1][1] if op == 'add' else -v[1][1]
            if n >= 1 << 31: n -= 1 << (64 if n >= 1 << 63 else 32)
            return (v[0][0], v[0][1] + (n if v[0][0] == 'top' else -n))
        if op == 'add':
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a[0] == 'off' and b == ('size', a[1]): return ('end', a[1])
                if a[0] in ('off', 'end', 'len', 'size') and b[0] in ('size', 'len', 'c'): return ('len',)
        if op == 'sub':
            a, b = v
            if a[0] == 'end' and b == ('off', a[1]): return ('size', a[1])
            if a == ('end', 'cur') and b == ('off', 0): return ('endoff', 0)
            if a[0] in ('off', 'end') and (b[0] in ('off', 'end', 'len') or b[:2] == ('nm', 'off')): return ('len',)
        if op == 'icmp': return None
        return None
    def inst(s, f, x, st, v):
        op = x.op
        if op == 'getelementptr':
            p = v[0]; path = x.d.get('path') or []
            if p == ('ctx',) and path and path[0][0] == 'f': return ('pf', p, path[0][2])
            if p[0] == 'R' and path and path[0][0] == 'f': return ('pf', p, path[0][2])
            if p == ('recs',) and len(path) >= 1 and path[0][0] == 'i':
                i = v[1]
                if i[0] == 'top': r = s.slot(st, i[1])
                else: r = ('R', 'other')
                return ('pf', r, path[1][2]) if len(path) > 1 else r
            if p[0] == 'R' and path and path[0][0] == 'i':
                return ('R', 'other')
            return U
        if op == 'load':
            p = v[0]
            if p == ('c', 0): s.bad('null', f, x, 'a null pointer is used'); return []
            k = s.place(f, x, p)
            if k is None: return U
            if k[0] == 'RF' and k[1] in ('other', 'stale'): return U
            return st.mem.get(k, ('c', 0) if k[0] == 'RF' and False else U)
        if op == 'store':
            p = v[1]
            if p == ('c', 0): s.bad('null', f, x, 'a null pointer is used'); return []
            s.store(f, x, p, v[0], st); return U
        if x.iscall:
            n = x.callee or ''
            if n == s.tokfn: return s.token(f, x, v, st)
            if n.startswith('llvm.memset') or n == 'memset':
                if v[0] == ('ctx',):
                    for k in s.K['ctxf']: st.mem[('ctx', k)] = ('c', 0)
                elif v[0][0] == 'R':
                    if v[1] != ('c', 0): s.bad('memset', f, x, 'a record is filled with something else than zero')
                    if s.writing(f, x, st, v[0][1]):
                        for k in s.FIELDS: st.mem[('RF', v[0][1], k)] = ('c', 0)
                else: s.bad('memset', f, x, 'something else than the context and the records is cleared')
                return v[0]
            if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove') or n.startswith('llvm.memmove'):
                if v[0][0] == 'R' and v[1][0] == 'R':
                    if s.writing(f, x, st, v[0][1]):
                        for k in s.FIELDS: st.mem[('RF', v[0][1], k)] = st.mem.get(('RF', v[1][1], k), U)
                else: s.bad('memcpy', f, x, 'something else than a record is copied')
                return v[0]
            return U
        return U
    def slot(s, st, n):
        g = st.g
        if n == -1: return ('R', g['topid'])
        if n == 0: return ('R', g['nid'] or 'new0')
        return ('R', 'other')
    def cond(s, f, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]; g = st.g
        if a[0] == 'c' and b[0] != 'c':
            a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if a == ('tok',) and b[0] == 'c' and g['tok'] is not None:
            def t_(q):
                return s.truth(('cmp', p, ('c', q), b))
            keep = frozenset(q for q in g['tok'] if t_(q) == truth)
            if not keep: return []
            g['tok'] = keep; return [st]
        if a == ('size', 'cur') and b == ('c', 0) and p in ('eq', 'ne', 'ugt', 'sgt'):
            z = truth == (p == 'eq')
            keep = frozenset(q for q in g['tok'] if (q == -1) == z)
            if not keep: return []
            g['tok'] = keep; return [st]
        if {a[0], b[0]} == {'top', 'ssz'}:
            if a[0] == 'ssz': a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            q = p[1:] if p not in ('eq', 'ne') else p; room = None
            if a[1] == 0:
                # there are never more than the size
                if q in ('lt', 'ne'): room = truth
                elif q in ('ge', 'eq'): room = not truth
            elif a[1] == 1:
                if q == 'le': room = truth
                elif q == 'gt': room = not truth
                elif q == 'lt' and truth: room = True
            elif a[1] == -1 and q == 'lt' and not truth: room = False
            if room is not None:
                if g['room'] is not None and g['room'] != room: return []
                g['room'] = room
            return [st]
        if a[0] == 'top' and b[0] == 'c' and g['some']:
            lo = a[1] + 1    # at least one record
            t = {'sle': lo <= b[1], 'slt': lo < b[1], 'eq': None, 'sgt': lo > b[1], 'sge': lo >= b[1], 'ne': None, 'ugt': lo > b[1], 'ule': None}.get(p)
            if p in ('sle', 'slt') and not t: return [] if truth else [st]
            if p in ('sgt', 'sge', 'ugt') and t: return [st] if truth else []
            if p == 'ule' and lo > b[1]: return [] if truth else [st]
            if p == 'eq' and b[1] < lo: return [] if truth else [st]
            if p == 'ne' and b[1] < lo: return [st] if truth else []
            return [st]
        if a == ('lv', 0) and b[0] == 'c':
            z = None
            if b[1] == 0 and p in ('eq', 'ule'): z = truth
            elif b[1] == 0 and p in ('ne', 'ugt'): z = not truth
            elif b[1] == 1 and p == 'ult': z = truth
            elif b[1] == 1 and p == 'uge': z = not truth
            if z is not None:
                w = 'z' if z else 'nz'
                if g['lz'] not in (None, w): return []
                g['lz'] = w
            return [st]
        if a[0] in ('size', 'len', 'endoff', 'off', 'end', 'nm') and b == ('c', 0) and p in ('slt', 'sge'):
            return [st] if truth == (p == 'sge') else []
        if a[0] in ('size', 'len', 'endoff') and b[0] == 'c' and b[1] < 0 and p in ('eq', 'ne', 'sgt', 'sle'):
            return [st] if truth == (p in ('ne', 'sgt')) else []
        if a[0] in ('ctx', 'R', 'recs', 'pf') and b == ('c', 0) and p in ('eq', 'ne'):
            return [st] if truth == (p == 'ne') else []
        if c[1] in ('eq', 'ne') and a == b: return [st] if truth == (c[1] == 'eq') else []
        return [st]
    def normal(s, st):
        g = st.g
        if g['rec'] in ('none', 'beg'): g['kind'] = None
        if g['fail']:
            # what the records hold no longer matters
            keep = st.mem.get(('ctx', 'error_offset'))
            st.mem = {k: w for k, w in st.mem.items() if k[0] != 'RF'}
            dead = lambda v: ('R', 'dead') if isinstance(v, tuple) and v and v[0] == 'R' else ('len',) if isinstance(v, tuple) and v and v[0] in ('off', 'size', 'end', 'nm', 'endoff') else U if isinstance(v, tuple) and v and v[0] == 'lv' else v
            s.rename(st, dead)
            if keep is not None: st.mem[('ctx', 'error_offset')] = keep
            g['ctx'] = ('fail',); g['rec'] = 'none'; g['kind'] = None; g['tok'] = s.ALL; g['topid'] = 'dead'; g['lz'] = None; g['st'] = 'fail'
    def returned(s, f, x, st, v):
        s.normal(st)
        if st.g['fail']: st.g['rf'] = 0
        elif st.g['room'] is False:
            st.g['rf'] += 1
            if st.g['rf'] > 4: s.bad('noerror', f, x, 'the parser gives up for lack of records without an error'); raise Stop()
        if st.g['fail'] and v is not None and v[0] == 'R': v = ('R', 'dead')
        return v

def tokenizer_of(m):
    """the function that walks the tables and notes the token"""
    def reach(n, pred, seen):
        if n in seen or n not in m.fns: return False
        seen.add(n); f = m.fn(n)
        return any(pred(f, x) or (x.iscall and x.callee and reach(x.callee, pred, seen)) for x in f.insts())
    tab = lambda f, x: any(o and o[0] == 'g' and o[1] in ('dfa', 'ccdfa') for o in x.ops if isinstance(o, (list, tuple)))
    tok = lambda f, x: x.op == 'store' and f.cls(x) and f.cls(x)[-1] == 'token_id'
    both = [n for n in m.fns if reach(n, tab, set()) and reach(n, tok, set())]
    low = [n for n in both if not any(x.iscall and x.callee in both for x in m.fn(n).insts())]
    return low

def check_tokens(c, name):
    from tokz import Tok
    m = c.mod('rexjson', pipe='plain', extra_boundary=(name,))
    f = m.fn(name); c.seen(f)
    k = [i for i in range(f.nargs)]
    S = Tok(c, f, 0); S.run(S.init())
    for key, (x, msg) in S.errs.items(): c.bad('token:%s' % key, f.where(x) if x is not None else f.where(), msg)
    c.ob('tokenizer states', S.visited)
    if not S.errs and not S.returns: c.bad('token:ret', f.where(), 'it never returns')
    if not S.errs and not S.nexts: c.bad('token:next', f.where(), 'it never asks the automaton')

def check_parser(c):
    c.rule('every token the parser passes over is one the grammar has at that place and no token the grammar has there is refused; each value gets a BEGIN and an END record with its type, place and name, only while records are left; a value is read only while levels are left')
    m = c.mod('rexjson', pipe='plain', extra_boundary=('*noinline*',))
    T = tokens()
    low = tokenizer_of(m)
    if len(low) != 1: raise AnalysisBroken('the tokenizer is not found')
    check_tokens(c, low[0])
    kc = fe.load_consts([os.path.join(fe.REPO, 'rexjson/rexjson.h')])
    txt = open(os.path.join(fe.REPO, 'rexjson/rexjson.h')).read()
    V = {'STRING': 5, 'INT': 3, 'NUMBER': 4, 'NULL': 0, 'TRUE': 1, 'FALSE': 2}
    K = {'BEGIN': 1, 'END': 2, 'VALUE': dict({T[k]: v for k, v in V.items()}, arr=6, obj=7), 'E': {'NOMEM': kc.get('REXJSON_E_NOMEM', 4), 'CHAR': kc.get('REXJSON_E_UNEXPECTEDCHAR', 5), 'MAXREC': kc.get('REXJSON_E_MAXRECURSIONS', 6)},
         'ctxf': [q[0] if isinstance(q, (list, tuple)) else q for q in m.structs['rexjson_t']] if isinstance(m.structs['rexjson_t'], list) else []}
    if not K['ctxf']: K['ctxf'] = ['stacksize', 'top', 'levels', 'stack', 'token_id', 'token_str', 'token_offset', 'token_size', 'offset', 'bufsize', 'error_offset', 'error', 'buffer']
    P = CParser(m, T, low[0], K)
    f = m.fn('rexjson_parse_buffer'); c.seen(f)
    for n in m.fns:
        if n != low[0]: c.seen(m.fn(n))
    st = St({0: ('ctx',), 1: ('recs',), 2: ('ssz',), 3: ('buf',), 4: ('bsz',), 5: ('lv', 0)}, {('fr',): ()},
            {'ctx': ('doc',), 'st': 'val', 'tok': None, 'rec': 'none', 'kind': None, 'fail': False, 'room': None, 'lz': None, 'some': False, 'topid': 'other', 'nid': None, 'code': 0, 'rf': 0})
    try: res = P.solve(f, st)
    except Stop: res = ()
    except AnalysisBroken:
        for k, (w, msg) in P.errs.items(): c.bad(k, w, msg)
        raise
    good = bad = 0
    for rv, mem, g in res:
        mem = dict(mem); g = dict(g)
        if rv is not None and rv[0] == 'c' and rv[1] < 0 or rv[0] == 'c' and rv[1] >= 1 << 63:
            bad += 1
            if not g['fail']: P.bad('noerror', f, None, 'parsing fails without an error')
            elif mem.get(('ctx', 'error')) not in [('c', v) for v in K['E'].values()]: P.bad('code', f, None, 'parsing fails with an unknown error')
            elif g['code'] == K['E']['CHAR'] and mem.get(('ctx', 'error_offset')) != ('off', 'cur'): P.bad('erroff', f, None, 'the error is not placed at the token refused')
            continue
        good += 1
        q = St({}, mem, g)
        if g['fail']: P.bad('success', f, None, 'an error is reported as success'); continue
        if g['ctx'] != ('doc',) or g['st'] != 'after': P.bad('short', f, None, 'parsing succeeds before the value is complete'); continue
        if rv != ('size', 'last'): P.bad('length', f, None, 'the length returned is not that of the value (%s)' % (rv,))
        if g['rec'] != 'end': P.bad('last', f, None, 'the outermost value has no END record')
        P.settle(f, None, q)
    for k, (w, msg) in P.errs.items(): c.bad(k, w, msg)
    c.ob('abstract states', P.visited); c.ob('summaries', len(P.table)); c.ob('tokens passed', P.consumed); c.ob('successful ends', good); c.ob('failing ends', bad)
    if not P.errs and (not good or not bad): c.bad('ends', f.where(), 'the parser never %s' % ('succeeds' if not good else 'fails'))
    if not P.errs: c.atleast('tokens passed', 5)

CHECKS = {'J01': check_parser}
