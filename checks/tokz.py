"""Tokenizers built on a generated automaton: the longest match from the place reached."""
import ir
from ir import AnalysisBroken
from common import *
from nest import *
from rex import *
from explore import *
from match import Scan, Search, searches, shift

class Tok(Scan):
    """the C tokenizer: an index runs over buffer[offset .. bufsize)"""
    def __init__(s, c, f, ctx):
        super().__init__(c, f, 98, 99, None, 'byte', (3, 7), {}, 'match'); s.ctx = ctx
        s.idx = set()
        # the index: integer merges that address the buffer
        def ints(o, seen):
            if o[0] != 'v' or o[1] < f.nargs or o[1] in seen: return
            seen.add(o[1]); x = f.inst[o[1]]
            if x.op in ('sext', 'zext', 'trunc', 'freeze'): ints(x.ops[0], seen)
            elif x.op == 'add': [ints(q, seen) for q in x.ops]
            elif x.op == 'phi':
                s.idx.add(x.i)
                for q, b in x.ops: ints(q, seen)
        for x in f.insts('getelementptr'):
            p = x.d.get('path') or []
            if len(p) == 1 and p[0][0] == 'i' and p[0][2] == 1: ints(x.ops[1], set())
    def arg(s, k): return ('ctx',) if k == s.ctx else ('arg', k)
    def init(s):
        st = super().init()
        for k, w in (('buffer', ('bufp',)), ('offset', ('o0',)), ('bufsize', ('bsz',))): st.mem[('ctx', k)] = w
        return st
    def pos(s, v, st):
        if v == ('start',): return 0 if st.g['first'] else None
        return v[1] if v[0] == 'p' else None
    def merge(s, x, v, st):
        if x.i in s.idx and v == ('c', 0) and st.g['first']: return ('ix', 0)
        return super().merge(x, v, st)
    def advance(s, st, d=1):
        mv = lambda v: ('ix', v[1] - d) if isinstance(v, tuple) and v and v[0] == 'ix' and isinstance(v[1], int) else v
        st.env = {k: mv(w) for k, w in st.env.items()}; st.mem = {k: mv(w) for k, w in st.mem.items()}
        super().advance(st, d)
    def next(s, x, st, state, key):
        g = st.g
        if key[0] == 'ch': key = ('ch', key[1], 'u')
        if g['best'] == 0:
            # what was noted at the accepting state just left stays good
            fix = lambda w: ('ix', 'best') if w == ('ix', 0) else ('uid', 'best') if w == ('uid', 0) else ('end', 'best') if w == ('eix', 0) else w
            st.mem = {k: fix(w) for k, w in st.mem.items()}
            st.env = {k: ('uid', 'best') if w == ('uid', 0) else w for k, w in st.env.items()}
        else:
            drop = lambda w: ('stale',) if w in (('uid', 0),) else w
            st.env = {k: drop(w) for k, w in st.env.items()}; st.mem = {k: drop(w) for k, w in st.mem.items()}
        return super().next(x, st, state, key)
    def field(s, x, p):
        if p == ('ctx',):
            c = s.f.cls(x); return c[-1] if c else None
        if p[0] == 'pf': return p[1]
        return None
    def inst(s, x, st, v):
        op = x.op; g = st.g
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('ix', 'span', 'uid', 'o0', 'bsz', 'st', 'eix', 'end'): return v[0]
        if op == 'getelementptr':
            path = x.d.get('path') or []
            if v[0] == ('ctx',) and path and path[0][0] == 'f': return ('pf', path[0][2])
            if v[0] == ('bufp',) and len(path) == 1 and path[0][0] == 'i':
                if v[1] == ('o0',): return ('start',)
                if v[1][0] == 'eix' and isinstance(v[1][1], int): return ('p', v[1][1])
                return ('stale',)
            if v[0] in (('start',),) and len(path) == 1 and path[0][0] == 'i':
                if v[1][0] == 'ix' and isinstance(v[1][1], int): return ('p', v[1][1])
                return ('stale',)
            if path and path[0][0] == 'i' and v[0] == ('accs',):
                i = v[1]
                if i == ('fv', 'accsubstates', ('st', 0)) : return ('accp', ('st', 0))
                return ('stale',)
            if v[0][0] == 'accp' and path and path[-1][0] == 'f': return ('accf', path[-1][2], v[0][1])
        if op == 'load':
            if v[0] == ('fa', 'rexdfa_s', 'accsubstates'): return ('accs',)
            if v[0][0] == 'accf': return ('uid', 0) if v[0][1] == 'userdata' and v[0][2] == ('st', 0) else ('stale',)
            if v[0][0] == 'accp': return ('stale',)
            k = s.field(x, v[0])
            if k is not None: return st.mem.get(('ctx', k), U)
        if op == 'store':
            k = s.field(x, v[1])
            if k is not None: st.mem[('ctx', k)] = v[0]; return U
            if v[1][0] != 'al': s.bad('store', x, 'the tokenizer writes something else than its context')
        if op in ('add', 'sub'):
            a, b = v
            if b[0] == 'c' and a[0] in ('ix', 'eix') and isinstance(a[1], int): return (a[0], a[1] + (b[1] if op == 'add' else -b[1]))
            if op == 'add' and a[0] == 'c' and b[0] in ('ix', 'eix') and isinstance(b[1], int): return (b[0], b[1] + a[1])
            if op == 'sub' and a == ('bsz',) and b == ('o0',): return ('span',)
            if op == 'add':
                for p, q in ((a, b), (b, a)):
                    if p == ('o0',) and q[0] == 'ix': return ('eix', q[1]) if isinstance(q[1], int) else ('end', q[1])
                    if p == ('o0',) and q == ('c', 0): return p
                    if p[0] == 'fv' and p[1] == 'accsubstates' and q == ('c', 0): return p
            if op == 'sub' and b == ('o0',) and a[0] in ('eix', 'end'): return ('ix', a[1])
        return super().inst(x, st, v)
    def cond(s, c, truth, st):
        if c[0] == 'cmp':
            p, a, b = c[1], c[2], c[3]
            sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            if b[0] in ('ix', 'eix') and a[0] in ('span', 'bsz'):
                a, b = b, a; p = p[:-2] + sw.get(p[-2:], p[-2:]) if p not in ('eq', 'ne') else p
            q = p[-2:]
            if a[0] == 'ix' and b == ('span',) or a[0] == 'eix' and b == ('bsz',):
                if not isinstance(a[1], int): return [st]
                r = {'lt': (True, False), 'ge': (False, True), 'ne': (True, False), 'eq': (False, True)}.get(q)
                return s.lt(st, a[1], r[0] == truth) if r else [st]
            if b == ('c', 0) and a[0] == 'ix':
                # the size of the token so far: 0 only when nothing was accepted
                if a[1] == 'best' or a == ('ix', st.g['best']):
                    t = {'eq': False, 'ne': True, 'gt': True, 'le': False}.get(q)
                    if t is not None: return [st] if t == truth else []
            if b == ('c', 0) and a == ('accs',) and q in ('eq', 'ne'): return [st] if truth == (q == 'ne') else []
            if a[0] == 'uid' and b[0] == 'c' and b[1] < 0 and q in ('eq', 'ne'): return [st] if truth == (q == 'ne') else []
        return super().cond(c, truth, st)
    def ret(s, x, st, v):
        g = st.g; s.returns += 1; m = st.mem
        if g['acc'] == '?' and not g['dead']: s.bad('accept', x, 'it ends without asking whether the state accepts')
        if not g['dead'] and g['G'] > 0: s.bad('early', x, 'it ends although neither the input ended nor the automaton is dead')
        k = g['best']
        tid, tsz, tof, off = (m.get(('ctx', q)) for q in ('token_id', 'token_size', 'token_offset', 'offset'))
        if tof != ('o0',): s.bad('place', x, 'the place of the token is not the one reached before')
        if k is None:
            if tid != ('c', -1): s.bad('none', x, 'a token is reported where none matches')
            if tsz != ('c', 0): s.bad('none-size', x, 'a size is reported where no token matches')
            if off != ('o0',): s.bad('none-off', x, 'the place reached moves although no token matches')
        else:
            want = [k] + (['best'] if k == 'best' else [])
            if tid != ('uid', k): s.bad('id', x, 'the token is not the one of the last accepting state')
            if tsz != ('ix', k): s.bad('size', x, 'the size of the token is not the number of characters up to the last accepting state')
            if off not in (('eix', k), ('end', k)): s.bad('off', x, 'the place reached is not right behind the token')
