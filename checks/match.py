"""REX: matching and scanning with the automaton (longest match, leftmost match, prefilter)."""
import ir, fe
from ir import AnalysisBroken, pp, mklin, aslin, sublin, addlin, Prover
from common import *
from nest import *
from rex import *
from rex import View, Law, A, F, D, EL, FOR, I, J, C0, CM1
from explore import *

# ---------------------------------------------------------------- next state
def searches(f):
    """{header: (state operand's value key, input operand, min phi)} of the searches among the transitions of a state"""
    r = f._bf.get('searches')
    if r is not None: return r
    r = {}; N = Nest(f)
    for h in headers(f):
        lp = loop_blocks(f, h)
        for x in f.insts('load'):
            if x.b.id not in lp or any(x.b.id in loop_blocks(f, q) for q in headers(f) if q != h and q in lp): continue
            c = f.cls(x)
            if not c or c[-1] not in ('lowin', 'highin') or c[0] != 'rexdft_s': continue
            r.setdefault(h, []).append(x)
    f._bf['searches'] = r
    return r

class Search:
    """one search loop, with the errors of its law"""
    def __init__(s, f, h):
        s.f = f; s.h = h; s.err = []
        N = Nest(f); S = bsearch(N, h)
        s.exit = None
        if S is None: s.err.append('is no binary search of the transitions'); return
        s.min = S['minx'].i; s.max = S['maxx'].i
        backs = headers(f)[h]
        # the key: what the lower bounds are compared with
        keys = []
        for x in f.insts('icmp'):
            if x.b.id not in loop_blocks(f, h): continue
            for k in (0, 1):
                o = x.ops[k]
                if o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op == 'load' and f.cls(f.inst[o[1]]) == ('rexdft_s', 'lowin'): keys.append((x, x.ops[1 - k]))
        if len(keys) != 1: s.err.append('does not compare the input with the lower bound of one transition'); return
        s.keyop = keys[0][1]; x = keys[0][0]
        ld = [f.inst[o[1]] for o in x.ops if o[0] == 'v' and o[1] >= f.nargs and f.inst[o[1]].op == 'load' and f.cls(f.inst[o[1]]) == ('rexdft_s', 'lowin')][0]
        # the address of the element in the middle
        a = f.expr(ld.ops[0]); mids = S['mids']
        mid = [m for m in mids if holds_in(a, m)]
        if not mid: s.err.append('does not look at the transition in the middle'); return
        mid = mid[0]
        law = [N.canon(f.x(ld), ld.b.id)]
        key = N.canon(f.expr(s.keyop), x.b.id)
        midc = N.canon(mid, ld.b.id)
        def elem(e): return recanon(law[0], midc, e)
        errs, dups = bsearch_law(N, S, elem, key)
        if dups: errs.append('ends early at an equal bound')
        s.err += errs
        ini = [o for o, q in S['minx'].ops if q not in backs]
        s.maxini = [o for o, q in S['maxx'].ops if q not in backs]
        s.exit = [b for p, path, facts, val in S['paths'] if p[0] == 'exit' for b in (p,)]

def part(e, m):
    """e contains all of the sum m"""
    if e == m: return True
    if e[0] != 'lin' or m[0] != 'lin': return e[0] == 'lin' and any(t == m and k == 1 for t, k in e[2])
    return all(any(t == u and k == q for u, q in e[2]) for t, k in m[2])

def holds_in(e, m):
    return isinstance(e, tuple) and bool(e) and (isinstance(e[0], str) and part(e, m) or any(holds_in(q, m) for q in e))

def recanon(e, m, r):
    """e with r in place of the sum m"""
    if e == m: return r
    if not isinstance(e, tuple): return e
    if e and e[0] == 'lin' and part(e, m):
        return mklin(*addlin(aslin(mklin(*sublin(aslin(e), aslin(m)))), aslin(r)))
    return tuple(recanon(q, m, r) for q in e)

class Bad(Exception): pass

SHIFT = ('p', 'ch', 'wc', 'inc', 'lc', 'len', 'm', 'h', 'hs', 'hix', 'hlo', 'hm', 'hb', 'hbit', 'hsr', 'bitsp', 'pm')
def shift(v, d, g):
    """all positions are relative: move the origin by d"""
    if not isinstance(v, tuple) or not v: return v
    t = v[0]
    if t == 'stale': return v
    if t in ('h', 'hs', 'hix', 'hlo', 'hm', 'hb', 'hbit', 'hsr', 'bitsp'):
        w = tuple(q if q == 'z' else q - d for q in v[1])
        return ('stale',) if any(q != 'z' and q < -5 for q in w) else (t, w)
    if t == 'len':
        if v[1] == 'best': return v
        return (t, v[1] - d) if v[1] - d > -5 else ('stale',)
    if t in SHIFT:
        if v[1] - d < -5 or v[1] - d > 9: return ('stale',)
        return (t, v[1] - d) + v[2:]
    return tuple(shift(q, d, g) if isinstance(q, tuple) else q for q in v)

def subst(v, a, r):
    if v == a: return r
    return tuple(subst(q, a, r) if isinstance(q, tuple) else q for q in v) if isinstance(v, tuple) else v

class Scan(Explore):
    """positions are counted in characters from the first one not yet dealt with"""
    def __init__(s, c, f, start, end, where, enc, hp, matchers, kind):
        super().__init__(f); s.c = c; s.roles = (start, end, where); s.hp = hp; s.matchers = matchers; s.kind = kind
        s.enc = enc          # 'byte', 'utf8' or the number of the argument that tells
        s.srch = {}; s.errs = {}; s.reported = 0; s.seenbits = 0; s.nexts = 0; s.tried = 0; s.returns = 0
        s.fullmodes = set()
        inner = searches(f)
        for h in inner:
            q = Search(f, h); s.srch[h] = q
            for e in q.err: s.bad('next', inner[h][0], 'the search for the next state %s' % e)
    def bad(s, key, x, msg):
        if key not in s.errs: s.errs[key] = (x, msg)
    def arg(s, k):
        a, e, w = s.roles
        return ('start',) if k == a else ('end',) if k == e else ('where',) if k == w else ('arg', k)
    def init(s): return St({}, {}, {'L': -1, 'G': 99, 'asc': (), 'nasc': (), 'first': True, 'best': None, 'acc': 'n', 'dead': False, 'enc': s.enc if isinstance(s.enc, str) else None, 'rep': False, 'line': False, 'nowhere': False})
    # -- facts
    def advance(s, st, d=1):
        g = st.g
        st.env = {k: shift(v, d, g) for k, v in st.env.items()}
        st.mem = {k: shift(v, d, g) for k, v in st.mem.items()}
        g['L'] = max(g['L'] - d, -3); g['G'] = g['G'] - d if g['G'] != 99 else 99
        if g['G'] < -3: g['G'] = -3
        g['asc'] = tuple(q - d for q in g['asc'] if q - d >= -3); g['nasc'] = tuple(q - d for q in g['nasc'] if q - d >= -3)
        g['first'] = False
    def pos(s, v, st):
        if v[0] == 'p': return v[1]
        if v == ('start',) and st.g['first']: return 0
        return None
    def lt(s, st, n, t):
        """position n is before the end: t"""
        g = st.g
        if t:
            if n >= g['G']: return []
            g['L'] = max(g['L'], n)
        else:
            if n <= g['L']: return []
            g['G'] = min(g['G'], n)
        return [st]
    def ascii(s, st, n, t):
        g = st.g
        if g['enc'] == 'byte': return [st]
        if n in g['asc']: return [st] if t else []
        if n in g['nasc']: return [] if t else [st]
        k = 'asc' if t else 'nasc'
        g[k] = tuple(sorted(g[k] + (n,)))
        return [st]
    def merge(s, x, v, st):
        if v == ('start',) and x.t == 'ptr': return ('p', 0) if st.g['first'] else ('stale',)
        return v
    def normal(s, st):
        g = st.g
        ps = set()
        def col(v):
            if isinstance(v, tuple):
                if v and v[0] in ('p', 'ch', 'wc', 'inc', 'len') and isinstance(v[1], int): ps.add(v[1])
                elif v and v[0] in ('h', 'hs', 'hbit'): pass
                else:
                    for q in v: col(q)
        for v in list(st.env.values()) + list(st.mem.values()): col(v)
        for k in ('asc', 'nasc'): g[k] = tuple(q for q in g[k] if q in ps)
    # -- statements
    def inst(s, x, st, v):
        op = x.op; f = s.f; g = st.g; hb, bits = s.hp
        if op == 'alloca': return ('al', x.i)
        if op in ('zext', 'sext', 'trunc'):
            if v[0][0] == 'ch': return v[0] if op == 'trunc' or v[0][2] else ('ch', v[0][1], {'zext': 'u', 'sext': 's'}[op])
            return v[0] if v[0][0] not in ('cmp', 'ext') else U
        if op == 'getelementptr':
            n = s.pos(v[0], st)
            path = x.d.get('path') or []
            if n is not None and len(path) == 1 and path[0][0] == 'i' and path[0][2] == 1:
                d = v[1]
                if d[0] == 'c':
                    if d[1] == 0: return v[0]
                    if d[1] != 1: return ('stale',)
                    if g['enc'] == 'utf8' and n not in g['asc']:
                        s.bad('step', x, 'one byte is taken for a character although it may be the first of several'); 
                    return ('p', n + 1) if n < 9 else ('stale',)
                if d == ('inc', n): return ('p', n + 1) if n < 9 else ('stale',)
                if d[0] == 'm' and d[1] == n == 0:
                    if not g['rep']: s.bad('unreported', x, 'a match is passed over without being reported')
                    s.advance(st)
                    for dct in (st.env, st.mem):
                        for k, w in dct.items(): dct[k] = w if w[0] in ('c', 'al', 'g', 'end', 'arg', 'fa', '?', 'where', 'trans', 'states', 'bits') else ('stale',)
                    g.update(L=-1, G=99, asc=(), nasc=(), rep=False)
                    return ('p', 0)
                return ('stale',)
            if path and path[-1][0] == 'f':
                if path[-1][1] == 'rexdfs_s' and v[0][0] == 'stp': return ('fld', path[-1][2]) + v[0][1:]
                if path[-1][1] == 'rexdft_s' and v[0][0] == 'trp': return ('fld', path[-1][2]) + v[0][1:]
                return ('fa', path[-1][1], path[-1][2])
            if path and path[0][0] == 'i':
                if v[0] == ('states',): return ('stp', v[1])
                if v[0] == ('trans',): return ('trp', v[1])
                if v[0] == ('bits',): return ('bitsp', v[1][1]) if v[1][0] == 'hix' else ('stale',)
            return U
        if op == 'load':
            a = v[0]
            if a[0] in ('stp', 'trp'):
                cl = f.cls(x)
                if cl: a = ('fld', cl[-1]) + a[1:]
            if a[0] == 'al': return st.mem.get(a, U)
            n = s.pos(a, st)
            if n is not None:
                if n > g['L']: s.bad('read', x, 'a character is read that may lie behind the end')
                return ('ch', n, '')
            if a[0] == 'bitsp': return ('hb', a[1])
            if a[0] == 'fld' and a[2][0] == 'tix' and a[1] == 'state': return s.next(x, st, a[2][1], a[2][2])
            if a[0] == 'fld' and a[1] == 'state':
                s.bad('next', x, 'the next state is not taken from the transition the search found')
                return ('stale',)
            if a[0] == 'fld': return ('fv', a[1]) + a[2:]
            if a[0] == 'fa':
                if a[1] == 'rexdfa_s' and a[2] in ('states', 'trans', 'bits'): return (a[2],)
            return U
        if op == 'store':
            a = v[1]
            if a[0] == 'al': st.mem[a] = v[0]
            elif a == ('where',): st.mem[('where',)] = v[0]
            return U
        if op in ('add', 'sub'):
            if op == 'sub' and s.pos(v[0], st) is not None and v[1] == ('start',):
                n = s.pos(v[0], st)
                return ('c', 0) if v[0] == ('start',) else ('len', n)
            if op == 'sub' and v[0] == ('end',) and v[1] == ('start',): return ('all',)
            if v[0][0] == 'srch' and v[1] in (('c', 1), ('c', -1)) and (op == 'sub') == (v[1][1] == 1): return ('srch1',) + v[0][1:]
            if v[0][0] == 'fv' and v[0][1] == 'trans' and v[1][0] == 'srch1' and v[0][2] == v[1][1]: return ('tix',) + v[1][1:]
            if v[1][0] == 'fv' and v[1][1] == 'trans' and v[0][0] == 'srch1' and v[1][2] == v[0][1]: return ('tix',) + v[0][1:]
            if op == 'add' and v[0][0] == 'fv' and v[0][1] == 'trans' and v[1][0] == 'srch' and v[0][2] == v[1][1]: return ('tix0',) + v[1][1:]
            if v[0][0] == 'tix0' and v[1] in (('c', 1), ('c', -1)) and (op == 'sub') == (v[1][1] == 1): return ('tix',) + v[0][1:]
            return U
        if op == 'shl':
            if v[0][0] == 'h' or v[0] == ('c', 0):
                if v[1] == ('c', bits): return ('hs', v[0][1] if v[0][0] == 'h' else ())
                return ('stale',)
            if v[0] == ('c', 1) and v[1][0] == 'hlo': return ('hm', v[1][1])
            return U
        if op == 'or':
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a[0] == 'hs' or a == ('c', 0) and b[0] == 'lc':
                    t = a[1] if a[0] == 'hs' else ()
                    if b[0] == 'lc': return ('h', (t + (b[1],))[-6:])
                    if b == ('c', 0): return ('h', (t + ('z',))[-6:])
            return ('stale',)
        if op == 'and':
            for a, b in ((v[0], v[1]), (v[1], v[0])):
                if a[0] in ('ch', 'wc') and b == ('c', (1 << bits) - 1): return ('lc', a[1])
                if a == ('c', 0) and b == ('c', 0): return a
                if a[0] == 'h':
                    if b == ('c', (1 << (hb * bits)) - 1): return ('h', a[1][-hb:])
                    if b == ('c', 7): return ('hlo', a[1])
                if a[0] == 'hb' and b[0] == 'hm' and a[1] == b[1]: return ('hbit', a[1])
                if a[0] == 'hsr' and b == ('c', 1): return ('hbit', a[1])
                if a[0] in ('hbit',): return a
            return ('stale',)
        if op in ('lshr', 'ashr'):
            if v[0][0] == 'h' and v[1] == ('c', 3): return ('hix', v[0][1])
            if v[0][0] == 'hb' and v[1][0] == 'hlo' and v[0][1] == v[1][1]: return ('hsr', v[0][1])
            return U
        if x.iscall: return s.call(x, st, v)
        return U
    def call(s, x, st, v):
        g = st.g; cal = x.callee or ''
        if cal.startswith('llvm.lifetime'):
            st.mem.pop(v[-1], None); return U
        if cal == 'r_utf8_mbtowc':
            n = s.pos(v[1], st)
            if n is None or v[2] != ('end',):
                s.bad('decode', x, 'a character is decoded from elsewhere than the input'); n = None
            if v[0][0] == 'al': st.mem[v[0]] = ('wc', n) if n is not None else U
            return ('inc', n) if n is not None else U
        if cal == 'rex_dfa_next':
            return s.next(x, st, v[1], v[2])
        if cal in s.matchers:
            roles = s.matchers[cal][0]
            n = s.pos(v[roles[0]], st) ; s.tried += 1
            if s.kind == 'match':
                if v[roles[0]] == ('start',) and v[roles[1]] == ('end',): return ('full', tuple(sorted(s.matchers[cal][1])))
                s.bad('args', x, 'the match is not made over the whole input'); return U
            if n is None or v[roles[1]] != ('end',):
                s.bad('args', x, 'a match is tried elsewhere than at the position reached'); return U
            if g['enc'] not in s.matchers[cal][1]: s.bad('encoding', x, 'a match of the other encoding is tried')
            if n != 0: s.bad('skip', x, 'a position is skipped, or tried again, without a reason')
            return ('m', n)
        if cal in ('fwrite', 'fwrite_unlocked') and s.kind == 'scan':
            if v[0] == ('start',) and v[2] == ('all',): g['line'] = True; s.reported += 1
            elif s.pos(v[0], st) == 0 and v[1] == ('c', 1) and v[2][0] == 'm' and v[2][1] == 0: g['rep'] = True; s.reported += 1
            else: s.bad('report', x, 'something else than the match is written')
        return U
    def next(s, x, st, state, key):
        g = st.g; s.nexts += 1
        if key[0] == 'ch':
            if g['enc'] == 'utf8' and key[1] not in g['asc']: s.bad('key', x, 'a single byte is taken for the character')
            if g['enc'] == 'byte' and key[2] == 's': s.bad('key', x, 'a byte above 127 becomes a negative character')
            n = key[1]
        elif key[0] == 'wc':
            if g['enc'] == 'byte': s.bad('key', x, 'several bytes are taken for one character')
            n = key[1]
        else: s.bad('key', x, 'the input of the automaton is not the next character'); return ('st', 0)
        if g['first'] and g['best'] is None and state == ('c', 1) or state == ('st', 0): pass
        else: s.bad('state', x, 'the automaton does not go on from the state it is in')
        if n != 0: s.bad('order', x, 'a character is left out or fed twice')
        if g['acc'] == '?' : s.bad('accept', x, 'it goes on without asking whether the state accepts')
        # the former state is gone
        st.env = {k: ('stale',) if mentions(v, lambda t: t == ('st', 0)) else v for k, v in st.env.items()}
        st.env = {k: ('len', 'best') if v == ('len', g['best']) else v for k, v in st.env.items()}
        if g['best'] == 0: g['best'] = 'best'
        s.advance(st)
        g['acc'] = '?'; g['dead'] = False
        return ('st', 0)
    def jump(s, b, st):
        q = s.srch.get(b)
        if q is None or q.err or not q.exit: return None
        f = s.f
        mx = st.env.get(q.max, U)
        if mx[0] != 'fv' or mx[1] != 'ntrans':
            s.bad('next', f.blocks[b].insts[0], 'the search for the next state does not cover all transitions of the state')
            return []
        key = s.later(q.keyop, st)
        st.env[q.min] = ('srch', mx[2], key)
        st.env[q.max] = ('srch', mx[2], key)
        for x in f.blocks[b].insts:
            if x.op in ('phi', 'br', 'switch'): continue
            v = [s.val(o, st) for o in x.ops]
            r = s.base(x, st, v)
            if r is None: r = s.inst(x, st, v)
            if not isinstance(r, list): st.env[x.i] = r
        return [(e[2], e[1], st.copy()) for e in sorted(set(q.exit))]
    def later(s, o, st):
        """value of an operand that is computed inside a search loop"""
        if o[0] == 'v' and o[1] >= s.f.nargs and o[1] not in st.env:
            x = s.f.inst[o[1]]
            if x.op in ('load', 'zext', 'sext', 'trunc', 'freeze'):
                v = [s.later(q, st) for q in x.ops]
                r = s.base(x, st, v)
                return s.inst(x, st, v) if r is None else r
        return s.val(o, st)
    def cond(s, c, truth, st):
        g = st.g
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]
        if a[0] in ('c', 'end') and b[0] not in ('c', 'end'):
            a, b = b, a; p = p[:-2] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p[-2:], p[-2:]) if p not in ('eq', 'ne') else p
        q = p[-2:]
        if a[0] == 'ext' or a[0] == 'cmp': return [st]
        n = s.pos(a, st)
        if n is not None and b == ('end',):
            r = {'lt': (True, False), 'ge': (False, True), 'ne': (True, False), 'eq': (False, True)}.get(q)
            if r: return s.lt(st, n, r[0] == truth)
            return [st]
        if b[0] == 'c':
            k = b[1]
            if a[0] == 'ch':
                low = {('lt', 128): True, ('le', 127): True, ('ge', 128): False, ('gt', 127): False}.get((q, k))
                if a[2] == 's' and p[0] == 's':
                    low = {('lt', 0): False, ('ge', 0): True}.get((q, k), None)
                if low is not None: return s.ascii(st, a[1], low == truth)
                return [st]
            if a[0] == 'inc':
                pos = {('gt', 0): True, ('le', 0): False, ('ge', 1): True, ('lt', 1): False}.get((q, k))
                if pos is not None: return s.lt(st, a[1], pos == truth)
                return [st]
            if a == ('where',) and k == 0:
                if g['nowhere'] not in (False, (q == 'eq') == truth or 'n'): return []
                g['nowhere'] = True if (q == 'eq') == truth else 'n'
                return [st]
            if a[0] == 'hbit' and k == 0 and q in ('eq', 'ne'):
                z = (q == 'eq') == truth; s.seenbits += 1
                val = ('c', 0) if z else ('c', 1)
                st.env = {i: subst(w, a, val) for i, w in st.env.items()}
                if z and s.window(a[1], st) and g['G'] > 0:
                    if g['L'] < 0: return [st]
                    s.advance(st)
                elif z: s.bad('window', None, 'the prefilter is asked about other characters than the next %d of the position reached' % s.hp[0])
                return [st]
            if a[0] == 'm':
                return s.match(a, p, k, truth, st)
            if a[0] == 'st' and k == 0 and q in ('eq', 'ne'):
                g['dead'] = (q == 'eq') == truth
                return [st]
            if a[0] == 'fv' and a[1] == 'type' and a[2] == ('st', 0) and k == s.accept and q in ('eq', 'ne'):
                yes = (q == 'eq') == truth
                if g['acc'] == 'y' and not yes or g['acc'] == 'n' and yes and not g['first']: return []
                g['acc'] = 'y' if yes else 'n'
                if yes:
                    st.env = {i: ('stale',) if w == ('len', 'best') else w for i, w in st.env.items()}
                    g['best'] = 0
                return [st]
            if a == ('arg', s.enc) and isinstance(s.enc, int) and k == 1 and q in ('eq', 'ne'):
                g['enc'] = 'byte' if (q == 'eq') == truth else 'utf8' if g['enc'] is None else g['enc']
                return [st]
        return [st]
    accept = 2
    def window(s, t, st):
        if len(t) != s.hp[0]: return False
        for i, q in enumerate(t):
            if q == 'z':
                if st.g['G'] > i: return False
            elif q != i: return False
        return True
    def match(s, a, p, k, truth, st):
        g = st.g; out = []
        for sg in (0, 1, -1):
            q = p[-2:]
            if sg == 0: ok = {'eq': 0 == k, 'ne': 0 != k, 'lt': 0 < k, 'le': 0 <= k, 'gt': 0 > k, 'ge': 0 >= k}[q]; ok = {ok}
            elif sg == 1: ok = {'eq': {True, False} if k > 0 else {False}, 'ne': {True, False} if k > 0 else {True}, 'lt': {True, False} if k > 1 else {False}, 'le': {True, False} if k > 0 else {False}, 'gt': {True, False} if k > 0 else {True}, 'ge': {True, False} if k > 1 else {True}}[q]
            else: ok = {'eq': {True, False} if k < 0 else {False}, 'ne': {True, False} if k < 0 else {True}, 'lt': {True, False} if k < 0 else {True}, 'le': {True, False} if k < -1 else {True}, 'gt': {True, False} if k < -1 else {False}, 'ge': {True, False} if k < 0 else {False}}[q]
            if truth not in ok: continue
            known = a[2] if len(a) > 2 else None
            if known is not None and known != sg: continue
            w = st.copy()
            if sg == 0:
                w.env = {i: ('c', 0) if u[:2] == a[:2] else u for i, u in w.env.items()}
                if a[1] == 0: s.advance(w)
            else:
                if sg < 0: w.g['neg'] = True
                w.env = {i: ('m', a[1], sg) if u[:2] == a[:2] and u[0] == 'm' else u for i, u in w.env.items()}
            out.append(w)
        return out
    def ret(s, x, st, v):
        g = st.g; s.returns += 1
        if s.kind == 'match':
            if v is not None and v[0] == 'full':
                if g['enc'] not in v[1]: s.bad('encoding', x, 'the input is matched in the other encoding')
                return
            if g['acc'] == '?' and not g['dead']: s.bad('accept', x, 'it ends without asking whether the state accepts')
            if not g['dead'] and g['G'] > 0: s.bad('early', x, 'it ends although neither the input ended nor the automaton is dead')
            if g['best'] is None:
                if v != ('c', 0): s.bad('result', x, 'something else than 0 is returned when nothing matched')
            elif v != ('len', g['best']): s.bad('result', x, 'the length returned is not the one at the last accepting state')
            return
        if v == ('c', 0):
            if g['G'] > 0 and not g['line']: s.bad('stop', x, 'the scan ends before all positions are tried')
        elif v == ('c', -1): s.bad('stop', x, 'the scan gives up although no match failed') if not s.failed(st) else None
        elif v is not None and v[0] == 'm' and v[1] == 0 and v[2:] == (1,):
            if s.roles[2] is not None and g['nowhere'] is not True and s.pos(st.mem.get(('where',), U), st) != 0: s.bad('where', x, 'the place of the match is not reported')
            s.reported += 1
        else: s.bad('result', x, 'the scan returns something else than the length of the match at the position reached')
    def stop(s):
        s.steps = getattr(s, 'steps', 0) + 1
        return bool(s.errs) and s.steps > 4000 or any(q.err for q in s.srch.values())
    def failed(s, st): return st.g.get('neg')

# ---------------------------------------------------------------- X03
def dfa_functions(m):
    """(matchers, scanners): functions that walk the automaton over an input, functions that try that at one position after the other"""
    load = {}
    for n in m.fns:
        f = m.fns[n] if isinstance(m.fns, dict) else m.fn(n)
        load[n] = [x for x in f.insts('load') if f.cls(x) == ('rexdft_s', 'state')]
    def loops(f, x): return [h for h in headers(f) if x.b.id in loop_blocks(f, h) and f.reachable(x.b.id)]
    def carried(f, x):
        seen = {x.i}; st = [x.i]
        while st:
            i = st.pop()
            for y in f.insts():
                if not any(o[0] == 'v' and o[1] == i for o in (y.ops if y.op != 'phi' else [q for q, b in y.ops])): continue
                if y.op == 'phi' and y.b.id in headers(f) or y.op == 'store': return True
                if y.op in ('phi', 'zext', 'sext', 'trunc', 'freeze', 'select') and y.i not in seen: seen.add(y.i); st.append(y.i)
        return False
    step = {'rex_dfa_next'}; matchers = set(); scanners = set(); ch = True
    def chars(f): return any(x.op == 'icmp' and x.d.get('st') == 'ptr' or x.iscall and x.callee == 'r_utf8_mbtowc' for x in f.insts())
    while ch:
        ch = False
        for n in sorted(m.fns):
            f = m.fn(n)
            if n in matchers or n in scanners: continue
            ev = list(load[n]) + [x for x in f.insts() if x.iscall and x.callee in step]
            if any(loops(f, x) and carried(f, x) for x in ev):
                matchers.add(n); ch = True
                continue
            if ev and n not in step and not any(x.iscall and x.callee in matchers for x in f.insts()): step.add(n); ch = True
    for n in sorted(m.fns):
        f = m.fn(n)
        if n in matchers: continue
        if any(loops(f, x) for x in f.insts() if x.iscall and x.callee in matchers): scanners.add(n)
    return matchers, scanners

def roles_of(f):
    """numbers of the arguments (start, end, where): the pointers behind the first argument"""
    p = [k for k, a in enumerate(f.args) if k and a[1] == 'ptr']
    e = None
    return (p[0], p[1], p[2] if len(p) > 2 else None) if len(p) >= 2 else None

def check_filter(c, m):
    """the bits of the prefilter cover every way the automaton can go on from its start"""
    N = Law(c, m, 'rex_dfa_hash'); B = N.b
    rec = None
    for x in N.f.insts():
        if x.iscall and x.callee in m.fns and not (x.callee or '').startswith('r_'):
            a = N.argv(x)
            if set((A(0), ('c', 1), mklin(-1, ((A(1), 1),)), A(2), C0)) <= set(a) and len(a) == 5: rec = (x, a)
            elif len(a) == 5: rec = rec or (x, None)
    c.ob('filter steps')
    if rec is None or rec[1] is None:
        N.bad('walk', rec[0] if rec else None, 'the prefilter is not built from the start state for the whole number of characters'); return
    x, a = rec
    alloc = [y for y in N.f.calls('r_zmalloc', 'r_calloc') if N.f.dom(y.b.id, x.b.id)]
    bitn = ('shl', ('c', 1), ('mul', A(1), A(2)))
    c.ob('filter steps')
    if not any(N.argv(y)[-1] in ((('ashr', bitn, ('c', 3))), ('lshr', bitn, ('c', 3)), bitn) for y in alloc): N.bad('size', alloc[0] if alloc else None, 'the prefilter has not one cleared bit for each hash value')
    elif not any(N.val(y) == ('call', z.callee) + N.argv(z) for y, ad, w in N.stores(loc=('&', A(0), 'bits')) for z in alloc): N.bad('size', alloc[0], 'the cleared bits do not become the prefilter')
    for fd, v in (('hbytes', A(1)), ('hbits', A(2))):
        if [w for y, ad, w in N.stores(loc=('&', A(0), fd))] != [v]: N.bad(fd, None, 'the parameters of the prefilter are not noted')
    ok = B.NOT(N.eq(A(0), C0))
    g = N.guard(x)
    if not implied(B, B.AND(ok, B.NOT(N.ult(('c', 24), mklin(-3, ((('mul', A(1), A(2)), 1),))))), g): N.bad('walk', x, 'the prefilter is built only when %s' % bshow(B, g))
    # the walk
    pos = {n: a.index(v) for n, v in (('dfa', A(0)), ('state', ('c', 1)), ('level', mklin(-1, ((A(1), 1),))), ('bits', A(2)), ('entry', C0))}
    N = Law(c, m, x.callee); B = N.b; f = N.f
    dfa, state, level, bits, entry = (A(pos[k]) for k in ('dfa', 'state', 'level', 'bits', 'entry'))
    row = ('at', F(dfa, 'states'), state)
    st = lambda fd: F(row, fd)
    acc = N.eq(st('type'), ('c', 2)); last = N.eq(level, C0)
    one = ('shl', ('c', 1), bits); mask = mklin(-1, ((one, 1),))
    tr = ('at', F(dfa, 'trans'), mklin(*addlin(aslin(st('trans')), (0, ((I, 1),)))))
    def orv(p, q): return [('or', p, q), ('or', q, p), mklin(*addlin(aslin(p), aslin(q)))]
    def andv(p, q): return [('and', p, q), ('and', q, p)]
    done = set()
    def low(h):
        """input values of the loop h: (phi, starts at the lower bound, goes on to the upper bound or through all residues)"""
        for y in f.blocks[h].insts:
            if y.op != 'phi': break
            p = ('phi', f.name, y.i); backs = headers(f)[h]
            ini = {N.canon(f.expr(o), q) for o, q in y.ops if q not in backs}
            stp = {mklin(*sublin(aslin(f.expr(o)), aslin(p))) for o, q in y.ops if q in backs}
            if ini != {F(tr, 'lowin')} or stp != {('c', 1)}: continue
            for end, path, facts, val in loop_paths(f, h):
                if end[0] != 'exit': continue
                cf = [(q[0], N.canon(q[1], path[-1]), N.canon(q[2], path[-1])) for q in facts if len(q) == 3]
                if holds(cf, 'eq', F(tr, 'state'), C0): continue
                if not holds(cf, 'lt', F(tr, 'highin'), N.canon(p, h)) and not holds(cf, 'le', one, mklin(*sublin(aslin(N.canon(p, h)), aslin(F(tr, 'lowin'))))): return p, False
            return p, True
        return None, False
    nst = N.eq(F(tr, 'state'), C0)
    for y in f.insts():
        if y.op == 'store':
            ad = N.addr(y)
            if ad[0] == '&': continue
            u = None
            for pat in (('D', V('X')), V('X')):
                pass
            if ad[0] != 'at' or ad[1] != F(dfa, 'bits'):
                N.bad('store', y, 'something else than a bit of the prefilter is changed'); continue
            h = ad[2]
            idx = h[1] if h[0] in ('lshr', 'udiv') and h[2] in (('c', 3),) else None
            v = strip_(N.val(y)); what = 'bit'
            old = ('D', ad)
            bit = [('shl', ('c', 1), q) for q in andv(('c', 7), idx)] if idx else []
            if idx is None or not any(v in orv(b, o) for b in bit for o in (old, ad, ('F', ad, None))):
                # accept any combination that keeps the old bits
                if idx is None or not (v[0] == 'or' and any(b in v[1:] for b in bit)): N.bad('bit', y, 'a bit of the prefilter is not set at its place'); continue
        elif y.iscall and y.callee == f.name:
            what = 'call'; b = N.argv(y)
            if b[pos['dfa']] != dfa or b[pos['bits']] != bits or b[pos['level']] != mklin(-1, ((level, 1),)): N.bad('down', y, 'the walk goes on with other parameters'); continue
            e = b[pos['entry']]
            if e[0] != 'shl' or e[2] != bits: N.bad('down', y, 'the hash value is not moved on by one character'); continue
            idx = e[1]; to = b[pos['state']]
        else: continue
        hs = N.loops_of(y.b.id); ns = N.nest(y); g = N.guard(y)
        lv = last if what == 'bit' else B.NOT(last)
        c.ob('filter steps')
        if ns == (('for', C0, one),):
            if idx not in orv(entry, I): N.bad('accept', y, 'an accepting state does not let all characters pass'); continue
            if what == 'call' and to != state: N.bad('accept', y, 'the walk leaves the accepting state'); continue
            if not N.complete(y) or not implied(B, B.AND(acc, lv), g): N.bad('accept', y, 'an accepting state does not always let all characters pass'); continue
            done.add(('acc', what))
        elif len(hs) == 2 and ns[0] == FOR(st('ntrans')):
            p, full = low(hs[1])
            if p is None or not full: N.bad('range', y, 'not every character of a transition, up to the hash repeating itself, is let pass'); continue
            pc = N.canon(p, hs[1])
            if not any(idx in orv(q, entry) for q in andv(mask, pc)): N.bad('range', y, 'the hash value of a character is not its low bits'); continue
            if what == 'call' and to != F(tr, 'state'): N.bad('next', y, 'the walk does not go on in the target of the transition'); continue
            within = B.AND(B.NOT(N.ult(F(tr, 'highin'), pc)), N.ult(mklin(*sublin(aslin(pc), aslin(F(tr, 'lowin')))), one))
            want = B.AND(B.AND(B.NOT(acc), lv), B.AND(B.NOT(nst), within))
            if not implied(B, want, g): N.bad('range', y, 'a character of a transition is left out when %s' % bshow(B, B.AND(want, B.NOT(g)))); continue
            l = N.loop(hs[0])
            if l is None or l[4]: N.bad('range', y, 'the walk may stop before the last transition'); continue
            done.add(('tr', what))
        else: N.bad('other', y, 'the prefilter is changed outside of the walk')
    for k, t in ((('acc', 'bit'), 'an accepting state sets no bits'), (('acc', 'call'), 'an accepting state ahead of the last character is not followed'), (('tr', 'bit'), 'the characters of transitions set no bits'), (('tr', 'call'), 'transitions are not followed')):
        if k not in done: N.bad('missing-%s-%s' % k, None, t)

class NextFn(Scan):
    def next(s, x, st, state, key): s.nexts += 1; return ('nx', state, key)
    def ret(s, x, st, v):
        s.returns += 1
        if v != ('nx', ('arg', 1), ('arg', 2)): s.bad('result', x, 'something else than the target of the transition found is returned')

def same_enc(N, g, w):
    """two conditions agree for both encodings there are"""
    B = N.b; e = [N.eq(A(1), ('c', n)) for n in (0, 1)]
    for n in (0, 1):
        h = B.AND(e[n], B.NOT(e[1 - n]))
        if B.AND(h, g) != B.AND(h, w): return False
    return True

def check_matching(c):
    c.rule('matching follows the automaton from its start state character by character, up to the end or its dead state, and reports the last accepting place; scanning tries one position after the other, leaves one out only when the prefilter denies exactly its characters, and reports the first that matches')
    for grp in ('core', 'rexgrep'):
        m0 = c.mod(grp, pipe='plain', extra_boundary=('*noinline*',))
        ma, sc = dfa_functions(m0)
        m = c.mod(grp, pipe='plain', extra_boundary=tuple(sorted(ma | sc)))
        # filter parameters
        hp = set()
        for n in m.fns:
            for x in m.fn(n).calls('rex_dfa_hash'):
                hp.add(tuple(o[1] if o[0] == 'c' else None for o in x.ops[1:3]))
        for n in m0.fns:
            for x in m0.fn(n).calls('rex_dfa_hash'): hp.add(tuple(o[1] if o[0] == 'c' else None for o in x.ops[1:3]))
        if len(hp) != 1: c.bad('filter:%s' % grp, '', 'the prefilter is built with %d different parameters' % len(hp)); continue
        hp = next(iter(hp))
        if not ma: raise AnalysisBroken('no function walks the automaton in ' + grp)
        good = {}
        def done(f, S, mode):
            for k, (x, msg) in S.errs.items(): c.bad('%s:%s' % (f.name, k), f.where(x) if x is not None else f.where(), msg)
        pub = {'rex_regex_match': 1}
        for n in sorted(ma):
            f = m.fn(n); c.seen(f); r = roles_of(f)
            if n in pub: continue
            best = None
            if r is None: c.bad('%s:form' % n, f.where(), 'a function that walks the automaton takes no input'); continue
            for mode in ('byte', 'utf8'):
                S = Scan(c, f, r[0], r[1], None, mode, hp, {}, 'match')
                S.run(S.init())
                if S.returns == 0 and not S.errs: S.bad('ret', None, 'it never returns')
                if not S.errs: good.setdefault(n, [r, set()])[1].add(mode)
                if best is None or len(S.errs) < len(best.errs): best = S
                c.ob('abstract states', S.visited)
            c.ob('matchers')
            if n not in good: done(f, best, None); good[n] = [r, {'byte', 'utf8'}]
        if grp == 'core':
            check_filter(c, m0)
            f = m.fn('rex_dfa_next'); c.seen(f)
            S = NextFn(c, f, 98, 99, None, 'byte', hp, {}, 'match'); S.run(S.init()); done(f, S, None); c.ob('matchers')
            if not S.returns and not S.errs: c.bad('rex_dfa_next:ret', f.where(), 'it never returns')
            N = View(c, m, 'rex_regex_scan'); B = N.b; byte = N.eq(A(1), ('c', 1))
            for callee, w in (('rex_regex_scan_byte', byte), ('rex_regex_scan_utf8', B.NOT(byte))):
                l = N.calls(callee); c.ob('scanners')
                if len(l) != 1 or l[0][1] != (A(0), A(2), A(3), A(4)) or not same_enc(N, N.guard(l[0][0]), w): N.bad('dispatch', l[0][0] if l else None, '%s is not called exactly for its encoding with the input given' % callee)
            for v, g in alternatives(N, None):
                if v[0] != 'call' or not v[1].startswith('rex_regex_scan_'): N.bad('result', None, 'the scan returns %s' % cp(v))
            # a regex is handed out only with its prefilter
            N = Law(c, c.mod('core', pipe='plain', unbound=('rex_regex_init',)), 'rex_regex_create'); f = N.f
            hs = N.find('rex_dfa_hash'); c.ob('filter steps')
            for v, e, edges in N.rets():
                if v == C0: continue
                blk = edges[-1][0] if edges else e.b.id
                if not any(f.dom(x.b.id, blk) for x, q in hs): N.bad('hash', e, 'an expression is handed out without its prefilter')
            f = m.fn('rex_regex_match'); c.seen(f)
            S = Scan(c, f, 2, 3, None, 1, hp, good, 'match'); S.run(S.init()); done(f, S, None); c.ob('matchers'); c.ob('abstract states', S.visited)
            if S.returns == 0 and not S.errs: c.bad('rex_regex_match:ret', f.where(), 'it never returns')
        for n in sorted(sc | ({'rex_regex_scan_byte', 'rex_regex_scan_utf8'} if grp == 'core' else set())):
            f = m.fn(n); c.seen(f); r = roles_of(f)
            mode = 'byte' if n.endswith('_byte') else 'utf8'
            if r is None: c.bad('%s:form' % n, f.where(), 'a function that scans takes no input'); continue
            S = Scan(c, f, r[0], r[1], r[2], mode, hp, good, 'scan'); S.run(S.init()); done(f, S, None)
            c.ob('scanners'); c.ob('abstract states', S.visited); c.ob('filter tests', 1 if S.seenbits else 0)
            if not S.errs and (S.reported == 0 or S.tried == 0): c.bad('%s:report' % n, f.where(), 'it never reports a match')
    c.atleast('matchers', 2); c.atleast('scanners', 2)

CHECKS = {'X03': check_matching}
