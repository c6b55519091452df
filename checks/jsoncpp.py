"""JSON, the C++ parser: grammar over the tokens, the values built, the tokenizer over a stream."""
import re, subprocess
import ir
from ir import AnalysisBroken
from common import *
from rsm import *
from match import Scan
from jsonc import Grammar, tokens, tokenizer_of, Stop

_dem = {}
def demangle(m):
    """the demangled names of everything called"""
    ns = {x.callee for n in m.fns for x in m.fn(n).insts() if x.iscall and x.callee} | set(m.fns)
    new = sorted(n for n in ns if n not in _dem)
    if new: _dem.update(zip(new, subprocess.run(['c++filt'], input='\n'.join(new), capture_output=True, text=True).stdout.split('\n')))
    return _dem

def member(d):
    """(class kind, member, parameters) of the standard class or value member a demangled name is, or None"""
    a = d
    for p, k in (('std::__cxx11::basic_string<', 'str'), ('std::vector<rexjson::value', 'arr'), ('rexjson::array', 'arr'), ('std::map<', 'obj'), ('rexjson::value', 'val')):
        i = a.find(p)
        if i < 0 or ' ' in re.sub(r'<.*', '', a[:i]).strip() or a[:i].strip() not in ('', 'void', 'rexjson::value&', 'decltype(auto)'): continue
        a = a[i:]
        # the end of the class name
        j = 0; dep = 0
        while j < len(a):
            c = a[j]
            if c == '<': dep += 1
            elif c == '>': dep -= 1
            elif c == ':' and dep == 0 and a[j:j + 2] == '::' and not a[:j] in ('std', 'std::__cxx11', 'rexjson'): break
            elif c == '(' and dep == 0: break
            j += 1
        r = a[j + 2:]
        if not r: return None
        mm = re.match(r'(~?[\w]+(?:\[abi:cxx11\])?|operator(?:\[\]|\+=|=|==|!=| bool))(?:<.*?>)?\((.*)\)( const)?$', r)
        if not mm:
            mm = re.match(r'(operator\[\]|emplace_back)(?:<[^(]*>)?\((.*)\)( const)?$', r)
            if not mm: return None
        n = mm.group(1).replace('[abi:cxx11]', '')
        if k == 'str' and n == 'basic_string' or k == 'arr' and n in ('vector', 'array') or k == 'obj' and n == 'map' or k == 'val' and n == 'value': n = 'ctor'
        elif n[0] == '~': n = 'dtor'
        return k, n, mm.group(2)
    return None

# ---------------------------------------------------------------- tokenizer over a stream
class Tok(Scan):
    """the token is all characters up to the one the automaton dies at, if the state before it accepts"""
    def __init__(s, c, f, m):
        super().__init__(c, f, 98, 99, None, 'byte', (3, 7), {}, 'match'); s.d = demangle(m)
    def arg(s, k): return ('inp',) if k == 0 else ('arg', k)
    def init(s):
        st = super().init()
        st.g.update(got=False, gotp=False, put=False, over=False, pacc='n', best=None)
        return st
    def advance(s, st, d=1):
        mv = lambda v: (v[0], v[1] - d) if isinstance(v, tuple) and v and v[0] in ('sc', 'uid') and v[1] - d > -4 else ('stale',) if isinstance(v, tuple) and v and v[0] in ('sc', 'uid') else v
        st.env = {k: mv(w) for k, w in st.env.items()}; st.mem = {k: mv(w) for k, w in st.mem.items()}
        super().advance(st, d)
    def next(s, x, st, state, key):
        g = st.g
        if g['dead'] is True: s.bad('dead', x, 'the automaton goes on although it is dead')
        p = g['acc']
        if key[0] == 'ch': key = ('ch', key[1], 'u')
        first = g['first']
        r = super().next(x, st, state, key)
        g['pacc'] = 'n' if first else p; g['best'] = None
        g['gotp'] = g['got']; g['got'] = False; g['put'] = False; g['over'] = False
        return r
    def field(s, x, p):
        if p == ('inp',):
            c = s.f.cls(x); return c[-1] if c else None
        if p[0] == 'pf': return p[1]
        return None
    def inst(s, x, st, v):
        op = x.op; g = st.g; m = st.mem
        if op == 'alloca': return ('al', x.i)
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('uid', 'st', 'eofch'): return v[0]
        if op == 'getelementptr':
            path = x.d.get('path') or []
            if v[0] == ('inp',) and path and path[0][0] == 'f': return ('pf', path[0][2])
            if v[0] == ('strm',) or v[0] == ('vt',): return v[0]
            if path and path[0][0] == 'i' and v[0] == ('accs',):
                return ('accp', ('st', 0)) if v[1] == ('fv', 'accsubstates', ('st', 0)) else ('stale',)
            if v[0][0] == 'accp' and path and path[-1][0] == 'f': return ('accf', path[-1][2], v[0][1])
        if op == 'load':
            if v[0] == ('inp',) and x.t == 'ptr' or v[0] == ('pf', 'is_'): return ('strm',)
            if v[0] == ('strm',): return ('vt',)
            if v[0] == ('vt',): return U
            if v[0] == ('fa', 'rexdfa_s', 'accsubstates'): return ('accs',)
            if v[0][0] == 'accf': return ('uid', 0) if v[0][1] == 'userdata' and v[0][2] == ('st', 0) else ('stale',)
            if v[0][0] == 'accp': return ('stale',)
            k = s.field(x, v[0])
            if k is not None: return m.get(('in', k), U)
        if op == 'store':
            k = s.field(x, v[1])
            if k is not None:
                if k == 'token_id_': m[('in', k)] = v[0]
                return U
            if v[1][0] == 'al': m[v[1]] = v[0]; return U
        if op == 'add':
            for p, q in ((v[0], v[1]), (v[1], v[0])):
                if p[0] == 'fv' and p[1] == 'accsubstates' and q == ('c', 0): return p
        if x.iscall: return s.lib(x, st, v)
        return super().inst(x, st, v)
    def lib(s, x, st, v):
        g = st.g; m = st.mem; n = x.callee or ''; d = s.d.get(n, '')
        if n.startswith('llvm.'): return U
        if 'istream' in d or 'basic_ios' in d or 'ios_base' in d:
            b = re.search(r'::(\w+|operator ?!?\w*)\(', d); b = b.group(1) if b else ''
            if b == 'get' and len(v) == 1:
                if g['got']: s.bad('lost', x, 'a character is read before the one before it went to the automaton')
                g['got'] = True; return ('ch', 0, '')
            if b == 'get' and len(v) == 2:
                if g['got']: s.bad('lost', x, 'a character is read before the one before it went to the automaton')
                g['got'] = True
                if v[1][0] == 'al': m[v[1]] = ('ch', 0, '')
                return ('strm',)
            if b == 'peek': return ('ch', 0, '')
            if b == 'ignore':
                g['got'] = True; return ('strm',)
            if b in ('unget', 'putback'):
                if g['got']: g['got'] = False
                elif not g['gotp'] or g['put']: s.bad('unget', x, 'a character is put back that was not read')
                g['put'] = True; return ('strm',)
            if b in ('operator bool', 'good') or b.startswith('operator') and 'bool' in b: return ('okay',)
            if b in ('fail', 'bad', 'eof') or b == 'operator!': return ('over',) if b != 'bad' else U
            return U
        k = member(d)
        if k and k[0] == 'str':
            o = v[0]; mn, ps = k[1], k[2]
            if o[0] in ('pf', 'al'):
                key = ('str', o)
                if mn in ('clear', 'erase') and len(v) == 1 or mn == 'ctor' and len(v) == 1: m[key] = ('sc', 0) if g['first'] else ('none',)
                elif mn in ('operator+=', 'push_back', 'append'):
                    w = m.get(key, U); ch = v[-1]
                    if ch[0] == 'ch' and w[0] == 'sc' and w[1] == ch[1]: m[key] = ('sc', w[1] + 1)
                    else: m[key] = ('stale',)
                elif mn in ('operator=', 'assign', 'ctor') and len(v) >= 2 and v[1][0] in ('pf', 'al') and ('str', v[1]) in m: m[key] = m[('str', v[1])]
                elif mn in ('dtor', 'length', 'size', 'c_str', 'empty', 'data'): pass
                else: m[key] = ('stale',)
            return U
        return U
    def cond(s, c, truth, st):
        if c[0] == 'okay': st.g['over'] = not truth; return [st]
        if c[0] == 'over': st.g['over'] = truth; return [st]
        if c[0] == 'cmp':
            p, a, b = c[1], c[2], c[3]
            if a[0] == 'ch' and b in (('c', -1), ('c', 0xFFFFFFFF)) and p in ('eq', 'ne'):
                if truth == (p == 'eq'): st.g['over'] = True
                return [st]
            if a == ('accs',) and b == ('c', 0) and p in ('eq', 'ne'): return [st] if truth == (p == 'ne') else []
            if a[0] == 'st' and b == ('c', 0) and p in ('eq', 'ne') and st.g['dead'] is False and not st.g['first'] and st.g['acc'] != '?':
                return [st] if truth == (p == 'ne') else []
        r = super().cond(c, truth, st)
        for q in r: q.g['best'] = None
        return r
    def ret(s, x, st, v):
        g = st.g; s.returns += 1; m = st.mem
        if not g['dead'] and not g['over']: s.bad('early', x, 'it ends although neither the input ended nor the automaton is dead')
        if not g['dead'] and g['acc'] == '?': s.bad('accept', x, 'it ends without asking whether the state accepts'); return
        k, yes = (-1, g['pacc'] == 'y') if g['dead'] else (0, g['acc'] == 'y')
        if g['dead'] and g['gotp'] and not g['put']: s.bad('put', x, 'the character behind the token is not put back')
        if not g['dead'] and g['put']: s.bad('put', x, 'a character of the token is put back')
        if g['got'] and not g['over']: s.bad('lost', x, 'a character is read that does not go to the automaton')
        tid = m.get(('in', 'token_id_'), U); tok = m.get(('str', ('pf', 'token_')), U)
        if yes:
            if tid != ('uid', k): s.bad('id', x, 'the token is not the one of the state reached')
            if tok != ('sc', k): s.bad('text', x, 'the text of the token is not the characters the automaton went through')
        elif tid != ('c', 0): s.bad('none', x, 'a token is reported although the characters read are none')

def check_tokens(c, name):
    m = c.mod('cxx', pipe='plain', extra_boundary=(name,))
    f = m.fn(name); c.seen(f)
    S = Tok(c, f, m); S.run(S.init())
    for key, (x, msg) in S.errs.items(): c.bad('token:%s' % key, f.where(x) if x is not None else f.where(), msg)
    c.ob('tokenizer states', S.visited)
    if not S.errs and not S.returns: c.bad('token:ret', f.where(), 'it never returns')
    if not S.errs and not S.nexts: c.bad('token:next', f.where(), 'it never asks the automaton')

# ---------------------------------------------------------------- parser
def lev(v):
    if not isinstance(v, tuple) or not v: return None
    if v[0] == 'V': return v[1] if isinstance(v[1], int) else v[1][1] if isinstance(v[1], tuple) else None
    if v[0] == 'nm': return v[1]
    if v[0] in ('con', 'cs', 'val', 'str', 'tmp', 'sz', 'szl', 'dec'): return lev(v[1])
    return None
def reid(v, fn):
    """fn(('V', id) or ('nm', level)) -> the new one"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] in ('V', 'nm', 'A', 'O'): return fn(v)
    if v[0] in ('con', 'cs', 'val', 'str', 'tmp', 'sz', 'szl', 'dec'):
        w = reid(v[1], fn); return None if w is None else (v[0], w)
    if v[0] in ('prim', 'cmp'): return tuple(reid(q, fn) if isinstance(q, tuple) else q for q in v)
    return v
OLD = ('V', 'old')
def lshift(v, d):
    """levels move by d; what was inside a closed container is gone"""
    if v[0] == 'V':
        i = v[1]
        if isinstance(i, int): return ('V', i + d) if i + d >= 0 else OLD
        if isinstance(i, tuple): return ('V', (i[0], i[1] + d)) if i[1] + d >= 0 else OLD
    if v[0] == 'nm': return ('nm', v[1] + d) if v[1] + d >= 0 else ('stale',)
    return v

class CppParser(Grammar):
    def __init__(s, m, T, tokfn):
        super().__init__(m, T); s.tokfn = tokfn; s.d = demangle(m); s.ALL = frozenset(T.values()) | {0}
        s.throws = 0; s.done_ = 0; s.decs = decoders(m)
    def tn(s, t): return s.N.get(t, 'no token').lower()
    def perm(s, g): return s.permitted(dict(g, ctx=tuple(e[0] for e in g['ctx'])))
    def target(s, f, x, st, v):
        n = x.callee or ''
        if n not in s.m.fns: n = re.sub(r'([CD])1E', r'\g<1>2E', n)
        if n not in s.m.fns or n == s.tokfn or s.decoder(n): return None
        if n.startswith(('_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu', '_ZNK9__gnu', '_ZNSi', '_ZNSo', '_ZNSa', '_ZGV')): return None
        if member(s.d.get(n, '')): return None
        return s.m.fn(n)
    def decoder(s, n):
        """what turns the text of a string into its characters (applied by value itself to all strings)"""
        return n in s.m.fns and n in s.decs
    # ---- activation
    def passed(s, v):
        out = []
        for w in v:
            o = s.obj_of(w)
            if o is not None and o[0] in ('A', 'O') and o not in out: out.append(o)
        return out
    def obj_of(s, w):
        while isinstance(w, tuple) and w and w[0] in ('con', 'cs', 'sz', 'szl'): w = w[1]
        return w if isinstance(w, tuple) and w and w[0] in ('A', 'O', 'V') else None
    def call(s, P, x, g, v, st):
        ctx = st.g['ctx']; rest, top = ctx[:-2], ctx[-2:]
        objs = s.passed(v)
        # a value set for the current token stays in sight
        hot = [k[1] for k, w in st.mem.items() if k[0] == 'val' and k[1][0] in ('A', 'O') and k[1] not in objs and (w[0] in ('fresh', 'prim') or w == ('null', 1))]
        if hot:
            o = sorted(hot, key=repr)[0]; T0 = ('V', ('t', 0))
            st.mem.pop(('val', T0), None)
            s.ids(st, lambda u: T0 if u == o else OLD if u == T0 else u)
        fwd = {o: ('O', j) for j, o in enumerate(objs)}; back = {o2: o for o, o2 in fwd.items()}
        def mp(w):                                        # what the callee cannot know is out of its reach
            u = s.obj_of(w) if isinstance(w, tuple) and w else None
            if u is not None and u[0] in ('A', 'O') and u not in fwd: return ('X', w)
            return reid(w, lambda u: fwd.get(u, u))
        def bk(w):
            if isinstance(w, tuple) and w and w[0] == 'X': return w[1]
            return reid(w, lambda u: back.get(u, u if u[0] != 'O' else OLD))
        q = st.copy(); q.g['ctx'] = top
        away = {}; mem = {}
        for k, w in q.mem.items():
            if k[0] in ('val', 'str', 'tmp', 'loc'):
                if (lev(k) or 0) >= 1 or k[1][0] in ('A', 'O') and k[1] not in fwd: away[k] = w; continue
                mem[reid(k, lambda u: fwd.get(u, u)) if k[0] != 'loc' else ('loc', fwd.get(k[1], k[1]))] = w if k[0] != 'loc' else mp(w)
            else: mem[k] = w
        q.mem = mem
        # what is set aside moves with the frames
        keys = sorted(away, key=repr)
        lows = [k for k in keys if (lev(away[k]) or 0) < 1 and (lev(k) or 0) < 1]
        own = q.mem.get(('fr',), ())
        q.mem[('fr',)] = tuple(mp(w) for w in tuple(own) + tuple(away[k] for k in lows))
        v2 = [reid(w, lambda u: fwd.get(u, u)) for w in v]
        q.env = {k: mp(w) for k, w in q.env.items()}
        out = []
        g0 = dict(q.g)
        for r, rv in super().call(P, x, g, v2, q):
            d = len(r.g['ctx']) - len(top)
            r.g['ctx'] = rest + r.g['ctx']
            fr = r.mem[('fr',)]
            own2 = fr[:len(own)]; ex = fr[len(own):]
            r.mem = {(('loc', back.get(k[1], k[1])) if k[0] == 'loc' else bk(k) if k[0] in ('val', 'str', 'tmp') else k): bk(w) if k[0] == 'loc' else w for k, w in r.mem.items()}
            r.mem[('fr',)] = tuple(bk(w) for w in own2)
            for k, w in zip(lows, ex): r.mem[k] = bk(w)
            for k in keys:
                if k not in lows:
                    k2 = reid(k, lambda u: lshift(u, d)); w2 = s.aside(away[k], g0, dict(g0, ctx=top + (0,) * d if d >= 0 else top[:d]))
                    if k2 is not None: r.mem[k2] = w2
            r.env = {k: bk(w) for k, w in r.env.items()}
            out.append((r, bk(rv)))
        return out
    def aside(s, w, g0, g1):
        d = len(g1['ctx']) - len(g0['ctx'])
        return reid(w, lambda u: lshift(u, d)) if d and (lev(w) or 0) >= 1 else w
    def volatile(s, v):
        if not super().volatile(v) or v[0] in ('in', 'F', 'g', 'stale', 'fresh', 'null', 'done', 'X'): return False
        l = lev(v)
        return l is None or l < 1
    def returned(s, f, x, st, v):
        st.mem = {k: w for k, w in st.mem.items() if not (k[0] in ('val', 'str', 'tmp', 'loc') and (k[1][0] == 'A' and k[1][1] == f.name or k[1] == OLD))}
        return v
    # ---- obligations between tokens
    def pending(s, f, x, st):
        g = st.g
        if g['bind'] is not None: s.bad('bind', f, x, 'the value of the token just read (%s) is not stored' % g['bind'][0]); return False
        return True
    def attached(s, f, x, st):
        """a value is complete and the container goes on: it is in its container"""
        g = st.g; kind, how, n = g['ctx'][-1]
        if g['st'] == 'after' and kind in ('arr', 'obj'):
            if n != 1: s.bad('attach-%s' % kind, f, x, 'the value just read is not put into its %s' % {'arr': 'array', 'obj': 'object'}[kind] if n == 0 else 'more than one element is made for a value'); return False
            if g['att'] is not True: s.bad('attach2-%s' % kind, f, x, 'the element made for a value does not have it'); return False
        elif g['st'] in ('valend', 'nameend') and n: s.bad('attach-empty', f, x, 'an empty container gets an element'); return False
        return True
    def ids(s, st, fn):
        """rename objects everywhere"""
        s.rename(st, lambda v: reid(v, fn) if isinstance(v, tuple) else v)
    def candidates(s, st, pred):
        r = [k[1] for k, w in st.mem.items() if k[0] == 'val' and k[1] != OLD and pred(w)]
        pr = lambda o: 0 if o == ('V', 'root') else 1 if o[0] == 'V' and isinstance(o[1], tuple) and o[1][1] == 0 else 2
        return sorted(r, key=lambda o: (pr(o), repr(o)))
    def want(s, t):
        T = s.T
        return {T['STRING']: lambda w: w == ('prim', 'str', ('body',)), T['INT']: lambda w: w == ('prim', 'int', ('num', 'int')), T['NUMBER']: lambda w: w == ('prim', 'real', ('num', 'real')),
                T['NULL']: lambda w: w[0] == 'null' and w[1] == 1, T['TRUE']: lambda w: s.is_bool(w, t, True), T['FALSE']: lambda w: s.is_bool(w, t, False)}[t]
    def is_bool(s, w, t, b):
        if w[:2] != ('prim', 'bool'): return False
        c = w[2]
        while c[0] == 'ext': c = c[1]
        if c[0] == 'cmp': c = ('cmp', c[1]) + tuple(('c', t) if q == ('tok',) else q for q in c[2:])
        return c == ('c', int(b)) or c[0] == 'cmp' and s.truth(c) is b
    def how(s, o):
        if o == ('V', 'root'): return 'root'
        if o[0] == 'V' and isinstance(o[1], tuple) and o[1][1] == 0: return {'s': 'slot', 'e': 'elem', 't': 'loc'}[o[1][0]]
        return 'loc'
    def mark(s, g, how):
        """a value is complete, at a place of this kind"""
        k = g['ctx'][-1][0]
        g['att'] = True if (k, how) in (('arr', 'slot'), ('obj', 'elem'), ('doc', 'root')) else False
        if (k, how) == ('obj', 'elem'): g['ctx'] = g['ctx'][:-1] + (g['ctx'][-1][:2] + (1,),)
    def settle(s, st, o):
        """object o holds the complete value"""
        h = s.how(o)
        st.mem[('val', o)] = ('done',)
        # everything else that was complete is older
        for k in [k for k, w in st.mem.items() if k[0] == 'val' and w == ('done',) and k[1] != o]: st.mem[k] = ('older',)
        s.mark(st.g, h); s.done_ += 1
    # ---- tokens
    def consume(s, f, x, st):
        g = st.g; out = []; T = s.T
        if g['tok'] is None: return [st]
        per = s.perm(g)
        if per is None: s.bad('form', f, x, 'the parser reads a token outside of the value it was called for'); return []
        for t in sorted(g['tok']):
            q = st.copy(); g2 = q.g
            q.env = {k: ('c', t) if w == ('tok',) else w for k, w in q.env.items()}
            q.mem = {k: (tuple(('c', t) if u == ('tok',) else u for u in w) if k == ('fr',) else ('c', t) if w == ('tok',) else w) for k, w in q.mem.items()}
            if t not in per: s.bad('grammar-%s-%s' % (g['st'], s.tn(t)), f, x, 'a token (%s) is passed over where the grammar has none (%s)' % (s.tn(t), g['st'])); continue
            s.consumed += 1
            if t == T['SPACE']: out.append(q); continue
            if not s.pending(f, x, q): continue
            opens = g2['st'] in ('val', 'valend') and t not in (T['RIGHTSB'], T['RIGHTCB'])
            if q.mem.get(('F', 'levels_')) != ('lv', 1 if opens else 0): s.bad('levels-%s' % ('in' if opens else 'out'), f, x, 'the number of levels left is not %s' % ('taken down for a value' if opens else 'restored after a value')); continue
            if opens and g2['lz'] != 'nz': s.bad('depth', f, x, 'a value is read without a check that levels are left'); continue
            body = lambda v, to: to if v in (('body',), ('tokstr',), ('dec', ('body',))) else v
            gone = lambda to: s.rename(q, lambda v: body(v, to) if isinstance(v, tuple) else v)
            if t in (T['RIGHTSB'], T['RIGHTCB']):
                if not s.attached(f, x, q): continue
                kind, how, n = g2['ctx'][-1]; g2['ctx'] = g2['ctx'][:-1]
                s.ids(q, lambda v: ('V', 'last') if v == ('V', 0) else OLD if v == ('V', 'last') else lshift(v, -1))
                s.lv(q, 1)
                q.mem = {k: w for k, w in q.mem.items() if k[:2] != ('val', OLD)}
                o = {'root': ('V', 'root'), 'slot': ('V', ('s', 0)), 'elem': ('V', ('e', 0))}.get(how)
                if o is not None: s.ids(q, lambda v: o if v == ('V', 'last') else v)
                g2['st'] = 'after'; s.settle(q, o or ('V', 'last')); g2['lz'] = None; gone(('stale',))
            elif opens:
                if t in (T['LEFTSB'], T['LEFTCB']):
                    kind = 'arr' if t == T['LEFTSB'] else 'obj'
                    cand = s.candidates(q, lambda w: w == ('fresh', kind))
                    if not cand and s.candidates(q, lambda w: w == ('fresh', 'arr' if kind == 'obj' else 'obj')): s.bad('kind-%s' % kind, f, x, 'the value made for a %s is not one' % {'arr': 'array', 'obj': 'object'}[kind]); continue
                    how = s.how(cand[0]) if cand else None
                    o = cand[0] if cand else None
                    s.ids(q, lambda v: ('V', 0) if v == o else OLD if v == ('V', 'last') else lshift(v, 1))
                    q.mem = {k: w for k, w in q.mem.items() if k[0] != 'val' or w[0] != 'fresh' and k[1] not in (OLD, ('V', 0))}
                    s.lv(q, -1)
                    g2['ctx'] += ((kind, how, 0),); g2['st'] = 'valend' if kind == 'arr' else 'nameend'; g2['att'] = None
                    if not cand: g2['bind'] = (kind,)
                else:
                    w = s.want(t); cand = s.candidates(q, w)
                    if not cand: s.bad('prim-%s' % s.tn(t), f, x, 'the value of a token (%s) is not stored as what it says' % s.tn(t)); continue
                    o = cand[0]; h = s.how(o)
                    s.ids(q, lambda v: OLD if v == ('V', 'last') else v)
                    if h == 'loc':
                        s.ids(q, lambda v: ('V', 'last') if v == o else v); o = ('V', 'last')
                    g2['st'] = 'after'; s.settle(q, o)
                g2['lz'] = None; gone(('stale',))
            elif g2['st'] in ('name', 'nameend'):
                s.ids(q, lambda v: ('stale',) if v == ('nm', 0) else OLD if v == ('V', ('e', 0)) else v)
                s.rename(q, lambda v: ('nm', 0) if v == ('body',) else ('dec', ('nm', 0)) if v == ('dec', ('body',)) else ('stale',) if v == ('tokstr',) else v)
                if g2['tl'] == frozenset([2]): s.rename(q, lambda v: ('dec', ('nm', 0)) if v == ('nil',) else v)
                g2['ctx'] = g2['ctx'][:-1] + (g2['ctx'][-1][:2] + (0,),); g2['st'] = 'colon'; g2['att'] = None
            elif g2['st'] == 'colon': g2['st'] = 'val'; gone(('stale',))
            else:                                                      # comma
                if not s.attached(f, x, q): continue
                g2['ctx'] = g2['ctx'][:-1] + (g2['ctx'][-1][:2] + (0,),); g2['att'] = None
                s.ids(q, lambda v: OLD if v in (('V', ('s', 0)), ('V', ('e', 0)), ('V', 'last')) else v)
                q.mem = {k: w for k, w in q.mem.items() if k[:2] != ('val', OLD)}
                g2['st'] = 'val' if g2['ctx'][-1][0] == 'arr' else 'name'; gone(('stale',))
            # flags of assignments made for this token
            q.mem = {k: ('null', 0) if k[0] == 'val' and w[0] == 'null' else ('older',) if k[0] == 'val' and w[0] == 'prim' else w for k, w in q.mem.items()}
            out.append(q)
        return out
    def lv(s, q, d):
        sh = lambda v: ('lv', v[1] + d) if isinstance(v, tuple) and v and v[0] == 'lv' else v
        q.env = {k: sh(w) for k, w in q.env.items()}
        q.mem = {k: (tuple(sh(u) for u in w) if k == ('fr',) else sh(w)) for k, w in q.mem.items()}
    def token(s, f, x, v, st):
        out = []
        if v[0] != ('in',): s.bad('ctx', f, x, 'the tokenizer is given another input'); return []
        if st.g['tok'] is None and st.mem.get(('F', 'levels_')) != ('lv', 0): s.bad('init', f, x, 'parsing does not start with the number of levels given'); return []
        for q in s.consume(f, x, st):
            q.g['tok'] = s.ALL; q.g['tl'] = frozenset([2, 3, 4]); q.mem[('F', 'token_id_')] = ('tok',)
            out.append((q, U))
        return out
    def refuse(s, f, x, v, st):
        g = st.g; s.throws += 1
        per = s.perm(g) or set()
        if g['tok'] is None: s.bad('throw', f, x, 'the parser refuses before it has read anything'); return
        if len(v) > 1 and v[1][0] == 'g' and v[1][1] in ('_ZTISt11logic_error', '_ZTISt12out_of_range', '_ZTISt16invalid_argument', '_ZTISt12length_error', '_ZTISt12domain_error', '_ZTIPKc', '_ZTIi', '_ZTISt9exception', '_ZTIPc'):
            s.bad('kind', f, x, 'what is thrown is no runtime error'); return
        bad = g['tok'] & per
        if not bad: return
        if g['lz'] == 'z' and g['st'] in ('val', 'valend') and not (g['st'] == 'valend' and s.T['RIGHTSB'] in bad): return
        s.bad('refuse-%s' % g['st'], f, x, 'a token the grammar allows (%s, expecting %s) is refused' % (', '.join(sorted(s.tn(t) for t in bad)), g['st']))
    # ---- values
    def obj(s, w):
        return w if isinstance(w, tuple) and w and w[0] in ('A', 'O', 'V') else None
    def content(s, st, o):
        if o[0] == 'V' and isinstance(o[1], int): return ('open',)
        return st.mem.get(('val', o), U)
    def put(s, f, x, st, o, w):
        """a value gets new contents"""
        g = st.g
        if o == OLD or o == ('V', 'other'): s.bad('where', f, x, 'a value elsewhere than at the place of the value being read is changed'); return
        if o[0] == 'V' and isinstance(o[1], int): s.bad('over', f, x, 'a value is overwritten while its contents are read'); return
        cur = s.content(st, o)
        if w[0] == 'fresh' and g['bind'] == (w[1],) and g['ctx'][-1][1] is None:
            how = s.how1(o)
            g['ctx'] = g['ctx'][:-1] + ((w[1], how, 0),); g['bind'] = None
            st.mem.pop(('val', o), None)
            s.ids(st, lambda v: ('V', 0) if v == o else v); return
        if cur == ('done',) and w != ('done',) and s.how(o) != 'loc' and g['st'] == 'after': s.bad('lost', f, x, 'a complete value is overwritten'); return
        st.mem[('val', o)] = w
        if w == ('done',): s.mark2(st, o)
    def how1(s, o):
        """the place of a container opened already (levels have moved)"""
        if o == ('V', 'root'): return 'root'
        if o[0] == 'V' and isinstance(o[1], tuple): return {'s': 'slot', 'e': 'elem', 't': 'loc'}[o[1][0]] if o[1][1] == 1 else 'loc'
        return 'loc'
    def mark2(s, st, o):
        if s.how(o) != 'loc': s.mark(st.g, s.how(o))
    def take(s, st, w):
        """contents of a value given as an argument"""
        if w == ('g', '_ZN7rexjson5value4nullE'): return ('null', 1)
        o = s.obj(w)
        if o is None: return U
        c = s.content(st, o)
        return ('null', 1) if c[0] == 'null' else c
    def args(s, st, ps, w):
        """contents made from an argument of this type"""
        p = re.sub(r'\b(const|std::__cxx11::)\b', '', ps)
        if ps.startswith('rexjson::value'): return s.take(st, w)
        if ps.startswith('rexjson::array') or ps.startswith('std::vector'): return ('fresh', 'arr') if st.mem.get(('tmp', w)) == ('empty',) else U
        if ps.startswith('std::map'): return ('fresh', 'obj') if st.mem.get(('tmp', w)) == ('empty',) else U
        if 'basic_string' in ps: return ('prim', 'str', ('body',) if s.strval(st, w) == ('nil',) and st.g['tl'] == frozenset([2]) else s.strval(st, w))
        if ps == 'bool': return ('prim', 'bool', ('c', w[1] & 1) if w[0] == 'c' else w)
        if ps in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'): return ('prim', 'int' if 'long' in ps else 'short', w)
        if ps == 'double': return ('prim', 'real', w)
        return U
    def strval(s, st, o):
        w = st.mem.get(('str', o), U) if o != ('F', 'token_') else ('tokstr',)
        return w
    def slot(s, f, x, st, o):
        """the last element of the array of value o"""
        g = st.g
        if o == ('V', 0) and g['ctx'][-1][0] == 'arr' and g['ctx'][-1][2] >= 1: return ('V', ('s', 0))
        return ('V', 'other')
    def push(s, f, x, st, o, w):
        g = st.g
        if o != ('V', 0): s.bad('push', f, x, 'an element is added to something else than the array being read'); return
        kind, how, n = g['ctx'][-1]
        if kind != 'arr': s.bad('push', f, x, 'an element is added to an object as if it was an array'); return
        g['ctx'] = g['ctx'][:-1] + ((kind, how, min(n + 1, 2)),)
        s.ids(st, lambda v: OLD if v == ('V', ('s', 0)) else v)
        st.mem = {k: u for k, u in st.mem.items() if k[:2] != ('val', OLD)}
        st.mem[('val', ('V', ('s', 0)))] = ('null', 0) if w[0] == 'null' else w
        if w == ('done',): g['att'] = True
    def elem(s, f, x, st, o, name):
        g = st.g
        if o != ('V', 0) or g['ctx'][-1][0] != 'obj': s.bad('elem', f, x, 'a value is looked up in something else than the object being read'); return ('V', 'other')
        if s.strval(st, name) != ('dec', ('nm', 0)): s.bad('name', f, x, 'the value is stored under another name'); return ('V', 'other')
        st.mem.setdefault(('val', ('V', ('e', 0))), ('older',))
        return ('V', ('e', 0))
    def base(s, f, x, st, v):
        op = x.op
        if op in ('sext', 'zext', 'trunc') and v[0][0] in ('lv', 'tok', 'sz', 'szl', 'len'): return v[0]
        if op == 'trunc' and v[0][0] == 'num': return ('narrow',)
        if op in ('sext', 'zext') and v[0][0] in ('num', 'narrow'): return v[0]
        if op in ('add', 'sub') and v[0][0] in ('lv', 'len') and v[1][0] == 'c':
            n = v[1][1] if op == 'add' else -v[1][1]
            if n >= 1 << 31: n -= 1 << (64 if n >= 1 << 63 else 32)
            if v[0][0] == 'lv': return ('lv', v[0][1] - n)
            return ('len', v[0][1] + n)
        if op in ('add', 'sub') and v[0][0] == 'sz' and v[1] in (('c', -1 if op == 'add' else 1), ('c', (1 << 64) - 1)): return ('szl', v[0][1])
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptrunc', 'fpext'): return ('conv',) if v[0][0] != 'c' else U
        return None
    def inst(s, f, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', f.name, x.i)
        if op == 'getelementptr':
            p = v[0]; path = [q for q in (x.d.get('path') or []) if q[0] == 'f']
            if p == ('in',): return ('F', path[0][2]) if path else U
            o = s.obj(p)
            if o is not None and path and path[0][1] == 'rexjson::value' and path[0][2] == 'store_': return ('cs', o)
            return U
        if op == 'load':
            p = v[0]
            if p[0] == 'F': return m.get(p, U)
            if p == ('in',): return U
            if p[0] == 'cs': return ('con', p[1])
            return m.get(('loc', p), U) if p[0] in ('A', 'O') else U
        if op == 'store':
            w, p = v
            if p[0] == 'F':
                n = p[1]
                if n == 'token_id_': s.bad('settok', f, x, 'the parser changes the token')
                elif n == 'levels_':
                    if w[0] != 'lv': s.bad('levels', f, x, 'the number of levels left changes to something else')
                    m[p] = w
                return U
            if p[0] in ('A', 'O'): m[('loc', p)] = w
            elif p[0] in ('V', 'cs'): s.bad('raw', f, x, 'a value is changed behind its back')
            return U
        if x.iscall: return s.lib(f, x, st, v)
        return U
    def lib(s, f, x, st, v):
        m = st.mem; g = st.g; n = x.callee or ''
        if n == s.tokfn: return s.token(f, x, v, st)
        if n == '__cxa_throw': s.refuse(f, x, v, st); return []
        if n.startswith('llvm.lifetime'):
            for k in ('val', 'str', 'tmp', 'loc'): m.pop((k, v[-1]), None)
            # an object made anew in the same place is another one
            o = x.ops[-1]
            if 'start' in n and o[0] == 'v' and o[1] >= f.nargs and v[-1] != ('A', f.name, o[1]) and o[1] in f.inst and f.inst[o[1]].op == 'alloca':
                st.env[o[1]] = ('A', f.name, o[1])
                for k in ('val', 'str', 'tmp', 'loc'): m.pop((k, st.env[o[1]]), None)
            return U
        if n.startswith('llvm.memset') and s.obj(v[0]): m.pop(('tmp', v[0]), None); return U
        if n in ('strtoll', '__isoc23_strtoll', 'strtol', '__isoc23_strtol', 'strtoimax'): return ('num', 'int') if v[0] == ('cstr', 'tok') and v[2] == ('c', 10) else ('conv',)
        if n in ('atoll', 'atol'): return ('num', 'int') if v[0] == ('cstr', 'tok') else ('conv',)
        if n in ('strtod', 'atof'): return ('num', 'real') if v[0] == ('cstr', 'tok') else ('conv',)
        d = s.d.get(n, ''); k = member(d)
        if d.startswith('std::move') or d.startswith('std::forward') or d.startswith('std::remove_reference'): return v[0] if v else U
        if not k and s.decoder(n):
            w = s.strval(st, v[1]) if s.obj(v[1]) or v[1] == ('F', 'token_') else U
            m[('str', v[0])] = w if w == ('nil',) else ('dec', w) if w[0] in ('body', 'nm') else U
            return U
        if not k:
            if d.startswith(('std::__cxx11::stoll', 'std::__cxx11::stol')): return ('num', 'int') if v[0] == ('F', 'token_') else ('conv',)
            if d.startswith('std::__cxx11::stod'): return ('num', 'real') if v[0] == ('F', 'token_') else ('conv',)
            return U
        cl, mn, ps = k; o = v[0] if v else U
        if cl == 'str': return s.string(f, x, st, v, mn, ps)
        if cl == 'val': return s.value(f, x, st, v, mn, ps)
        # containers: of a value, or on their own
        if o[0] == 'con':
            if cl == 'arr':
                if mn in ('push_back', 'emplace_back'):
                    w = s.args(st, ps, v[1]) if len(v) > 1 and mn == 'push_back' else s.take(st, v[1]) if len(v) > 1 else ('null', 0)
                    s.push(f, x, st, o[1], w); return ('V', ('s', 0)) if mn == 'emplace_back' else U
                if mn == 'size': return ('sz', o[1])
                if mn == 'back': return s.slot(f, x, st, o[1])
                if mn in ('operator[]', 'at'): return s.slot(f, x, st, o[1]) if v[1] == ('szl', o[1]) else ('V', 'other')
                if mn in ('clear', 'pop_back', 'insert', 'erase', 'resize', 'swap', 'operator=', 'assign'): s.bad('array', f, x, 'elements of an array are changed after they were read')
                return U
            if mn == 'operator[]': return s.elem(f, x, st, o[1], v[1])
            if mn in ('clear', 'erase', 'swap', 'operator='): s.bad('object', f, x, 'elements of an object are changed after they were read')
            if mn == 'at': return s.elem(f, x, st, o[1], v[1]) if ('val', ('V', ('e', 0))) in m else ('V', 'other')
            return U
        if s.obj(o):
            if mn == 'ctor' and ps == '': m[('tmp', o)] = ('empty',)
            elif mn == 'dtor': m.pop(('tmp', o), None)
            elif mn not in ('size', 'empty'): m[('tmp', o)] = U
        return U
    def string(s, f, x, st, v, mn, ps):
        m = st.mem; g = st.g; o = v[0]
        if o == ('F', 'token_'):
            if mn in ('length', 'size'): return ('len', 0)
            if mn in ('c_str', 'data'): return ('cstr', 'tok')
            if mn == 'empty': return U
            if mn in ('operator=', 'clear', 'assign', 'erase', 'push_back', 'operator+=', 'swap', 'append', 'pop_back'): s.bad('settok', f, x, 'the parser changes the token')
            return U
        if mn == 'substr':
            src = v[1]; r = U
            if src == ('F', 'token_') and v[2] == ('c', 1) and v[3] == ('len', -2) and (g['tok'] == frozenset([s.T['STRING']])): r = ('body',)
            m[('str', o)] = r; return U
        if not s.obj(o): return U
        if mn == 'ctor':
            if len(v) == 1: m[('str', o)] = ('nil',)
            elif len(v) >= 4 and v[1] == ('F', 'token_') and v[2] == ('c', 1) and v[3] == ('len', -2) and g['tok'] == frozenset([s.T['STRING']]): m[('str', o)] = ('body',)
            elif len(v) == 2: m[('str', o)] = s.strval(st, v[1])
            else: m[('str', o)] = U
        elif mn == 'assign' and len(v) == 4 and v[1] == ('F', 'token_') and v[2] == ('c', 1) and v[3] == ('len', -2) and g['tok'] == frozenset([s.T['STRING']]): m[('str', o)] = ('body',)
        elif mn in ('operator=', 'assign') and len(v) == 2: m[('str', o)] = s.strval(st, v[1])
        elif mn == 'dtor': m.pop(('str', o), None)
        elif mn == 'clear': m[('str', o)] = ('nil',)
        elif mn in ('length', 'size', 'empty', 'c_str', 'data', 'compare'): pass
        else: m[('str', o)] = U
        return U
    def value(s, f, x, st, v, mn, ps):
        m = st.mem; o = s.obj(v[0])
        if o is None: return U
        if mn == 'ctor':
            if len(v) == 1: m[('val', o)] = ('null', 0)
            else: m[('val', o)] = s.args(st, ps, v[1])
            return U
        if mn == 'dtor':
            if o[0] != 'V' or not (isinstance(o[1], int) or isinstance(o[1], tuple)): m.pop(('val', o), None)
            return U
        if mn == 'operator=' or mn.startswith('set_'): s.put(f, x, st, o, s.args(st, ps, v[1])); return v[0]
        if mn == 'move':
            w = s.obj(v[1])
            if w is None: s.put(f, x, st, o, U); return U
            c = s.take(st, w)
            if w == o: return U
            s.put(f, x, st, o, c)
            if not (w[0] == 'V' and isinstance(w[1], int)): m[('val', w)] = ('null', 0)
            return U
        if mn == 'destroy': s.put(f, x, st, o, ('null', 1 if st.g['tok'] is not None else 0)); return U
        if mn == 'push_back':
            s.push(f, x, st, o, s.take(st, v[1]) if len(v) > 1 else ('null', 0)); return ('V', ('s', 0))
        if mn in ('get_array', 'get_obj'): return ('con', o)
        if mn == 'operator[]':
            if 'string' in ps: return s.elem(f, x, st, o, v[1])
            return s.slot(f, x, st, o) if v[1] == ('szl', o) else ('V', 'other')
        if mn in ('get_type', 'type'):
            if o == ('V', 0): return ('c', 2 if st.g['ctx'][-1][0] == 'arr' else 1)
            return U
        return U
    # ---- conditions
    def cond(s, f, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]; g = st.g
        if a[0] == 'c' and b[0] != 'c':
            a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if a == ('tok',) and b[0] == 'c' and g['tok'] is not None:
            keep = frozenset(q for q in g['tok'] if s.truth(('cmp', p, ('c', q), b)) == truth)
            if not keep: return []
            g['tok'] = keep; return [st]
        if a[0] == 'len' and b[0] == 'c':
            k = b[1] - a[1]; q = p[1:] if p not in ('eq', 'ne') else p; keep = set()
            for n in g['tl']:
                for mval in ((n,) if n < 4 else (4, 5, 99)):
                    r = {'eq': mval == k, 'ne': mval != k, 'lt': mval < k, 'le': mval <= k, 'gt': mval > k, 'ge': mval >= k}[q]
                    if r == truth: keep.add(n)
            if not keep: return []
            g['tl'] = frozenset(keep)
            return [st]
        if a[0] == 'lv' and b[0] == 'c':
            z = None
            if a[1] == 0:
                if b[1] == 0 and p in ('eq', 'ule'): z = truth
                elif b[1] == 0 and p in ('ne', 'ugt'): z = not truth
                elif b[1] == 1 and p == 'ult': z = truth
                elif b[1] == 1 and p == 'uge': z = not truth
            elif a[1] == 1 and b[1] in (-1, (1 << 64) - 1):
                z = truth if p == 'eq' else not truth if p == 'ne' else None
            if z is not None:
                w = 'z' if z else 'nz'
                if g['lz'] not in (None, w): return []
                g['lz'] = w
            return [st]
        if b == ('c', 0) and p in ('eq', 'ne') and a[0] in ('in', 'A', 'O', 'V', 'con', 'F'): return [st] if truth == (p == 'ne') else []
        if p in ('eq', 'ne') and a == b and a != U: return [st] if truth == (p == 'eq') else []
        return [st]
    def normal(s, st):
        st.mem = {k: w for k, w in st.mem.items() if k[:2] not in (('val', OLD), ('str', OLD), ('tmp', OLD))}

def decoders(m):
    d = demangle(m); r = set()
    for n in m.fns:
        if re.match(r'rexjson::value::(value|operator=)\(std::__cxx11::basic_string<', d.get(n, '')):
            for x in m.fn(n).insts():
                if x.iscall and x.callee in m.fns and m.fn(x.callee).nargs == 2 and re.search(r'\(std::__cxx11::basic_string<char.*> const&\)$', d.get(x.callee, '')) and not member(d[x.callee]): r.add(x.callee)
    return r

def check_parser(c):
    c.rule('every token the parser passes over is one the grammar has at that place and no token the grammar has there is refused; the value of each token is stored as what it says, in its array or under its name; a value is read only while levels are left')
    m = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    T = tokens()
    low = [n for n in tokenizer_cxx(m)]
    if len(low) != 1: raise AnalysisBroken('the tokenizer is not found')
    check_tokens(c, low[0])
    P = CppParser(m, T, low[0])
    root = [n for n in m.fns if re.match(r'_ZN7rexjson5input\w*RNS_5valueEm$', n)]
    if len(root) != 1: raise AnalysisBroken('the reader of a value is not found')
    f = m.fn(root[0]); c.seen(f)
    for n in m.fns:
        if n.startswith('_ZN7rexjson5input') and n != low[0]: c.seen(m.fn(n))
    st = St({0: ('in',), 1: ('V', 'root'), 2: ('lv', 0)}, {('fr',): (), ('val', ('V', 'root')): ('older',)},
            {'ctx': (('doc', 'root', 0),), 'st': 'val', 'tok': None, 'lz': None, 'bind': None, 'att': None, 'tl': frozenset([2, 3, 4])})
    res = P.solve(f, st)
    good = 0
    for rv, mem, g in res:
        mem = dict(mem); g = dict(g); good += 1
        if len(g['ctx']) != 1 or g['st'] != 'after' or g['bind']: P.bad('short', f, None, 'parsing ends before the value is complete'); continue
        if mem.get(('val', ('V', 'root'))) != ('done',): P.bad('root', f, None, 'the value read is not the one handed over')
    for k, (w, msg) in P.errs.items(): c.bad(k, w, msg)
    c.ob('abstract states', P.visited); c.ob('summaries', len(P.table)); c.ob('tokens passed', P.consumed); c.ob('values completed', P.done_); c.ob('refusals', P.throws); c.ob('successful ends', good)
    if not P.errs and not good: c.bad('ends', f.where(), 'the parser never succeeds')
    if not P.errs and not P.throws: c.bad('refusals', f.where(), 'the parser never refuses')

def tokenizer_cxx(m):
    def reach(n, pred, seen):
        if n in seen or n not in m.fns or not n.startswith(('_ZN7rexjson5input', '_ZL', '_ZN7rexjson')): return False
        seen.add(n); f = m.fn(n)
        return any(pred(f, x) or (x.iscall and x.callee and reach(x.callee, pred, seen)) for x in f.insts())
    tab = lambda f, x: any(o and o[0] == 'g' and o[1] in ('dfa', '_ZL3dfa', 'ccdfa') for o in x.ops if isinstance(o, (list, tuple)))
    tok = lambda f, x: x.op == 'store' and f.cls(x) and f.cls(x)[-1] == 'token_id_' and f.cls(x)[0] == 'rexjson::input'
    c = [n for n in m.fns if n.startswith('_ZN7rexjson5input') and not re.match(r'_ZN7rexjson5inputC', n)]
    both = [n for n in c if reach(n, tab, set()) and reach(n, tok, set())]
    return [n for n in both if not any(x.iscall and x.callee in both for x in m.fn(n).insts())]

CHECKS = {'J04': check_parser}
