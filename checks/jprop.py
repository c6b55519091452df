"""rexjsonrpc, properties: access rights, hooks, ranges, copies, empty properties."""
import re
import ir
from ir import AnalysisBroken
from common import *
from rsm import *
from jsoncpp import demangle

INT, REAL, BOOL = 5, 6, 4
SUIT = {'get_int64': INT, 'get_int': INT, 'get_real': REAL, 'get_bool': BOOL, 'get_str': 3}
NARROW = ('trunc', 'fptosi', 'sitofp', 'fptrunc', 'fptoui', 'uitofp')
PASS = ('trunc', 'sext', 'zext', 'fptosi', 'sitofp', 'fpext', 'fptrunc', 'fptoui', 'uitofp', 'bitcast', 'freeze')

def body(m, n):
    """the function called, through the alias of a complete constructor"""
    if n in m.fns: return n
    for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
        if n and a in n and n.replace(a, b) in m.fns: return n.replace(a, b)
    return n

def offset(x):
    p = x.d.get('path') or []
    return sum(q[3] for q in p if q[0] == 'f') if all(q[0] == 'f' or q[1] == ['c', 0] for q in p) else None

class Members(RSM):
    """what the members of a property object do; self is an object with the fields its constructor fills"""
    def __init__(s, m, d, roles, kind, rng):
        super().__init__(m); s.d = d; s.roles = roles; s.kind = kind; s.rng = rng; s.ends = 0; s.events = 0
        s.pos = None
    def target(s, f, x, st, v):
        n = x.callee
        if n not in s.m.fns: return None
        if 'rexjson::property' not in s.d.get(n, '').split('(')[0]: return None
        return s.m.fn(n) if ('F', 'self', 0) in v or any(w == ('self',) for w in v) or any(w[0] == 'P' for w in v) else None
    def volatile(s, v): return isinstance(v, tuple) and v and v[0] not in ('c', '?', 'self', 'val')
    # ---- symbolic indices: ('ix', k) is k beyond the round the loop is in
    def live(s, st):
        r = set()
        def w(q):
            if isinstance(q, tuple):
                if len(q) == 2 and q[0] == 'ix': r.add(q[1])
                else:
                    for z in q: w(z)
        for q in st.env.values(): w(q)
        for k, q in st.mem.items(): w(q)
        w(st.g['done'])
        return r
    def shift(s, st, n):
        def w(q):
            if isinstance(q, tuple):
                if len(q) == 2 and q[0] == 'ix': return ('ix', q[1] - n)
                return tuple(w(z) for z in q)
            return q
        st.env = {k: w(q) for k, q in st.env.items()}
        def neg(q): return isinstance(q, tuple) and (len(q) == 2 and q[0] == 'ix' and q[1] < 0 or any(neg(z) for z in q))
        st.env = {k: U if neg(q) else q for k, q in st.env.items()}
        mem = {w(k): w(q) for k, q in st.mem.items()}
        st.mem = {k: U if neg(q) and k != ('fr',) else q for k, q in mem.items() if not neg(k)}
        if st.g['bool']: st.g['bool'] = None
        st.g['done'] = w(st.g['done'])
        st.g['facts'] = frozenset((a, b, k - n) if a in '<>' else (a, b, k) for a, b, k in st.g['facts'] if not (a in '<>' and k - n < -1))
        st.g['base'] = '+'
    def normal(s, st):
        r = s.live(st)
        q = r - {min(r)} if False else r
        if q and min(q) >= 1: s.shift(st, min(q))
    def ix(s, st, v):
        if v[0] == 'ix': return v[1]
        if v == ('c', 0):
            if st.g['base'] == 0: return 0
            if not (s.live(st) - ({st.g['done'][1]} if st.g['done'] else set())):
                st.g['base'] = 0; st.g['facts'] = frozenset(q for q in st.g['facts'] if q[0] not in '<>'); return 0
        return None
    def merge(s, f, x, v, st):
        if v == ('c', 0) and x.t == 'i64':
            k = s.ix(st, v)
            return ('ix', k) if k is not None else U
        if v[0] == 'c' and x.t == 'i64' and v[1] > 0: return ('ix', v[1]) if v[1] < 6 and st.g['base'] == 0 else U
        if v == ('P', ('c', 0)):
            k = s.ix(st, ('c', 0))
            return ('P', ('ix', k) if k is not None else U)
        return v
    def stop(s): return bool(s.errs)
    def lt(s, st, k, b):
        F = st.g['facts']
        if any(q[0] == '<' and q[1] == b and q[2] >= k for q in F): return True
        if any(q[0] == '>' and q[1] == b and q[2] <= k for q in F): return False
        def raw(b):
            if any(q[0] == '<' and q[1] == b and q[2] >= k for q in F): return True
            if any(q[0] == '>' and q[1] == b and q[2] <= k for q in F): return False
        if b == 'size' and ('len<=size', '', 0) in F and raw('len'): return True
        if b == 'len' and ('size<=len', '', 0) in F and raw('size'): return True
        if b == 'len' and ('len<=size', '', 0) in F and raw('size') is False: return False
        if b == 'size' and ('size<=len', '', 0) in F and raw('len') is False: return False
        return None
    def know(s, st, k, b, truth):
        t = s.lt(st, k, b)
        if t is not None: return [st] if t == truth else []
        st.g['facts'] |= {('<' if truth else '>', b, k)}
        return [st]
    def cond(s, f, c, truth, st):
        if c[0] == 'get': st.g['bool'] = (c, truth); return [st]
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]
        if p in ('eq', 'ne'):
            eq = truth == (p == 'eq')
            if a[0] == 'bit' and b[0] == 'c': return s.access(st, lambda z: (z & a[1]) == b[1], eq)
            if a == ('acc',) and b[0] == 'c': return s.access(st, lambda z: z == b[1], eq)
            if a[0] == 'ty' and b[0] == 'c':
                t = st.mem.get(a)
                if t is None: t = ('!', ())
                if t[0] == '=': return [st] if (t[1] == b[1]) == eq else []
                if eq:
                    if b[1] in t[1]: return []
                    st.mem[a] = ('=', b[1])
                else: st.mem[a] = ('!', tuple(sorted(set(t[1]) | {b[1]})))
                return [st]
            for u, w in ((a, b), (b, a)):
                if w == ('c', 0):
                    if u in (('self',), ('val',), ('sret',)) or u[0] in ('P', 'A', 'H', 'F', 'el'): return [st] if not eq else []
                    if u[0] == 'get' and u[1] == 'get_bool': st.g['bool'] = (u, not eq); return [st]
                    if u == ('len',): return s.know(st, 0, 'len', not eq) if st.g['base'] == 0 else [st]
                    if u == ('hook', 'chk') or u == ('hook', 'mod'): return [st]
                if u[0] == 'it' and w == ('end',): return s.know(st, u[1][1], 'len', not eq) if u[1][0] == 'ix' else [st]
                if u[0] == 'P' and w == ('P', ('size',)):
                    k = s.ix(st, u[1])
                    return s.know(st, k, 'size', not eq) if k is not None else [st]
                if u[0] == 'ix' and w in (('size',), ('len',)): return s.know(st, u[1], w[0], not eq)
            if {a, b} == {('len',), ('size',)}:
                if eq: st.g['facts'] |= {('len<=size', '', 0), ('size<=len', '', 0)}
                return [st]
            if a == b and a != U and a[0] != '?': return [st] if eq else []
            return [st]
        q = p.lstrip('us')
        if q in ('gt', 'le'): a, b = b, a; q = {'gt': 'lt', 'le': 'ge'}[q]      # a > b: b < a;  a <= b: not b < a
        if q == 'ge': truth = not truth
        # now: a < b is truth
        if a == ('len',) and b == ('size',) or a == ('size',) and b == ('len',):
            F = st.g['facts']; lo, hi = a[0], b[0]
            if truth:
                if ('%s<=%s' % (hi, lo), '', 0) in F: return []
                st.g['facts'] |= {('%s<=%s' % (lo, hi), '', 0), ('%s<%s' % (lo, hi), '', 0)}
            else:
                if ('%s<%s' % (lo, hi), '', 0) in F: return []
                st.g['facts'] |= {('%s<=%s' % (hi, lo), '', 0)}
            return [st]
        def bound(w): return w[0] if w in (('size',), ('len',)) else 'size' if w == ('P', ('size',)) else 'len' if w == ('end',) else None
        def index(w):
            if w[0] == 'P' or w[0] == 'it': w = w[1]
            return s.ix(st, w) if w[0] in ('ix', 'c') else None
        if bound(b):
            k = index(a)
            if k is not None: return s.know(st, k, bound(b), truth)
        if a == ('min',) or b == ('min',): pass
        if b == ('min',):
            k = index(a)
            if k is not None:
                if truth: return [z for w in s.know(st, k, 'len', True) for z in s.know(w, k, 'size', True)]
                return s.know(st.copy(), k, 'len', False) + s.know(st.copy(), k, 'size', False)
        return [st]
    def access(s, st, pred, truth):
        a = frozenset(z for z in st.g['acc'] if pred(z) == truth)
        if not a: return []
        st.g['acc'] = a
        return [st]
    def allows(s, st, bit): return all(z & bit for z in st.g['acc'])
    # ---- events
    def content(s, st, w):
        if w == ('val',): return ('val',)
        if w[0] == 'el': return w
        return st.mem.get(('val', w), U)
    def stored(s, f, x, st, p, w):
        s.events += 1
        if s.kind != 'set': s.bad('write', f, x, 'reading a property changes its variable'); return
        if not s.allows(st, 2): s.bad('access-set', f, x, 'the variable of a property is changed without write access'); return
        if not st.g['chk']: s.bad('unchecked', f, x, 'the variable is changed before the check hook has seen the new value'); return
        if st.g['mod']: s.bad('late', f, x, 'the variable is changed after the modified hook has been called'); return
        k = s.ix(st, p[1])
        if p[1] == ('c', 0) and not s.rng: k = 0
        if k is None: s.bad('place', f, x, 'a value is stored at a place that is no element of the property'); return
        src = None
        if w[0] == 'nar': w = w[1]
        if w[0] == 'get':
            src = w[2]; t = SUIT.get(w[1]); ty = st.mem.get(('ty', src)) or ('!', ())
            if ty[0] == '=' and t is not None and ty[1] != t and not (t == REAL and ty[1] == INT): s.bad('kind', f, x, 'a value of another type is read with %s' % w[1]); return
        elif w[0] == 'c' and st.g['bool'] and w[1] == int(st.g['bool'][1]): src = st.g['bool'][0][2]
        if s.rng:
            if s.lt(st, k, 'size') is not True: s.bad('outside', f, x, 'an element is stored that is not known to be inside of the range'); return
            if ('len<=size', '', 0) not in st.g['facts']: s.bad('partial', f, x, 'an element is stored although the array may be too long'); return
            if src != ('el', ('ix', k)): s.bad('value', f, x, 'an element does not get the value at its own place in the array'); return
            if st.g['done'] != ('ix', k): s.bad('order', f, x, 'an element of the array is left out or stored twice'); return
            st.g['done'] = ('ix', k + 1)
        else:
            if k != 0 or st.g['base'] != 0: s.bad('place', f, x, 'a value is stored beside the variable of the property'); return
            if src != ('val',): s.bad('value', f, x, 'the variable does not get the new value'); return
            st.g['done'] = 1
    def complete(s, st):
        if s.rng:
            d = st.g['done']
            return s.lt(st, d[1], 'len' if s.kind == 'set' else 'size') is False
        return st.g['done'] == 1
    def hook(s, f, x, st, v, which):
        s.events += 1
        if s.kind != 'set': s.bad('hook', f, x, 'a hook is called where nothing is set'); return
        if which == 'chk':
            if not s.allows(st, 2): s.bad('access-check', f, x, 'the check hook is called without write access')
            if v[1] != ('val',): s.bad('hook-arg', f, x, 'the check hook does not see the new value')
            if st.g['chk']: s.bad('hook-twice', f, x, 'the check hook is called twice')
            st.g['chk'] = 1
        else:
            if st.g['mod']: s.bad('mod-twice', f, x, 'the modified hook is called twice'); return
            if not st.g['chk'] or not s.complete(st): s.bad('mod-early', f, x, 'the modified hook is called before the new value is stored'); return
            if v[1] != ('ctx',): s.bad('mod-arg', f, x, 'the modified hook does not get its context')
            st.g['mod'] = 1
    def thrown(s, f, x, st):
        g = st.g
        if s.kind == 'acc': s.bad('throws', f, x, 'asking for the access rights fails'); return
        bit = 2 if s.kind == 'set' else 1
        if not any(z & bit for z in g['acc']): ok = True
        elif s.kind == 'get': ok = False
        else:
            ok = ('size<len', '', 0) in g['facts']
            for k, t in st.mem.items():
                if k[0] == 'ty' and (t[0] == '=' and t[1] not in (INT, REAL, BOOL) or t[0] == '!' and {INT, REAL, BOOL} <= set(t[1])): ok = True
        if not ok: s.bad('refused', f, x, 'a property is not %s although it may be' % ('set' if s.kind == 'set' else 'read')); return
        if g['mod']: s.bad('mod-fail', f, x, 'the modified hook has been called although the setting fails'); return
        if g['done'] == 1 and not s.rng: s.bad('partial', f, x, 'the variable is changed although the setting fails')
    # ---- instructions
    def base(s, f, x, st, v):
        if x.op in PASS and v[0][0] == 'nar': return v[0] if x.op in ('trunc', 'fptrunc', 'bitcast', 'freeze') else U
        if x.op in NARROW and x.t != 'i1' and v[0][0] in ('get', 'rd'): return ('nar', v[0])
        if x.op in PASS and v[0][0] in ('get', 'rd', 'ix', 'len', 'size', 'acc', 'P'): return v[0]
        if x.op == 'add' and v[0][0] == 'ix' and v[1][0] == 'c': return ('ix', v[0][1] + 1) if v[1][1] == 1 and v[0][1] < 6 else U
        if x.op == 'add' and v[1][0] == 'ix' and v[0] == ('c', 1): return ('ix', v[1][1] + 1)
        if x.op == 'and' and v[0] == ('acc',) and v[1][0] == 'c': return ('bit', v[1][1])
        if x.op == 'and' and v[1] == ('acc',) and v[0][0] == 'c': return ('bit', v[0][1])
        if x.op == 'fcmp': return U
        if x.op in ('trunc', 'icmp') and x.t == 'i1' and v[0][0] == 'get' and x.op == 'trunc': return v[0]
        return None
    def inst(s, f, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', f.name[-20:], x.i)
        if op == 'getelementptr':
            p = v[0]
            if p == ('self',) or p[0] == 'F':
                o = offset(x)
                return U if o is None else ('F', 'self', (p[2] if p[0] == 'F' else 0) + o)
            if p[0] == 'P':
                i = v[1] if len(v) == 2 else U
                if p[1] == ('c', 0): return ('P', i)
                if p[1][0] == 'ix' and i == ('c', 1): return ('P', ('ix', p[1][1] + 1))
                return ('P', U)
            return p if p[0] in ('A', 'el') else U
        if op == 'load':
            p = v[0]
            if p[0] == 'F':
                r = s.roles.get(p[2])
                return {'ptr': ('P', ('c', 0)), 'acc': ('acc',), 'ctx': ('ctx',), 'size': ('size',)}.get(r, U)
            if p[0] == 'P': return s.read(f, x, st, p)
            return m.get(('v', p), U)
        if op == 'store':
            w, p = v
            if p[0] == 'P': s.stored(f, x, st, p, w); return U
            if p[0] == 'F': s.bad('self', f, x, 'the property object itself is changed'); return U
            if p[0] == 'A': m[('v', p)] = w
            return U
        if not x.iscall: return U
        n = body(s.m, x.callee or ''); d = s.d.get(n, n); nm = d.split('(')[0]
        if n.startswith('llvm.'):
            if n.startswith(('llvm.umin', 'llvm.smin')) and set(v[:2]) == {('len',), ('size',)}: return ('min',)
            return U
        if n == '__cxa_throw' or nm.startswith('std::__throw_'): s.thrown(f, x, st); return []
        if '::operator()' in d and v and v[0][0] == 'F':
            r = s.roles.get(v[0][2])
            if r in ('chk', 'mod'): s.hook(f, x, st, v, r)
            return U
        if v and v[0][0] == 'F' and ('operator bool' in d or 'operator==' in d or 'operator!=' in d) and s.roles.get(v[0][2]) in ('chk', 'mod'): return U
        if nm.startswith('std::min') or ' std::min' in nm:
            a = [m.get(('v', w), w) for w in v[:2]]; a = [{'size': ('size',)}.get(s.roles.get(w[2]), U) if w[0] == 'F' else w for w in a]
            if set(a) == {('len',), ('size',)}: m[('v', ('A', 'min', x.i))] = ('min',); return ('A', 'min', x.i)
            return U
        if v and ('operator' in nm):
            a = [m.get(('v', w), w) if w[0] == 'A' else w for w in v]
            k = re.search(r'operator(!=|==|\*|->|\+\+|<)', d)
            k = k.group(1) if k else None
            if a[0][0] in ('it', 'end') and k:
                if k in ('!=', '=='): return ('cmp', 'ne' if k == '!=' else 'eq', a[0], a[1] if len(a) > 1 else U)
                if k in ('*', '->') and a[0][0] == 'it':
                    if s.lt(st, a[0][1][1], 'len') is not True: s.bad('elem', f, x, 'an element of the array is read that is not known to exist')
                    return ('el', a[0][1])
                if k == '++' and a[0][0] == 'it' and v[0][0] == 'A': m[('v', v[0])] = ('it', ('ix', a[0][1][1] + 1)); return v[0] if len(v) == 1 else a[0]
        if 'rexjson::value::' in nm:
            k = nm.split('rexjson::value::')[-1]
            if k == 'value':
                c = U
                if len(v) > 1: c = s.content(st, v[1])
                if len(v) > 1 and c == U:
                    w = v[1]
                    c = w if w[0] == 'rd' else m.get(('str', w), m.get(('out', w), U))
                m[('val', v[0])] = c; return U
            if k == '~value': m.pop(('val', v[0]), None); m.pop(('ty', v[0]), None); return U
            c = s.content(st, v[0])
            if k == 'get_array' and c == ('val',): return ('arr',)
            if k in ('get_type', 'type'): return ('ty', c) if c != U else U
            if k.startswith('get_') and c != U: 
                w = ('get', k if not k.startswith('get_value') else 'get_value', c)
                return ('nar', w) if k == 'get_int' else w
            return U
        if 'basic_string' in nm and v:
            k = nm.split('::')[-1]
            if v[0][0] == 'P' and k not in ('operator=', 'assign', 'basic_string', 'size', 'length', 'empty', 'c_str', 'data', 'operator basic_string_view'):
                s.bad('write', f, x, 'the variable is changed other than by the new value'); return U
            if k in ('operator=', 'assign') and v[0][0] == 'P': s.stored(f, x, st, v[0], m.get(('str', v[1]), v[1]) if len(v) == 2 else U); return v[0]
            if k == 'basic_string' and len(v) > 1:
                m[('str', v[0])] = s.read(f, x, st, v[1]) if v[1][0] == 'P' else v[1] if v[1][0] == 'get' else m.get(('str', v[1]), U); return U
            if k == '~basic_string': m.pop(('str', v[0]), None)
            return U
        if v and v[0] == ('arr',):
            k = nm.split('::')[-1]
            if k in ('begin', 'cbegin'): 
                i = s.ix(st, ('c', 0)); return ('it', ('ix', i)) if i is not None else U
            if k in ('end', 'cend'): return ('end',)
            if k == 'size': return ('len',)
            if k == 'empty': return ('cmp', 'eq', ('len',), ('c', 0))
            if k in ('operator[]', 'at') and len(v) > 1:
                i = s.ix(st, v[1])
                if i is None: return U
                if k == 'operator[]' and s.lt(st, i, 'len') is not True: s.bad('elem', f, x, 'an element of the array is read that is not known to exist')
                return ('el', ('ix', i))
            return U
        if 'rexjson::array' in nm or 'std::vector<rexjson::value' in nm:
            k = nm.split('::')[-1]
            if k in ('push_back', 'emplace_back'):
                c = s.content(st, v[1]) if len(v) > 1 else U
                if c == U and len(v) > 1: c = m.get(('v', v[1]), U)
                s.events += 1
                if c[0] != 'rd' or s.kind != 'get' or c[1] != st.g['done']: s.bad('list', f, x, 'the list read from a range does not have its elements in order'); return U
                st.g['done'] = ('ix', c[1][1] + 1); m[('out', v[0])] = ('list',)
                return U
            if k in ('array', 'vector'):
                m[('out', v[0])] = m.get(('out', v[1]), U) if len(v) > 1 else ('list',); return U
            return U
        if any(w[0] == 'P' for w in v): s.bad('leak', f, x, 'the variable is handed to %s' % nm[:60])
        return U
    def read(s, f, x, st, p):
        k = s.ix(st, p[1])
        if k is None: s.bad('place', f, x, 'a place is read that is no element of the property'); return U
        if s.rng and s.lt(st, k, 'size') is not True: s.bad('outside', f, x, 'an element is read that is not known to be inside of the range'); return U
        return ('rd', ('ix', k))

def state0(kind, rng):
    return dict(acc=frozenset((0, 1, 2, 3)), chk=0, mod=0, done=('ix', 0) if rng else 0, facts=frozenset(), base=0, bool=None)

class Build(Explore):
    """constructors and duplicates: what ends up in which field of the object"""
    LIMIT = 4000
    def __init__(s, f, m, d, args, subs, depth=0):
        super().__init__(f); s.m = m; s.d = d; s.args = args; s.subs = subs; s.rets = []; s.depth = depth
    def arg(s, k): return s.args[k]
    def inst(s, x, st, v):
        m = st.mem; op = x.op
        if op == 'alloca': return ('A', s.depth, x.i)
        if op == 'getelementptr':
            o = offset(x); p = v[0]
            if o is None: return U
            if p[0] == 'F': return ('F', p[1], p[2] + o)
            if p[0] in ('O', 'H', 'A'): return ('F', p, o)
            return U
        if op == 'load':
            p = v[0]
            if p[0] in ('O', 'H', 'A'): p = ('F', p, 0)
            if p[0] == 'F': return m.get(p, ('init', p[1], p[2]))
            return U
        if op == 'store':
            w, p = v
            if x.ops[0] and x.ops[0][0] == 'ce': w = ('vt', str(x.ops[0][2][0][1]) if isinstance(x.ops[0][2][0], (list, tuple)) else '?')
            if p[0] in ('O', 'H', 'A'): p = ('F', p, 0)
            if p[0] == 'F': m[p] = w
            return U
        if not x.iscall: return U
        n = body(s.m, x.callee or ''); d = s.d.get(n, n); nm = d.split('(')[0]
        if n.startswith('llvm.'): return U
        if nm.startswith('operator new'): return ('H', s.depth, x.i)
        if n == '__cxa_throw' or n == '__assert_fail': return []
        if re.match(r'std::(map|vector)<.*>::(map|vector)$', nm) and len(v) > 1:
            w = v[1]; w = m.get(w, ('init', w[1], w[2])) if w[0] == 'F' else m.get(('F', w, 0), ('init', w, 0))
            m[v[0] if v[0][0] == 'F' else ('F', v[0], 0)] = w; return U
        if d.startswith('std::function<'):
            nm = 'std::function<>' + d[d.index('>::'):].split('(')[0] if '>::' in d else d
            k = nm.rsplit('::', 1)[-1]
            if k == 'function' or k == 'operator=':
                w = v[1] if len(v) > 1 else ('none',)
                if w[0] == 'F': w = m.get(w, ('init', w[1], w[2]))
                elif w[0] in ('O', 'H', 'A'): w = m.get(('F', w, 0), ('init', w, 0))
                p = v[0] if v[0][0] == 'F' else ('F', v[0], 0)
                m[p] = w if len(v) > 1 else ('none',)
            return v[0]
        if n in s.m.fns and any(w[0] in ('O', 'H', 'F', 'A') for w in v) and 'rexjson::property' in nm and '~' not in nm and s.depth < 8:
            def strip(w): return w[1] if w[0] == 'F' and w[2] == 0 else w
            B = Build(s.m.fn(n), s.m, s.d, [strip(w) for w in v], s.subs, s.depth + 1)
            B.run(St({}, dict(m), {}))
            return [(St(dict(st.env), mm, {}), rv if rv is not None else U) for rv, mm in B.rets]
        return U
    def ret(s, x, st, v): s.rets.append((v, st.mem))

def fwargs(v):
    """the arguments behind the object and the property itself"""
    return [w for w in v[1 + (v[0] == ('sret',)):] if w != ('self',)]

class Box(Explore):
    """members of property: the object inside is used only where it is there"""
    LIMIT = 4000
    def __init__(s, f, m, d, slots, what, args):
        super().__init__(f); s.m = m; s.d = d; s.slots = slots; s.what = what; s.args = args; s.errs = {}; s.outs = []
    def bad(s, k, x, msg): s.errs.setdefault(k, (s.f.where(x) if x is not None else s.f.where(), msg))
    def arg(s, k): return s.args[k] if k < len(s.args) else ('arg', k)
    def cond(s, c, truth, st):
        if c[0] != 'cmp' or c[1] not in ('eq', 'ne'): return [st]
        eq = truth == (c[1] == 'eq')
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if b == ('c', 0):
                if a[0] == 'o':
                    n = st.g['n%s' % a[1]]
                    if n is not None: return [st] if (n == 'null') == eq else []
                    st.g['n%s' % a[1]] = 'null' if eq else 'there'; return [st]
                if a[0] in ('self', 'src', 'new', 'obj'): return [st] if not eq else []
        a, b = c[2], c[3]
        if a == b and a != U: return [st] if eq else []
        if {a[0], b[0]} == {'self', 'src'}: return [st] if not eq else []
        return [st]
    def inst(s, x, st, v):
        m = st.mem; op = x.op
        if op == 'alloca': return ('A', s.what.get('depth', 0), x.i)
        if op == 'getelementptr':
            p = v[0]
            if p[0] in ('self', 'src'): return ('fld', p[0], offset(x))
            if p[0] == 'A' and x.d.get('path') and x.d['path'][0][0] == 'f' and x.d['path'][0][1] == 'rexjson::property': return ('fld', p, offset(x))
            if p[0] == 'vt': return ('slot', p[1], v[1][1] if v[1][0] == 'c' else None)
            if p[0] == 'o': return p if offset(x) == 0 else U
            return U
        if op == 'load':
            p = v[0]
            if p[0] == 'fld':
                return m.get(p, ('o', p[1]) if p[2] == s.what['off'] and p[1] in ('self', 'src') else U)
            if p[0] in ('o', 'new', 'obj'): s.use(x, st, p); return ('vt', p)
            if p[0] == 'vt': return ('vf', p[1], 0)
            if p[0] == 'slot': return ('vf', p[1], p[2])
            return m.get(('v', p), U)
        if op == 'store':
            w, p = v
            if p[0] == 'fld': m[p] = w
            elif p[0] == 'A': m[('v', p)] = w
            return U
        if not x.iscall: return U
        n = x.callee
        if n is None:
            return s.virtual(x, st, v)
        n = body(s.m, n); d = s.d.get(n, n); nm = d.split('(')[0]
        if n.startswith('llvm.'): return U
        if n == '__cxa_throw': 
            if not s.what.get('throws', lambda st: True)(st): s.bad('refused', x, 'a property that has its object is refused')
            return []
        if nm == 'rexjson::property::check_object' or n in s.m.fns and v and (v[0] in (('self',), ('src',)) or v[0][0] == 'A') and 'rexjson::property::' in nm and s.what.get('depth', 0) < 4 and nm not in s.what.get('opaque', ()):
            B = Box(s.m.fn(n), s.m, s.d, s.slots, dict(s.what, depth=s.what.get('depth', 0) + 1), v)
            B.run(St({}, dict(m), dict(st.g)))
            for k, e in B.errs.items(): s.errs.setdefault(k, e)
            return [(St(dict(st.env), mm, gg), rv if rv is not None else U) for rv, mm, gg in B.outs]
        if 'std::swap<' in nm and len(v) == 2 and v[0][0] == v[1][0] == 'fld':
            a, b = [m.get(w, ('o', w[1]) if w[1] in ('self', 'src') else U) for w in v]
            m[v[0]], m[v[1]] = b, a; return U
        if 'std::exchange<' in nm and len(v) == 2 and v[0][0] == 'fld':
            a = m.get(v[0], ('o', v[0][1]) if v[0][1] in ('self', 'src') else U)
            m[v[0]] = m.get(('v', v[1]), U); return a
        if 'std::move' in nm or 'std::forward' in nm: return v[0]
        # methods of map and array called directly (devirtualised)
        if v and v[0][0] in ('o', 'new', 'obj'): s.use(x, st, v[0])
        return U
    def use(s, x, st, o):
        if o[0] == 'o':
            if st.g['n%s' % o[1]] != 'there': s.bad('null', x, 'a property without object is used as if it had one'); st.g['n%s' % o[1]] = 'there'
            if o in st.g['gone']: s.bad('gone', x, 'the object of a property is used after it has been deleted')
        elif o in st.g['gone']: s.bad('gone', x, 'the object of a property is used after it has been deleted')
    def virtual(s, x, st, v):
        c = x.d.get('callee')
        w = s.val(c, st) if isinstance(c, (list, tuple)) else U
        if w[0] != 'vf': return U
        name = s.slots.get(w[2]); o = w[1]
        if name == 'delete':
            if o in st.g['gone']: s.bad('twice', x, 'the object of a property is deleted twice')
            st.g['gone'] = st.g['gone'] | {o}; return U
        if name == 'duplicate': return ('new', o)
        fw = s.what.get('forward')
        if fw:
            a = [w for w in v if w != ('sret',)]
            if name != fw or o != ('o', 'self') or st.g['fw'] or a[:1] != [o] or fwargs(v) != [('arg', i + 1) for i in range(len(fwargs(v)))]: s.bad('forward', x, 'the call is not handed on to the same member of the object')
            st.g['fw'] = 1
        return ('res', name)
    def ret(s, x, st, v): s.outs.append((v, st.mem, st.g))

class Element(Explore):
    """operator[] of the containers: only elements that exist"""
    LIMIT = 4000
    def __init__(s, f, m, d): super().__init__(f); s.m = m; s.d = d; s.errs = {}; s.rets = 0; s.ops = 0
    def bad(s, k, x, msg): s.errs.setdefault(k, (s.f.where(x) if x is not None else s.f.where(), msg))
    def arg(s, k): return ('self',) if k == 0 else ('name',)
    def base(s, x, st, v):
        if x.op in PASS and v[0][0] in ('idx', 'size'): return v[0]
        return super().base(x, st, v)
    def cond(s, c, truth, st):
        if c[0] != 'cmp': return [st]
        p, a, b = c[1], c[2], c[3]; g = st.g
        if p in ('eq', 'ne'):
            eq = truth == (p == 'eq')
            if {a, b} == {('found',), ('end',)}:
                if g['at'] is not None: return [st] if (g['at'] == 'none') == eq else []
                g['at'] = 'none' if eq else 'some'; return [st]
            return [st]
        q = p[1:]
        if q in ('gt', 'le'): a, b = b, a; q = {'gt': 'lt', 'le': 'ge'}[q]
        t = truth == (q == 'lt')
        if a == ('idx',) and b == ('size',):
            if t: g['hi'] = 'in'; g['lo'] = 'in' if p[0] == 'u' else g['lo']
            else: g['hi'] = 'out'
        if a == ('idx',) and b == ('c', 0) and p[0] == 's': g['lo'] = 'out' if t else 'in'
        if a == ('c', -1) and b == ('idx',) and p[0] == 's': g['lo'] = 'in' if t else 'out'
        return [st]
    def inst(s, x, st, v):
        m = st.mem; op = x.op; g = st.g
        if op == 'alloca': return ('A', x.i)
        if op == 'getelementptr': return ('self',) if v[0] == ('self',) else v[0] if v[0][0] in ('elem', 'A') else U
        if op == 'load': return m.get(v[1] if False else ('v', v[0]), ('elem',) if v[0] == ('elem',) else U)
        if op == 'store': m[('v', v[1])] = v[0]; return U
        if not x.iscall: return U
        n = body(s.m, x.callee or ''); d = s.d.get(n, n); nm = d.split('(')[0]; k = nm.split('::')[-1]
        if n.startswith('llvm.'): return U
        if n == '__cxa_throw':
            if g['at'] == 'some' or g['hi'] == 'in' and g['lo'] == 'in': s.bad('refused', x, 'an element that exists is refused')
            return []
        if n in ('atol', 'atoi', 'strtol', 'strtoul', 'atoll') or re.search(r'std::(__cxx11::)?sto(i|l|ul|ll|ull)$', nm): return ('idx',)
        if v and v[0] == ('self',):
            s.ops += 1
            if k == 'find': return ('found',)
            if k in ('end', 'cend'): return ('end',)
            if k == 'size': return ('size',)
            if k == 'at': return ('elem',)
            if k == 'operator[]':
                if 'map<' in nm: s.bad('creates', x, 'asking for a name that is not there creates it'); return ('elem',)
                if v[1] != ('idx',) or g['hi'] != 'in' or g['lo'] != 'in': s.bad('elem', x, 'an element is used that is not known to exist')
                return ('elem',)
            return U
        a = [m.get(('v', w), w) if w[0] == 'A' else w for w in v]
        o = re.search(r'operator(!=|==|\*|->)', d)
        if o and a and a[0][0] in ('found', 'end'):
            o = o.group(1)
            if o in ('==', '!='): return ('cmp', 'eq' if o == '==' else 'ne', a[0], a[1])
            if g['at'] != 'some': s.bad('elem', x, 'an entry is used that is not known to exist')
            return ('elem',)
        return U
    def ret(s, x, st, v):
        s.rets += 1
        if v != ('elem',): s.bad('result', x, 'the result is not the element that was asked for')

def check_props(c):
    c.rule('Variables of properties are read and written only with the right to, after the check hook and before the modified hook, inside of the range and with the value given; properties without object are never used.')
    m = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    d = demangle(m); by = {}
    for n in sorted(m.fns):
        k = d.get(n, n)
        if k.startswith('rexjson::property'): by.setdefault(k, n)
    P = '::property_object<'
    classes = sorted({k[:k.index('::', k.index('>'))] if False else re.match(r'(rexjson::property_(?:object|range)<.*?>)::(?:set_prop|get_prop)\(', k).group(1) for k in by if re.match(r'rexjson::property_(?:object|range)<.*>::(?:set_prop|get_prop)\(', k)})
    nrange = 0; vts = {}
    for cl in classes:
        short = cl.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string').replace('rexjson::', '')
        rng = 'property_range' in cl; nrange += rng
        def mem(name):
            r = [k for k in by if k.startswith(cl + '::' + name + '(')]
            return by[r[0]] if r else None
        cn = cl.split('::')[1].split('<')[0]
        ctors = [k for k in by if k.startswith(cl + '::' + cn + '(') and not k.startswith(cl + '::' + cn + '(' + cl)]
        ctors = [k for k in ctors if m.fn(by[k]).nargs == (7 if rng else 6)]
        if not ctors: c.bad('ctor-%s' % short, 'rexjsonrpc/property.h', '%s has no constructor from its parts' % short); continue
        f = m.fn(by[ctors[0]]); c.seen(f)
        par = ['ptr', 'size', 'acc', 'chk', 'mod', 'ctx'] if rng else ['ptr', 'acc', 'chk', 'mod', 'ctx']
        args = [('O', 'new')] + [('par', p) for p in par]
        # a hook comes as a reference: its contents are the parameter
        for i, p in enumerate(par):
            if p in ('chk', 'mod'): args[i + 1] = ('O', p)
        B = Build(f, m, d, args, None); B.run(St({}, {}, {}))
        roles = None
        for rv, mm in B.rets:
            r = {}; vt = mm.get(('F', ('O', 'new'), 0))
            for k, w in mm.items():
                if k[0] == 'F' and k[1] == ('O', 'new'):
                    if w[0] == 'par': r[k[2]] = w[1]
                    elif w[0] == 'init' and w[1][0] == 'O': r[k[2]] = w[1][1]
            if set(r.values()) != set(par) or len(r) != len(par):
                lost = sorted(set(par) - set(r.values()))
                c.bad('ctor-%s' % short, f.where(), 'the constructor of %s does not keep its %s' % (short, {'ptr': 'variable', 'size': 'size', 'acc': 'access rights', 'chk': 'check hook', 'mod': 'modified hook', 'ctx': 'context'}.get(lost[0] if lost else 'ptr')))
                roles = None; break
            roles = r; vts[cl] = vt
        c.ob('constructors')
        if roles is None: 
            if not B.rets: c.bad('ctor-%s' % short, f.where(), 'the constructor of %s never returns' % short)
            continue
        for kind, name in (('set', 'set_prop'), ('get', 'get_prop'), ('acc', 'access')):
            q = mem(name)
            if q is None:
                if name == 'access' and rng: continue
                c.bad('%s-%s' % (kind, short), 'rexjsonrpc/property.h', '%s has no %s' % (short, name)); continue
            f = m.fn(q); c.seen(f)
            M = Members(m, d, roles, kind, rng)
            args = {'set': [('self',), ('val',)], 'get': [('sret',), ('self',)], 'acc': [('self',)]}[kind]
            n = 0
            for rv, mm, g in M.solve(f, St({i: w for i, w in enumerate(args)}, {}, state0(kind, rng))):
                n += 1; mm = dict(mm); st = St({}, mm, dict(g)); g = st.g
                if kind == 'set':
                    if not M.allows(st, 2): M.bad('access-set', f, None, 'setting succeeds without write access')
                    elif not g['chk']: M.bad('unchecked', f, None, 'setting succeeds without asking the check hook')
                    elif not M.complete(st): M.bad('lost', f, None, 'setting succeeds although not the whole value has been stored')
                    elif not g['mod']: M.bad('mod-lost', f, None, 'setting succeeds without calling the modified hook')
                elif kind == 'get':
                    w = mm.get(('val', ('sret',)))
                    if not M.allows(st, 1): M.bad('access-get', f, None, 'reading succeeds without read access')
                    elif rng and (w != ('list',) or not M.complete(st)): M.bad('result', f, None, 'reading does not return all elements of the range')
                    elif not rng and w != ('rd', ('ix', 0)): M.bad('result', f, None, 'reading does not return the value of the variable')
                elif rv != ('acc',): M.bad('result', f, None, 'the access rights returned are not those of the property')
            for k, (w, msg) in M.errs.items(): c.bad('%s-%s-%s' % (kind, short, k), w, '%s: %s' % (short, msg))
            if not M.errs and not n: c.bad('%s-%s-never' % (kind, short), f.where(), '%s: %s never succeeds' % (short, name))
            c.ob('states', M.visited); c.ob('members of property objects'); c.ob('stores and hook calls', M.events)
        q = mem('duplicate')
        if q is None: c.bad('dup-%s' % short, 'rexjsonrpc/property.h', '%s has no duplicate' % short); continue
        f = m.fn(q); c.seen(f)
        B = Build(f, m, d, [('O', 'self')], None); B.run(St({}, {}, {})); c.ob('duplicates')
        if not B.rets: c.bad('dup-%s' % short, f.where(), 'duplicating %s never succeeds' % short)
        for rv, mm in B.rets:
            if rv is None or rv[0] != 'H': c.bad('dup-%s' % short, f.where(), 'duplicating %s makes no new object' % short); break
            if mm.get(('F', rv, 0)) != vts[cl]: c.bad('dup-%s' % short, f.where(), 'the duplicate of a %s is no %s' % (short, short)); break
            lost = [r for o, r in sorted(roles.items()) if mm.get(('F', rv, o)) != ('init', ('O', 'self'), o)]
            if lost: c.bad('dup-%s' % short, f.where(), 'the duplicate of a %s differs in its %s' % (short, {'ptr': 'variable', 'size': 'size', 'acc': 'access rights', 'chk': 'check hook', 'mod': 'modified hook', 'ctx': 'context'}[lost[0]])); break
    # the slots of the virtual table
    slots = {}
    for n, g in m.globals.items():
        if n.startswith('_ZTVN7rexjson15property_objectIi') and 'init' in g:
            fs = [e[1] for e in g['init'][1][0][1] if e[0] == 'g'][1:]
            for i, q in enumerate(fs):
                if q not in d: demangle_more(d, q)
                nm = re.sub(r'\(.*', '', d.get(q, q)).split('>::')[-1].split('::')[-1]
                slots[i] = 'delete' if 'D0Ev' in q else '~' if 'D2Ev' in q or 'D1Ev' in q else nm
    if 'duplicate' not in slots.values(): raise AnalysisBroken('the virtual table of the property objects is not there')
    S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&'
    Q = 'rexjson::property::'
    def box(key, name, what, args, after):
        r = [k for k in by if k == Q + name]
        if not r: c.bad('box-%s' % key, 'rexjsonrpc/property.cpp', 'property has no %s' % name.split('(')[0]); return
        f = m.fn(by[r[0]]); c.seen(f); c.ob('members of property')
        B = Box(f, m, d, slots, what, args)
        B.run(St({}, {}, dict(nself=None, nsrc=None, gone=frozenset(), fw=0)))
        if not B.errs:
            for rv, mm, g in B.outs:
                t = after(mm, g, mm.get(('fld', 'self', what['off'])))
                if t: B.bad('end', None, t); break
            if not B.outs: B.bad('never', None, 'it never returns')
        for k, (w, msg) in B.errs.items(): c.bad('box-%s-%s' % (key, k), w, '%s: %s' % (name.split('(')[0], msg))
    f = [n for k, n in by.items() if k == Q + 'property()']
    off = next((sum(q[3] for q in x.d['path'] if q[0] == 'f') for n in by.values() for x in m.fn(n).insts() if x.op == 'getelementptr' and x.d.get('path') and x.d['path'][0][0] == 'f' and x.d['path'][0][1] == 'rexjson::property'), None)
    if off is None: raise AnalysisBroken('no member of property uses its object')
    W = {'off': off}
    O = ('o', 'self'); X = ('o', 'src')
    def copied(mm, g, w):
        if g['nsrc'] == 'null': return None if w in (('c', 0), X) else 'the copy of an empty property is not empty'
        return None if w == ('new', X) and g['nsrc'] == 'there' else 'the copy does not get an object of its own'
    def assigned(mm, g, w):
        old = O in g['gone'] or g['nself'] == 'null'
        if not old: return 'the object that is replaced is not deleted'
        return copied(mm, g, w)
    def selfassigned(mm, g, w):
        if w is None or w == O: return None if O not in g['gone'] else 'assigning a property to itself deletes its object'
        if g['nself'] == 'null': return None if w == ('c', 0) else 'an empty property does not stay empty'
        return None if w == ('new', O) and O in g['gone'] else 'assigning a property to itself loses an object'
    box('copy', 'property(rexjson::property const&)', W, [('self',), ('src',)], copied)
    box('move', 'property(rexjson::property&&)', W, [('self',), ('src',)], lambda mm, g, w: None if w == X and mm.get(('fld', 'src', off)) == ('c', 0) else 'the object is not handed over')
    for k in ('map', 'array'):
        box(k, 'property(rexjson::property_%s const&)' % k, W, [('self',), ('obj',)], lambda mm, g, w: None if w == ('new', ('obj',)) else 'the property does not get an object of its own')
    box('empty', 'property()', W, [('self',)], lambda mm, g, w: None if w == ('c', 0) else 'an empty property has an object')
    box('assign', 'operator=(rexjson::property const&)', W, [('self',), ('src',)], assigned)
    box('self', 'operator=(rexjson::property const&)', W, [('self',), ('self',)], selfassigned)
    box('dtor', '~property()', W, [('self',)], lambda mm, g, w: None if O in g['gone'] or g['nself'] == 'null' else 'the object is not deleted')
    for key, name, slot, sret in (('push_back', 'push_back(rexjson::property const&)', 'push_back', 0), ('at', 'operator[](' + S + ')', 'operator[]', 0), ('navigate', 'navigate(' + S + ')', 'navigate', 0),
                            ('set', 'set_prop(rexjson::value const&)', 'set_prop', 0), ('get', 'get_prop()', 'get_prop', 1), ('access', 'access() const', 'access', 0)):
        box(key, name, dict(W, forward=slot, throws=lambda st: st.g['nself'] == 'null'), [('sret',), ('self',)] if sret else [('self',)], lambda mm, g, w: None if g['fw'] else 'the call is not handed on to the object')
    en = [k for k in by if k.startswith(Q + 'enumerate_children(')]
    if en: box('enum', en[0][len(Q):], dict(W, forward='enumarate_children', throws=lambda st: st.g['nself'] == 'null'), [('self',)], lambda mm, g, w: None if g['fw'] else 'the call is not handed on to the object')
    for k in ('map', 'array'):
        r = [n for q, n in by.items() if q.startswith('rexjson::property_%s::operator[](' % k)]
        if not r: c.bad('elem-%s' % k, 'rexjsonrpc/property.h', 'property_%s has no operator[]' % k); continue
        f = m.fn(r[0]); c.seen(f); E = Element(f, m, d); E.run(St({}, {}, dict(at=None, hi=None, lo=None))); c.ob('container members')
        for kk, (w, msg) in E.errs.items(): c.bad('elem-%s-%s' % (k, kk), w, 'property_%s: %s' % (k, msg))
        if not E.errs and not E.rets: c.bad('elem-%s-never' % k, f.where(), 'property_%s: no element is ever found' % k)
    if not classes or not nrange: c.bad('classes', 'rexjsonrpc/property.h', 'the classes of property objects are not there')

def demangle_more(d, q):
    import subprocess
    d[q] = subprocess.run(['c++filt', q], capture_output=True, text=True).stdout.strip()

CHECKS = {'J07': check_props}
