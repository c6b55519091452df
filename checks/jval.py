"""JSON, C++ values: what a value stores is what its type says; copies are deep; storage has one owner."""
import re
import ir
from ir import AnalysisBroken
from common import *
from rsm import *

NULL, OBJ, ARR, STR, BOOL, INT, REAL = range(7)
NAMES = ['null', 'object', 'array', 'string', 'boolean', 'integer', 'real']
OWN = {STR, ARR, OBJ}
SCAL = {'i1': BOOL, 'i8': BOOL, 'i64': INT, 'double': REAL}

def kind_of_class(n):
    """the kind of storage a constructor, destructor or member function is for"""
    for p, k in (('_ZNSt7__cxx1112basic_string', STR), ('_ZNKSt7__cxx1112basic_string', STR), ('_ZNSs', STR), ('_ZN7rexjson5array', ARR), ('_ZNSt6vectorIN7rexjson5value', ARR), ('_ZNKSt6vectorIN7rexjson5value', ARR),
                 ('_ZNSt3mapINSt7__cxx1112basic_string', OBJ), ('_ZNKSt3mapINSt7__cxx1112basic_string', OBJ)):
        if n.startswith(p): return k
    return None

class Val(RSM):
    LIMIT = 8000
    """values: ('V', id); places ('t', id) type, ('s', id) store; heap storage ('H', key) with mem[('h', key)] = (state, kind, origin)"""
    def __init__(s, m, fn, ctor): super().__init__(m); s.fn = fn; s.ctor = ctor; s.outs = []; s.opaque = False
    def volatile(s, v): return False
    def target(s, f, x, st, v):
        n = x.callee or ''
        if n not in s.m.fns: n = re.sub(r'(value|input|output)C1E', r'\1C2E', re.sub(r'D1Ev$', 'D2Ev', n))
        if n not in s.m.fns: return None
        if n.startswith(('_ZN7rexjson5value', '_ZNK7rexjson5value')) and 'get_typename' not in n:
            for i, w in enumerate(v):
                if w[0] == 'A' and (i == 0 or ('t', w) in st.mem): v[i] = ('V', w)
        if n.startswith(('_ZN7rexjson5valueC', '_ZN7rexjson5valueD', '_ZN7rexjson5valueaS', '_ZNK7rexjson5value', '_ZN7rexjson5value')) and any(w[0] == 'V' for w in v):
            return s.m.fn(n)
        # helpers that work on values
        if not n.startswith(('_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu', '_ZN7rexjson5array', '_ZN7rexjson5input', '_ZN7rexjson6output')) and any(w[0] == 'V' and w[1] != 'other' for w in v): return s.m.fn(n)
        return None
    def own(s, st, p):
        """(id) of the value whose field is addressed"""
        return p[1] if p[0] in ('V', 'S') else None
    def danger(s, f, x, st, w):
        """the value w is used"""
        if st.mem.get('freed') and (w[0] == 'arg' or w[0] in ('V', 'S') and w[1] == 'arg' or w[0] == 'H' and w[1] == ('o', 'arg')):
            s.bad('freed-arg', f, x, 'the value given, which may be a part of the old contents, is used after those were released')
    def inst(s, f, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', f.name, x.i)
        if op == 'getelementptr':
            p = v[0]; path = x.d.get('path') or []
            if p[0] == 'A':
                c = [q for q in path if q[0] == 'f']
                p = ('V', p) if c and c[0][1] == 'rexjson::value' else p
            if p[0] == 'V':
                c = [q for q in path if q[0] == 'f']
                if c and c[0][1] == 'rexjson::value' and c[0][2] == 'store_': return ('S', p[1])
                if c and c[0][1] == 'rexjson::value' and c[0][2] == 'value_type_': return p
                return ('opq',)
            if p[0] == 'H' and path and path[0][0] == 'i': return ('opq',)
            return p if p[0] in ('A', 'H', 'arg') else U
        if op in ('load', 'store'):
            p = v[0] if op == 'load' else v[1]
            if p[0] == 'A' and (('t', p) in m or ('s', p) in m): p = ('V', p)
            s.danger(f, x, st, p)
            if op == 'load':
                if p[0] == 'V': return m.get(('t', p[1]), U)
                if p[0] == 'S':
                    t = m.get(('t', p[1]), U); w = m.get(('s', p[1]), U)
                    if w == ('raw',): s.bad('uninit', f, x, 'the contents of a value are used before they are set'); return []
                    if t[0] == 'c' and x.t in SCAL and t[1] in (BOOL, INT, REAL, STR, ARR, OBJ) and SCAL[x.t] != t[1] and not (x.t == 'i64'):
                        s.bad('pun', f, x, 'the contents of a value of type %s are read as %s' % (NAMES[t[1]], NAMES[SCAL[x.t]]))
                    if w[0] == 'H' and m.get(('h', w[1]), (None,))[0] not in ('made', None): s.bad('dead', f, x, 'storage that was released is used')
                    return w
                return U
            w = v[0]
            if p[0] == 'V':
                m[('t', p[1])] = w; return U
            if p[0] == 'S':
                s.over(f, x, st, p[1]); m[('s', p[1])] = s.scal(x, w); return U
            return U
        if op in ('sitofp', 'uitofp', 'fptosi', 'fpext', 'fptrunc'): return ('cv', v[0]) if v[0][0] != 'cv' else v[0]
        if x.iscall: return s.calls(f, x, st, v)
        return U
    def scal(s, x, w):
        if w[0] == 'H' or w == ('c', 0) and x.d.get('vt') == 'ptr': return w
        return ('sc', SCAL.get(x.d.get('vt'), x.d.get('vt')), w)
    def over(s, f, x, st, i):
        """the store of a value is about to be replaced"""
        pass
    def calls(s, f, x, st, v):
        m = st.mem; n = x.callee or ''
        if n in ('_Znwm', '_Znam'):
            k = (f.name, x.i); 
            if m.get(('h', k), (None,))[0] in ('made', 'raw'): k = (f.name, x.i, 'again')
            m[('h', k)] = ('raw', {32: STR, 24: ARR, 48: OBJ}.get(v[0][1]) if v[0][0] == 'c' else None, None); return ('H', k)
        if n in ('_ZdlPv', '_ZdlPvm'):
            w = v[0]
            if w[0] == 'H':
                h = m.get(('h', w[1]), (None,))
                if h[0] == 'made': s.bad('nodtor', f, x, 'storage is released without being destroyed first')
                elif h[0] == 'freed': s.bad('double', f, x, 'storage is released twice')
                m[('h', w[1])] = ('freed', h[1] if len(h) > 1 else None, None)
                if w[1] == ('o', 'this'): m['freed'] = True
            elif w != ('c', 0) and w[0] in ('sc', 'raw'): s.bad('delete', f, x, 'something else than storage of the value is released')
            return U
        if n.startswith('llvm.memcpy') or n == 'memcpy':
            d, q = v[0], v[1]
            s.danger(f, x, st, q)
            if d[0] == 'S' and q[0] == 'S':
                s.over(f, x, st, d[1]); m[('s', d[1])] = m.get(('s', q[1]), U); return U
            if d[0] == 'A': d = ('V', d)
            if d[0] == 'V' and q[0] == 'V':
                s.over(f, x, st, d[1])
                for k in 'ts': m[(k, d[1])] = m.get((k, q[1]), U)
            return U
        if n.startswith('llvm.'): return U
        if n.startswith('_ZSt4swap') and len(v) == 2:
            a, b = [('V', w) if w[0] == 'A' else w for w in v]
            if a[0] == b[0] and a[0] in 'VS':
                for k in ('s',) if a[0] == 'S' else ('t',) if 'value_type' in n else ('t', 's'):
                    x1, x2 = m.get((k, a[1]), U), m.get((k, b[1]), U); m[(k, a[1])] = x2; m[(k, b[1])] = x1
                return U
        k = kind_of_class(n)
        for w in v: s.danger(f, x, st, w)
        src = frozenset(q for w in v[1:] for q in s.prov(st, w))
        if k is not None and v and v[0][0] == 'H':
            w = v[0]; h = m.get(('h', w[1]), (None,)); ctor = re.search(r'C[12][EI]', n); dtor = re.search(r'D[0-2]Ev$', n)
            hk = h[1] if len(h) > 1 else None
            if ctor:
                if h[0] != 'raw': s.bad('ctor', f, x, 'storage is made twice')
                m[('h', w[1])] = ('made', k, src)
            elif dtor:
                if h[0] != 'made': s.bad('double', f, x, 'storage is destroyed twice')
                elif hk != k: s.bad('kind', f, x, 'storage of type %s is destroyed as %s' % (NAMES[hk], NAMES[k]))
                m[('h', w[1])] = ('gone', hk, None)
                if w[1] == ('o', 'this'): m['freed'] = True
            else:
                if h[0] != 'made': s.bad('dead', f, x, 'storage that was released is used')
                elif hk != k: s.bad('kind', f, x, 'storage of type %s is used as %s' % (NAMES[hk], NAMES[k]))
                elif src and w[1] not in (('o', 'this'), ('o', 'arg')): m[('h', w[1])] = (h[0], hk, (h[2] or frozenset()) | src)
                return ('in', w[1])
            return U
        if v and v[0][0] == 'H' and m.get(('h', v[0][1]), (None,))[0] == 'raw':
            # made in place from the result of a function
            m[('h', v[0][1])] = ('made', m[('h', v[0][1])][1], src); return U
        if v and v[0][0] == 'A': m[('pv', v[0])] = frozenset(m.get(('pv', v[0]), frozenset()) | src)
        if any(w[0] == 'V' for w in v) and not n.startswith(('_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu')): s.opaque = True
        p = frozenset(q for w in v for q in s.prov(st, w))
        return ('fr', p) if p else U
    def prov(s, st, w):
        if w[0] == 'arg' or w[0] == 'V': return [w]
        if w[0] == 'H': return [w] + list(st.mem.get(('h', w[1]), (0, 0, None))[2] or ())
        if w[0] == 'A': return list(st.mem.get(('pv', w), ()))
        if w[0] == 'fr': return list(w[1])
        return []
    def base(s, f, x, st, v):
        if x.op in ('sext', 'zext', 'trunc') and v[0][0] in ('arg', 'cv', 'sc', 'fr'): return v[0] if x.t != 'i1' or v[0][0] == 'sc' else None
        if x.op == 'icmp' and x.d['p'] in ('ne', 'eq') and v[0][0] == 'sc' and v[1] == ('c', 0): return v[0]
        return None
    def cond(s, f, c, truth, st):
        if c[0] != 'cmp' or c[1] not in ('eq', 'ne'): return [st]
        a, b = c[2], c[3]; eq = truth == (c[1] == 'eq')
        if a == ('c', 0): a, b = b, a
        if b == ('c', 0) and a[0] in ('H', 'V', 'A', 'S', 'in'): return [] if eq else [st]
        if a[0] == b[0] == 'V':
            if a[1] == b[1]: return [st] if eq else []
            if {a[1], b[1]} == {'this', 'arg'}: return [] if eq else [st]      # assignment to itself: see same
            return [] if eq else [st]
        if a[0] == 'c' and b[0] == 'c': return [st]
        return [st]
    def returned(s, f, x, st, v):
        # values on the stack of the activation end with it
        if f.name != s.fn.name:
            for k in [k for k in st.mem if isinstance(k, tuple) and k[0] in ('t', 's') and isinstance(k[1], tuple) and k[1][1] == f.name]: pass
        return v

def expected(name, dem):
    """(type, what the contents come from) that a constructor or an assignment stores, by its parameter"""
    a = re.search(r'\((.*)\)( const)?$', dem).group(1)
    if a == '': return NULL
    if a == 'rexjson::value const&': return 'copy'
    if a == 'rexjson::value&': return 'move'
    if a == 'bool': return BOOL
    if a in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'): return INT
    if a == 'double': return REAL
    if a == 'char const*' or a.startswith('std::__cxx11::basic_string'): return STR
    if a.startswith('std::map<'): return OBJ
    if a == 'rexjson::array const&': return ARR
    return None

def heap(t, i): return {('t', i): ('c', t), ('s', i): ('H', ('o', i)) if t in OWN else ('c', 0) if t == NULL else ('sc', t, ('init', i))}

def check_value(c):
    c.rule('whenever a member function of a value returns, the storage of every value is the storage its type names, owned by that value alone and released exactly once when it is replaced; contents are handed out only as what they are')
    import subprocess
    m = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    names = [n for n in m.fns if re.match(r'_ZNK?7rexjson5value(?!_)', n)]
    dem = dict(zip(names, subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')))
    tot = 0
    for n in sorted(names):
        d = dem[n]; f = m.fn(n)
        short = re.match(r'rexjson::value::(~?[\w\[\]:=\s]*?(\[abi:cxx11\])?)\(', d)
        if 'get_typename' in d and 'unsigned int' in d: continue
        if f.nargs < 1: continue
        base = re.sub(r'\[abi:cxx11\]', '', d[len('rexjson::value::'):d.index('(', 16)]) if not d.startswith('rexjson::value::operator[]') else 'operator[]'
        ctor = base == 'value'; dtor = base == '~value' or base == 'destroy'
        if base in ('get', 'get_value', 'get_v') or d.startswith(('void ', 'bool ')): continue
        const = n.startswith('_ZNK')
        kind = expected(n, d) if ctor or base in ('operator=', 'move') else None
        sret = f.nargs > 0 and bool(re.match(r'(get_typename|to_string|write)', base))
        if sret: continue
        c.seen(f); tot += 1
        args = [None] * f.nargs
        vals = kind in ('copy', 'move') or base == 'push_back'
        for t in ([None] if ctor else range(7)):
            for t2 in (range(7) if vals else [None]):
                for same in ((False, True) if vals and not ctor and base == 'operator=' and t == t2 else (False,)):
                    S = Val(m, f, ctor)
                    mem = {('fr',): ()}
                    if ctor: mem.update({('t', 'this'): ('raw',), ('s', 'this'): ('raw',)})
                    else:
                        mem.update(heap(t, 'this'))
                        if t in OWN: mem[('h', ('o', 'this'))] = ('made', t, frozenset())
                    env = {0: ('V', 'this')}
                    if vals and not same:
                        mem.update(heap(t2, 'arg')); env[1] = ('V', 'arg')
                        if t2 in OWN: mem[('h', ('o', 'arg'))] = ('made', t2, frozenset())
                    elif same: env[1] = ('V', 'this')
                    elif f.nargs > 1: env[1] = ('arg', 1)
                    for i in range(2, f.nargs): env[i] = ('arg', i)
                    res = S.solve(f, St(env, mem, {'z': 0}))
                    c.ob('entry states'); c.ob('abstract states', S.visited)
                    w = d if len(d) < 60 else base
                    lab = base + ('' if not isinstance(kind, int) else '-' + NAMES[kind])
                    for k, (wh, msg) in S.errs.items(): c.bad('%s:%s' % (lab, k), wh, 'value::%s: %s' % (base, msg))
                    if S.opaque or S.errs: continue
                    for rv, mm, g in res:
                        mm = dict(mm); c.ob('ends')
                        judge(c, f, lab, base, kind, const, ctor, dtor, t, t2, vals, same, rv, mm)
    c.ob('member functions', tot)
    if not c.viol: c.atleast('member functions', 15)

def judge(c, f, lab, base, kind, const, ctor, dtor, t, t2, vals, same, rv, mm):
    def bad(k, msg): c.bad('%s:%s' % (lab, k), f.where(), 'value::%s: %s' % (base, msg))
    owner = {}
    def consistent(i):
        ty, sv = mm.get(('t', i)), mm.get(('s', i))
        if ty is None or ty[0] != 'c':
            if dtor and i == 'this': return None
            bad('notype', 'a value is left without a type'); return None
        ty = ty[1]
        if not 0 <= ty < 7: bad('type', 'a value is left with an unknown type'); return None
        if sv[0] == 'H' and ty in OWN:
            if sv[1] in owner: bad('shared', 'two values own the same storage'); return ty
            owner[sv[1]] = i
        if ty in OWN:
            if sv[0] != 'H': bad('store', 'a value of type %s does not have storage of that type' % NAMES[ty]); return ty
            h = mm.get(('h', sv[1]), (None,))
            if h[0] != 'made': bad('dangling', 'a value of type %s keeps storage that was released' % NAMES[ty]); return ty
            if h[1] != ty: bad('store', 'a value of type %s has storage of type %s' % (NAMES[ty], NAMES[h[1]]))
        elif ty != NULL:
            if sv[0] == 'sc' and sv[1] != ty: bad('store', 'a value of type %s holds %s' % (NAMES[ty], NAMES[sv[1]] if isinstance(sv[1], int) else sv[1]))
            elif sv[0] not in ('sc', 'c') and sv != U: bad('store', 'a value of type %s does not hold one' % NAMES[ty])
            elif sv[0] == 'c' and False: pass
        return ty
    ids = ['this'] + (['arg'] if vals and not same else [])
    ids += [k[1] for k in mm if isinstance(k, tuple) and k[0] == 't' and k[1] not in ids]
    ty = {i: consistent(i) for i in ids}
    for k, h in mm.items():
        if isinstance(k, tuple) and k[0] == 'h' and h[0] == 'made' and k[1] not in owner: bad('leak', 'storage of type %s is lost' % NAMES[h[1]])
        if isinstance(k, tuple) and k[0] == 'h' and h[0] == 'gone': bad('notfreed', 'storage is destroyed but not released')
        if isinstance(k, tuple) and k[0] == 'h' and h[0] == 'raw': bad('raw', 'storage is allocated but not made')
    for i in ids:
        if isinstance(i, tuple) and ty.get(i) in OWN and mm.get(('s', i), U)[0] == 'H': bad('temp', 'a temporary value keeps its storage')
    if dtor:
        if ty.get('this') not in (NULL, None): bad('destroyed', 'a destroyed value is not null')
        return
    def same_as(i, t_):
        """value i is as it was when the function was entered"""
        return ty.get(i) == t_ and (t_ == NULL or mm.get(('s', i)) == (('H', ('o', i)) if t_ in OWN else ('sc', t_, ('init', i))))
    if vals and not same and kind != 'move' and not same_as('arg', t2): bad('argchanged', 'the value given is changed')
    if kind is None:
        if not ctor and not same_as('this', t): bad('changed', 'the value is changed')
    elif kind == 'copy':
        if same:
            sv = mm[('s', 'this')]
            if not same_as('this', t) and not (ty['this'] == t and t in OWN and sv[0] == 'H' and ('H', ('o', 'this')) in (mm.get(('h', sv[1]), (0, 0, None))[2] or ())): bad('self', 'assigning a value to itself changes it')
        elif ty['this'] != t2: bad('copytype', 'a copy of a value of type %s has another type' % NAMES[t2])
        elif t2 in OWN:
            sv = mm[('s', 'this')]; h = mm.get(('h', sv[1]), (0, 0, None))
            if ('H', ('o', 'arg')) not in (h[2] or ()) and ('V', 'arg') not in (h[2] or ()): bad('copy', 'a copy of a value of type %s does not have its contents' % NAMES[t2])
        elif t2 != NULL and mm[('s', 'this')] != ('sc', t2, ('init', 'arg')) and mm[('s', 'this')][0] == 'sc' and mm[('s', 'this')][2] not in (('sc', t2, ('init', 'arg')),): bad('copy', 'a copy of a value of type %s does not have its contents' % NAMES[t2])
    elif kind == 'move':
        if ty['this'] != t2: bad('movetype', 'a value moved has another type')
        elif t2 in OWN and mm[('s', 'this')] != ('H', ('o', 'arg')): bad('move', 'a value moved does not take its contents along')
        elif t2 not in OWN and t2 != NULL and mm[('s', 'this')] != ('sc', t2, ('init', 'arg')): bad('move', 'a value moved does not take its contents along')
        if ty.get('arg') != NULL: bad('moved', 'a value is not null after it was moved from')
    else:
        if ty['this'] != kind: bad('settype', 'the value made from a %s is of type %s' % (NAMES[kind], NAMES[ty['this']] if ty['this'] is not None else '?'))
        elif kind in OWN:
            h = mm.get(('h', mm[('s', 'this')][1]), (0, 0, None))
            if ('arg', 1) not in (h[2] or ()): bad('set', 'the value does not hold the %s given' % NAMES[kind])
        elif kind != NULL:
            sv = mm[('s', 'this')]; w = sv[2] if sv[0] == 'sc' else sv
            if w[0] == 'cv': w = w[1]
            if w != ('arg', 1): bad('set', 'the value does not hold the %s given' % NAMES[kind])
    # accessors
    want = {'get_str': STR, 'get_obj': OBJ, 'get_array': ARR, 'get_bool': BOOL, 'get_int': INT, 'get_int64': INT, 'get_real': REAL}.get(base)
    if want is not None:
        if t != want and not (base == 'get_real' and t == INT): bad('access', 'a value of type %s is handed out as %s' % (NAMES[t], NAMES[want])); return
        sv = mm[('s', 'this')]; w = rv
        if w and w[0] == 'cv': w = w[1]
        if w != sv and w != U and w is not None: bad('handout', 'something else than the contents is handed out')
        if w == U and t in OWN: bad('handout', 'something else than the contents is handed out')
    if base == 'get_type' and rv != ('c', t): bad('gettype', 'the type reported is not the type of the value')
    if base == 'is_null' and rv is not None and rv[0] == 'c' and bool(rv[1]) != (t == NULL): bad('isnull', 'is_null is wrong for a value of type %s' % NAMES[t])
    if base in ('push_back', 'operator[]'):
        need = ARR if base == 'push_back' else None
        if need is not None and t != need or need is None and t not in (ARR, OBJ): bad('access', 'an element of a value of type %s is handed out' % NAMES[t])

CHECKS = {'J03': check_value}
