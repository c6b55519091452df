"""rexjsonrpc, requests: which method is called with what, and what the answer says."""
import re
import ir
from ir import AnalysisBroken
from common import *
from rsm import *
from jsoncpp import demangle
from jsonw import gbytes

NULL, OBJ, ARR, STR, BOOL, INT, REAL = range(7)
STRING = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'

def plain(d):
    """the name without template arguments and parameters, and the parameters"""
    d = d.replace('[abi:cxx11]', ''); k = d.replace('operator->', 'operator@@').replace('operator<<', 'operator##').replace('operator<', 'operator#')
    depth = 0; out = ''; i = 0
    while i < len(k):
        ch = k[i]
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif depth == 0:
            if ch == '(':
                if k.startswith('()', i) and out.endswith('operator'): out += '()'; i += 2; continue
                if not k.startswith('(anonymous', i): break
            out += ch
        i += 1
    out = out.replace('@@', '->').replace('##', '<<').replace('#', '<').strip()
    for w in (' std::', ' rexjson::'):
        if w in out: out = out[out.rindex(w) + 1:]
    return out, k[i:]

class Rpc(RSM):
    """terms: ('req',) the request, ('m', key) a member of it, ('obj', entries) an object made here, ('res',) / ('thrown',) what the method
    returned / threw, ('strv', s), ('arrval', a), ('null',), ('c', n).  places hold terms in mem[('val', place)]."""
    LIMIT = 20000
    def __init__(s, m, d, exp):
        super().__init__(m); s.d = d; s.exp = exp; s.calls = 0; s.raises = 0; s.names = {}
    def volatile(s, v): return False
    def target(s, f, x, st, v):
        n = s.body(x.callee)
        if n not in s.m.fns: return None
        k = s.d.get(n, '').split('(')[0]
        return s.m.fn(n) if k.startswith('rexjson::rpc_server') or '{lambda' in k and 'rpc_server' in k else None
    def body(s, n):
        if not n or n in s.m.fns: return n
        for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
            if a in n and n.replace(a, b) in s.m.fns: return n.replace(a, b)
        return n
    # ---- terms
    def content(s, st, w):
        if w[0] == 'req': return w
        if w[0] == 'mem': return s.member(w[1], w[2])
        return st.mem.get(('val', w), U)
    def member(s, t, k):
        if t == ('req',): return ('m', k)
        if t[0] == 'obj': return dict(t[1]).get(k, U)
        return U
    def has(s, st, t, k):
        if t[0] == 'obj': return k in dict(t[1])
        return st.mem.get(('has', t, k))
    def obj(s, st, loc):
        if loc == ('EX', 'obj'): return ('thrown',)
        ks = st.mem.get(('map', loc))
        if ks is None: return U
        return ('obj', frozenset((k, st.mem.get(('val', ('slot', loc, k)), U)) for k in ks))
    def ty(s, st, t):
        k = {'null': NULL, 'obj': OBJ, 'strv': STR, 'arrval': ARR, 'c': INT, 'thrown': OBJ}.get(t[0])
        if k is not None: return frozenset([k])
        return st.mem.get(('ty', t), frozenset(range(7)))
    def only(s, st, t, ks):
        r = s.ty(st, t) & ks
        if not r: return None
        if t[0] in ('req', 'm', 'P'): st.mem[('ty', t)] = r
        return st
    def string(s, st, w):
        if w[0] == 'cstr': return w[1]
        if w[0] == 'strof': return ('s', w[1]) if w[1][0] != 'strv' else w[1][1]
        if w[0] == 'argstr': return ('P', w[1])
        return st.mem.get(('str', w), U)
    def literal(s, w):
        if w[0] == 'g':
            b = gbytes(s.m, w[1])
            if b is not None: return ('lit', bytes(b).split(b'\0')[0].decode('latin-1'))
        if w[0] == 'cstr': return w[1]
        return U
    # ---- conditions
    def cond(s, f, c, truth, st):
        if c[0] == 'both': pass
        if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            a, b = c[2], c[3]; eq = (c[1] == 'eq') == truth
            if b[0] in ('ty', 'it', 'sel', 'fit') and a[0] in ('c', 'end', 'tid', 'fend'): a, b = b, a
            if a[0] == 'ty' and b[0] == 'c':
                r = s.only(st, a[1], frozenset([b[1]]) if eq else frozenset(range(7)) - {b[1]})
                return [r] if r else []
            if a[0] == 'it' and b[0] == 'end':
                h = s.has(st, a[1], a[2])
                if h is not None: return [st] if h != eq else []
                if a[1] == ('req',): st.mem[('has', a[1], a[2])] = not eq
                return [st]
            if a[0] == 'fit' and b[0] == 'fend':
                h = st.mem.get(('reg', a[1]))
                if h is not None: return [st] if h != eq else []
                st.mem[('reg', a[1])] = not eq
                return [st]
            if a[0] == 'cnt' and b[0] == 'c' and b[1] == 0:
                h = s.has(st, a[1], a[2])
                if h is not None: return [st] if h != eq else []
                st.mem[('has', a[1], a[2])] = not eq
                return [st]
            if a[0] == 'fcnt' and b[0] == 'c' and b[1] == 0:
                h = st.mem.get(('reg', a[1]))
                if h is not None: return [st] if h != eq else []
                st.mem[('reg', a[1])] = not eq
                return [st]
            if a[0] == 'sel' and b[0] == 'tid':
                h = s.catches(b[1], a[1])
                return [st] if h is None or h == eq else []
            if a[0] in ('slen', 'fnset') and b == ('c', 0):
                k = ('set', a); h = st.mem.get(k)
                if h is not None: return [st] if h != eq else []
                st.mem[k] = not eq
                return [st]
        if c[0] == 'cmp' and c[1] == 'ugt' and c[3] == ('c', 0): return s.cond(f, ('cmp', 'ne', c[2], c[3]), truth, st)
        return [st]
    def catches(s, ti, kind):
        if ti is None: return True
        if kind == 'other': return False
        if ti.startswith('_ZTISt3map'): return kind == 'obj'
        if kind == 'obj': return False
        if ti == '_ZTISt9exception': return True
        return None
    # ---- exceptions
    def throw(s, st, kind, x, why):
        s.raises += 1
        q = st.copy(); q.g['exc'] = why
        return (q, ('exc', kind, x))
    def base(s, f, x, st, v):
        if x.op == 'landingpad': return ('lp', st.mem.get(('cur',)))
        if x.op == 'extractvalue' and v[0][0] == 'lp' and v[0][1]:
            return ('ep', v[0][1]) if x.d.get('idx') == [0] else ('sel', v[0][1][1])
        if x.op in ('zext', 'sext', 'trunc') and x.t != 'i1' and v[0][0] in ('ty', 'mode', 'cnt', 'fcnt', 'slen'): return v[0]
        return None
    def merge(s, f, x, v, st): return v
    def stored_fn(s, f, x, st, key, w):
        if st.g['added']: s.bad('twice', f, x, 'add registers twice'); return
        st.g['added'] = (key, w)
    def inst(s, f, x, st, v):
        op = x.op; m = st.mem
        if op == 'alloca': return ('A', f.name[-24:], x.i)
        if op == 'getelementptr':
            p = v[0]
            o = sum(q[3] for q in x.d['path'] if q[0] == 'f')
            if p == ('self',) or p[0] == 'F': return ('F', (p[1] if p[0] == 'F' else 0) + o)
            if p[0] == 'node' and o == 32: return ('mem', p[1], p[2])
            if p[0] == 'fnode' and o == 32: return ('fn', p[1])
            return p if o == 0 and all(q[0] == 'f' or q[1] == ['c', 0] for q in x.d['path']) else U
        if op == 'load': return m.get(('v', v[0]), U) if v[0][0] == 'A' else U
        if op == 'store':
            if v[1][0] == 'A': m[('v', v[1])] = v[0]
            return U
        if not x.iscall: return U
        n = s.body(x.callee or ''); d = s.d.get(n, n)
        if n not in s.names: s.names[n] = plain(d)
        nm, par = s.names[n]
        if n.startswith('llvm.eh.typeid'): return ('tid', v[0][1] if v[0][0] == 'g' else None)
        if n.startswith('llvm.'): return U
        if n == '__cxa_allocate_exception': return ('X', f.name[-24:], x.i)
        if n == '__cxa_throw':
            ti = v[1][1] if v[1][0] == 'g' else ''
            kind = 'obj' if ti.startswith('_ZTISt3map') else 'std' if ti.startswith('_ZTISt') else 'other'
            return [s.throw(st, kind, v[0], st.g['exc'] or 'refused')]
        if n == '__cxa_rethrow':
            w = m.get(('caught',), ('exc',) + U); return [(st, w)]
        if n == '__cxa_begin_catch':
            w = v[0][1] if v[0][0] == 'ep' else None
            if w: m[('caught',)] = w; return w[2]
            return U
        if n.startswith('__cxa_'): return U
        if not x.callee:
            if v and v[0][0] in ('X', 'EX'): return ('cstr', ('what', v[0]))
            return U
        last = nm.split('::')[-1]
        # strings
        if nm.startswith('std::__cxx11::basic_string::'):
            if last.startswith('basic_string'):
                w = v[1] if len(v) > 1 else ('g', '')
                m[('str', v[0])] = s.literal(w) if s.literal(w) != U else s.string(st, w); return U
            if last.startswith('~'): m.pop(('str', v[0]), None); return U
            if last in ('empty', 'size', 'length'):
                w = s.string(st, v[0])
                return U if w == U else ('cmp', 'eq', ('slen', w), ('c', 0)) if last == 'empty' else ('slen', w)
            if last in ('operator=', 'assign') and len(v) == 2:
                w = s.literal(v[1]); m[('str', v[0])] = w if w != U else s.string(st, v[1]); return v[0]
            if last in ('c_str', 'data'):
                w = s.string(st, v[0]); return ('cstr', w) if w != U else U
            if v and v[0][0] == 'A' and last not in ('begin', 'end', 'compare', 'find'): m.pop(('str', v[0]), None)
            return U
        # arrays
        if nm.startswith('rexjson::array::') or nm.startswith('std::vector::') and 'rexjson::value' in d:
            if last in ('array', 'vector'):
                m[('arr', v[0])] = s.array(st, v[1]) if len(v) > 1 else ('empty',); return U
            if last in ('operator=', 'swap') and len(v) == 2: m[('arr', v[0])] = s.array(st, v[1]); return v[0]
            if last.startswith('~'): m.pop(('arr', v[0]), None); return U
            if last in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'capacity', 'reserve'): return U
            m[('arr', v[0])] = U
            return U
        # values
        if nm.startswith('rexjson::value::'):
            if last == 'value' or last in ('operator=', 'set_object', 'set_array', 'set_str'):
                t = ('null',)
                if len(v) > 1:
                    a = par
                    w = v[1]
                    if 'std::map<' in a: t = s.obj(st, w)
                    elif 'array' in a: t = ('arrval', s.array(st, w))
                    elif 'basic_string' in a: t = ('strv', s.string(st, w)) if s.string(st, w) != U else U
                    elif 'char const*' in a: t = ('strv', s.literal(w)) if s.literal(w) != U else U
                    elif 'rexjson::value' in a: t = s.content(st, w)
                    else: t = w if w[0] == 'c' else U
                m[('val', v[0])] = t
                return v[0]
            if last.startswith('~'): m.pop(('val', v[0]), None); return U
            if last == 'read':
                src = s.string(st, v[1]) if len(v) > 1 else U
                q = s.throw(st, 'std', ('EX', 'read'), 'read')
                m[('val', v[0])] = ('req',) if src == ('P', 'text') else U
                return [(st, v[0]), q]
            t = s.content(st, v[0])
            if last in ('get_type', 'type'): return ('ty', t) if t != U else U
            if last in ('is_null',): return ('cmp', 'eq', ('ty', t), ('c', NULL)) if t != U else U
            k = {'get_obj': OBJ, 'get_array': ARR, 'get_str': STR, 'get_int': INT, 'get_int64': INT, 'get_bool': BOOL}.get(last)
            if k is not None:
                out = []
                q = s.only(st.copy(), t, frozenset(range(7)) - {k})
                if q is not None: out.append(s.throw(q, 'std', ('EX', 'acc'), 'acc'))
                q = s.only(st.copy(), t, frozenset([k]))
                if q is not None: out.append((q, {OBJ: ('objof', t), ARR: ('arrof', t), STR: ('strof', t)}.get(k, U)))
                return out
            if last == 'operator[]' and len(v) > 1:
                k = s.string(st, v[1])
                if t[0] in ('req', 'obj') and k[0] == 'lit' and s.has(st, t, k[1]): return ('mem', t, k[1])
                if t[0] in ('req',): s.bad('req-change', f, x, 'the request is looked into in a way that may change it or fail')
                return U
            if last in ('swap', 'move') and v[0][0] in ('A', 'slot', 'sret') and len(v) > 1:
                m[('val', v[0])] = s.content(st, v[1]); m[('val', v[1])] = ('null',); return U
            return U
        # iterators
        if ('_iterator::' in nm or 'operator' in last and '_iterator<' in d) and v and 'reverse' not in d:
            a = [m.get(('v', w), w) if w[0] == 'A' else w for w in v]
            if last in ('operator->', 'operator*'):
                w = a[0]
                if w[0] == 'it':
                    if not s.has(st, w[1], w[2]): s.bad('absent', f, x, 'a member of the request is used that may not be there'); return []
                    return ('node', w[1], w[2])
                if w[0] == 'fit':
                    if not m.get(('reg', w[1])): s.bad('unregistered', f, x, 'a method is used that may not be registered'); return []
                    return ('fnode', w[1])
                return U
            if last in ('operator==', 'operator!=') and len(a) > 1: return ('cmp', 'eq' if last == 'operator==' else 'ne', a[0], a[1])
            if last.startswith('_Rb_tree') and len(a) > 1: m[('v', v[0])] = a[1]; return U
            return U
        # objects and the map of the methods
        if nm.startswith('std::map::'):
            loc = v[0]
            if loc[0] == 'F' or loc == ('self',):
                if last == 'find': return ('fit', s.string(st, v[1]))
                if last in ('end', 'cend'): return ('fend',)
                if last in ('count', 'contains'): return ('fcnt', s.string(st, v[1]))
                if last == 'operator[]': return ('fslot', s.string(st, v[1]))
                if last == 'at':
                    k = s.string(st, v[1]); h = m.get(('reg', k)); out = []
                    if h is not True:
                        q = st.copy(); q.mem[('reg', k)] = False; out.append(s.throw(q, 'std', ('EX', 'acc'), 'acc'))
                    if h is not False: m[('reg', k)] = True; out.append((st, ('fn', k)))
                    return out
                if last == 'insert_or_assign': s.stored_fn(f, x, st, s.string(st, v[-2]), v[-1]); return U
                return U
            if last.startswith('~'):
                for k in m.pop(('map', loc), ()): m.pop(('val', ('slot', loc, k)), None)
                return U
            if last == 'map':
                m[('map', loc)] = frozenset()
                if len(v) > 1:
                    t = s.obj(st, v[1])
                    if t[0] == 'obj':
                        m[('map', loc)] = frozenset(k for k, w in t[1])
                        for k, w in t[1]: m[('val', ('slot', loc, k))] = w
                    else: m.pop(('map', loc))
                return U
            t = loc[1] if loc[0] == 'objof' else None
            if t is not None:
                k = s.string(st, v[1]) if len(v) > 1 else U
                if last in ('end', 'cend'): return ('end',)
                if last == 'find' and k[0] == 'lit': return ('it', t, k[1])
                if last in ('count', 'contains') and k[0] == 'lit': return ('cnt', t, k[1])
                if last == 'at' and k[0] == 'lit':
                    h = s.has(st, t, k[1]); out = []
                    if h is not True:
                        q = st.copy(); q.mem[('has', t, k[1])] = False; out.append(s.throw(q, 'std', ('EX', 'acc'), 'acc'))
                    if h is not False:
                        if t == ('req',): m[('has', t, k[1])] = True
                        out.append((st, ('mem', t, k[1])))
                    return out
                return U
            if last == 'operator[]':
                k = s.string(st, v[1])
                if k[0] != 'lit' or m.get(('map', loc)) is None: m.pop(('map', loc), None); return U
                if k[1] not in m[('map', loc)]: m[('map', loc)] |= {k[1]}; m[('val', ('slot', loc, k[1]))] = ('null',)
                return ('slot', loc, k[1])
            if last == 'operator=' and len(v) > 1:
                t = s.obj(st, v[1])
                if t[0] == 'obj':
                    m[('map', loc)] = frozenset(k for k, w in t[1])
                    for k, w in t[1]: m[('val', ('slot', loc, k))] = w
                else: m.pop(('map', loc), None)
                return loc
            return U
        if last in ('operator==', 'operator!=') and 'std::function<' in par and v: return ('cmp', 'eq' if last == 'operator==' else 'ne', ('fnset', v[0] if v[0] != ('c', 0) else v[1]), ('c', 0))
        if nm.startswith('std::function::'):
            if last == 'operator()' and len(v) >= 4: return s.method(f, x, st, v)
            if last == 'operator bool': return ('cmp', 'ne', ('fnset', v[0]), ('c', 0))
            if last == 'operator=' and v[0][0] == 'fslot': s.stored_fn(f, x, st, v[0][1], v[1]); return v[0]
            if last == 'function' and len(v) > 1 and v[1][0] in ('fn', 'argfn'): m[('v', v[0])] = v[1]
            return U
        return U
    def array(s, st, w):
        if w[0] == 'arrof': return w[1][1] if w[1][0] == 'arrval' else w[1]
        if w[0] == 'argarr': return ('P', w[1])
        return st.mem.get(('arr', w), U)
    def method(s, f, x, st, v):
        s.calls += 1; e = s.exp
        fn = st.mem.get(('v', v[1]), v[1])
        if st.g['called']: s.bad('again', f, x, 'a request calls a method twice'); return []
        if fn != ('fn', e['method']): s.bad('method', f, x, 'another method is called than the one the request names'); return []
        want = e['params']
        if want == ('m', 'params'):
            h = s.has(st, ('req',), 'params')
            if h is None: s.bad('params-lost', f, x, 'a method is called without a look for the parameters of the request'); return []
            if not h: want = ('empty',)
        if s.array(st, v[2]) != want: s.bad('params', f, x, 'the method does not get the parameters of the request'); return []
        if v[3] != ('mode',): s.bad('mode', f, x, 'the method is not called in the mode asked for'); return []
        st.g['called'] = 1
        out = [s.throw(st, k, ('EX', k), 'method') for k in ('obj', 'std', 'other')]
        st.mem[('val', v[0])] = ('res',)
        return [(st, U)] + out

def code_ok(R, st, code):
    """what must be known for this error code"""
    t = ('req',); ty = lambda w: R.ty(st, w)
    ps = R.has(st, t, 'params'); ms = R.has(st, t, 'method')
    if R.exp['kind'] == 'C': req = None
    bad_obj = OBJ not in ty(t)
    bad_params = ps is True and ARR not in ty(('m', 'params'))
    no_method = ms is False
    bad_method = ms is True and STR not in ty(('m', 'method'))
    unknown = st.mem.get(('reg', R.exp['method'])) is False
    return {-32700: bad_obj, -32600: bad_params or no_method or bad_method, -32601: unknown}.get(code, False)

def check_rpc(c):
    c.rule('Every request is answered with result, id and error; the method named gets the parameters and the mode; what is thrown as an object or std::exception ends up in the answer.')
    m = c.mod('cxx', pipe='plain', extra_boundary=('*noinline*',))
    d = demangle(m); by = {}
    for n in sorted(m.fns):
        k = d.get(n, n)
        if k.startswith('rexjson::rpc_server<verif_server>::'): by.setdefault(k[len('rexjson::rpc_server<verif_server>::'):].replace('[abi:cxx11]', ''), n)
    V = 'rexjson::value const&'; MODE = 'rexjson::rpc_exec_mode'
    roots = [('A', 'call(%s, %s)' % (V, MODE), [('sret',), ('self',), ('req',), ('mode',)]),
             ('B', 'call(%s const&, %s)' % (STRING, MODE), [('sret',), ('self',), ('argstr', 'text'), ('mode',)]),
             ('C', 'call(%s const&, %s, rexjson::array const&, %s)' % (STRING, V, MODE), [('sret',), ('self',), ('argstr', 'name'), ('argval', 'id'), ('argarr', 'params'), ('mode',)])]
    what = {'A': 'call of a value', 'B': 'call of a text', 'C': 'call by name'}
    for kind, name, args in roots:
        n = by.get(name)
        if n is None: raise AnalysisBroken('rpc_server::%s not found' % name)
        f = m.fn(n); c.seen(f)
        exp = {'kind': kind, 'method': ('P', 'name') if kind == 'C' else ('s', ('m', 'method')), 'params': ('P', 'params') if kind == 'C' else ('m', 'params')}
        R = Rpc(m, d, exp)
        st = St({i: w for i, w in enumerate(args)}, {('val', ('argval', 'id')): ('P', 'id')}, {'called': 0, 'exc': None, 'added': None})
        nr = 0; called = 0
        for rv, mm, g in R.solve(f, st):
            q = St({}, dict(mm), dict(g)); g = q.g
            if rv and rv[0] == 'exc':
                if rv[1] != 'other' and g['exc'] is not None: R.bad('escapes', f, None, 'an exception %s leaves the call instead of being answered' % {'method': 'of the method', 'read': 'of the parser'}.get(g['exc'], 'that refuses the request'))
                continue
            nr += 1
            r = q.mem.get(('val', ('sret',)), U)
            if r[0] != 'obj': R.bad('answer', f, None, 'the answer is not the object made for it'); continue
            e = dict(r[1]); lost = [k for k in ('result', 'id', 'error') if k not in e]
            if lost: R.bad('answer', f, None, 'an answer has no %s' % lost[0]); continue
            if kind == 'C': ident = {('P', 'id')}
            else:
                h = R.has(q, ('req',), 'id')
                ident = {('m', 'id')} if h else {('null',)} if h is False else set()
            def error():
                er = e['error']
                if g['exc'] in ('method', 'acc', 'read') and q.mem.get(('caught',), (0, 0, 0))[1] == 'std':
                    z = dict(er[1]) if er[0] == 'obj' else {}
                    return z.get('message', U) == ('strv', ('what', q.mem[('caught',)][2])) and z.get('code') == ('c', -1)
                if g['exc'] == 'method': return er == ('thrown',)
                return None
            if g['called']:
                called += 1
                if e['id'] not in ident: R.bad('id', f, None, 'the answer does not have the id of the request'); continue
                if g['exc'] == 'method':
                    if e['result'] != ('null',): R.bad('result-err', f, None, 'an answer to a method that failed has a result')
                    elif not error(): R.bad('error', f, None, 'the error of the answer is not what the method threw')
                else:
                    if e['result'] != ('res',): R.bad('result', f, None, 'the result of the answer is not what the method returned')
                    elif e['error'] != ('null',): R.bad('error-ok', f, None, 'an answer to a method that succeeded has an error')
            else:
                if g['exc'] == 'read':
                    if not error() or e['result'] != ('null',): R.bad('error-read', f, None, 'a text that cannot be read is not answered with the error of the parser')
                    continue
                if e['error'] == ('null',): R.bad('lost', f, None, 'a request is answered without error though no method was called'); continue
                if e['result'] != ('null',): R.bad('result-err', f, None, 'an answer to a refused request has a result'); continue
                if e['id'] != ('null',) and e['id'] not in ident: R.bad('id', f, None, 'the answer does not have the id of the request'); continue
                z = dict(e['error'][1]) if e['error'][0] == 'obj' else {}
                if 'message' not in z or 'code' not in z: R.bad('refused', f, None, 'the error of a refused request has no message or code'); continue
                k = z['code']
                if k[0] != 'c' or not code_ok(R, q, k[1]): R.bad('refused', f, None, 'a request is refused with a code that does not say what is wrong with it (or though nothing is)')
        for k, (w, msg) in R.errs.items(): c.bad('call-%s-%s' % (kind, k), w, '%s: %s' % (what[kind], msg))
        if not R.errs and not called: c.bad('call-%s-never' % kind, f.where(), '%s: no method is ever called' % what[kind])
        c.ob('states', R.visited); c.ob('entries of requests'); c.ob('kinds of answers', nr); c.ob('exceptions raised', R.raises)
    # registration
    n = next((by[k] for k in sorted(by) if k.startswith('add(%s const&, std::function<' % STRING)), None)
    if n is None: raise AnalysisBroken('rpc_server::add not found')
    f = m.fn(n); c.seen(f)
    R = Rpc(m, d, {'kind': 'add', 'method': None, 'params': None})
    ok = 0
    for rv, mm, g in R.solve(f, St({0: ('self',), 1: ('argstr', 'name'), 2: ('argfn',)}, {}, {'called': 0, 'exc': None, 'added': None})):
        mm = dict(mm); g = dict(g)
        name = mm.get(('set', ('slen', ('P', 'name')))); fn = mm.get(('set', ('fnset', ('argfn',))))
        if rv and rv[0] == 'exc':
            if name is not False and fn is not False: R.bad('refused', f, None, 'a method is refused though it has a name and can be called')
            continue
        ok += 1
        if name is not True: R.bad('name', f, None, 'a method is registered without a name')
        elif fn is not True: R.bad('method', f, None, 'a method that cannot be called is registered')
        elif g['added'] is None: R.bad('lost', f, None, 'a method is not registered')
        elif g['added'] != (('P', 'name'), ('argfn',)): R.bad('wrong', f, None, 'another method is registered, or under another name')
    for k, (w, msg) in R.errs.items(): c.bad('add-%s' % k, w, msg)
    if not R.errs and not ok: c.bad('add-never', f.where(), 'no method is ever registered')
    c.ob('registrations')
CHECKS = {'J09': check_rpc}
