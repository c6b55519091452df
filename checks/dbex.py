"""The states of a grammar database: open, closed, compiled; what is refused in which."""
import os, re
import fe
from common import *

DB = 'rpadbex_s'
OKS = ('rpa_dbex_load', 'rpa_dbex_open', 'rpa_dbex_close', 'rpa_dbex_cfgset', 'rpa_dbex_cfgget', 'rpa_dbex_lasterror', 'rpa_dbex_lasterrorinfo')     # work on an open database

def api():
    """{function: (returns a pointer, returns an unsigned number)} of rpa/rpadbex.h that take a database first"""
    t = open(os.path.join(fe.REPO, 'rpa/rpadbex.h')).read(); r = {}
    for a, p, n in re.findall(r'^[ \t]*((?:const )?\w+)\s*(\**)\s*(rpa_dbex_\w+)\s*\(\s*(?:const )?rpadbex_t\b', t, re.M): r[n] = (bool(p), a.startswith('ru') or a.startswith('unsigned'))
    return r

def evaluate(e, leaf, v):
    """value of an integer expression when the leaf has the value v, or None"""
    if e == leaf: return v
    if not isinstance(e, tuple) or not e: return None
    if e[0] == 'c': return e[1]
    if e[0] in ('zx', 'sx', 'tr', 'trunc', 'zext', 'sext') and len(e) == 3: return evaluate(e[2], leaf, v)
    if e[0] in ('and', 'or', 'xor', 'lshr', 'shl') and len(e) == 3:
        a, b = evaluate(e[1], leaf, v), evaluate(e[2], leaf, v)
        if a is None or b is None: return None
        M = (1 << 64) - 1; a &= M; b &= M
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'lshr': a >> min(b, 63), 'shl': (a << min(b, 63)) & M}[e[0]]
    return None

FLIP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def both(fs):
    """facts, each in both directions"""
    return list(fs) + [(FLIP[q[0]], q[2], q[1]) for q in fs if len(q) == 3 and q[0] in FLIP]

def word(e):
    """the loads of words of the database an expression mentions"""
    return [a for a in subexprs(e) if a[0] == 'ld' and a[1][0] == 'fld' and a[1][2] == DB]

def check_states(c):
    c.rule('guards: in every function declared in rpa/rpadbex.h that takes a database, each access through the database is dominated by the comparison of the database with NULL, and each use of the table of rules by the comparison of the table with NULL (facts on the edges to the use)')
    c.rule('refusal: each result returned on a path where the database, or (except by load, open and the functions that neither need nor use it) the table of rules, is known to be NULL is -1, NULL, or 0 where the result is an unsigned number')
    c.rule('order: load acts only where the table is known to be NULL; the program and the offset of a rule are returned only where the compiled flag is known to be set; the flag is set only after relocation succeeded and open clears it and the table; a name is read only at an index known to be in range')
    m = c.mod('core'); A = api(); RO = m.field(DB, 'rules'); a0 = ('arg', 0)
    c.need(len(A) > 5, 'rpa/rpadbex.h declares no functions on a database')
    isr = lambda a: a[0] == 'ld' and a[1][0] == 'fld' and a[1][1] == a0 and a[1][2:4] == (DB, 'rules')
    def direct(a):
        while a[0] in ('fld', 'idx'): a = a[1]
        return a == a0
    fns = {}
    for n, (ptr, uns) in sorted(A.items()):
        f = m.fns.get(n)
        if f is None or not f.insts(): continue
        fns[n] = f; c.seen(f); c.ob('functions of the interface')
        for x in f.insts('load', 'store', 'call'):
            fs = both(f.facts(x.b.id)); es = [f.expr(o) for o in x.ops]
            if x.op in ('load', 'store'):
                a = es[0] if x.op == 'load' else es[1]
                if direct(a):
                    c.ob('accesses to the database')
                    if ('ne', a0, ('c', 0)) not in fs: c.bad('%s:null' % n, f.where(x), '%s uses the database without comparing it with NULL' % n)
                addr = [a]
            else:
                if x.callee in A and x.callee in m.fns: es = es[1:] if es and es[0] == a0 else es
                elif a0 in es:
                    c.ob('accesses to the database')
                    if ('ne', a0, ('c', 0)) not in fs and n != 'rpa_dbex_destroy': c.bad('%s:null' % n, f.where(x), '%s hands the database to %s without comparing it with NULL' % (n, x.callee))
                addr = es
            if n == 'rpa_dbex_destroy': continue
            for e in addr:
                for a in {a for a in subexprs(e) if isr(a)}:
                    c.ob('uses of the table of rules')
                    if ('ne', a, ('c', 0)) not in fs: c.bad('%s:rules' % n, f.where(x), '%s uses the table of rules without comparing it with NULL' % n)
        for v, e, edges in ret_cases(f):
            if v is None: continue
            fs = both(case_facts(f, (v, e, edges)))
            why = 'the database is NULL' if ('eq', a0, ('c', 0)) in fs else 'the database is open' if n not in OKS and any(q[0] == 'eq' and isr(q[1]) and q[2] == ('c', 0) for q in fs) else None
            if not why: continue
            c.ob('refusals')
            good = ('c', 0) if ptr or uns else ('c', -1)
            if v != good and v[0] == 'c': c.bad('%s:refuse' % n, f.where(e), '%s returns %s when %s' % (n, pp(v), why))
    # load
    f = fns.get('rpa_dbex_load')
    if f:
        for x in f.insts('store', 'call'):
            if x.op == 'store':
                a = f.expr(x.ops[1])
                if not direct(a) or any(q[0] == 'fld' and q[2:4] == (DB, 'err') for q in subexprs(a)): continue
            elif (x.callee or '').startswith('llvm.'): continue
            c.ob('actions of load')
            if not any(q[0] == 'eq' and isr(q[1]) and q[2] == ('c', 0) for q in both(f.facts(x.b.id))): c.bad('rpa_dbex_load:closed', f.where(x), 'rpa_dbex_load acts on a database that may be closed')
    # the compiled flag
    f = fns.get('rpa_dbex_compile'); mask = None
    if f:
        for x in f.insts('store'):
            a = f.expr(x.ops[1]); v = f.expr(x.ops[0])
            if a[0] != 'fld' or a[1] != a0 or a[2] != DB or a[3] in ('err', 'rules', 'co'): continue
            w = [l for l in word(v) if l[1] == a]
            s = evaluate(v, w[0], 0) if w else v[1] if v[0] == 'c' else None
            if not s: continue
            mask = (a, s); c.ob('settings of the compiled flag')
            ok = any(q[0] in ('sge', 'eq', 'sgt') and q[1][0] == 'call' and q[1][1] == 'rvm_codegen_relocate' and q[2] == (('c', -1) if q[0] == 'sgt' else ('c', 0)) for q in both(f.facts(x.b.id)))
            if not ok: c.bad('rpa_dbex_compile:flag', f.where(x), 'rpa_dbex_compile marks the database compiled although the relocation may have failed')
        if mask is None: c.bad('rpa_dbex_compile:noflag', f.where(f.exits()[0]), 'rpa_dbex_compile does not mark the database compiled')
    if mask:
        a, bit = mask
        f = fns.get('rpa_dbex_open')
        if f:
            clear = []; zero = []
            for x in f.insts('store'):
                b = f.expr(x.ops[1]); v = f.expr(x.ops[0]); w = [l for l in word(v) if l[1] == b]
                if b == a:
                    r = evaluate(v, w[0], (1 << 64) - 1) if w else v[1] if v[0] == 'c' else None
                    if r is not None and not r & bit: clear.append(x)
                if b[0] == 'fld' and b[1] == a0 and b[2:4] == (DB, 'rules') and v == ('c', 0):
                    if all(q[0] == 'ne' and any(z == a0 or isr(z) for z in q[1:]) for q in f.facts(x.b.id)): zero.append(x)
            c.ob('effects of open', len(clear) + len(zero))
            for case in ret_cases(f):
                if case[0] is not None and case[0] != ('c', -1):
                    if not clear or path_to_case(f, case, clear): c.bad('rpa_dbex_open:flag', f.where(case[1]), 'rpa_dbex_open leaves the database marked compiled')
            if not zero: c.bad('rpa_dbex_open:rules', f.where(f.exits()[0]), 'rpa_dbex_open leaves the table of rules')
        for n, bad in (('rpa_dbex_executable', ('c', 0)), ('rpa_dbex_executableoffset', ('c', -1))):
            f = fns.get(n)
            if not f: continue
            for case in ret_cases(f):
                if case[0] == bad: continue
                c.ob('results of the program')
                def flag(q):
                    if q[0] != 'ne' or q[2] != ('c', 0): return False
                    w = [l for l in word(q[1]) if l[1] == a]
                    return bool(w) and not evaluate(q[1], w[0], ((1 << 64) - 1) & ~bit) and bool(evaluate(q[1], w[0], bit))
                if not any(flag(q) for q in both(case_facts(f, case))): c.bad('%s:compiled' % n, f.where(case[1]), '%s hands out code of a database that may not be compiled' % n)
    # names
    f = fns.get('rpa_dbex_name')
    if f:
        for x in f.insts('load'):
            for a in subexprs(f.expr(x.ops[0])):
                if a[0] == 'idx' and mentions(a[2], lambda z: z == ('arg', 1)):
                    fs = both(f.facts(x.b.id)); c.ob('names read')
                    up = any(q[0] in ('slt', 'ult') and q[1] == ('arg', 1) and q[2][0] == 'ld' for q in fs)
                    lo = any(q[0] == 'ult' and q[1] == ('arg', 1) or q[0] == 'sge' and q[1] == ('arg', 1) and q[2] == ('c', 0) or q[0] == 'sgt' and q[1] == ('arg', 1) and q[2] == ('c', -1) for q in fs)
                    if not up or not lo: c.bad('rpa_dbex_name:range', f.where(x), 'rpa_dbex_name reads a name at an index not known to be in range')
                    break
    c.atleast('functions of the interface', 12)

CHECKS = {'P06': check_states}
