"""JSON, the lexer description: the language of every token, decided by automata."""
import os, re, glob, subprocess
import fe
from ir import AnalysisBroken

TOP = 0x10ffff
NAMES = ('STRING', 'INT', 'NUMBER', 'TRUE', 'FALSE', 'NULL', 'COMMA', 'COLON', 'LEFTSB', 'RIGHTSB', 'LEFTCB', 'RIGHTCB', 'SPACE')
WHAT = {'STRING': 'string', 'INT': 'integer', 'NUMBER': 'number', 'TRUE': 'true', 'FALSE': 'false', 'NULL': 'null', 'COMMA': 'comma', 'COLON': 'colon',
        'LEFTSB': '[', 'RIGHTSB': ']', 'LEFTCB': '{', 'RIGHTCB': '}', 'SPACE': 'white space', None: 'no token'}

class Refused(Exception): pass

class Rex:
    """the grammar of the regular expressions (X06), to an NFA: list of states, each (epsilon targets, [(lo, hi, target)])"""
    ESC = {'r': '\r', 'n': '\n', 't': '\t', '0': '\0', 'f': '\f', 'v': '\v'}
    def __init__(s, text, nfa):
        s.t = text; s.i = 0; s.n = nfa
        s.skip()
    def skip(s):
        while True:
            if s.i < len(s.t) and s.t[s.i] in ' \t': s.i += 1
            elif s.t.startswith('\\\n', s.i): s.i += 2
            elif s.t.startswith('\\\r\n', s.i): s.i += 3
            else: return
    def pk(s): return s.t[s.i] if s.i < len(s.t) and s.t[s.i] not in '\r\n' else None
    def eat(s, blanks=True):
        ch = s.pk()
        if ch is not None: s.i += 1
        if blanks: s.skip()
        return ch
    def new(s): s.n.append(([], [])); return len(s.n) - 1
    def eps(s, a, b): s.n[a][0].append(b)
    # a fragment is a function building a copy of itself between two states
    def alt(s):
        r = [s.cat()]
        while s.pk() == '|': s.eat(); r.append(s.cat())
        if len(r) == 1: return r[0]
        def mk(a, b):
            for f in r:
                x, y = s.new(), s.new(); s.eps(a, x); s.eps(y, b); f(x, y)
        return mk
    def cat(s):
        r = [s.fac()]
        while s.pk() is not None and s.pk() not in '|)': r.append(s.fac())
        def mk(a, b):
            for f in r[:-1]:
                n = s.new(); f(a, n); a = n
            r[-1](a, b)
        return mk
    def fac(s):
        ch = s.pk()
        if ch is None or ch in '{}*?+])|': raise Refused('unexpected %r' % ch)
        f = s.atom()
        o = s.pk()
        lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}.get(o, (1, 1))
        if o is not None and o in '*+?': s.eat()
        elif o == '{':
            m = re.match(r'\{[ \t]*(\d+)[ \t]*(,[ \t]*(\d*)[ \t]*)?\}', s.t[s.i:])
            if not m: raise Refused('malformed count')
            lo = int(m.group(1)); hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
            if hi is not None and lo > hi or max(lo, hi or 0) > 64: raise Refused('count out of range')
            s.i += m.end(); s.skip()
        else: return f
        def mk(a, b):
            for k in range(lo):
                n = s.new(); f(a, n); a = n
            if hi is None:
                x, y = s.new(), s.new(); s.eps(a, x); f(x, y); s.eps(y, x); s.eps(x, b)
            else:
                s.eps(a, b)
                for k in range(hi - lo):
                    n = s.new(); f(a, n); a = n; s.eps(a, b)
        return mk
    def atom(s):
        ch = s.pk()
        if ch == '(':
            s.eat(); f = s.alt()
            if s.pk() != ')': raise Refused('missing )')
            s.eat(); return f
        if ch == '[': return s.cls()
        if ch == '.': s.eat(); return s.sets([(0, 9), (11, TOP)])
        ch = s.char(); s.skip()
        return s.sets([(ch, ch)])
    def char(s):
        ch = s.eat(False)
        if ch == '\\':
            ch = s.eat(False)
            if ch is None: raise Refused('nothing escaped')
            ch = s.ESC.get(ch, ch)
        return ord(ch)
    def one(s):
        ch = s.pk()
        if ch is None or ch in '[]-': raise Refused('unexpected %r in a class' % ch)
        if ch == '#':
            m = re.compile(r'#(?:[xX]([0-9a-fA-F]*)|0[xX]([0-9a-fA-F]*)|(0[0-7]*)|([1-9][0-9]*))').match(s.t, s.i)
            if not m: raise Refused('malformed number')
            s.i = m.end(); h = m.group(1) if m.group(1) is not None else m.group(2)
            return int(h or '0', 16) if h is not None else int(m.group(3), 8) if m.group(3) else int(m.group(4))
        return s.char()
    def cls(s):
        s.eat(False); neg = False; r = []
        if s.pk() == '^': neg = True; s.eat(False)
        while True:
            lo = hi = s.one()
            if s.pk() == '-': s.eat(False); hi = s.one()
            r.append((lo, hi))
            if s.pk() == ']': s.eat(); break
        if neg:
            q = []; at = 0
            for lo, hi in sorted(r):
                if lo > at: q.append((at, lo - 1))
                at = max(at, hi + 1)
            if at <= TOP: q.append((at, TOP))
            r = q
        return s.sets(r)
    def sets(s, r):
        def mk(a, b):
            for lo, hi in r:
                if lo <= hi: s.n[a][1].append((lo, min(hi, TOP), b))
        return mk

def oracle(st, ch):
    """the tokens of JSON (RFC 8259) as an automaton on characters; None: dead"""
    D = '0' <= ch <= '9'; H = D or 'a' <= ch <= 'f' or 'A' <= ch <= 'F'
    if st == 'start':
        if ch == '"': return 'str'
        if ch == '-': return 'minus'
        if ch == '0': return 'zero'
        if D: return 'int'
        if ch in 'tfn': return ch
        if ch in ' \t\r\n': return 'ws'
        return {',': 'COMMA', ':': 'COLON', '[': 'LEFTSB', ']': 'RIGHTSB', '{': 'LEFTCB', '}': 'RIGHTCB'}.get(ch)
    if st == 'str': return None if ch < ' ' else 'strend' if ch == '"' else 'esc' if ch == '\\' else 'str'
    if st == 'esc': return 'u0' if ch == 'u' else 'str' if ch in '"\\/bfnrt' else None
    if st in ('u0', 'u1', 'u2'): return 'u%d' % (int(st[1]) + 1) if H else None
    if st == 'u3': return 'str' if H else None
    if st == 'minus': return 'zero' if ch == '0' else 'int' if D else None
    if st in ('zero', 'int'): return 'int' if st == 'int' and D else 'dot' if ch == '.' else 'e' if ch in 'eE' else None
    if st == 'dot': return 'frac' if D else None
    if st == 'frac': return 'frac' if D else 'e' if ch in 'eE' else None
    if st == 'e': return 'sign' if ch in '+-' else 'exp' if D else None
    if st in ('sign', 'exp'): return 'exp' if D else None
    if st == 'ws': return 'ws' if ch in ' \t\r\n' else None
    for w in ('true', 'false', 'null'):
        if w.startswith(st) and w != st and w[len(st)] == ch: return st + ch
    return None
OTOK = dict({'strend': 'STRING', 'zero': 'INT', 'int': 'INT', 'frac': 'NUMBER', 'exp': 'NUMBER', 'ws': 'SPACE', 'true': 'TRUE', 'false': 'FALSE', 'null': 'NULL'},
            **{k: k for k in ('COMMA', 'COLON', 'LEFTSB', 'RIGHTSB', 'LEFTCB', 'RIGHTCB')})
MARKS = [0, 9, 10, 11, 13, 14] + sorted({c + k for c in range(32, 127) for k in (0, 1)}) + [0xd800, 0xe000, TOP + 1]

def numbers(prolog):
    """the numbers of the TOKEN_ macros, as the preprocessor has them"""
    r = {}; prolog = re.sub(r'^[ \t]*#[ \t]*include\b.*$', '', prolog, flags=re.M)
    names = re.findall(r'^[ \t]*#[ \t]*define[ \t]+TOKEN_(\w+)', prolog, flags=re.M)
    p = subprocess.run(['clang', '-E', '-P', '-x', 'c', '-'], input=prolog + '\n' + ''.join('@%s@ TOKEN_%s\n' % (n, n) for n in names), capture_output=True, text=True)
    for n, v in re.findall(r'@(\w+)@ (.*)', p.stdout):
        try: r[n] = int(eval(re.sub(r'(?<=[0-9a-fA-F])[uUlL]+\b', '', v), {'__builtins__': {}}))
        except Exception: pass
    return r

def show(w):
    return ''.join(chr(c) if 32 < c < 127 else '#x%x' % c for c in w)

def check_tokens(c):
    fs = sorted(glob.glob(os.path.join(fe.REPO, 'rexjson/*.rexcc')))
    if not fs: raise AnalysisBroken('no lexer description in rexjson')
    c.rule('Every token of the lexer description has exactly the texts JSON has for it, where several definitions match a text the first counts, and the numbers of the tokens differ.')
    for f in fs:
        where = os.path.relpath(f, fe.REPO)
        t = open(f, encoding='utf-8', errors='replace').read().replace('\r\n', '\n')
        m = re.search(r'%%\n', t)
        if not m: c.bad('form', where, 'the lexer description has no definitions'); continue
        prolog = t[:m.start()]; body = t[m.end():]
        m2 = re.search(r'^%%[ \t]?\n', body, flags=re.M)
        if not m2: c.bad('form', where, 'the definitions of the lexer description have no end'); continue
        lines = re.sub(r'\\\n', '\\\\\x01', body[:m2.start()]).split('\n')
        defs = []; n0 = t[:m.end()].count('\n')
        for k, l in enumerate(lines):
            n0 += 1
            here = '%s:%d' % (where, n0); n0 += l.count('\x01')
            if not l.strip() or l[0] in ' \t': continue
            h = re.match(r"((?:[^\t\r\n'\" ]+|\"[^\"\n]*\")+|'.+')([ \t].*)", l)
            if not h: c.bad('form', here, 'a line of the lexer description is no definition'); continue
            defs.append((h.group(1), h.group(2).replace('\\\x01', '\\\n'), here))
        # numbers of the tokens, from the preprocessor
        ids = sorted({d[0] for d in defs})
        txt = re.sub(r'^[ \t]*#[ \t]*include\b.*$', '', prolog, flags=re.M) + '\n' + ''.join('@%d@ (%s)\n' % (i, n) for i, n in enumerate(ids))
        p = subprocess.run(['clang', '-E', '-P', '-x', 'c', '-'], input=txt, capture_output=True, text=True)
        val = {}
        for i, v in re.findall(r'@(\d+)@ (.*)', p.stdout):
            try: val[ids[int(i)]] = eval(re.sub(r'(?<=[0-9a-fA-F])[uUlL]+\b', '', v), {'__builtins__': {}})
            except Exception: pass
        macros = numbers(prolog)
        used = {}
        for n in NAMES:
            if n not in macros: c.bad('number-%s' % n, where, 'the token for %s has no number' % WHAT[n]); continue
            if macros[n] in used: c.bad('number-%s' % n, where, 'the tokens for %s and %s have the same number' % (WHAT[used[macros[n]]], WHAT[n]))
            if macros[n] in (0, -1): c.bad('number-%s' % n, where, 'the number of the token for %s means that there is no token' % WHAT[n])
            used.setdefault(macros[n], n)
            c.ob('token numbers')
        nfa = []; starts = []; acc = {}
        for i, (name, rx, here) in enumerate(defs):
            r = Rex(rx, nfa)
            try:
                g = r.alt()
                if r.pk() is not None: raise Refused('unexpected %r' % r.pk())
                a, b = r.new(), r.new(); g(a, b)
            except Refused as e:
                c.bad('refused-%s' % name, here, 'the definition of %s is no regular expression: %s' % (name, e)); continue
            starts.append(a); acc[b] = (i, name, here); c.ob('definitions')
        cuts = sorted({x for e, ts in nfa for lo, hi, _ in ts for x in (lo, hi + 1)} | set(MARKS))
        cuts = [x for x in cuts if x <= TOP]
        def close(S):
            S = set(S); w = list(S)
            while w:
                for q in nfa[w.pop()][0]:
                    if q not in S: S.add(q); w.append(q)
            return frozenset(S)
        def token(S):
            k = min((acc[q] for q in S if q in acc), default=None)
            if k is None: return None, None
            v = val.get(k[1])
            return used.get(v, k[1]), k
        s0 = (close(starts), 'start'); seen = {s0: ()}; work = [s0]; pairs = 0
        while work:
            nxt = []
            for st in work:
                S, o = st; pairs += 1
                got, k = token(S); want = OTOK.get(o)
                if got != want:
                    w = show(seen[st])
                    c.bad('lang-%s-%s' % (want, got), k[2] if k else next((d[2] for d in defs if d[0].endswith(want or '?')), where),
                          'the text %s is %s, but the lexer makes it %s' % (w or '(empty)', WHAT[want], WHAT.get(got, got)))
                    continue
                byc = {}
                for x in cuts:
                    T = frozenset(q for p_ in S for lo, hi, q in nfa[p_][1] if lo <= x <= hi)
                    T = close(T) if T else T; z = oracle(o, chr(x)) if o is not None else None
                    if not T and z is None: continue
                    n = (T, z)
                    if n not in seen: seen[n] = seen[st] + (x,); nxt.append(n)
            work = nxt
            if len(seen) > 20000: raise AnalysisBroken('the automata of the lexer description grow too large')
        c.ob('pairs of states compared', pairs); c.ob('character ranges', len(cuts))

CHECKS = {'J08': check_tokens}
