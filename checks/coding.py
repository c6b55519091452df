"""Character coding: UTF-8/UTF-16 and case mapping, by trace-partitioned abstract interpretation (absint)."""
import ir, fe
from ir import AnalysisBroken
from absint import State, V, P, Interp, TooMany
from common import *

Z = lambda: V(0, {}, 64)
MAXREM = (1 << 31) - 1

def bitval(parts, w=32):
    """value from (atom, first bit, number of bits, shift) pieces"""
    t = {}
    for a, lo, n, sh in parts:
        for i in range(n): t[(a, lo + i)] = t.get((a, lo + i), 0) + (1 << (sh + i))
    return V(0, t, w)

U8 = {1: [('in.0', 0, 8, 0)], 2: [('in.0', 0, 5, 6), ('in.1', 0, 6, 0)], 3: [('in.0', 0, 4, 12), ('in.1', 0, 6, 6), ('in.2', 0, 6, 0)],
      4: [('in.0', 0, 3, 18), ('in.1', 0, 6, 12), ('in.2', 0, 6, 6), ('in.3', 0, 6, 0)]}
LEAD = {2: (6, 3), 3: (14, 4), 4: (30, 5)}

def runs(c, f, args, st):
    try: return Interp(f).run(args, st)
    except TooMany: raise AnalysisBroken('%s is too complex for the bit-level interpretation' % f.name)

def judge_decode(c, f, res, spec, tag):
    for s, r in res:
        c.ob('decoder traces')
        for x, p, n, iv in s.loads:
            if isinstance(p, P) and p.b == 'in':
                c.ob('bounded accesses')
                if not p.o.const() or p.o.c < 0 or p.o.c + n > iv['rem'][0]: c.bad('%s:overread' % f.name, f.where(x), '%s reads input byte %r with only %d bytes known to remain' % (f.name, p.o, iv['rem'][0]))
        for x, p, v, n, iv in s.stores:
            if not (isinstance(p, P) and (p.b == 'pwc' or p.b[0] == 'alloca')): c.bad('%s:store' % f.name, f.where(x), '%s writes outside its result' % f.name)
        if isinstance(r, tuple) or r is None or not s.norm(r).const(): c.bad('%s:count' % f.name, f.where(), '%s returns an indefinite count (%s)' % (f.name, tag)); continue
        n = s.norm(r).c; out = s.mem.get(('pwc', 0))
        if n > s.iv['rem'][0]: c.bad('%s:count' % f.name, f.where(), '%s reports %d bytes consumed where %d are known to remain (%s)' % (f.name, n, s.iv['rem'][0], tag))
        if n < 1: c.bad('%s:progress' % f.name, f.where(), '%s consumes nothing of a non-empty input (%s)' % (f.name, tag)); continue
        if out is None: c.bad('%s:value' % f.name, f.where(), '%s does not store the character (%s)' % (f.name, tag)); continue
        spec(s, n, s.norm(out))

def seqbits(s, atom, pattern, n):
    """assume the leading bits of an input byte"""
    a = s.atom(atom, 8)
    for i in range(n): s.known[(atom, 7 - i)] = (pattern >> (n - 1 - i)) & 1
    lo = sum(1 << i for i in range(8) if s.known.get((atom, i)) == 1); hi = lo + sum(1 << i for i in range(8) if (atom, i) not in s.known)
    s.iv[atom] = (lo, hi)

def check_utf(c):
    c.rule('trace-partitioned abstract interpretation (bit provenance and intervals) of the UTF-8/UTF-16 coders: on every trace the bytes read are known to remain, the count reported is at least one and at most the remaining bytes, the character is assembled from exactly the payload bits of the sequence, well-formed sequences are always decoded as a whole; encoders write exactly the documented bytes for every character class and nothing when they do not fit')
    c.assumption('less than 2 GiB of input remain')
    m = c.mod('core', pipe='plain')
    for name in ('r_utf8_mbtowc', 'r_utf16_mbtowc'):
        f = m.fn(name); c.seen(f); u8 = '8' in name
        st = State(); rem = st.atom('rem', 64, 1, MAXREM)
        def spec8(s, n, out):
            if n > 4: c.bad('%s:count' % f.name, f.where(), '%s consumes %d bytes' % (f.name, n)); return
            if out != s.norm(bitval(U8[n])): c.bad('%s:value' % f.name, f.where(), '%s assembles %r from a sequence of %d bytes' % (f.name, out, n))
            if n > 1:
                for i in range(n):
                    want = LEAD[n] if i == 0 else (2, 2)
                    for j in range(want[1]):
                        if s.known.get(('in.%d' % i, 7 - j)) != (want[0] >> (want[1] - 1 - j)) & 1: c.bad('%s:form' % f.name, f.where(), '%s accepts a %d byte sequence without checking byte %d' % (f.name, n, i)); return
        def unit(s, i): return bitval([('in.%d' % i, 0, 8, 0), ('in.%d' % (i + 1), 0, 8, 8)])
        def spec16(s, n, out):
            if n == 1: want = s.norm(bitval(U8[1]))
            elif n == 2:
                want = s.norm(unit(s, 0)); lo, hi = s.urng(want)
                if not (hi < 0xd800 or lo >= 0xe000): c.bad('%s:surrogate' % f.name, f.where(), '%s returns a lone surrogate' % f.name)
            elif n == 4:
                a, b = s.norm(unit(s, 0)), s.norm(unit(s, 2))
                if not (s.urng(a)[0] >= 0xd800 and s.urng(a)[1] < 0xdc00 and s.urng(b)[0] >= 0xdc00 and s.urng(b)[1] < 0xe000): c.bad('%s:form' % f.name, f.where(), '%s accepts an unpaired surrogate' % f.name); return
                want = s.norm(V(0x10000, bitval([('in.2', 0, 8, 0), ('in.3', 0, 2, 8), ('in.0', 0, 8, 10), ('in.1', 0, 2, 18)]).t, 32))
            else: c.bad('%s:count' % f.name, f.where(), '%s consumes %d bytes' % (f.name, n)); return
            if out != want: c.bad('%s:value' % f.name, f.where(), '%s assembles %r from a sequence of %d bytes' % (f.name, out, n))
        judge_decode(c, f, runs(c, f, [P('pwc', Z()), P('in', Z()), P('in', rem)], st), spec8 if u8 else spec16, 'any input')
        # empty input
        st = State(); rem = st.atom('rem', 64, 0, 0)
        for s, r in runs(c, f, [P('pwc', Z()), P('in', Z()), P('in', rem)], st):
            c.ob('decoder traces')
            if isinstance(r, tuple) or not s.norm(r).const() or s.norm(r).c != 0 or any(isinstance(p, P) and p.b == 'in' for x, p, n, iv in s.loads): c.bad('%s:empty' % f.name, f.where(), '%s does not report an empty input' % f.name)
        # completeness on well-formed sequences
        if u8:
            for n in (2, 3, 4):
                st = State(); rem = st.atom('rem', 64, n, MAXREM)
                seqbits(st, 'in.0', *LEAD[n])
                for i in range(1, n): seqbits(st, 'in.%d' % i, 2, 2)
                for s, r in runs(c, f, [P('pwc', Z()), P('in', Z()), P('in', rem)], st):
                    c.ob('decoder traces')
                    lo, hi = s.iv['in.0']
                    if hi < 0xc2 or lo >= 0xf5: continue
                    if isinstance(r, tuple) or not s.norm(r).const() or s.norm(r).c != n: c.bad('%s:wellformed' % f.name, f.where(), '%s does not decode a well-formed sequence of %d bytes (lead byte %#x..%#x)' % (f.name, n, lo, hi))
            st = State(); rem = st.atom('rem', 64, 1, MAXREM); seqbits(st, 'in.0', 0, 1)
            for s, r in runs(c, f, [P('pwc', Z()), P('in', Z()), P('in', rem)], st):
                if isinstance(r, tuple) or not s.norm(r).const() or s.norm(r).c != 1: c.bad('%s:wellformed' % f.name, f.where(), '%s does not decode ASCII' % f.name)
        else:
            for n, hb in ((2, [(0x00, 0xd7), (0xe0, 0xff)]), (4, [(0xd8, 0xdb)])):
                for lo, hi in hb:
                    st = State(); rem = st.atom('rem', 64, n, MAXREM)
                    st.refine(st.atom('in.1', 8), lo, hi)
                    if n == 4: st.refine(st.atom('in.3', 8), 0xdc, 0xdf)
                    for s, r in runs(c, f, [P('pwc', Z()), P('in', Z()), P('in', rem)], st):
                        c.ob('decoder traces')
                        if isinstance(r, tuple) or not s.norm(r).const() or s.norm(r).c != n: c.bad('%s:wellformed' % f.name, f.where(), '%s does not decode a well-formed sequence of %d bytes' % (f.name, n))
    # encoders
    def b(*parts): return list(parts)
    E8 = [(0, 0x7f, [[('wc', 0, 8, 0)]]), (0x80, 0x7ff, [[('wc', 6, 6, 0), 0xc0], [('wc', 0, 6, 0), 0x80]]),
          (0x800, 0xffff, [[('wc', 12, 5, 0), 0xe0], [('wc', 6, 6, 0), 0x80], [('wc', 0, 6, 0), 0x80]]),
          (0x10000, 0x10ffff, [[('wc', 18, 4, 0), 0xf0], [('wc', 12, 6, 0), 0x80], [('wc', 6, 6, 0), 0x80], [('wc', 0, 6, 0), 0x80]]), (0x110000, 0xffffffff, None)]
    two = [[('wc', 0, 8, 0)], [('wc', 8, 8, 0)]]
    E16 = [(0, 0xd7ff, two), (0xd800, 0xdfff, None), (0xe000, 0xffff, two), (0x10000, 0x10ffff, 'pair'), (0x110000, 0xffffffff, None)]
    for name, table in (('r_utf8_wctomb', E8), ('r_utf16_wctomb', E16)):
        f = m.fn(name); c.seen(f)
        for lo, hi, form in table:
            need = 0 if form is None else 4 if form == 'pair' else len(form)
            for fits in ((True, False) if need else (False,)):
                st = State(); wc = st.atom('wc', 32, lo, hi)
                size = st.atom('size', 32, need if fits else 0, 0xffffffff if fits or not need else need - 1)
                for s, r in runs(c, f, [wc, P('out', Z()), size], st):
                    c.ob('encoder traces'); tag = 'characters %#x..%#x' % (lo, hi)
                    if isinstance(r, tuple) or not s.norm(r).const(): c.bad('%s:count' % f.name, f.where(), '%s returns an indefinite count for %s' % (f.name, tag)); continue
                    n = s.norm(r).c
                    if n != (need if fits else 0): c.bad('%s:count' % f.name, f.where(), '%s returns %d for %s%s' % (f.name, n, tag, '' if fits else ' that do not fit or cannot be encoded')); continue
                    outs = [(x, p) for x, p, v, sz, iv in s.stores if isinstance(p, P) and p.b == 'out']
                    for x, p in outs:
                        c.ob('bounded accesses')
                        if not p.o.const() or not 0 <= p.o.c < max(n, 0): c.bad('%s:overwrite' % f.name, f.where(x), '%s writes output byte %r of %d' % (f.name, p.o, n))
                    if not fits: continue
                    for i in range(n):
                        got = s.mem.get(('out', i))
                        if form == 'pair':
                            u = s.norm(V(-0x10000, {('wc', k): 1 << k for k in range(32)}, 32)); ub = s.bits(u)
                            bits = [ub[10:18], ub[18:20] + [0, 1, 1, 0, 1, 1], ub[0:8], ub[8:10] + [1, 1, 1, 0, 1, 1]][i]
                            want = s.norm(s.frombits(bits, 8))
                        else: want = s.norm(V(sum(q for q in form[i] if isinstance(q, int)), bitval([q for q in form[i] if not isinstance(q, int)]).t, 8))
                        if got is None or s.norm(got) != want: c.bad('%s:byte%d' % (f.name, i), f.where(), '%s writes %r as byte %d of %s, expected %r' % (f.name, got, i, tag, want))
    c.atleast('decoder traces', 10); c.atleast('encoder traces', 10)

def pieces(c, m, name):
    f = m.fn(name); c.seen(f)
    st = State(); x = st.atom('c', 64)
    out = []
    for s, r in runs(c, f, [x], st):
        d = None
        if isinstance(r, V):
            q = V(r.c, r.t, 64); from absint import add2
            d = s.norm(add2(q, s.norm(V(0, {('c', i): 1 << i for i in range(64)}, 64)), -1))
            d = d.c if d.const() else None
        out.append((s.iv['c'][0], s.iv['c'][1], d))
    return f, out

def check_case(c):
    c.rule('interval partition of the case mapping functions: each piece maps by a constant distance; applying the case swap to the image of a piece must lead back by the opposite distance; ASCII letters are mapped to the other case and every other ASCII character to itself')
    m = c.mod('core', pipe='plain')
    f, ps = pieces(c, m, 'r_charicase')
    def img(ps, lo, hi):
        """[(lo, hi, delta)] pieces meeting the interval"""
        return [(max(a, lo), min(b, hi), d) for a, b, d in ps if a <= hi and b >= lo]
    for a, b, d in ps:
        c.ob('mapping pieces')
        if d is None: c.bad('%s:form' % f.name, f.where(), '%s maps %#x..%#x by a varying distance' % (f.name, a, b)); continue
        if d == 0: continue
        if a + d < 0: c.bad('%s:range' % f.name, f.where(), '%s maps below zero' % f.name)
        if any(d2 != -d for _, _, d2 in img(ps, a + d, b + d)): c.bad('%s:inverse' % f.name, f.where(), '%s maps %#x..%#x to %#x..%#x but does not map all of those back' % (f.name, a, b, a + d, b + d))
    # pieces partition the domain in increasing order only if traces are exclusive; intervals of fall-through traces may overlap earlier ones
    def at(ps, lo, hi): return img(ps, lo, hi)
    for name, up, dn in (('r_charicase', 32, -32), ('r_charlow', 32, 0), ('r_charhigh', 0, -32)):
        f, q = pieces(c, m, name)
        for lo, hi, want in ((0x41, 0x5a, up), (0x61, 0x7a, dn), (0, 0x40, 0), (0x5b, 0x60, 0), (0x7b, 0x7f, 0)):
            st = State(); x = st.atom('c', 64, lo, hi)
            for s, r in runs(c, f, [x], st):
                c.ob('mapping pieces')
                from absint import add2
                ok = isinstance(r, V)
                if ok:
                    d = s.norm(add2(V(r.c, r.t, 64), V(0, {('c', i): 1 << i for i in range(64)}, 64), -1)); ok = d.const() and d.c == want
                if not ok: c.bad('%s:ascii' % name, f.where(), '%s does not map %#x..%#x by %d' % (name, lo, hi, want))
    c.atleast('mapping pieces', 8)

CHECKS = {'R08': check_utf, 'R09': check_case}
