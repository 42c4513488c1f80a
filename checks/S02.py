"""Text and number utilities: trimming, identifiers, padding, hexadecimal digits."""
import ir, struct
from fractions import Fraction
from drv import *

MIN = 260
SRC = r'''
#include <utility>
#include <string>
#include <vector>
#include "datas/supercore.hpp"
#include "datas/string_view.hpp"
#include "datas/tchar.hpp"
typedef es::string_view V; typedef size_t N;
#define O const char **o, N *l
extern "C" {
void start_v(const char *p, N n, bool nl, O) { V v = es::SkipStartWhitespace(V(p, n), nl); *o = v.data(); *l = v.size(); }
void end_v(const char *p, N n, bool nl, O) { V v = es::SkipEndWhitespace(V(p, n), nl); *o = v.data(); *l = v.size(); }
void start_d(const char *p, N n, O) { V v = es::SkipStartWhitespace(V(p, n)); *o = v.data(); *l = v.size(); }
void end_d(const char *p, N n, O) { V v = es::SkipEndWhitespace(V(p, n)); *o = v.data(); *l = v.size(); }
void trim(const char *p, N n, O) { V v = es::TrimWhitespace(V(p, n)); *o = v.data(); *l = v.size(); }
uint32 fourcc(const char *p) { return CompileFourCC(reinterpret_cast<const char (&)[5]>(*p)); }
uint32 fourcc_raw(const char *p) { return CompileFourCC(reinterpret_cast<const char (&)[4]>(*p)); }
N padding(N v, N a) { return GetPadding(v, a); }
bool p8(uint8 v) { return IsPow2(v); }
bool p16(uint16 v) { return IsPow2(v); }
bool p32(uint32 v) { return IsPow2(v); }
bool p64(uint64 v) { return IsPow2(v); }
bool pi32(int32 v) { return IsPow2(v); }
uint8 hexdigit(N i) { return atohLUT[i]; }
bool isend_p(const std::vector<int> &v, int *p) { return es::IsEnd(v, std::vector<int>::const_iterator(p)); }
bool help(const TCHAR *p, N n) { return IsHelp(es::basic_string_view<TCHAR>(p, n)); }
bool little() { return LittleEndian(); }
bool isend_a(int (&v)[6], int *p) { return es::IsEnd(v, p); }
}
#include <type_traits>
#define SAME(n, t) static_assert(std::is_same<es::TypeFromSize<n>::type, t>::value, "TypeFromSize");
SAME(1, uint8) SAME(2, uint16) SAME(4, uint32) SAME(8, uint64)
'''
SRC += ''.join('extern "C" void frac_%d(float *o) { *o = GetFraction(%d); }\n' % (n, n) for n in range(1, 64))
SRC += 'extern "C" float fracx(N n) { return GetFraction(n); }\n'


def f32bits(fr):
    """the float nearest to a fraction: conversion rounds once to double precision far below the tie distance, so go exact"""
    best = struct.unpack('<I', struct.pack('<f', float(fr)))[0]
    cand = [best - 1, best, best + 1]
    return min(cand, key=lambda b: (abs(Fraction(struct.unpack('<f', struct.pack('<I', b))[0]) - fr), b & 1))


def trimmed(C, A, nl, front, back):
    """begin and end index words of the trimmed text"""
    n = len(A)

    def ws(w):
        r = C.OR(C.eq(w, C.cw(32, 8)), C.eq(w, C.cw(9, 8)))
        return C.OR(r, C.AND(nl, C.eq(w, C.cw(10, 8))))
    W = [ws(x) for x in A]

    def conj(l):
        r = 1
        for x in l:
            r = C.AND(r, x)
        return r
    cases = []
    for i in (range(n + 1) if front else (0,)):
        for j in (range(i, n + 1) if back else (n,)):
            g = 1
            if front:
                g = conj(W[:i]) if i == n else C.AND(conj(W[:i]), W[i] ^ 1)
            if back:
                if front and j == i and i < n:
                    continue
                g = C.AND(g, conj(W[j:]))
                if j > (i if front else 0):
                    g = C.AND(g, W[j - 1] ^ 1)
            cases.append((g, i, j))
    return cases


def choice(C, cases, f):
    r = C.cw(0, 64)
    for g, i, j in cases:
        r = Word(C.ITE(g, x, y) for x, y in zip(C.cw(f(i, j), 64), r))
    return r


def index(it, p, base):
    """the distance of a pointer from the start of an object, as a choice of constants"""
    if isinstance(p.base, tuple) and p.base[0] == 'ite' and not p.sym:
        _, g, a, b = p.base
        return Word(it.c.ITE(g, x, y) for x, y in zip(index(it, it.padd(a, p.off), base), index(it, it.padd(b, p.off), base)))
    if p.base == base and not p.sym:
        return it.c.cw(p.off & ((1 << 64) - 1), 64)
    return it.c.sub(it.p2i(p), it.p2i(Ptr(base)))


def run(c):
    c.rule('Bit-provenance dataflow: begin and length of the trimmed view must be the definition\'s choice for every text of the listed lengths over all white space and '
           'look-alike characters, identifiers the stored bytes in order, padding the distance to the next multiple for every value, hexadecimal digits their value; compile witnesses for the type map.')
    m = ir.unit(text=SRC, name='S02', passes=ir.O2)
    top = 6 if c.tier == 'quick' else 8
    # characters: a set of classes with unknown members around the blanks: space 0x20, tab 0x09, newline 0x0a
    CL = {'blank': (0x20, (0, 7)), 'tabs': (0x08, (0, 1, 2)), 'mix': (0x00, (1, 3, 5)), 'mix2': (0x00, (0, 3, 5))}
    for cl, (base, bits) in CL.items():
        for n in range(top if len(bits) < 3 else top - 1):
            for fn, front, back, nls in (('start_v', 1, 0, (0, 1)), ('end_v', 0, 1, (0, 1)), ('start_d', 1, 0, (0,)), ('end_d', 0, 1, (0,)), ('trim', 1, 1, (0,))):
                for nl in nls:
                    what = {'start': 'SkipStartWhitespace', 'end_v': 'SkipEndWhitespace', 'end_d': 'SkipEndWhitespace', 'trim': 'TrimWhitespace'}[fn[:5] if fn != 'trim' else fn]
                    key = '%s%s of %d characters (%s)' % (what, ' with new lines' if nl else '' if fn.endswith('_v') or fn == 'trim' else ' by default', n, cl)
                    with c.part(key):
                        s = S(m)
                        s.it.record_access = True
                        s.buf('A', n)
                        s.buf('O', 8)
                        s.buf('L', 8)
                        A = []
                        for i in range(n):
                            iw = s.inbits('A', i, 1)
                            w = Word(iw[b] if b in bits else base >> b & 1 for b in range(8))
                            s.setw('A', i, w)
                            A.append(w)
                        args = [Ptr('A'), s.const(n, 64)] + ([s.const(nl, 1)] if fn.endswith('_v') else []) + [Ptr('O'), Ptr('L')]
                        s.run(fn, args)
                        cases = trimmed(s.c, A, nl, front, back)
                        gb = index(s.it, s.it.load(s.out, Ptr('O'), ['p'], {}), 'A')
                        gl = Word(s.outbits('L', 0, 8))
                        ok1, d1 = s.cmp(gl, choice(s.c, cases, lambda i, j: j - i))
                        # where the text is empty its position does not matter
                        z = s.c.eq(gl, s.c.cw(0, 64))
                        ok2, d2 = s.cmp([s.c.AND(x, z ^ 1) for x in gb], [s.c.AND(x, z ^ 1) for x in choice(s.c, cases, lambda i, j: i)])
                        over = [x for x in s.it.events if x.kind in ('load', 'store') and x.ptr.base == 'A' and (x.ptr.sym or x.ptr.off < 0 or x.ptr.off + x.size > n or x.kind == 'store')]
                        if over and any(x.ptr.sym for x in over):
                            over = []
                            # accesses at unknown places were resolved against the object size; an access outside shows as unknown data above
                        c.ob(key, ok1 and ok2 and not over, (d1 or d2 or 'access outside of the view')[:300], 'es::' + what)
    for fn in ('fourcc', 'fourcc_raw'):
        with c.part(fn):
            s = S(m)
            s.buf('A', 5 if fn == 'fourcc' else 4)
            s.run(fn, [Ptr('A')])
            c.ob('CompileFourCC of any four bytes' + (' without terminator' if fn == 'fourcc_raw' else ''), *s.cmp(s.ret, s.inbits('A', 0, 4)), 'CompileFourCC')
    WIN = 9
    for k in range(64):
        with c.part('padding %d' % k):
            bad = None
            for at in (range(0, min(64, k + 2), 3) if c.tier == 'thorough' else sorted(set([0, max(0, k - 5), max(0, k // 2 - 4), max(0, k - 12), min(55, k)]))):
                for lo in (0, 1):
                    for hi in (0, 1):
                        s = S(m)
                        a = s.arg('v', 64)
                        v = Word(lo if i < at else a[i] if i < at + WIN else hi for i in range(64))
                        s.run('padding', [v, s.const(1 << k, 64)])
                        low = s.c.sub(s.c.cw(0, k), Word(v[:k])) if k else Word()
                        ok, d = s.cmp(s.ret, list(low) + [0] * (64 - k))
                        if not ok and not bad:
                            bad = 'unknown bits %d to %d, %ds above, %ds below: %s' % (at, at + WIN - 1, hi, lo, d)
            c.ob('GetPadding to a multiple of 2^%d' % k, not bad, bad or '', 'GetPadding')
    # windows of unknown bits, the others zero but up to two known ones
    for fn, W in (('p8', 8), ('p16', 16), ('p32', 32), ('p64', 64), ('pi32', 31)):
        with c.part(fn):
            bad = None
            n = 0
            win = min(W, 8)
            for at in range(0, W - win + 1, 4) if W != 31 else list(range(0, 23, 4)) + [23]:
                out = [i for i in range(W) if not at <= i < at + win]
                for ones in [()] + [(i,) for i in out[::3]] + ([(out[0], out[-1])] if len(out) > 1 else []):
                    s = S(m)
                    a = s.arg('v', W)
                    v = Word(list(1 if i in ones else a[i] if at <= i < at + win else 0 for i in range(W)) + [0] * (W == 31))
                    s.run(fn, [v])
                    n += 1
                    C = s.c
                    one, many = 0, 0
                    for b in v:
                        many = C.OR(many, C.AND(one, b))
                        one = C.OR(one, b)
                    if not C.same(C.AND(s.ret[0], one), C.AND(many ^ 1, one)) and not bad:
                        bad = 'bits %d to %d unknown, ones at %s' % (at, at + win - 1, ones)
            c.ob('IsPow2 of positive %d bit numbers (%d classes)' % (W, n), not bad, bad or '', 'IsPow2')
    for ch in b'0123456789abcdefABCDEF':
        s = S(m)
        s.run('hexdigit', [s.const(ch, 64)])
        c.ob('hexadecimal digit %c' % ch, s.c.cval(s.ret) == int(chr(ch), 16), s.c.show(s.ret[0])[:60], 'atohLUT')
    other = [ch for ch in range(103) if ch not in b'0123456789abcdefABCDEF']
    bad = []
    for ch in other:
        s = S(m)
        s.run('hexdigit', [s.const(ch, 64)])
        v = s.c.cval(s.ret)
        if v is None or v < 16:
            bad.append(ch)
    c.ob('other characters below g are no hexadecimal digit', not bad, 'characters %s look up as a digit' % bad, 'atohLUT')
    for n in range(1, 64):
        s = S(m)
        s.buf('O', 4)
        s.run('frac_%d' % n, [Ptr('O')])
        v = s.c.cval(Word(s.outbits('O', 0, 4)))
        # the division of two floats rounds once after the denominator was rounded
        den = struct.unpack('<f', struct.pack('<f', float((1 << n) - 1)))[0]
        c.ob('GetFraction of %d bits' % n, v == f32bits(Fraction(1) / Fraction(den)), str(v), 'GetFraction')
    for k in range(0, 25, 4):
        s = S(m)
        s.buf('X', 24)
        s.run('isend_a', [Ptr('X'), Ptr('X', k)])
        c.ob('IsEnd at byte %d of 24' % k, s.ret[0] == (1 if k == 24 else 0), '', 'es::IsEnd')
    s = S(m)
    s.it.globals_initial = True
    s.run('little', [])
    c.ob('LittleEndian on this machine', s.ret[0] == 1, s.c.show(s.ret[0])[:60], 'LittleEndian')
    for unit, w in ((m, 1), (ir.unit(text=SRC, name='S02w', passes=ir.O2, flags=['-DUNICODE']), 4)):
        for n in range(8):
            key = 'IsHelp of %d %s characters' % (n, 'narrow' if w == 1 else 'wide')
            with c.part(key):
                s = S(unit)
                cstring_models(s)
                s.buf('A', n * w)
                s.run('help', [Ptr('A'), s.const(n, 64)])
                C = s.c
                want = 0
                for h in ('-h', '-?', '/?', '--help'):
                    if len(h) == n:
                        g = 1
                        for i, ch in enumerate(h):
                            g = C.AND(g, C.eq(Word(s.inbits('A', i * w, w)), C.cw(ord(ch), 8 * w)))
                        want = C.OR(want, g)
                c.ob(key, *s.cmp([s.ret[0]], [want]), 'IsHelp')
    c.unit('S02 driver (supercore.hpp)', m)

