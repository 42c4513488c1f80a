"""Hashes: the one-at-a-time and the block hash against their definitions."""
import ir
from drv import *

MIN = 60
L1 = list(range(0, 13)) + [16, 21, 40]
L3 = list(range(0, 30)) + [35, 36, 37, 47, 48, 49, 300]


def src(extra=None):
    L1_, L3_ = (L1, L3) if extra is None else (extra, extra)
    t = ['#include "datas/jenkinshash.hpp"', '#include "datas/jenkinshash3.hpp"', '#include <algorithm>']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for n in L1_:
        d('uint32 a_%d' % n, 'const char *p', 'return JenHash(es::string_view(p, size_t(%d))).raw();' % n)
        d('uint32 b_%d' % n, 'const char *p', 'return JenHashCannon(es::string_view(p, size_t(%d))).raw();' % n)
    for n in L3_:
        d('uint32 c_%d' % n, 'const char *p', 'return JenHash3(es::string_view(p, size_t(%d)));' % n)
        d('uint32 s_%d' % n, 'const char *p, uint32 seed', 'return JenkinsHash3_(es::string_view(p, size_t(%d)), seed);' % n)
    if extra is not None:
        return '\n'.join(t)
    for n in (1, 5, 12):
        d('uint32 la_%d' % n, 'const char *p', 'return JenHash(reinterpret_cast<const char (&)[%d]>(*p)).raw();' % (n + 1))
        d('uint32 lb_%d' % n, 'const char *p', 'return JenHashCannon(reinterpret_cast<const char (&)[%d]>(*p)).raw();' % (n + 1))
        d('uint32 lc_%d' % n, 'const char *p', 'return JenHash3(reinterpret_cast<const char (&)[%d]>(*p));' % (n + 1))
    for k, ty in (('64', 'JenHash'), ('32', 'JenHashCannon')):
        d('uint32 raw_' + k, 'uint32 a', 'return %s(a).raw();' % ty)
        for nm, e in (('eq', '%s(a) == %s(b)'), ('ne', '%s(a) != %s(b)'), ('lt', '%s(a) < %s(b)'), ('gt', '%s(a) > %s(b)'), ('equ', '%s(a) == b'),
                      ('neu', '%s(a) != b'), ('ueq', 'b == %s(a)'), ('une', 'b != %s(a)')):
            d('bool %s_%s' % (nm, k), 'uint32 a, uint32 b', 'return %s;' % (e.replace('%s', ty)))
    d('uint32 raw_3', 'uint32 a', 'return JenHash3(a);')
    return '\n'.join(t)


def oneatatime(c, data, W):
    r = c.cw(0, W)
    for b in data:
        r = c.add(r, Word(list(b) + [0] * (W - 8)))
        r = c.mul(r, c.cw(1025, W))
        r = xor(c, r, shr(r, 6))
        r = Word(list(r[:32]) + [0] * (W - 32))
    r = c.mul(r, c.cw(9, W))
    r = xor(c, r, shr(r, 11))
    r = c.mul(Word(r[:32]), c.cw(32769, 32))
    return r


def shr(w, n):
    return Word(list(w[n:]) + [0] * n)


def xor(c, a, b):
    return Word(c.XOR(x, y) for x, y in zip(a, b))


def rot(w, n):
    n = len(w) - n
    return Word(list(w[n:]) + list(w[:n]))


def block(c, data, seed):
    """lookup3 over little endian words, the last word zero filled"""
    n = (len(data) + 3) // 4
    words = [Word([b for k in range(4) for b in (data[4 * i + k] if 4 * i + k < len(data) else (0,) * 8)]) for i in range(n)]
    a = b = d = c.add(c.cw(0xdeadbeef + 4 * n, 32), seed)

    def sub(x, y):
        return c.sub(x, y)
    i = 0
    while n - i > 3:
        a, b, d = c.add(a, words[i]), c.add(b, words[i + 1]), c.add(d, words[i + 2])
        a = xor(c, sub(a, d), rot(d, 4))
        d = c.add(d, b)
        b = xor(c, sub(b, a), rot(a, 6))
        a = c.add(a, d)
        d = xor(c, sub(d, b), rot(b, 8))
        b = c.add(b, a)
        a = xor(c, sub(a, d), rot(d, 16))
        d = c.add(d, b)
        b = xor(c, sub(b, a), rot(a, 19))
        a = c.add(a, d)
        d = xor(c, sub(d, b), rot(b, 4))
        b = c.add(b, a)
        i += 3
    if n:
        z = c.cw(0, 32)
        rest = words[i:] + [z] * 3
        a, b, d = c.add(a, rest[0]), c.add(b, rest[1]), c.add(d, rest[2])
        d = sub(xor(c, d, b), rot(b, 14))
        a = sub(xor(c, a, d), rot(d, 11))
        b = sub(xor(c, b, a), rot(a, 25))
        d = sub(xor(c, d, b), rot(b, 16))
        a = sub(xor(c, a, d), rot(d, 4))
        b = sub(xor(c, b, a), rot(a, 14))
        d = sub(xor(c, d, b), rot(b, 24))
    return d


def run(c):
    c.rule('Value-numbering dataflow: for every listed length and all byte values the computed word must be the same term over the input bytes as the '
           'definition (one-at-a-time, 64 and 32 bit intermediate; lookup3 over zero filled words), with no access outside the bytes.')
    m = ir.unit(text=src(), name='H01')
    # lengths next to numbers the code of this tree compares with
    more = [n for n in ir.around(m, set(range(5, 14)) | {16, 21, 23, 24, 25}, 5, 700, (0, 1, 13)) if n not in L3][:12]
    mx = ir.unit(text=src(more), name='H01x') if more else None

    def one(fn, n, spec, what, lit=False, seed=False, m=m):
        with c.part(what):
            s = S(m)
            s.buf('A', n)
            s.it.record_access = True
            s.run(fn, [Ptr('A')] + ([s.arg('seed', 32)] if seed else []))
            data = [tuple(s.inbits('A', i, 1)) for i in range(n)]
            over = [e for e in s.it.events if e.kind == 'load' and e.ptr.base == 'A' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
            c.ob(what + ' reads only its bytes', not over, 'reads beyond the string at ' + (ir.loc_str(over[0].loc) if over else ''), what)
            want = spec(s.c, data, s.arg('seed', 32)) if seed else spec(s.c, data)
            ok, d = s.cmp(s.ret, want)
            sup = set()
            for l in s.ret:
                sup |= s.c.support(l)
            c.ob(what, ok, d[:300], what)
    for n in L1:
        one('a_%d' % n, n, lambda C, d: oneatatime(C, d, 64), 'JenHash of %d bytes' % n)
        one('b_%d' % n, n, lambda C, d: oneatatime(C, d, 32), 'JenHashCannon of %d bytes' % n)
    for n in L3:
        one('c_%d' % n, n, lambda C, d: block(C, d, C.cw(0, 32)), 'JenHash3 of %d bytes' % n)
        one('s_%d' % n, n, block, 'seeded JenHash3 of %d bytes' % n, seed=True)
    for n in more:
        one('a_%d' % n, n, lambda C, d: oneatatime(C, d, 64), 'JenHash of %d bytes' % n, m=mx)
        one('b_%d' % n, n, lambda C, d: oneatatime(C, d, 32), 'JenHashCannon of %d bytes' % n, m=mx)
        one('c_%d' % n, n, lambda C, d: block(C, d, C.cw(0, 32)), 'JenHash3 of %d bytes' % n, m=mx)
        one('s_%d' % n, n, block, 'seeded JenHash3 of %d bytes' % n, seed=True, m=mx)
    for n in (1, 5, 12):
        one('la_%d' % n, n, lambda C, d: oneatatime(C, d, 64), 'JenHash of a %d character literal' % n)
        one('lb_%d' % n, n, lambda C, d: oneatatime(C, d, 32), 'JenHashCannon of a %d character literal' % n)
        one('lc_%d' % n, n, lambda C, d: block(C, d, C.cw(0, 32)), 'JenHash3 of a %d character literal' % n)
    for k in ('64', '32', '3'):
        s = S(m)
        s.run('raw_' + k, [s.arg('a', 32)])
        c.ob('raw value of JenHash%s' % k, *s.cmp(s.ret, s.arg('a', 32)), 'JenHash')
        if k == '3':
            continue
        lt = gt = None
        for nm in ('eq', 'ne', 'equ', 'neu', 'ueq', 'une', 'lt', 'gt'):
            s = S(m)
            a, b = s.arg('a', 32), s.arg('b', 32)
            s.run('%s_%s' % (nm, k), [a, b])
            r = s.ret[0]
            if nm in ('lt', 'gt'):
                w1, w2 = s.c.ult(a, b), s.c.ult(b, a)
                d = 0 if s.c.same(r, w1) else 1 if s.c.same(r, w2) else None
                if nm == 'lt':
                    lt = d
                    c.ob('JenHash%s %s orders all values strictly' % (k, nm), d is not None, s.c.show(r)[:200], 'JenHash_t::operator<')
                else:
                    c.ob('JenHash%s > is the converse of <' % k, d is not None and lt is not None and d != lt, s.c.show(r)[:200], 'JenHash_t::operator>')
            else:
                w = s.c.eq(a, b)
                c.ob('JenHash%s %s' % (k, nm), s.c.same(r, w ^ 1 if 'n' in nm else w), s.c.show(r)[:200], 'JenHash_t')
    c.unit('H01 driver (jenkinshash.hpp, jenkinshash3.hpp)', m)
