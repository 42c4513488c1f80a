"""Block compressed textures: every pixel of a block against the published formats."""
from collections import defaultdict
import ir
from drv import *
from tab import Tab, np
from refl import guards

MIN = 150
SRC = r'''
#include "formats/BlockDecoder.inl"
extern "C" {
void bc1(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC1Block(d, o, w, h, W); }
void bc1a(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC1BlockA(d, o, w, h, W); }
void bc2(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC2Block(d, o, w, h, W); }
void bc3(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC3Block(d, o, w, h, W); }
void bc4(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC4Block(d, o, w, h, W); }
void bc5(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC5Block(d, o, w, h, W); }
void bc5ga(const char *d, char *o, uint32 w, uint32 h, uint32 W) { DecodeBC5BlockGA(d, o, w, h, W); }
void blue(char *b, uint32 n) { ComputeBC5Blue(b, n); }
void rgb(const char *d, float *o) { Vector c; DecodeRGB565Block(d, c); o[0] = c.X; o[1] = c.Y; o[2] = c.Z; }
}
'''
SIMD = r'''
#include "formats/BlockDecoderSimd.hpp"
extern "C" void simd(const char *d, char *o, uint32 w, uint32 h, uint32 W) { _SDecodeBC1Block(d, o, w, h, W); }
'''
# name: (function, bytes of a block, bytes of a pixel, [byte of the pixel -> (kind, offset in the block, channel)])
COL3 = lambda off, alpha: [(k + ('a' if alpha else ''), off, k2) for k, k2 in (('c', 0), ('c', 1), ('c', 2))]
FORMATS = {
    'bc1': ('DecodeBC1Block', 8, 3, [('c3', 0, 0), ('c3', 0, 1), ('c3', 0, 2)]),
    'bc1a': ('DecodeBC1BlockA', 8, 4, [('c3a', 0, 0), ('c3a', 0, 1), ('c3a', 0, 2), ('a1', 0, 0)]),
    'bc2': ('DecodeBC2Block', 16, 4, [('c4', 8, 0), ('c4', 8, 1), ('c4', 8, 2), ('a4', 0, 0)]),
    'bc3': ('DecodeBC3Block', 16, 4, [('c4', 8, 0), ('c4', 8, 1), ('c4', 8, 2), ('a8', 0, 0)]),
    'bc4': ('DecodeBC4Block', 8, 1, [('a8', 0, 0)]),
    'bc5': ('DecodeBC5Block', 16, 3, [None, ('a8', 0, 0), ('a8', 8, 0)]),
    'bc5ga': ('DecodeBC5BlockGA', 16, 2, [('a8', 0, 0), ('a8', 8, 0)]),
}
POS = [(0, 0, 1), (1, 0, 2), (0, 1, 2), (2, 1, 3)]
SH = [(0, 5), (5, 6), (11, 5)]


def palette4(e0, e1, idx, top, three):
    """ideal colour (as numpy double): two ends and, by mode, their thirds or their mean; three: mode columns"""
    a, b = e0 * (255.0 / top), e1 * (255.0 / top)
    four = np.select([idx == 0, idx == 1, idx == 2], [a, b, (2 * a + b) / 3], (a + 2 * b) / 3)
    mean = np.select([idx == 0, idx == 1, idx == 2], [a, b, (a + b) / 2], 0.0)
    return np.where(three, mean, four)


def palette8(a, b, idx):
    a, b = a.astype(float), b.astype(float)
    seven = np.choose(idx, [a, b] + [((7 - k) * a + k * b) / 7 for k in range(1, 7)])
    five = np.choose(idx, [a, b] + [((5 - k) * a + k * b) / 5 for k in range(1, 5)] + [0 * a, 0 * a + 255])
    return np.where(a > b, seven, five)


def near(got, want, tol=1.0):
    """first column that is not within the tolerance (the ends of the range exactly); None if all are"""
    d = np.abs(got.astype(float) - want)
    bad = (d >= tol + 1e-6) | ((want < 1e-9) & (got != 0) & (tol <= 1)) | ((want > 255 - 1e-9) & (got != 255) & (tol <= 1))
    w = np.nonzero(bad)[0]
    return None if len(w) == 0 else int(w[0])


def colour(ctx, out, D, off, ch, idxbits, three_ok, tol):
    """check the 16 words `out` of one colour channel; D: literals of the block"""
    lo, n = SH[ch]
    base = 8 * off
    e0, e1 = D[base + lo:base + lo + n], D[base + 16 + lo:base + 16 + lo + n]
    others = [l >> 1 for l in D[base:base + 32]]
    for i, w in enumerate(out):
        sup = {a for l in w for a in sup_of(ctx, l)}
        extra = sup - set(others) - {l >> 1 for l in idxbits[i]}
        if extra:
            yield 'pixel %d' % i, 'depends on %s' % ctx.show(2 * min(extra))
            return
    N = 1 << n
    p0, p1 = np.meshgrid(np.arange(N), np.arange(N))
    p0, p1 = p0.ravel(), p1.ravel()
    for k in range(4):
        for arr in ((1, 0), (0, 1), (0, 0), (1, 1)) if three_ok or ch == 0 else ((1, 0), (0, 1)):
            c0, c1 = p0 << lo, p1 << lo
            for o in range(3):
                if o != ch:
                    f = ((1 << SH[o][1]) - 1) << SH[o][0]
                    c0 = c0 | (f * arr[0])
                    c1 = c1 | (f * arr[1])
            t = Tab(ctx, len(p0))
            t.setbits(D[base:base + 16], c0)
            t.setbits(D[base + 16:base + 32], c1)
            for ib in idxbits:
                t.setbits(ib, np.full(len(p0), k))
            three = (c0 <= c1) if three_ok else np.zeros(len(p0), bool)
            want = palette4(p0.astype(float), p1.astype(float), np.full(len(p0), k), N - 1, three)
            for i, w in enumerate(out):
                got = t.word(w)
                b = near(got, want, tol)
                if three_ok == 'alpha' and k == 3 and b is not None:
                    # the transparent entry has no colour of its own
                    keep = ~three
                    b2 = near(got[keep], want[keep], tol)
                    b = None if b2 is None else int(np.nonzero(keep)[0][b2])
                if b is not None:
                    yield 'pixel %d, entry %d' % (i, k), 'of the colours 0x%04x, 0x%04x channel %d is %d instead of %.2f' % (c0[b], c1[b], ch, got[b], want[b])
                    return
            if getattr(t, 'undefined', 0):
                yield 'entry %d' % k, 'a conversion to an integer is out of range'
                return


def outside(s, nd, no):
    return next((e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base in ('D', 'O') and
                 (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > (nd if e.ptr.base == 'D' else no))), None)


def sup_of(ctx, l):
    """input literals (nodes) a literal depends on, through terms"""
    return {ctx.atoms(t, i + 1)[i] >> 1 for t, i in ctx.deps(l)}


def run(c):
    mod = ir.unit(text=SRC, name='K01')
    c.rule('Value-flow of every output byte of a block is extracted by bit-provenance dataflow; it may depend on the end colours and on its own index bits only, and its '
           'table over all ends of the channel and all indices must be the published palette. Bytes of other pixels must keep their value, loads stay inside the block.')
    c.assumption('palette entries are required within one of the exact value and exactly at 0 and 255; the colour of transparent pixels is free')
    seen = set()
    ctx = None
    for name, (fn, nb, px, chan) in FORMATS.items():
        for (w, h, W) in POS if c.tier == 'thorough' else POS[:3]:
            with c.part('%s at %d,%d of %d' % (name, w, h, W)):
                s = S(mod)
                ctx = s.c
                s.it.record_access = True
                s.buf('D', nb)
                rows = 4 * (h + 2)
                size = rows * 4 * W * px
                s.buf('O', 64 + size + 64)
                s.run(name, [Ptr('D'), Ptr('O', 64), s.const(w, 32), s.const(h, 32), s.const(W, 32)])
                seen |= s.it.visited
                D = s.inbits('D', 0, nb)
                O = s.inbits('O', 0, 128 + size)
                got = s.outbits('O', 0, 128 + size)
                tag = '%s at (%d, %d) of %d blocks' % (fn, w, h, W)
                bad = outside(s, nb, 128 + size)
                c.ob(tag + ': reads the block only', bad is None, bad and '%s outside of %s at %s' % (bad.kind, bad.ptr.base, loc_str(bad.loc)), fn)
                pix = {}
                for r in range(4):
                    for q in range(4):
                        pix[4 * r + q] = 64 + ((4 * h + r) * 4 * W + 4 * w + q) * px
                mine = {o + k for o in pix.values() for k in range(px) if chan[k]}
                stray = [o for o in range(128 + size) if o not in mine and got[8 * o:8 * o + 8] != O[8 * o:8 * o + 8]]
                c.ob(tag + ': writes its own pixels only', not stray, stray and 'byte %d of the image (pixels start at %d) is changed' % (stray[0] - 64, min(pix.values()) - 64), fn)
                for k, ck in enumerate(chan):
                    if ck is None:
                        continue
                    kind, off, ch = ck
                    out = [Word(got[8 * (pix[i] + k):8 * (pix[i] + k) + 8]) for i in range(16)]
                    what = '%s byte %d of the pixels' % (tag, k)
                    if kind[0] == 'c':
                        ib = [D[8 * (off + 4 + i // 4) + 2 * (i % 4):][:2] for i in range(16)]
                        r = list(colour(ctx, out, D, off, ch, ib, {'c3': True, 'c3a': 'alpha', 'c4': False}[kind], 1.0))
                        c.ob(what + ': palette', not r, r and '%s: %s' % r[0], fn)
                    elif kind == 'a1':
                        ib = [D[8 * (off + 4 + i // 4) + 2 * (i % 4):][:2] for i in range(16)]
                        r = list(alpha1(ctx, out, D, off, ib))
                        c.ob(what + ': transparent exactly for entry 3 of three colours', not r, r and '%s: %s' % r[0], fn)
                    elif kind == 'a4':
                        for i in range(16):
                            ok, d = s.cmp(out[i], 2 * D[8 * off + 4 * i:8 * off + 4 * i + 4])
                            c.ob('%s: pixel %d is its four bit alpha' % (what, i), ok, d, fn)
                    else:
                        r = list(alpha8(ctx, out, D, off, c.tier == 'thorough' or (name in ('bc3', 'bc4') and w))) if (w, h) == (0, 0) or name in ('bc4', 'bc5') else list(alpha8(ctx, out, D, off, False))
                        c.ob(what + ': palette', not r, r and '%s: %s' % r[0], fn)
    smod = ir.unit(text=SIMD, name='K01s', flags=['-msse4.1'])
    sseen = set()
    for (w, h, W) in POS[:3]:
        with c.part('simd at %d,%d of %d' % (w, h, W)):
            s = S(smod)
            guards(s)
            s.it.record_access = True
            s.buf('D', 8)
            size = 16 * (h + 2) * W * 3
            s.buf('O', 128 + size)
            s.run('simd', [Ptr('D'), Ptr('O', 64), s.const(w, 32), s.const(h, 32), s.const(W, 32)])
            sseen |= s.it.visited
            tag = '_SDecodeBC1Block at (%d, %d) of %d blocks' % (w, h, W)
            bad = outside(s, 8, 128 + size)
            c.ob(tag + ': reads the block only', bad is None, bad and '%s outside of %s at %s' % (bad.kind, bad.ptr.base, loc_str(bad.loc)), '_SDecodeBC1Block')
            D, O = s.inbits('D', 0, 8), s.inbits('O', 0, 128 + size)
            got = s.outbits('O', 0, 128 + size)
            pix = [64 + ((4 * h + r) * 4 * W + 4 * w + q) * 3 for r in range(4) for q in range(4)]
            mine = {o + k for o in pix for k in range(3)}
            stray = [o for o in range(128 + size) if o not in mine and got[8 * o:8 * o + 8] != O[8 * o:8 * o + 8]]
            c.ob(tag + ': writes its own pixels only', not stray, stray and 'byte %d of the image is changed' % (stray[0] - 64), '_SDecodeBC1Block')
            ib = [D[8 * (4 + i // 4) + 2 * (i % 4):][:2] for i in range(16)]
            for k in range(3):
                out = [Word(got[8 * (o + k):8 * (o + k) + 8]) for o in pix]
                r = list(colour(s.c, out, D, 0, k, ib, False, 9.0))
                c.ob('%s byte %d of the pixels: palette' % (tag, k), not r, r and '%s: %s' % r[0], '_SDecodeBC1Block')
    c.unit('K01s', smod, sseen)
    with c.part('blue'):
        for n in (3, 9):
            s = S(mod)
            s.it.record_access = True
            s.buf('B', n)
            s.run('blue', [Ptr('B'), s.const(n, 32)])
            seen |= s.it.visited
            bad = next((e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'B' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)), None)
            c.ob('ComputeBC5Blue of %d bytes stays inside' % n, bad is None, bad and loc_str(bad.loc), 'ComputeBC5Blue')
            I = s.inbits('B', 0, n)
            got = s.outbits('B', 0, n)
            for p in range(0, n, 3):
                ok, d = s.cmp(got[8 * p + 8:8 * p + 24], I[8 * p + 8:8 * p + 24])
                c.ob('ComputeBC5Blue of %d bytes keeps the given channels of pixel %d' % (n, p // 3), ok, d, 'ComputeBC5Blue')
                sup = {a for l in got[8 * p:8 * p + 8] for a in sup_of(s.c, l)} - {l >> 1 for l in I[8 * p + 8:8 * p + 24]}
                t = Tab(s.c, 65536)
                x, y = np.meshgrid(np.arange(256), np.arange(256))
                x, y = x.ravel(), y.ravel()
                msg = ''
                if sup:
                    msg = 'depends on another pixel'
                else:
                    t.setbits(I[8 * p + 8:8 * p + 16], x)
                    t.setbits(I[8 * p + 16:8 * p + 24], y)
                    g = t.word(Word(got[8 * p:8 * p + 8])).astype(float)
                    fx, fy = x * (2 / 255.0) - 1, y * (2 / 255.0) - 1
                    z = np.sqrt(np.clip(1 - (fx * fx + fy * fy), 0, 1))
                    b = np.nonzero(np.abs(g - (z + 1) * 127.5) > 2.0)[0]
                    if len(b):
                        msg = 'for %d, %d it is %d instead of %.1f' % (x[b[0]], y[b[0]], g[b[0]], (z[b[0]] + 1) * 127.5)
                    elif getattr(t, 'undefined', 0):
                        b = t.undefined
                        msg = 'the conversion to an integer is out of range for %d of 65536 inputs' % b
                c.ob('ComputeBC5Blue of %d bytes: blue of pixel %d completes the unit vector' % (n, p // 3), not msg, msg, 'ComputeBC5Blue')
    with c.part('rgb565'):
        s = S(mod)
        s.buf('D', 2)
        s.buf('F', 12)
        s.run('rgb', [Ptr('D'), Ptr('F')])
        seen |= s.it.visited
        D = s.inbits('D', 0, 2)
        t = Tab(s.c, 65536)
        t.setbits(D, np.arange(65536))
        for k, (lo, n) in enumerate(SH):
            g = t.flt(Word(s.outbits('F', 4 * k, 4))).astype(float)
            want = ((np.arange(65536) >> lo) & ((1 << n) - 1)) / float((1 << n) - 1)
            b = np.nonzero(np.abs(g - want) > 1e-6)[0]
            c.ob('DecodeRGB565Block component %d' % k, len(b) == 0, len(b) and 'of 0x%04x is %f instead of %f' % (b[0], g[b[0]], want[b[0]]), 'DecodeRGB565Block')
    c.unit('K01', mod, seen)


def alpha1(ctx, out, D, off, ib):
    base = 8 * off
    ends = {l >> 1 for l in D[base:base + 32]}
    for i, w in enumerate(out):
        extra = {a for l in w for a in sup_of(ctx, l)} - ends - {l >> 1 for l in ib[i]}
        if extra:
            yield 'pixel %d' % i, 'depends on %s' % ctx.show(2 * min(extra))
            return
    v = np.arange(65536)
    p = [(v, v), (v, np.minimum(v + 1, 65535)), (np.minimum(v + 1, 65535), v), (v, 65535 - v)] + [(v, v ^ (1 << k)) for k in range(16)]
    p0, p1 = np.concatenate([x for x, _ in p]), np.concatenate([y for _, y in p])
    for k in range(4):
        t = Tab(ctx, len(p0))
        t.setbits(D[base:base + 16], p0)
        t.setbits(D[base + 16:base + 32], p1)
        for b in ib:
            t.setbits(b, np.full(len(p0), k))
        want = np.where((p0 <= p1) & (k == 3), 0, 255)
        for i, w in enumerate(out):
            got = t.word(w)
            b = np.nonzero(got != want)[0]
            if len(b):
                yield 'pixel %d, entry %d' % (i, k), 'of the colours 0x%04x, 0x%04x is %d instead of %d' % (p0[b[0]], p1[b[0]], got[b[0]], want[b[0]])
                return


def alpha8(ctx, out, D, off, full):
    base = 8 * off
    A, B = D[base:base + 8], D[base + 8:base + 16]
    ib = [D[base + 16 + 3 * i:base + 19 + 3 * i] for i in range(16)]
    ends = {l >> 1 for l in A + B}
    for i, w in enumerate(out):
        extra = {a for l in w for a in sup_of(ctx, l)} - ends - {l >> 1 for l in ib[i]}
        if extra:
            yield 'pixel %d' % i, 'depends on %s' % ctx.show(2 * min(extra))
            return
    a = np.arange(256) if full else np.array([0, 1, 2, 3, 5, 17, 63, 64, 100, 127, 128, 129, 190, 200, 254, 255])
    p0, p1 = np.meshgrid(a, np.arange(256))
    p0, p1 = p0.ravel(), p1.ravel()
    for k in range(8):
        t = Tab(ctx, len(p0))
        t.setbits(A, p0)
        t.setbits(B, p1)
        for b in ib:
            t.setbits(b, np.full(len(p0), k))
        want = palette8(p0, p1, np.full(len(p0), k))
        for i, w in enumerate(out):
            got = t.word(w)
            b = near(got, want)
            if b is not None:
                yield 'pixel %d, entry %d' % (i, k), 'of the ends %d, %d is %d instead of %.2f' % (p0[b], p1[b], got[b], want[b])
                return
