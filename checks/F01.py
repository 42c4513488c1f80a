"""Small floats: the bit-exact meaning of every code in both directions."""
from fractions import Fraction
import ir
from drv import *
from falg import FAlg

MIN = 1900
CODECS = {'H': (10, True, 'esFloat<10, 5, true>'), 'U': (6, False, 'esFloat<6, 5, false>'), 'S': (5, True, 'esFloat<5, 5, true>')}


def src():
    t = ['#include "datas/float.hpp"']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for k, (_, _, ty) in CODECS.items():
        d('void dec_' + k, 'const uint32 *a, float *o', '*o = %s::ToFloat(*a);' % ty)
        d('void decv_' + k, 'const IVector4A16 *a, Vector4A16 *o', '*o = %s::ToVector4(*a);' % ty)
        d('void enc_' + k, 'const float *a, uint32 *o', '*o = static_cast<uint32>(%s::FromFloat(*a));' % ty)
        d('void encv_' + k, 'const Vector4A16 *a, IVector4A16 *o', '*o = %s::FromVector4(*a);' % ty)
    d('void r11', 'const VectorR11G11B10_UFLOAT *a, Vector4A16 *o', '*o = *a;')
    d('void r11p', 'const uint32 *a, Vector4A16 *o', '*o = esFloat<6, 5, false>::ToVector4(IVector4A16(*a & 0x7ff, (*a >> 11) & 0x7ff, (*a >> 21) & 0x7fe, 0));')
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow per exponent value: with exponent and sign fixed and every mantissa bit symbolic, each result bit must be the '
           'required mantissa, exponent or sign bit; denormal results must equal the real-number value of their code.')
    c.assumption('round to nearest (the default rounding mode) for denormals being encoded')
    m = ir.unit(text=src(), name='F01')

    def word(s, e, sg, mant, nm, mw, ew=8):
        """symbolic mantissa of mw bits, exponent e of ew bits, sign bit or none"""
        return list(s.arg(nm, mw)) + [(e >> i) & 1 for i in range(ew)] + ([sg] if sg is not None else [])

    def decoded(s, fa, got, M, w, e, sg):
        """required float of code w"""
        mant = w[:M]
        sg = sg or 0
        if e == 0:
            want = fa.bitsum(mant, scale=Fraction(1, 2 ** (14 + M)))
            if sg:
                want = {k: -v for k, v in want.items()}
            ok, d = fa.eq(got, want)
            sb = got[31]
            k = s.c.keys[sb >> 1]
            if k[0] == 'a' and fa.nonneg(fa.poly(s.c.atoms(k[1], 32))):
                sb &= 1          # the sign of a sum that is not negative (x - x is +0)
            if ok and sb != sg:
                ok, d = False, 'sign bit is %s' % s.c.show(got[31])
            return ok, d
        x = 255 if e == 31 else e + 112
        return s.cmp(got, [0] * (23 - M) + mant + [(x >> i) & 1 for i in range(8)] + [sg])

    def fill(s, w, nm, n=32):
        """codes may carry anything above their width"""
        return Word(w + list(s.arg(nm, n))[len(w):])

    for k, (M, sgn, ty) in CODECS.items():
        for e in range(32):
            for sg in ((0, 1) if sgn else (None,)):
                nm = '%s exponent %d%s' % (ty, e, {None: '', 0: ' +', 1: ' -'}[sg])
                with c.part('decode ' + nm):
                    s = S(m)
                    s.buf('A'), s.buf('O')
                    w = word(s, e, sg, 0, 'm', M, 5)
                    s.setw('A', 0, fill(s, w, 'hi'))
                    s.run('dec_' + k, [Ptr('A'), Ptr('O')])
                    fa = FAlg(s.c)
                    fa.bits = True
                    ok, d = decoded(s, fa, Word(s.outbits('O', 0, 4)), M, w, e, sg)
                    c.ob('ToFloat ' + nm, ok, d, ty + '::ToFloat')
                with c.part('decode vector ' + nm):
                    s = S(m)
                    s.buf('A'), s.buf('O')
                    ws = []
                    for l in range(4):
                        el, sl = (e, e + 1, 0, 31)[l] % 32, (sg if l % 2 == 0 or sg is None else sg ^ 1)
                        w = word(s, el, sl, 0, 'm%d' % l, M, 5)
                        ws.append((w, el, sl))
                        s.setw('A', 4 * l, fill(s, w, 'hi%d' % l))
                    s.run('decv_' + k, [Ptr('A'), Ptr('O')])
                    fa = FAlg(s.c)
                    fa.bits = True
                    ok, d = True, ''
                    for l, (w, el, sl) in enumerate(ws):
                        if ok:
                            ok, d = decoded(s, fa, Word(s.outbits('O', 4 * l, 4)), M, w, el, sl)
                            d = 'lane %d: %s' % (l, d)
                    c.ob('ToVector4 ' + nm, ok, d, ty + '::ToVector4')
        # encoding: exponent field of the float
        for e in list(range(0, 256)):
            for sg in ((0, 1) if sgn else (0,)):
                nm = '%s exponent %d%s' % (ty, e, '-' if sg else '+')

                def encoded(s, got, w, e, sg):
                    got = list(got)
                    top = [0] * (32 - M - 5 - (1 if sgn else 0))
                    sb = [sg] if sgn else []
                    if e == 255:
                        # infinity has no mantissa; of NaN the top bits are kept
                        return s.cmp(got, list(w[23 - M:23]) + [1] * 5 + sb + top)
                    if e >= 143:
                        return s.cmp(got, [0] * M + [1] * 5 + sb + top)
                    if e >= 113:
                        x = e - 112
                        return s.cmp(got, list(w[23 - M:23]) + [(x >> i) & 1 for i in range(5)] + sb + top)
                    r = list(s.it.fop('fadd', s.c.cw(0x3f000000, 32), Word(list(w[:31]) + [0])))[:11] + [0] * 21
                    r = r[10 - M:M + 5 + 10 - M]
                    return s.cmp(got, r + sb + top)
                with c.part('encode ' + nm):
                    s = S(m)
                    s.buf('A'), s.buf('O')
                    w = word(s, e, sg, 0, 'm', 23)
                    s.setw('A', 0, Word(w))
                    s.run('enc_' + k, [Ptr('A'), Ptr('O')])
                    ok, d = encoded(s, s.outbits('O', 0, 4), w, e, sg)
                    c.ob('FromFloat ' + nm, ok, d, ty + '::FromFloat')
                with c.part('encode vector ' + nm):
                    s = S(m)
                    s.buf('A'), s.buf('O')
                    ws = []
                    for l in range(4):
                        el = (e, min(e + 1, 255), 112, 120)[l]
                        sl = sg if l % 2 == 0 or not sgn else sg ^ 1
                        w = word(s, el, sl, 0, 'm%d' % l, 23)
                        ws.append((w, el, sl))
                        s.setw('A', 4 * l, Word(w))
                    s.run('encv_' + k, [Ptr('A'), Ptr('O')])
                    ok, d = True, ''
                    for l, (w, el, sl) in enumerate(ws):
                        if ok:
                            ok, d = encoded(s, s.outbits('O', 4 * l, 4), w, el, sl)
                            d = 'lane %d: %s' % (l, d)
                    c.ob('FromVector4 ' + nm, ok, d, ty + '::FromVector4')
    with c.part('VectorR11G11B10_UFLOAT'):
        for e in range(32):
            s = S(m)
            s.buf('A'), s.buf('O')
            eb = [(e >> i) & 1 for i in range(5)]
            r, g, b = list(s.arg('r', 6)) + eb, list(s.arg('g', 6)) + eb, list(s.arg('b', 5)) + eb
            s.setw('A', 0, Word(r + g + b))
            s.run('r11', [Ptr('A'), Ptr('O')])
            fa = FAlg(s.c)
            fa.bits = True
            ok, d = True, ''
            for l, w in enumerate((r, g, [0] + b)):
                if ok:
                    ok, d = decoded(s, fa, Word(s.outbits('O', 4 * l, 4)), 6, w, e, None)
                    d = 'lane %d: %s' % (l, d)
            c.ob('VectorR11G11B10_UFLOAT exponent %d' % e, ok, d, 'VectorR11G11B10_UFLOAT')
    c.unit('F01 driver', m)
