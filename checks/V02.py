"""SIMD vectors: the same component-wise meaning as the scalar ones."""
import ir
from drv import *
from falg import FAlg
from V01 import symcheck, falgeps

MIN = 190
AR = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
BI = {'and': '&', 'or': '|', 'xor': '^'}
INT = {'IVector4A16': 'int32', 'UIVector4A16': 'uint32'}
CMP = {'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
CV = ['int32', 'uint32', 'int16', 'uint8', 'float']


def src():
    t = ['#include "datas/vectors_simd.hpp"', 'using F = Vector4A16;', 'struct R { float X, Y, Z, W; };']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for V, E, ops in [('F', 'float', dict(AR, **BI))] + [(v, e, dict({k: x for k, x in AR.items() if k != 'div'}, **BI)) for v, e in INT.items()]:
        for o, sy in ops.items():
            d('void b_%s_%s' % (o, V), 'const %s *a, const %s *b, %s *o' % (V, V, V), '*o = *a %s *b;' % sy)
            d('void c_%s_%s' % (o, V), '%s *a, const %s *b' % (V, V), '*a %s= *b;' % sy)
            if not (o == 'xor' and V != 'F'):
                d('void bs_%s_%s' % (o, V), 'const %s *a, const %s *b, %s *o' % (V, E, V), '*o = *a %s *b;' % sy)
            d('void cs_%s_%s' % (o, V), '%s *a, const %s *b' % (V, E), '*a %s= *b;' % sy) if not (o == 'xor' and V != 'F') else None
        d('void not_%s' % V, 'const %s *a, %s *o' % (V, V), '*o = ~*a;')
        d('void def_%s' % V, '%s *o' % V, '*o = %s();' % V)
        d('void spl_%s' % V, '%s *o, const %s *b' % (V, E), '*o = %s(*b);' % V)
        d('void mk_%s' % V, '%s *o, const %s *b' % (V, E), '*o = %s(b[0], b[1], b[2], b[3]);' % V)
        d('void v4_%s' % V, '%s *o, const t_Vector4<%s> *b' % (V, E), '*o = %s(*b);' % V)
        d('void to3_%s' % V, 'const %s *a, t_Vector<%s> *o' % (V, E), '*o = *a;')
        d('void to2_%s' % V, 'const %s *a, t_Vector2<%s> *o' % (V, E), '*o = *a;')
        d('void rd_%s' % V, 'const %s *a, %s *o' % (V, E), 'for (int i = 0; i < 4; i++) o[i] = (*a)[i];')
        d('void wr_%s' % V, '%s *a, const %s *b' % (V, E), 'for (int i = 0; i < 4; i++) (*a)[i] = b[i];')
        d('void nm_%s' % V, 'const %s *a, %s *o' % (V, E), ' '.join('o[%d] = a->%s; o[%d] = a->%s;' % (i, 'XYZW'[i], i + 4, 'xyzw'[i]) for i in range(4)))
        d('bool eq_%s' % V, 'const %s *a, const %s *b' % (V, V), 'return *a == *b;')
        d('bool ne_%s' % V, 'const %s *a, const %s *b' % (V, V), 'return *a != *b;')
        for u in CV:
            d('void cv_%s_%s' % (V, u), 'const %s *a, t_Vector4<%s> *o' % (V, u), '*o = a->template Convert<%s>();' % u)
            d('void rcv_%s_%s' % (V, u), 'const %s *a, %s *o' % (E, u), '*o = static_cast<%s>(*a);' % u)
    for V, E in INT.items():
        for k in (0, 1, 7, 31):
            d('void shl%d_%s' % (k, V), 'const %s *a, %s *o' % (V, V), '*o = *a << %d;' % k)
            d('void shr%d_%s' % (k, V), 'const %s *a, %s *o' % (V, V), '*o = *a >> %d;' % k)
            d('void cshl%d_%s' % (k, V), '%s *o' % V, '*o <<= %d;' % k)
            d('void cshr%d_%s' % (k, V), '%s *o' % V, '*o >>= %d;' % k)
        d('void flt_%s' % V, 'const %s *a, F *o' % V, '*o = *a;')
    d('void int_F', 'const F *a, IVector4A16 *o', '*o = *a;')
    d('void neg_F', 'const F *a, F *o', '*o = -*a;')
    d('void vw_F', 'F *o, const Vector *b, const float *w', '*o = F(*b, *w);')
    for o, sy in CMP.items():
        d('bool %s_F' % o, 'const F *a, const F *b', 'return *a %s *b;' % sy)
        d('bool s%s_F' % o, 'const F *a, const float *b', 'return *a %s *b;' % sy)
    d('void seps', 'float f', 'V4SimdFltType::SetEpsilon(f);')
    d('bool sym_F', 'const F *a', 'return a->IsSymetrical();')
    d('int sg_F', 'const F *a', 'return a->Sign();')
    d('void len_F', 'const F *a, float *o', '*o = a->Length();')
    d('void dot_F', 'const F *a, const F *b, float *o', '*o = a->Dot(*b);')
    d('void dotv_F', 'const F *a, const F *b, F *o', '*o = a->DotV(*b);')
    d('void crs_F', 'const F *a, const F *b, F *o', '*o = a->Cross(*b);')
    d('void nrd_F', 'const F *a, F *o', '*o = a->Normalized();')
    d('void nrm_F', 'F *o', 'o->Normalize();')
    d('void qc_F', 'const F *a, F *o', '*o = a->QConjugate();')
    d('void qe_F', 'F *o', 'o->QComputeElement();')
    for i in range(4):
        d('void qe%d_F' % i, 'F *o', 'o->QComputeElement<%d>();' % i)
        d('void qv%d_F' % i, 'F *o', 'o->QComputeElementVar(%d);' % i)
    d('void qv_F', 'F *o', 'o->QComputeElementVar();')
    return '\n'.join(t)


def run(c):
    c.rule('Value-numbering dataflow with lane-exact meanings of the SSE operations: every lane of a result must be the component-wise term '
           'the scalar vectors compute (float sums and products compared as polynomials), comparisons must be the conjunction over all four '
           'lanes, and the other operands keep their bits.')
    c.assumption('float results are compared as real-number formulas; rounding of equivalent formulas is not distinguished')
    m = ir.unit(text=src(), name='V02')

    def lanes(b):
        return [Word(b[32 * i:32 * i + 32]) for i in range(len(b) // 32)]

    def go(fn, *args):
        s = S(m)
        for b in 'ABOW':
            s.buf(b)
        s.run(fn, [Ptr(a) for a in args])
        return s, FAlg(s.c)

    def keep(s, tgt, n=16):
        for q in 'ABOW':
            off = n if q == tgt else 0
            ok, d = s.cmp(s.outbits(q, off, 24), s.inbits(q, off, 24))
            if not ok:
                return False, 'memory of %s changed: %s' % (q, d)
        return True, ''

    for V, E in [('F', 'float')] + list(INT.items()):
        flt = V == 'F'
        nm = {'F': 'Vector4A16'}.get(V, V)
        for o, sy in dict(AR, **BI).items():
            for form in ('b', 'c', 'bs', 'cs'):
                fn = '%s_%s_%s' % (form, o, V)
                if fn not in m.funcs:
                    continue
                tgt = 'O' if form[0] == 'b' else 'A'
                s, fa = go(fn, *('ABO' if form[0] == 'b' else 'AB'))
                A = lanes(s.inbits('A', 0, 16))
                B = [Word(s.inbits('B', 0 if form[-1] == 's' else 4 * i, 4)) for i in range(4)]
                ok, d = keep(s, tgt)
                for i, g in enumerate(lanes(s.outbits(tgt, 0, 16))):
                    if not ok:
                        break
                    if o in BI:
                        f = {'and': s.c.AND, 'or': s.c.OR, 'xor': s.c.XOR}[o]
                        ok, d = s.cmp(g, [f(p, q) for p, q in zip(A[i], B[i])])
                    elif flt:
                        p, q = fa.poly(A[i]), fa.poly(B[i])
                        ok, d = fa.eq(g, {'add': lambda: fa.padd(p, q), 'sub': lambda: fa.padd(p, q, -1), 'mul': lambda: fa.pmul(p, q),
                                          'div': lambda: fa.pmul(p, fa.pinv(q))}[o]())
                    else:
                        ok, d = s.cmp(g, {'add': s.c.add, 'sub': s.c.sub, 'mul': s.c.mul}[o](A[i], B[i]))
                    if not ok:
                        d = 'lane %d: %s' % (i, d)
                c.ob('%s %s %s' % (nm, {'b': 'vector', 'c': 'assign vector', 'bs': 'scalar', 'cs': 'assign scalar'}[form], sy), ok, d, nm + '::operator' + sy)
        s, fa = go('not_' + V, 'A', 'O')
        ok, d = s.cmp(s.outbits('O', 0, 16), [b ^ 1 for b in s.inbits('A', 0, 16)])
        c.ob(nm + ' ~', ok, d, nm + '::operator~')
        s, fa = go('def_' + V, 'O')
        ok, d = s.cmp(s.outbits('O', 0, 16), [0] * 128)
        c.ob(nm + ' default is zero', ok, d, nm)
        for fn, k in (('spl_', 0), ('mk_', 1), ('v4_', 1), ('wr_', 1)):
            s, fa = go(fn + V, 'O', 'B')
            ok, d = s.cmp(s.outbits('O', 0, 20), sum([s.inbits('B', k * i * 4, 4) for i in range(4)], []) + s.inbits('O', 16, 4))
            c.ob('%s %s' % (nm, {'spl_': 'from scalar', 'mk_': 'from components', 'v4_': 'from scalar vector', 'wr_': 'index write'}[fn]), ok, d, nm)
        for fn, n in (('rd_', 4), ('nm_', 8), ('to3_', 3), ('to2_', 2)):
            s, fa = go(fn + V, 'A', 'O')
            ok, d = s.cmp(s.outbits('O', 0, 4 * n + 4), (s.inbits('A', 0, 16) * 2)[:32 * n] + s.inbits('O', 4 * n, 4))
            c.ob('%s %s' % (nm, fn), ok, d, nm)
        # equality
        s, fa = go('eq_' + V, 'A', 'B')
        A, B = lanes(s.inbits('A', 0, 16)), lanes(s.inbits('B', 0, 16))
        got = fa.lit(s.ret[0])
        want = 1
        for i, (p, q) in enumerate(zip(A, B)):
            if flt:
                P, Q = fa.poly(p), fa.poly(q)
                e = fa.poly(eps(s, m, i))
                want = s.c.AND(want, fa.sign('nonneg', fa.padd(fa.padd(Q, e), P, -1)))
                want = s.c.AND(want, fa.sign('nonneg', fa.padd(fa.padd(P, e), Q, -1)))
            else:
                want = s.c.AND(want, s.c.eq(p, q))
        c.ob(nm + ' ==', s.c.same(got, want), 'equality does not compare exactly all lanes', nm + '::operator==')
        s2 = S(m, s.c)
        for b in 'AB':
            s2.buf(b)
        s2.run('ne_' + V, [Ptr('A'), Ptr('B')])
        c.ob(nm + ' !=', s.c.same(fa.lit(s2.ret[0]), want ^ 1), 'is not the negation of ==', nm + '::operator!=')
        for u in CV:
            s, fa = go('cv_%s_%s' % (V, u), 'A', 'O')
            ue = {'int16': 2, 'uint8': 1}.get(u, 4)
            ok = True
            for i, a in enumerate(lanes(s.inbits('A', 0, 16))):
                t = S(m, s.c)
                t.buf('X'), t.buf('Z')
                t.setw('X', 0, a)
                t.run('rcv_%s_%s' % (V, u), [Ptr('X'), Ptr('Z')])
                ok, d = s.cmp(s.outbits('O', i * ue, ue), t.outbits('Z', 0, ue))
                if not ok:
                    d = 'lane %d: %s' % (i, d)
                    break
            c.ob('%s Convert<%s>' % (nm, u), ok, d, nm + '::Convert')
        if not flt:
            for k in (0, 1, 7, 31):
                for fn in ('shl', 'shr'):
                    for cp in ('', 'c'):
                        s, fa = go('%s%s%d_%s' % (cp, fn, k, V), *(('A', 'O') if not cp else ('O',)))
                        a = 'O' if cp else 'A'
                        ok = True
                        for i, q in enumerate(lanes(s.inbits(a, 0, 16))):
                            w = [0] * k + list(q[:32 - k]) if fn == 'shl' else list(q[k:]) + [q[31] if V[0] == 'I' else 0] * k
                            ok, d = s.cmp(s.outbits('O', 4 * i, 4), w)
                            if not ok:
                                d = 'lane %d: %s' % (i, d)
                                break
                        c.ob('%s %s%s %d' % (nm, fn, '=' if cp else '', k), ok, d, nm + '::operator' + ('<<' if fn == 'shl' else '>>'))
            if V[0] == 'I':
                s, fa = go('flt_' + V, 'A', 'O')
                ok = True
                for i, a in enumerate(lanes(s.inbits('A', 0, 16))):
                    g = Word(s.outbits('O', 4 * i, 4))
                    t = S(m, s.c)
                    t.buf('X'), t.buf('Z')
                    t.setw('X', 0, a)
                    t.run('rcv_%s_float' % V, [Ptr('X'), Ptr('Z')])
                    ok, d = s.cmp(g, t.outbits('Z', 0, 4))
                    if not ok:
                        break
                c.ob(nm + ' to float vector', ok, d, nm + '::operator V4SimdFltType')
    nm = 'Vector4A16'
    s, fa = go('int_F', 'A', 'O')
    ok = all(Word(s.outbits('O', 4 * i, 4)) == s.c.op(32, 'cvtps2dq', Word(s.inbits('A', 4 * i, 4))) for i in range(4))
    c.ob(nm + ' to integer vector', ok, 'a lane is not the rounded lane of the operand', nm + '::operator V4SimdIntType')
    s, fa = go('neg_F', 'A', 'O')
    ok, d = True, ''
    for i in range(4):
        if ok:
            ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), {k: -v for k, v in fa.poly(Word(s.inbits('A', 4 * i, 4))).items()})
    c.ob(nm + ' unary minus', ok, d, nm + '::operator-')
    s, fa = go('vw_F', 'O', 'B', 'W')
    ok, d = s.cmp(s.outbits('O', 0, 16), s.inbits('B', 0, 12) + s.inbits('W', 0, 4))
    c.ob(nm + ' from vector and w', ok, d, nm)
    for o in CMP:
        for sc in ('', 's'):
            s, fa = go(sc + o + '_F', 'A', 'B')
            A = lanes(s.inbits('A', 0, 16))
            B = lanes(s.inbits('B', 0, 16)) if not sc else [Word(s.inbits('B', 0, 4))] * 4
            st, ee = 1, 1
            for i, (p, q) in enumerate(zip(A, B)):
                P, Q = fa.poly(p), fa.poly(q)
                e = fa.poly(eps(s, m, i))
                df = fa.padd(Q, P, -1) if o[0] == 'l' else fa.padd(P, Q, -1)
                st = s.c.AND(st, fa.sign('pos', df))
                ee = s.c.AND(ee, fa.sign('nonneg', fa.padd(fa.padd(Q, e), P, -1)))
                ee = s.c.AND(ee, fa.sign('nonneg', fa.padd(fa.padd(P, e), Q, -1)))
            want = st if o[1] == 't' else s.c.OR(st, ee)
            c.ob('%s %s %s' % (nm, CMP[o], 'scalar' if sc else 'vector'), s.c.same(fa.lit(s.ret[0]), want),
                 'is not the conjunction over all lanes', nm + '::operator' + CMP[o])
    symcheck(c, m, 'sym_F', 4, nm, nm)
    s, fa = go('sg_F', 'A')
    sg = 0
    for q in lanes(s.inbits('A', 0, 16)):
        sg = s.c.OR(sg, q[31])
    ok, d = s.cmp(s.ret, [1] + [sg] * 31)
    c.ob(nm + ' Sign', ok, d, nm + '::Sign')

    def sumsq(s, fa, q='A'):
        r = {}
        for p in lanes(s.inbits(q, 0, 16)):
            r = fa.padd(r, fa.pmul(fa.poly(p), fa.poly(p)))
        return r
    s, fa = go('len_F', 'A', 'O')
    ok, d = fa.eq(Word(s.outbits('O', 0, 4)), fa.fn('sqrt', sumsq(s, fa)))
    c.ob(nm + ' Length', ok, d, nm + '::Length')
    for fn, n in (('dot_F', 1), ('dotv_F', 4)):
        s, fa = go(fn, 'A', 'B', 'O')
        w = {}
        for p, q in zip(lanes(s.inbits('A', 0, 16)), lanes(s.inbits('B', 0, 16))):
            w = fa.padd(w, fa.pmul(fa.poly(p), fa.poly(q)))
        ok, d = True, ''
        for i in range(n):
            if ok:
                ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), w)
        c.ob('%s %s' % (nm, fn), ok, d, nm + '::Dot')
    s, fa = go('crs_F', 'A', 'B', 'O')
    P = [fa.poly(q) for q in lanes(s.inbits('A', 0, 16))]
    Q = [fa.poly(q) for q in lanes(s.inbits('B', 0, 16))]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), fa.padd(fa.pmul(P[j], Q[k]), fa.pmul(P[k], Q[j]), -1))
        c.ob('%s Cross component %d' % (nm, i), ok, d, nm + '::Cross')
    for fn, a in (('nrd_F', 'A'), ('nrm_F', 'O')):
        for z in (0, 1):
            s, fa = go(fn, *(('A', 'O') if a == 'A' else ('O',)))
            sq = sumsq(s, fa, a)
            ln = fa.fn('sqrt', sq)
            fa.assume_sign([(ln, 0 if z else 1), (sq, 0 if z else 1)])
            ok, d = True, ''
            for i in range(4):
                x = fa.poly(Word(s.inbits(a, 4 * i, 4)))
                if ok:
                    ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), x if z else fa.pmul(x, fa.pinv(ln)))
            c.ob('%s %s, length %s' % (nm, fn, 'zero' if z else 'not zero'), ok, d, nm + '::Normalize')
    s, fa = go('qc_F', 'A', 'O')
    for i in range(4):
        x = fa.poly(Word(s.inbits('A', 4 * i, 4)))
        ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), x if i == 3 else {k: -v for k, v in x.items()})
        c.ob('%s QConjugate component %d' % (nm, i), ok, d, nm + '::QConjugate')
    for fn, e in [('qe_F', 3), ('qv_F', 3)] + [('qe%d_F' % i, i) for i in range(4)] + [('qv%d_F' % i, i) for i in range(4)]:
        s, fa = go(fn, 'O')
        ok, d = True, ''
        for i in range(4):
            x = fa.poly(Word(s.inbits('O', 4 * i, 4)))
            w = fa.fn('sqrt', fa.padd(fa.pconst(1), sumsq(s, fa, 'O'), -1)) if i == e else x
            if ok:
                ok, d = fa.eq(Word(s.outbits('O', 4 * i, 4)), w)
        c.ob('%s %s' % (nm, fn), ok, d, nm + '::QComputeElement')
    s = S(m)
    f = s.arg('f', 32)
    s.run('seps', [f])
    ok = all(eps(s, m, i) == f for i in range(4))
    c.ob(nm + ' SetEpsilon sets every lane', ok, '', nm + '::SetEpsilon')
    s = S(m)
    s.it.globals_initial = True
    for b in 'AB':
        s.buf(b)
    s.run('eq_F', [Ptr('A'), Ptr('B')])
    fa = FAlg(s.c)
    ok = all(fa.poly(eps(s, m, i)) == {(): falgeps()} for i in range(4))
    c.ob(nm + ' initial epsilon is FLT_EPSILON in every lane', ok, '', '__V4SimdFltType_EPSILON')
    c.unit('V02 driver', m)


def eps(s, m, i):
    """lane i of the comparison epsilon"""
    n = [x for x, g in m.globals.items() if 'EPSILON' in x]
    b = ('g', n[0])
    o = s.it.obj(s.out, b)
    return Word(s.it.get(o, 4 * i, ['i', 32], b))
