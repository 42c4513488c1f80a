"""Scalar vectors: every operation acts component by component."""
import ir
from drv import *
from falg import FAlg

MIN = 1000
TY = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'float': 4}
CL = {'t_Vector2': 2, 't_Vector': 3, 't_Vector4': 4}
AR = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
BI = {'and': '&', 'or': '|'}
SH = {'shl': '<<', 'shr': '>>'}
FL = ['-Wno-c++11-narrowing']


def ops(t):
    r = dict(AR)
    if t != 'float':
        r.update(BI)
        r.update(SH)
    return r


def src():
    t = ['#include "datas/vectors.hpp"', '#include "datas/endian.hpp"']
    for ty in TY:
        for o, s in ops(ty).items():
            b = 'int32' if o in SH else ty
            t.append('extern "C" void ref_%s_%s(const %s *a, const %s *b, %s *o) { *o = static_cast<%s>(*a %s *b); }' % (o, ty, ty, b, ty, ty, s))
        for u in TY:
            t.append('extern "C" void cv_%s_%s(const %s *a, %s *o) { *o = static_cast<%s>(*a); }' % (ty, u, ty, u, u))
        t.append('extern "C" void ref_neg_%s(const %s *a, %s *o) { *o = static_cast<%s>(-*a); }' % (ty, ty, ty, ty))
        for cl, n in CL.items():
            V = '%s<%s>' % (cl, ty)
            x = '%s_%s' % (cl, ty)
            base = 'V4ScalarType' if n == 4 else cl
            for o, s in ops(ty).items():
                sh = o in SH
                B = '%s<int32>' % base if sh else V
                b = 'int32' if sh else ty
                t.append('extern "C" void b_%s_%s(const %s *a, const %s *b, %s *o) { *o = *a %s *b; }' % (o, x, V, B, V, s))
                t.append('extern "C" void c_%s_%s(%s *a, const %s *b) { *a %s= *b; }' % (o, x, V, B, s))
                t.append('extern "C" void bs_%s_%s(const %s *a, const %s *b, %s *o) { *o = *a %s *b; }' % (o, x, V, b, V, s))
                t.append('extern "C" void cs_%s_%s(%s *a, const %s *b) { *a %s= *b; }' % (o, x, V, b, s))
            t.append('extern "C" void neg_%s(const %s *a, %s *o) { *o = -*a; }' % (x, V, V))
            t.append('extern "C" void def_%s(%s *o) { *o = %s(); }' % (x, V, V))
            t.append('extern "C" void spl_%s(%s *o, const %s *b) { *o = %s(*b); }' % (x, V, ty, V))
            a = ', '.join('b[%d]' % i for i in range(n))
            t.append('extern "C" void mk_%s(%s *o, const %s *b) { *o = %s(%s); }' % (x, V, ty, V, a))
            t.append('extern "C" bool eq_%s(const %s *a, const %s *b) { return *a == *b; }' % (x, V, V))
            t.append('extern "C" bool ne_%s(const %s *a, const %s *b) { return *a != *b; }' % (x, V, V))
            t.append('extern "C" bool sym_%s(const %s *a) { return a->IsSymetrical(); }' % (x, V))
            t.append('extern "C" void dot_%s(const %s *a, const %s *b, %s *o) { *o = a->Dot(*b); }' % (x, V, V, ty))
            t.append('extern "C" void len_%s(const %s *a, %s *o) { *o = a->Length(); }' % (x, V, ty))
            t.append('extern "C" void nrm_%s(%s *a) { a->Normalize(); }' % (x, V))
            t.append('extern "C" void rd_%s(const %s *a, %s *o) { %s }' % (x, V, ty, ' '.join('o[%d] = (*a)[%d];' % (i, i) for i in range(n))))
            t.append('extern "C" void wr_%s(%s *a, const %s *b) { %s }' % (x, V, ty, ' '.join('(*a)[%d] = b[%d];' % (i, i) for i in range(n))))
            t.append('extern "C" void nm_%s(const %s *a, %s *o) { %s }' % (x, V, ty, ' '.join('o[%d] = a->%s; o[%d] = a->%s;' % (i, 'XYZW'[i], i + n, 'xyzw'[i]) for i in range(n))))
            if ty != 'float':
                t.append('extern "C" int sg_%s(const %s *a) { return a->Sign(); }' % (x, V))
            for u in TY:
                t.append('extern "C" void vcv_%s_%s(const %s *a, %s<%s> *o) { *o = a->template Convert<%s>(); }' % (x, u, V, cl, u, u))
            if n == 3:
                t.append('extern "C" void crs_%s(const %s *a, const %s *b, %s *o) { *o = a->Cross(*b); }' % (x, V, V, V))
                t.append('extern "C" void to2_%s(const %s *a, t_Vector2<%s> *o) { *o = *a; }' % (x, V, ty))
                t.append('extern "C" void to4_%s(const %s *a, t_Vector4<%s> *o) { *o = *a; }' % (x, V, ty))
            if n == 4:
                t.append('extern "C" void to2_%s(const %s *a, t_Vector2<%s> *o) { *o = *a; }' % (x, V, ty))
                t.append('extern "C" void to3_%s(const %s *a, t_Vector<%s> *o) { *o = *a; }' % (x, V, ty))
    return '\n'.join(t)


def run(c):
    c.rule('Value-numbering dataflow: each component of the result of a vector operation must be the term the scalar operation computes from '
           'the same component of the operands (sums and products of float terms compared as polynomials, so association and order are free), '
           'compound assignment must equal the binary operation, operands other than the target keep their bits.')
    c.assumption('float results are compared as real-number formulas; rounding of equivalent formulas is not distinguished')
    m = ir.unit(text=src(), name='V01', flags=FL)
    for ty, e in TY.items():
        flt = ty == 'float'
        for cl, n in CL.items():
            x = '%s_%s' % (cl, ty)
            sz = e * n
            w = 8 * e

            def fresh():
                s = S(m)
                for b in 'ABORM':
                    s.buf(b)
                return s, FAlg(s.c)

            def lanes(bits):
                return [Word(bits[i * w:(i + 1) * w]) for i in range(len(bits) // w)]

            def ref(s, fn, a, b=None):
                """result of the scalar reference on lane words"""
                t = S(m, s.c)
                for q in 'XYZ':
                    t.buf(q)
                t.setw('X', 0, a)
                if b is not None:
                    t.setw('Y', 0, b)
                t.run(fn, [Ptr('X'), Ptr('Y'), Ptr('Z')] if b is not None else [Ptr('X'), Ptr('Z')])
                return t

            def same(s, fa, got, want):
                if flt:
                    for i, (g, k) in enumerate(zip(got, want)):
                        ok, d = fa.eq(g, k)
                        if not ok:
                            return False, 'component %d %s' % (i, d)
                    return True, ''
                for i, (g, k) in enumerate(zip(got, want)):
                    ok, d = s.cmp(g, k)
                    if not ok:
                        return False, 'component %d: %s' % (i, d)
                return True, ''

            for o in ops(ty):
                sh = o in SH
                eb = 4 if sh else e
                for form in ('b', 'c', 'bs', 'cs'):
                    s, fa = fresh()
                    fn = '%s_%s_%s' % (form, o, x)
                    s.run(fn, [Ptr('A'), Ptr('B')] + ([Ptr('O')] if form[0] == 'b' else []))
                    A = lanes(s.inbits('A', 0, sz))
                    B = [Word(s.inbits('B', (0 if form[-1] == 's' else i) * eb, eb)) for i in range(n)]
                    if sh:
                        # equality is required where the shift is defined
                        pass
                    want = [Word(ref(s, 'ref_%s_%s' % (o, ty), a, b).outbits('Z', 0, e)) for a, b in zip(A, B)]
                    tgt = 'O' if form[0] == 'b' else 'A'
                    ok, d = same(s, fa, lanes(s.outbits(tgt, 0, sz)), want)
                    for q in 'ABO':
                        if ok:
                            off = sz if q == tgt else 0
                            ok, d = s.cmp(s.outbits(q, off, 24), s.inbits(q, off, 24))
                    c.ob('%s<%s> %s %s' % (cl, ty, {'b': 'vector', 'c': 'assign vector', 'bs': 'scalar', 'cs': 'assign scalar'}[form], ops(ty)[o]), ok, d, cl + '::operator' + ops(ty)[o])
            s, fa = fresh()
            s.run('neg_' + x, [Ptr('A'), Ptr('O')])
            A = lanes(s.inbits('A', 0, sz))
            want = [Word(ref(s, 'ref_neg_' + ty, a).outbits('Z', 0, e)) for a in A]
            ok, d = same(s, fa, lanes(s.outbits('O', 0, sz)), want)
            c.ob('%s<%s> unary minus' % (cl, ty), ok, d, cl + '::operator-')
            s, fa = fresh()
            s.run('def_' + x, [Ptr('O')])
            ok, d = s.cmp(s.outbits('O', 0, sz), [0] * (8 * sz))
            c.ob('%s<%s> default is zero' % (cl, ty), ok, d, cl)
            for fn, k in (('spl_', lambda i: 0), ('mk_', lambda i: i), ('wr_', lambda i: i)):
                s, fa = fresh()
                s.run(fn + x, [Ptr('O'), Ptr('B')])
                want = sum([s.inbits('B', k(i) * e, e) for i in range(n)], []) + s.inbits('O', sz, 8)
                ok, d = s.cmp(s.outbits('O', 0, sz + 8), want)
                c.ob('%s<%s> %s' % (cl, ty, fn), ok, d, cl)
            for fn, k in (('rd_', 1), ('nm_', 2)):
                s, fa = fresh()
                s.run(fn + x, [Ptr('A'), Ptr('O')])
                ok, d = s.cmp(s.outbits('O', 0, sz * k), s.inbits('A', 0, sz) * k)
                c.ob('%s<%s> %s' % (cl, ty, fn), ok, d, cl)
            # equality
            s, fa = fresh()
            A = lanes(s.inbits('A', 0, sz))
            B = lanes(s.inbits('B', 0, sz))

            def eqlit(p, q):
                if not flt:
                    return s.c.eq(p, q)
                eps = {(): falgeps()}
                P, Q = fa.poly(p), fa.poly(q)
                lo = fa.padd(fa.padd(Q, eps), P, -1)
                hi = fa.padd(P, fa.padd(Q, eps, -1), -1)
                return s.c.AND(fa.sign('nonneg', lo), fa.sign('nonneg', hi))
            want = 1
            for p, q in zip(A, B):
                want = s.c.AND(want, eqlit(p, q))
            s.run('eq_' + x, [Ptr('A'), Ptr('B')])
            ok = s.c.same(fa.lit(s.ret[0]), want)
            c.ob('%s<%s> ==' % (cl, ty), ok, 'equality does not compare exactly all components', cl + '::operator==')
            s.run('ne_' + x, [Ptr('A'), Ptr('B')])
            ok = s.c.same(fa.lit(s.ret[0]), want ^ 1)
            c.ob('%s<%s> !=' % (cl, ty), ok, 'is not the negation of ==', cl + '::operator!=')
            if flt:
                symcheck(c, m, 'sym_' + x, n, '%s<%s>' % (cl, ty), cl)
            if not flt:
                s.run('sym_' + x, [Ptr('A')])
                want = 1
                for q in A[1:]:
                    want = s.c.AND(want, s.c.eq(A[0], q))
                ok, d = s.cmp([s.ret[0]], [want])
                c.ob('%s<%s> IsSymetrical' % (cl, ty), ok, d, cl + '::IsSymetrical')
                s.run('sg_' + x, [Ptr('A')])
                sg = 0
                for q in A:
                    sg = s.c.OR(sg, q[-1] if ty[0] == 'i' else 0)
                ok, d = s.cmp(s.ret, [1] + [sg] * 31)
                c.ob('%s<%s> Sign' % (cl, ty), ok, d, cl + '::Sign')
            # dot, cross, length
            if flt or e == 4:
                s, fa = fresh()
                A = lanes(s.inbits('A', 0, sz))
                B = lanes(s.inbits('B', 0, sz))
                s.run('dot_' + x, [Ptr('A'), Ptr('B'), Ptr('O')])
                got = Word(s.outbits('O', 0, e))
                if flt:
                    want = {}
                    for p, q in zip(A, B):
                        want = fa.padd(want, fa.pmul(fa.poly(p), fa.poly(q)))
                    ok, d = fa.eq(got, want)
                else:
                    want = s.c.cw(0, w)
                    for p, q in zip(A, B):
                        want = s.c.add(want, s.c.mul(p, q))
                    ok, d = s.cmp(got, want)
                c.ob('%s<%s> Dot' % (cl, ty), ok, d, cl + '::Dot')
                if n == 3:
                    s, fa = fresh()
                    s.run('crs_' + x, [Ptr('A'), Ptr('B'), Ptr('O')])
                    got = lanes(s.outbits('O', 0, sz))
                    for i in range(3):
                        j, k = (i + 1) % 3, (i + 2) % 3
                        A = lanes(s.inbits('A', 0, sz))
                        B = lanes(s.inbits('B', 0, sz))
                        if flt:
                            P = [fa.poly(q) for q in A]
                            Q = [fa.poly(q) for q in B]
                            ok, d = fa.eq(got[i], fa.padd(fa.pmul(P[j], Q[k]), fa.pmul(P[k], Q[j]), -1))
                        else:
                            ok, d = s.cmp(got[i], s.c.sub(s.c.mul(A[j], B[k]), s.c.mul(A[k], B[j])))
                        c.ob('%s<%s> Cross component %d' % (cl, ty, i), ok, d, cl + '::Cross')
            if flt:
                s, fa = fresh()
                A = lanes(s.inbits('A', 0, sz))
                sq = {}
                for p in A:
                    sq = fa.padd(sq, fa.pmul(fa.poly(p), fa.poly(p)))
                ln = fa.fn('sqrt', sq)
                s.run('len_' + x, [Ptr('A'), Ptr('O')])
                ok, d = fa.eq(Word(s.outbits('O', 0, 4)), ln)
                c.ob('%s<%s> Length' % (cl, ty), ok, d, cl + '::Length')
                # Normalize: with a length that is not zero / is zero
                for z in (0, 1):
                    s, fa = fresh()
                    A = lanes(s.inbits('A', 0, sz))
                    s.run('nrm_' + x, [Ptr('A')])
                    sq = {}
                    for p in A:
                        sq = fa.padd(sq, fa.pmul(fa.poly(p), fa.poly(p)))
                    ln = fa.fn('sqrt', sq)
                    fa.assume_sign([(ln, 0 if z else 1), (sq, 0 if z else 1)])
                    for i, g in enumerate(lanes(s.outbits('A', 0, sz))):
                        ok, d = fa.eq(g, fa.poly(A[i]) if z else fa.pmul(fa.poly(A[i]), fa.pinv(ln)))
                        c.ob('%s<%s> Normalize component %d, length %s' % (cl, ty, i, 'zero' if z else 'not zero'), ok, d, cl + '::Normalize')
            # conversions
            for u, ue in TY.items():
                s, fa = fresh()
                s.run('vcv_%s_%s' % (x, u), [Ptr('A'), Ptr('O')])
                got = s.outbits('O', 0, ue * n)
                ok = True
                for i, a in enumerate(lanes(s.inbits('A', 0, sz))):
                    want = ref(s, 'cv_%s_%s' % (ty, u), a).outbits('Z', 0, ue)
                    ok, d = s.cmp(got[8 * ue * i:8 * ue * (i + 1)], want)
                    if not ok:
                        d = 'component %d: %s' % (i, d)
                        break
                c.ob('%s<%s> Convert<%s>' % (cl, ty, u), ok, d, cl + '::Convert')
            for k in (2, 3, 4):
                fn = 'to%d_%s' % (k, x)
                if fn in m.funcs:
                    s, fa = fresh()
                    s.run(fn, [Ptr('A'), Ptr('O')])
                    mn = min(k, n)
                    ok, d = s.cmp(s.outbits('O', 0, k * e + 4), s.inbits('A', 0, mn * e) + [0] * (8 * e * (k - mn)) + s.inbits('O', k * e, 4))
                    c.ob('%s<%s> to %d components' % (cl, ty, k), ok, d, cl + ' conversion')
    c.unit('V01 driver', m)


def symcheck(c, m, fn, n, what, where):
    """every way the components can fall into two classes of equal values: the answer must
    be the equality of the two classes, exactly or within the epsilon both ways"""
    for mask in range(1 << (n - 1)):
        s = S(m)
        s.buf('A')
        fa = FAlg(s.c)
        a, b = s.arg('a', 32), s.arg('b', 32)
        for i in range(n):
            s.setw('A', 4 * i, b if (mask << 1 >> i) & 1 else a)
        for g in m.globals:
            if 'EPSILON' in g:   # the comparison epsilon, at its default
                b_ = ('g', g)
                s.mem.o[b_] = Obj(g, 16)
                s.mem.own.add(b_)
                for i in range(4):
                    s.setc(b_, 4 * i, 0x34000000, 4)
        s.run(fn, [Ptr('A')])
        got = fa.lit(s.ret[0])
        P, Q = fa.poly(a), fa.poly(b)
        d = fa.padd(P, Q, -1)
        eps = [{(): falgeps()}]
        ok = False
        if not mask:
            ok = got == 1
        else:
            cand = [fa.sign('zero', d)]
            for e in eps:
                cand.append(s.c.AND(fa.sign('nonneg', fa.padd(e, d)), fa.sign('nonneg', fa.padd(e, d, -1))))
            ok = any(s.c.same(got, k) for k in cand)
        c.ob('%s IsSymetrical, classes %s' % (what, bin(mask)), ok, 'the answer is not the equality of all components', where + '::IsSymetrical')


def falgeps():
    from fractions import Fraction
    return Fraction(2) ** -23
