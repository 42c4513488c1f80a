"""Flag sets: one enumerator, one bit."""
import ir
from drv import *

MIN = 300
ST = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64}


def src():
    t = ['#include "datas/flags.hpp"']
    for st, w in ST.items():
        t.append('enum class E_%s : %s { A };' % (st, st))
        t.append('enum class S_%s : uint8 { A };' % st)
        for kind, ty in (('n', 'es::Flags<E_%s>' % st), ('o', 'es::Flags<S_%s, %s>' % (st, st))):
            e = 'E_' + st if kind == 'n' else 'S_' + st
            x = '%s_%s' % (kind, st)
            et = st if kind == 'n' else 'uint8'
            t.append('using F_%s = %s;' % (x, ty))
            t.append('extern "C" bool idx_%s(const F_%s *f, %s b) { return (*f)[%s(b)]; }' % (x, x, et, e))
            t.append('extern "C" bool eq_%s(const F_%s *f, %s b) { return *f == %s(b); }' % (x, x, et, e))
            t.append('extern "C" bool ne_%s(const F_%s *f, %s b) { return *f != %s(b); }' % (x, x, et, e))
            t.append('extern "C" void set_%s(F_%s *f, %s b, bool v) { f->Set(%s(b), v); }' % (x, x, et, e))
            t.append('extern "C" void add_%s(F_%s *f, %s b) { *f += %s(b); }' % (x, x, et, e))
            t.append('extern "C" void sub_%s(F_%s *f, %s b) { *f -= %s(b); }' % (x, x, et, e))
            t.append('extern "C" void asn_%s(F_%s *f, %s v) { *f = v; }' % (x, x, st))
            t.append('extern "C" %s val_%s(const F_%s *f) { return %s(*f); }' % (st, x, x, st))
            t.append('extern "C" bool feq_%s(const F_%s *f, const F_%s *g) { return *f == *g; }' % (x, x, x))
            t.append('extern "C" bool fne_%s(const F_%s *f, const F_%s *g) { return *f != *g; }' % (x, x, x))
            t.append('extern "C" void ctor_%s(F_%s *f, %s a, %s b, %s c) { *f = F_%s(%s(a), %s(b), %s(c)); }' % (x, x, et, et, et, x, e, e, e))
            t.append('extern "C" void ctorf_%s(F_%s *f, const F_%s *g, %s a, %s b) { *f = F_%s(*g, %s(a), %s(b)); }' % (x, x, x, et, et, x, e, e))
            t.append('extern "C" void ctor0_%s(F_%s *f) { *f = F_%s(); }' % (x, x, x))
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow, for every enumerator position of every storage width: queries return exactly that bit; setters change '
           'exactly that bit; construction yields exactly the listed bits; comparison involves every bit.')
    m = ir.unit(text=src(), name='B08')
    for kind in ('n', 'o'):
        for st, w in ST.items():
            x = '%s_%s' % (kind, st)
            nb = w // 8
            ew = w if kind == 'n' else 8
            nm = 'Flags<%s%s>' % (st, '' if kind == 'n' else ' store')
            A = lambda s: s.inbits('A', 0, nb + 4)
            for p in range(w):
                for fn, neg in (('idx', 0), ('eq', 0), ('ne', 1)):
                    s = S(m)
                    s.run('%s_%s' % (fn, x), [s.buf('A'), s.const(p, ew)])
                    ok, d = s.cmp(list(s.ret)[:1], [A(s)[p] ^ neg])
                    c.ob('%s %s bit %d' % (nm, fn, p), ok, d, 'es::Flags')
                for fn in ('set1', 'set0', 'setv', 'add', 'sub'):
                    s = S(m)
                    v = {'set1': 1, 'add': 1, 'set0': 0, 'sub': 0}.get(fn)
                    want = A(s)
                    args = [s.buf('A'), s.const(p, ew)]
                    if fn[:3] == 'set':
                        a = s.arg('v', 1) if v is None else s.const(v, 1)
                        args.append(a)
                        want[p] = a[0]
                    else:
                        want[p] = v
                    s.run('%s_%s' % (fn[:3], x), args)
                    ok, d = s.cmp(s.outbits('A', 0, nb + 4), want)
                    c.ob('%s %s bit %d' % (nm, fn, p), ok, d, 'es::Flags')
                s = S(m)
                q, r = (p + 1) % w, (p * 3 + 2) % w
                s.run('ctor_' + x, [s.buf('A'), s.const(p, ew), s.const(q, ew), s.const(r, ew)])
                ok, d = s.cmp(s.outbits('A', 0, nb), s.const((1 << p) | (1 << q) | (1 << r), w))
                c.ob('%s ctor {%d,%d,%d}' % (nm, p, q, r), ok, d, 'es::Flags')
                s = S(m)
                s.run('ctorf_' + x, [s.buf('A'), s.buf('G'), s.const(p, ew), s.const(q, ew)])
                want = s.inbits('G', 0, nb)
                want[p] = want[q] = 1
                ok, d = s.cmp(s.outbits('A', 0, nb), want)
                c.ob('%s ctor {flags,%d,%d}' % (nm, p, q), ok, d, 'es::Flags')
            s = S(m)
            s.run('ctor0_' + x, [s.buf('A')])
            ok, d = s.cmp(s.outbits('A', 0, nb), [0] * w)
            c.ob('%s default is empty' % nm, ok, d, 'es::Flags')
            s = S(m)
            v = s.arg('v', w)
            s.run('asn_' + x, [s.buf('A'), v])
            ok, d = s.cmp(s.outbits('A', 0, nb + 4), list(v) + A(s)[w:])
            c.ob('%s assign' % nm, ok, d, 'es::Flags')
            s = S(m)
            s.run('val_' + x, [s.buf('A')])
            ok, d = s.cmp(s.ret, A(s)[:w])
            c.ob('%s value' % nm, ok, d, 'es::Flags')
            for fn, neg in (('feq', 0), ('fne', 1)):
                s = S(m)
                s.run('%s_%s' % (fn, x), [s.buf('A'), s.buf('G')])
                e = s.c.eq(Word(A(s)[:w]), Word(s.inbits('G', 0, nb))) ^ neg
                ok, d = s.cmp(list(s.ret)[:1], [e])
                c.ob('%s %s compares every bit' % (nm, fn), ok, d, 'es::Flags')
    c.unit('B08 driver', m)
