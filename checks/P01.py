"""Pointers stored in loaded files: fixed up once, null stays null."""
import ir
from drv import *

MIN = 60
PRE = '''#include "datas/pointer.hpp"
namespace es { thread_local std::vector<void *> usedPts; }
struct El { uint32 a, b; };
typedef esPointerX64<El> P8; typedef es::PointerX86<El> P4; typedef es::Pointer_t<El, uint32> P4F;
'''


def src():
    t = [PRE]

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for k in ('P8', 'P4'):
        d('bool once_' + k, '%s *p, char *root' % k, 'return p->Fixup(root);')
        d('bool force_' + k, '%s *p, char *root' % k, 'return p->Fixup(root, true);')
        d('void fixed_%s' % k, '%s *p, %s *q, char *root, bool *o' % (k, k),
          'o[0] = p->Fixed(); p->Fixup(root); o[1] = p->Fixed(); o[2] = q->Fixed(); q->Fixup(root); o[3] = p->Fixed(); o[4] = q->Fixed(); ClearESPointers(); o[5] = p->Fixed(); o[6] = q->Fixed();')
        d('void again_%s' % k, '%s *p, %s *q, char *root, bool *o' % (k, k),
          'o[0] = p->Fixup(root); o[1] = p->Fixup(root); o[2] = q->Fixup(root); o[3] = p->Fixup(root); o[4] = q->Fixup(root);')
        d('void forced_%s' % k, '%s *p, %s *q, char *root, bool *o' % (k, k),
          'o[0] = p->Fixup(root, true); o[1] = p->Fixed(); o[2] = q->Fixed(); o[3] = p->Fixup(root); o[4] = q->Fixup(root, true); o[5] = q->Fixup(root); ClearESPointers(); o[6] = p->Fixed();')
        d('void many_%s' % k, '%s *p, char *root, bool *o' % k,
          'for (int i = 0; i < 300; i++) p[i].Fixup(root); int n = 0; for (int i = 0; i < 300; i++) n += p[i].Fixed(); o[0] = n == 300; o[1] = p[0].Fixup(root); o[2] = p[150].Fixup(root); o[3] = p[299].Fixup(root); o[4] = p[300].Fixed();')
        d('El *get_' + k, '%s *p' % k, 'return *p;')
        d('const El *cget_' + k, 'const %s *p' % k, 'return *p;')
        d('uint32 *arrow_' + k, '%s *p' % k, 'return &(*p)->b;')
        d('const uint32 *carrow_' + k, 'const %s *p' % k, 'return &(*p)->b;')
        d('El *deref_' + k, '%s *p' % k, 'return &**p;')
        d('const El *cderef_' + k, 'const %s *p' % k, 'return &**p;')
        d('void set_' + k, '%s *p, El *e' % k, '*p = e;')
        d('El *setget_' + k, '%s *p' % k, '*p = reinterpret_cast<El *>(reinterpret_cast<char *>(p) + 40); return *p;')
        d('El *null_' + k, '%s *p' % k, '*p = nullptr; return *p;')
        d('El *fixget_' + k, '%s *p' % k, 'p->Fixup(reinterpret_cast<char *>(p) - 16); return *p;')
        d('uint32 size_' + k, '', 'return sizeof(%s);' % k)
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow with object-relative pointers: after Fixup a non-zero stored offset designates root plus offset, a zero one nothing; '
           'a second Fixup of a registered slot changes nothing; relative slots designate their own address plus the stored signed distance.')
    c.assumption('the list of used pointers starts empty on the thread (its owner defines it) and allocation succeeds')
    m = ir.unit(text=src(), name='P01')

    def start(**k):
        s = S(m)
        s.it.globals_initial = True
        s.buf('P')
        s.buf('Q')
        s.buf('R')
        return s

    for k, n in (('P8', 8), ('P4', 4)):
        nm = {'P8': 'esPointerX64', 'P4': 'PointerX86'}[k]
        W = 8 * n
        s = start()
        s.run('size_' + k, [])
        c.ob('%s occupies %d bytes' % (nm, n), s.c.cval(s.ret) == n, '', nm)
        # one fixup, stored offset known zero / a representative / symbolic
        for fn, what in (('once', 'Fixup'), ('force', 'unchecked Fixup')):
            with c.part(nm + what):
                s = start()
                s.setc('P', 0, 0, n)
                s.run('%s_%s' % (fn, k), [Ptr('P'), Ptr('R')])
                c.ob('%s %s keeps a null pointer' % (nm, what), s.c.cval(Word(s.outbits('P', 0, n))) == 0 and s.ret[0] == 0, 'a null slot is rebased or reported as fixed', nm + '::Fixup')
                s = start()
                v = s.inbits('P', 0, n)
                s.setw('P', 0, [1] + list(v[1:]))
                v = Word([1] + list(v[1:]))
                root = s.arg('root', 64)
                s.run('%s_%s' % (fn, k), [Ptr('P'), root])
                c.ob('%s %s reports it' % (nm, what), s.ret[0] == 1, s.c.show(s.ret[0]), nm + '::Fixup')
                if k == 'P8':
                    want = s.c.add(root, v)
                else:
                    want = Word(s.c.sub(s.c.add(root, Word(list(v) + [v[-1]] * 32)), s.it.p2i(Ptr('P')))[:32])
                ok, d = s.cmp(s.outbits('P', 0, n), want)
                c.ob('%s %s stores root plus offset' % (nm, what), ok, d, nm + '::Fixup')
                ok, d = s.cmp(s.outbits('P', n, 8), s.inbits('P', n, 8))
                c.ob('%s %s touches only the slot' % (nm, what), ok, d, nm + '::Fixup')
        for off in (1, 24, -8):
            with c.part('%s %d' % (nm, off)):
                if off < 0 and k == 'P8':
                    continue
                s = start()
                s.setc('P', 0, off & ((1 << W) - 1), n)
                s.run('fixget_' + k, [Ptr('P')])
                c.ob('%s designates root + %d after Fixup' % (nm, off), s.it.ptr(s.ret) == Ptr('P', off - 16), str(s.it.ptr(s.ret)), nm + '::Fixup')
        with c.part(nm + ' Fixed'):
            for zero in (0, 1):
                s = start()
                s.buf('O')
                for b in 'PQ':
                    s.setc(b, 0, 0 if zero else 16, n)
                s.run('fixed_' + k, [Ptr('P'), Ptr('Q'), Ptr('R'), Ptr('O')])
                got = [s.c.cval(Word(s.outbits('O', i, 1)[:1])) for i in range(7)]
                c.ob('%s Fixed reports exactly the registered slots (%s)' % (nm, 'null' if zero else 'set'), got == [0, 1, 0, 1, 1, 0, 0],
                     'Fixed() history is %s' % got, nm + '::Fixed')
                s = start()
                s.buf('O')
                for b in 'PQ':
                    s.setc(b, 0, 0 if zero else 16, n)
                s.run('again_' + k, [Ptr('P'), Ptr('Q'), Ptr('R'), Ptr('O')])
                got = [s.c.cval(Word(s.outbits('O', i, 1)[:1])) for i in range(5)]
                c.ob('%s Fixup happens once per slot (%s)' % (nm, 'null' if zero else 'set'), got == ([0] * 5 if zero else [1, 0, 1, 0, 0]), str(got), nm + '::Fixup')
                for b in 'PQ':
                    t = start()
                    t.setc(b, 0, 0 if zero else 16, n)
                    t.run('once_' + k, [Ptr(b), Ptr('R')])
                    o1, o2 = s.it.obj(s.out, b), t.it.obj(t.out, b)
                    ok = all(str(s.it.cell(o1, i, b)) == str(t.it.cell(o2, i, b)) for i in range(n)) if k == 'P8' or zero else None
                    if ok is None:
                        ok = [s.c.show(x) for x in s.outbits(b, 0, n)] == [t.c.show(x) for x in t.outbits(b, 0, n)]
                    c.ob('%s slot %s holds the value of one Fixup after several (%s)' % (nm, b, 'null' if zero else 'set'), ok, 'rebased twice', nm + '::Fixup')
        with c.part(nm + ' forced'):
            for zero in (0, 1):
                s = start()
                s.buf('O')
                for b in 'PQ':
                    s.setc(b, 0, 0 if zero else 16, n)
                s.run('forced_' + k, [Ptr('P'), Ptr('Q'), Ptr('R'), Ptr('O')])
                got = [s.c.cval(Word(s.outbits('O', i, 1)[:1])) for i in range(7)]
                c.ob('%s unchecked Fixup registers the slot (%s)' % (nm, 'null' if zero else 'set'), got == [1 - zero, 1, 0, 0, 1 - zero, 0, 0], str(got), nm + '::Fixup')
        with c.part(nm + ' many'):
            s = start()
            s.buf('O')
            for i in range(301):
                s.setc('P', i * n, 16, n)
            s.run('many_' + k, [Ptr('P'), Ptr('R'), Ptr('O')])
            got = [s.c.cval(Word(s.outbits('O', i, 1)[:1])) for i in range(5)]
            c.ob('%s all of 300 slots stay registered' % nm, got == [1, 0, 0, 0, 0], str(got), nm + '::Fixed')
        # access
        for fn in ('get', 'cget', 'arrow', 'carrow', 'deref', 'cderef'):
            with c.part(nm + fn):
                s = start()
                if k == 'P8':
                    v = s.arg('v', 64)
                    s.setw('P', 0, v)
                    s.run('%s_%s' % (fn, k), [Ptr('P')])
                    r = s.it.p2i(s.ret) if isinstance(s.ret, Ptr) else s.ret
                    want = s.c.add(v, s.c.cw(4, 64)) if 'arrow' in fn else v
                    ok, d = s.cmp(r, want)
                    c.ob('%s %s designates the stored address' % (nm, fn), ok, d, nm)
                else:
                    for off in (32, -20, 0x7ffffff0):
                        s = start()
                        s.setc('P', 0, off & 0xffffffff, 4)
                        s.run('%s_%s' % (fn, k), [Ptr('P')])
                        c.ob('%s %s designates its address + %d' % (nm, fn, off), s.it.ptr(s.ret) == Ptr('P', off + (4 if 'arrow' in fn else 0)), str(s.ret), nm)
                    if 'get' in fn:
                        s = start()
                        s.setc('P', 0, 0, 4)
                        s.run('%s_%s' % (fn, k), [Ptr('P')])
                        c.ob('%s %s of a zero slot is null' % (nm, fn), s.it.ptr(s.ret) == Ptr('null'), str(s.ret), nm)
        with c.part(nm + ' assign'):
            s = start()
            s.run('setget_' + k, [Ptr('P')])
            c.ob('%s designates what was assigned' % nm, s.it.ptr(s.ret) == Ptr('P', 40), str(s.ret), nm + '::operator=')
            s = start()
            s.run('null_' + k, [Ptr('P')])
            c.ob('%s assigned null is null' % nm, s.ret is not None and s.it.ptr(s.ret) == Ptr('null'), str(s.ret)[:200], nm + '::operator=')
    c.unit('P01 driver (pointer.hpp)', m)
