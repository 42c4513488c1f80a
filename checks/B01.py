"""Byte swapping: exact byte reversal of every scalar, once per element, nothing else."""
import ir
from drv import *

MIN = 60
SC = {'u16': ('uint16', 2), 'i16': ('int16', 2), 'u32': ('uint32', 4), 'i32': ('int32', 4), 'f32': ('float', 4),
      'u64': ('uint64', 8), 'i64': ('int64', 8), 'f64': ('double', 8), 'e16': ('E16', 2), 'e32': ('E32', 4), 'wc': ('wchar_t', 4),
      'c16': ('char16_t', 2)}
VEC = {'Vector2': (4, 2), 'Vector': (4, 3), 'Vector4': (4, 4), 'IVector2': (4, 2), 'IVector': (4, 3), 'IVector4': (4, 4),
       'SVector4': (2, 4), 'USVector4': (2, 4), 'SVector': (2, 3), 'USVector2': (2, 2), 'UIVector4': (4, 4), 'CVector4': (1, 4),
       'UCVector': (1, 3), 'UCVector4': (1, 4), 'Vector4A16': (4, 4), 'IVector4A16': (4, 4), 'UIVector4A16': (4, 4),
       't_Vector2<double>': (8, 2), 't_Vector<uint64>': (8, 3)}


def src():
    t = ['#include "datas/endian.hpp"', '#include "datas/vectors_simd.hpp"',
         'enum class E16 : uint16 { A }; enum E32 : uint32 { EA };',
         'struct P0 { uint32 a; uint16 b; void SwapEndian(); };',
         'struct P1 { uint32 a; uint16 b; void SwapEndian(bool); };',
         'struct Blob { uint32 a[3]; };', 'struct Blob16 { uint16 a[5]; };']
    for k, (ty, n) in SC.items():
        for ow in (0, 1):
            t.append('extern "C" void sc_%s_%d(%s *p) { FByteswapper(*p, %s); }' % (k, ow, ty, 'true' if ow else 'false'))
            t.append('extern "C" void ar_%s_%d(%s (*p)[3]) { FByteswapper(*p, %s); }' % (k, ow, ty, 'true' if ow else 'false'))
        t.append('extern "C" void tw_%s(%s *p) { FByteswapper(*p); FByteswapper(*p); }' % (k, ty))
    for n, k in enumerate(VEC):
        t.append('extern "C" void vec_%d(%s *p) { FByteswapper(*p); }' % (n, k))
        t.append('extern "C" void vecm_%d(%s *p) { p->SwapEndian(); }' % (n, k))
    for k in ('P0', 'P1'):
        for ow in (0, 1):
            t.append('extern "C" void cl_%s_%d(%s *p) { FByteswapper(*p, %s); }' % (k, ow, k, 'true' if ow else 'false'))
            t.append('extern "C" void ca_%s_%d(%s (*p)[3]) { FByteswapper(*p, %s); }' % (k, ow, k, 'true' if ow else 'false'))
    t.append('extern "C" void fa32(Blob *p) { FArraySwapper<uint32>(*p); }')
    t.append('extern "C" void fa16(Blob16 *p) { FArraySwapper<uint16>(*p); }')
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow: every bit stored by a swap must originate from the bit of the mirrored byte of the same '
           'element, all surrounding bytes keep their own bits.')
    m = ir.unit(text=src(), name='B01')
    names = list(VEC)

    def chk(key, fn, es, n, swap=True):
        s = S(m)
        p = s.buf('A')
        s.run(fn, [p])
        want = []
        for e in range(n):
            b = s.inbits('A', e * es, es)
            want += rev(b) if swap else b
        want += s.inbits('A', es * n, 16)
        ok, d = s.cmp(s.outbits('A', 0, es * n + 16), want)
        c.ob(key, ok, d, 'FByteswapper via driver ' + fn)
        ev = [e for e in s.it.events if e.kind in ('call',)]
        if ev:
            c.ob(key + ' calls', False, 'unexpected call to %s' % ev[0].dem, loc_str(ev[0].loc))

    for k, (ty, n) in SC.items():
        for ow in (0, 1):
            chk('swap %s outWay=%d' % (ty, ow), 'sc_%s_%d' % (k, ow), n, 1)
            chk('swap %s[3] outWay=%d' % (ty, ow), 'ar_%s_%d' % (k, ow), n, 3)
        chk('double swap %s is identity' % ty, 'tw_' + k, n, 1, False)
    for i, k in enumerate(names):
        es, n = VEC[k]
        chk('swap %s' % k, 'vec_%d' % i, es, n, es > 1)
        chk('%s::SwapEndian' % k, 'vecm_%d' % i, es, n, es > 1)
    chk('FArraySwapper<uint32>', 'fa32', 4, 3)
    chk('FArraySwapper<uint16>', 'fa16', 2, 5)
    # element types that know how to swap themselves are asked exactly once, with the direction
    for k in ('P0', 'P1'):
        for ow in (0, 1):
            for kind, cnt in (('cl', 1), ('ca', 3)):
                s = S(m)
                s.buf('A')
                log = []

                def h(it, dem, i, args, mem, log=log):
                    log.append((args, tuple(it.cond)))
                    return None
                s.it.models.append((re.compile(r'::SwapEndian\('), h))
                s.run('%s_%s_%d' % (kind, k, ow), [Ptr('A')])
                ok = [a[0][0] for a in log] == [Ptr('A', 8 * j) for j in range(cnt)] and all(not a[1] for a in log)
                if k == 'P1' and ok:
                    ok = all(s.c.cval(a[0][1]) == ow for a in log)
                good, d = s.cmp(s.outbits('A', 0, 32), s.inbits('A', 0, 32))
                c.ob('class %s x%d outWay=%d swaps itself once' % (k, cnt, ow), ok and good, d or repr(log)[:200], 'FByteswapper')
    c.unit('B01 driver', m)
