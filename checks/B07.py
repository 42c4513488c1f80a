"""Bit fields across byte orders: every member keeps its value, both directions."""
import ir
from drv import *
from B06 import LAY, W, decl

MIN = 60


def src():
    t = decl()
    for k, (ty, mem) in LAY.items():
        t.append('extern "C" void in_%s(%s *p) { p->SwapEndian(false); }' % (k, k))
        t.append('extern "C" void out_%s(%s *p) { p->SwapEndian(true); }' % (k, k))
        t.append('extern "C" void io_%s(%s *p) { p->SwapEndian(true); p->SwapEndian(false); }' % (k, k))
        t.append('extern "C" void fi_%s(%s *p) { FByteswapper(*p, false); }' % (k, k))
        t.append('extern "C" void fo_%s(%s *p) { FByteswapper(*p, true); }' % (k, k))
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow: after the inward swap each member holds the bits the big-endian, most-significant-first image stores '
           'for it; after the outward swap that image holds the bits of each member; outward then inward returns every member bit.')
    m = ir.unit(text=src(), name='B07')
    for k, (ty, mem) in LAY.items():
        w = W[ty]
        n = w // 8
        for fn, nm in (('in', 'SwapEndian(false)'), ('fi', 'FByteswapper inward')):
            s = S(m)
            s.run('%s_%s' % (fn, k), [s.buf('A')])
            image = rev(s.inbits('A', 0, n))
            got = s.outbits('A', 0, n)
            pos = 0
            for i, sz in enumerate(mem):
                ok, d = s.cmp(got[pos:pos + sz], image[w - pos - sz:w - pos])
                c.ob('%s %s%s member %d' % (nm, ty, mem, i), ok, d, 'BitFieldType::SwapEndian')
                pos += sz
            ok, d = s.cmp(s.outbits('A', n, 8), s.inbits('A', n, 8))
            c.ob('%s %s%s surroundings' % (nm, ty, mem), ok, d, 'BitFieldType::SwapEndian')
        for fn, nm in (('out', 'SwapEndian(true)'), ('fo', 'FByteswapper outward')):
            s = S(m)
            s.run('%s_%s' % (fn, k), [s.buf('A')])
            image = rev(s.outbits('A', 0, n))
            src_ = s.inbits('A', 0, n)
            pos = 0
            for i, sz in enumerate(mem):
                ok, d = s.cmp(image[w - pos - sz:w - pos], src_[pos:pos + sz])
                c.ob('%s %s%s member %d' % (nm, ty, mem, i), ok, d, 'BitFieldType::SwapEndian')
                pos += sz
        s = S(m)
        s.run('io_' + k, [s.buf('A')])
        t = sum(mem)
        ok, d = s.cmp(s.outbits('A', 0, n)[:t], s.inbits('A', 0, n)[:t])
        c.ob('out then in %s%s' % (ty, mem), ok, d, 'BitFieldType::SwapEndian')
    c.unit('B07 driver', m)
