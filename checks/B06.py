"""Bit fields: a member is read and written alone."""
import ir
from drv import *

MIN = 60
LAY = {
    'A8': ('uint8', [1, 3, 4]), 'B8': ('uint8', [8]), 'C8': ('uint8', [2, 2]),
    'A16': ('uint16', [5, 6, 5]), 'B16': ('uint16', [16]), 'C16': ('uint16', [1, 14]), 'D16': ('uint16', [1] * 16),
    'A32': ('uint32', [3, 9, 20]), 'B32': ('uint32', [32]), 'C32': ('uint32', [1, 30]), 'D32': ('uint32', [7, 8, 9, 2, 6]), 'E32': ('uint32', [31, 1]),
    'A64': ('uint64', [33, 31]), 'B64': ('uint64', [64]), 'C64': ('uint64', [1, 40, 3]), 'D64': ('uint64', [20, 22, 22]), 'E64': ('uint64', [32, 32]), 'F64': ('uint64', [63, 1]),
}
W = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64}


def decl():
    t = ['#include "datas/bitfield.hpp"']
    for k, (ty, mem) in LAY.items():
        for i, n in enumerate(mem):
            t.append('using %s_%d = BitMemberDecl<%d, %d>;' % (k, i, i, n))
        t.append('using %s = BitFieldType<%s, %s>;' % (k, ty, ', '.join('%s_%d' % (k, i) for i in range(len(mem)))))
    return t


def src():
    t = decl()
    for k, (ty, mem) in LAY.items():
        for i, n in enumerate(mem):
            t.append('extern "C" %s get_%s_%d(const %s *p) { return p->Get<%s_%d>(); }' % (ty, k, i, k, k, i))
            t.append('extern "C" void set_%s_%d(%s *p, %s v) { p->Set<%s_%d>(v); }' % (k, i, k, ty, k, i))
            t.append('extern "C" %s mask_%s_%d() { return %s::parent::Get(%d).GetMask<%s>(); }' % (ty, k, i, k, i, ty))
            t.append('extern "C" %s mir_%s_%d() { return %s::parent::Get(%d).GetMirrorMask<%s>(); }' % (ty, k, i, k, i, ty))
    return '\n'.join(t)


def run(c):
    c.rule('Bit-provenance dataflow: Get must return exactly the declared bit range, zero-extended; Set must replace exactly that range by '
           'the low bits of its argument and leave every other bit of the storage (and its surroundings) with its own provenance.')
    m = ir.unit(text=src(), name='B06')
    for k, (ty, mem) in LAY.items():
        w = W[ty]
        pos = 0
        for i, n in enumerate(mem):
            s = S(m)
            s.run('get_%s_%d' % (k, i), [s.buf('A')])
            ok, d = s.cmp(s.ret, s.inbits('A', 0, w // 8)[pos:pos + n] + [0] * (w - n))
            ok2, d2 = s.cmp(s.outbits('A', 0, w // 8 + 8), s.inbits('A', 0, w // 8 + 8))
            c.ob('Get %s%s member %d' % (ty, mem, i), ok and ok2, d or d2, 'BitFieldType::Get')
            s = S(m)
            v = s.arg('v', w)
            s.run('set_%s_%d' % (k, i), [s.buf('A'), v])
            want = s.inbits('A', 0, w // 8 + 8)
            want[pos:pos + n] = v[:n]
            ok, d = s.cmp(s.outbits('A', 0, w // 8 + 8), want)
            c.ob('Set %s%s member %d' % (ty, mem, i), ok, d, 'BitFieldType::Set')
            s = S(m)
            s.run('mask_%s_%d' % (k, i), [])
            ok, d = s.cmp(s.ret, s.const(((1 << n) - 1) << pos, w))
            c.ob('mask %s%s member %d' % (ty, mem, i), ok, d, 'BitMember::GetMask')
            s = S(m)
            s.run('mir_%s_%d' % (k, i), [])
            ok, d = s.cmp(s.ret, s.const(((1 << n) - 1) << (w - pos - n), w))
            c.ob('mirror mask %s%s member %d' % (ty, mem, i), ok, d, 'BitMember::GetMirrorMask')
            pos += n
    c.unit('B06 driver', m)
