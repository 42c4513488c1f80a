"""Variable-length 128-base integers: every 64-bit value survives writing and reading."""
import ir
from drv import *

MIN = 180
SRC = '''
#include "datas/base_128.hpp"
extern "C" void rt_s(std::ostream &s, std::istream &i, const int64 *v, int64 *o) { BinWritterRef w(s); bint128 x(*v); w.Write(x); BinReaderRef r(i); bint128 y(*o); r.Read(y); *o = y; }
extern "C" void rt_u(std::ostream &s, std::istream &i, const uint64 *v, uint64 *o) { BinWritterRef w(s); buint128 x(*v); w.Write(x); BinReaderRef r(i); buint128 y(*o); r.Read(y); *o = y; }
'''


def run(c):
    c.rule('Bit-provenance dataflow of writer followed by reader, partitioned by sign and position of the highest significant bit '
           '(the partition covers all 2^64 values; all lower bits stay unknown): the value read must consist of the bits of the value '
           'written, the reader must consume exactly the bytes written, which are the fewest that hold the value and at most 9, with the '
           'continuation bit set on all bytes but the last (a ninth byte is full).')
    m = ir.unit(text=SRC, name='B05', flags=['-D_GLIBCXX_EXTERN_TEMPLATE=0'])

    for mpos in range(-1, 64):
        nb = max(1, min(9, (mpos + 1 + 6) // 7))
        one2(c, m, 'rt_u', 'unsigned msb=%d' % mpos, mpos, 0, nb)
        if mpos < 63:
            nb = min(9, (mpos + 2 + 6) // 7)
            one2(c, m, 'rt_s', 'signed >=0 msb=%d' % mpos, mpos, 0, max(1, nb))
            one2(c, m, 'rt_s', 'signed <0 msb=%d' % mpos, mpos, 1, max(1, nb))
    c.unit('B05 driver', m)


def one2(c, m, fn, key, mpos, neg, nbytes):
    s = S(m)
    low = [l ^ neg for l in list(s.arg('v', 64))[:max(mpos, 0)]]
    bits = low + ([1 ^ neg] if mpos >= 0 else [0 ^ neg])
    bits += [neg] * (64 - len(bits))
    s.buf('V')
    s.buf('O')
    s.setw('V', 0, bits)
    w = Stream(s, only=Ptr('os'))
    r = Stream(s, only=Ptr('is'))
    r.link = w
    s.buf('os')
    s.buf('is')
    s.run(fn, [Ptr('os'), Ptr('is'), Ptr('V'), Ptr('O')])
    ok, d = s.cmp(s.outbits('O', 0, 8), bits)
    c.ob(key + ' value preserved', ok, d, 'base_128.hpp')
    c.ob(key + ' bytes written and consumed', w.pos == nbytes and r.pos == w.pos and not w.condwrites,
         'wrote %s, read %s, expected %s' % (w.pos, r.pos, nbytes), 'base_128.hpp')
    cont = [w.out[q][7] for q in range(min(w.pos, 8))] if isinstance(w.pos, int) and all(q in w.out for q in range(w.pos)) else None
    c.ob(key + ' continuation bits', cont is not None and all(x == 1 for x in cont[:w.pos - 1]) and (w.pos > 8 or cont[-1] == 0),
         'continuation bits %r' % (cont,), 'base_128.hpp')
