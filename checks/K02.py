"""Swizzled texture addresses: the bits of the address are the interleaved bits of the coordinates."""
import math
import re
import struct
import ir
from drv import *

MIN = 600
SRC = r'''
#include "formats/addr_ps3.hpp"
#include <new>
extern "C" {
void make(MortonSettings *s, size_t w, size_t h) { new (s) MortonSettings(w, h); }
size_t addr(size_t x, size_t y, const MortonSettings *s) { return MortonAddr(x, y, *s); }
size_t whole(size_t x, size_t y, size_t w, size_t h) { return MortonAddr(x, y, MortonSettings(w, h)); }
size_t bytes() { return sizeof(MortonSettings); }
size_t wd(const MortonSettings *s) { return s->width; }
size_t hg(const MortonSettings *s) { return s->height; }
}
'''


def fold(v):
    return struct.unpack('<d', struct.pack('<Q', v))[0]


def log2(it, dem, i, args, mem):
    v = it.c.cval(args[0])
    if v is None:
        return NotImplemented
    v = fold(v)
    return it.c.cw(struct.unpack('<Q', struct.pack('<d', math.log2(v)))[0], 64) if v > 0 else NotImplemented


def run(c):
    mod = ir.unit(text=SRC, name='K02')
    c.rule('For constant power of two sizes and unknown coordinates every address bit must be the coordinate bit the interleaving puts there: x and y alternate, x first, '
           'as long as both have bits, the longer one continues. So addresses are a permutation of 0 .. width*height - 1.')
    c.assumption('width and height are powers of two up to 2^14, coordinates are inside of the texture')
    c.assumption('log2 of a power of two is exact')
    seen = set()
    top = 14
    for lw in range(top + 1):
        for lh in range(top + 1):
            tag = '%dx%d texture' % (1 << lw, 1 << lh)
            with c.part(tag):
                s = S(mod)
                s.it.models.append((re.compile(r'^(std::)?log2(l|f)?(\(.*\))?$'), log2))
                n = s.c.cval(s.run('bytes')[1])
                s.it.record_access = True
                s.buf('M', n)
                s.run('make', [Ptr('M'), s.const(1 << lw, 64), s.const(1 << lh, 64)])
                bad = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'M' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
                s.mem = s.out.copy()
                for f, v in (('wd', lw), ('hg', lh)):
                    r = s.run(f, [Ptr('M')])[1]
                    c.ob('%s: settings keep the %s' % (tag, 'width' if f == 'wd' else 'height'), s.c.cval(r) == 1 << v, 'it is %s instead of %d' % (s.c.cval(r), 1 << v), 'MortonSettings')
                x = Word(list(s.arg('x', 64)[:lw]) + [0] * (64 - lw))
                y = Word(list(s.arg('y', 64)[:lh]) + [0] * (64 - lh))
                r = s.run('addr', [x, y, Ptr('M')])[1]
                bad += [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'M' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
                c.ob(tag + ': settings are accessed inside', not bad, bad and loc_str(bad[0].loc), 'MortonAddr')
                seen |= s.it.visited
                want = []
                for b in range(max(lw, lh)):
                    want += [w[b] for w, k in ((x, lw), (y, lh)) if b < k]
                ok, d = s.cmp(list(r), want + [0] * (64 - len(want)))
                c.ob(tag + ': address', ok, d, 'MortonAddr')
    c.unit('K02', mod, seen)
