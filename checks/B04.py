"""Navigation of readers and writers, for every position and relative origin."""
import ir
from drv import *

MIN = 40

FN = '''
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#define NAV(P, R, ST) \\
extern "C" void P##seek(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Seek(p); } \\
extern "C" void P##seekcur(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Seek(p, std::ios_base::cur); } \\
extern "C" void P##seekend(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Seek(p, std::ios_base::end); } \\
extern "C" size_t P##tell(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); return r.Tell(); } \\
extern "C" size_t P##tell0(ST &s, size_t o, size_t p) { R r(s); return r.Tell(); } \\
extern "C" void P##seek0(ST &s, size_t o, size_t p) { R r(s); r.Seek(p); } \\
extern "C" void P##sro(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o); } \\
extern "C" size_t P##sroTell(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o); return r.Tell(); } \\
extern "C" size_t P##ret(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Seek(p); return r.Tell(); } \\
extern "C" void P##rro(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.ResetRelativeOrigin(); } \\
extern "C" size_t P##rron(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.ResetRelativeOrigin(false); return r.Tell(); } \\
extern "C" size_t P##push(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Push(); r.Seek(p); r.SetRelativeOrigin(p, false); r.Pop(); r.Skip(3); r.Pop(); return r.Tell(); } \\
extern "C" size_t P##size(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); return r.GetSize(); } \\
extern "C" void P##skipT(ST &s, size_t o, size_t p) { R r(s); r.SetRelativeOrigin(o, false); r.Skip<uint64>(); }
NAV(r_, BinReaderRef, std::istream)
NAV(w_, BinWritterRef, std::ostream)
extern "C" void r_skip(std::istream &s, size_t o, int n) { BinReaderRef r(s); r.SetRelativeOrigin(o, false); r.Skip(n); }
extern "C" void w_skip(std::ostream &s, size_t o, int n) { BinWritterRef r(s); r.SetRelativeOrigin(o, false); r.Skip(n); }
extern "C" void r_pad(std::istream &s, size_t o, int n) { BinReaderRef r(s); r.SetRelativeOrigin(o, false); r.ApplyPadding(n); }
extern "C" void w_pad(std::ostream &s, size_t o, int n) { BinWritterRef r(s); r.SetRelativeOrigin(o, false); r.ApplyPadding(n); }
extern "C" void r_padd(std::istream &s, size_t o) { BinReaderRef r(s); r.SetRelativeOrigin(o, false); r.ApplyPadding(); }
extern "C" void w_padd(std::ostream &s, size_t o) { BinWritterRef r(s); r.SetRelativeOrigin(o, false); r.ApplyPadding(); }
'''


def run(c):
    c.rule('Linear-form provenance: stream position, relative origin and arguments are symbols; the position after each navigation call '
           'and the returned offset must equal the linear form the call promises, for both readers and writers; padding and writer skips '
           'are analysed per residue class with the remaining position bits unknown.')
    m = ir.unit(text=FN, name='B04', flags=['-D_GLIBCXX_EXTERN_TEMPLATE=0'])

    def go(fn, start=None, third=None, o=None):
        s = S(m)
        C = s.c
        start = s.arg('pos', 64) if start is None else start(s)
        st = Stream(s, start=start, size=s.arg('size', 64))
        o = s.arg('o', 64) if o is None else o
        args = [s.buf('strm'), o]
        if third is not False:
            args.append(s.arg('p', 64) if third is None else third)
        s.run(fn, args)
        return s, st

    def eq(key, got, want, s, where):
        ok, d = s.cmp(got, want)
        c.ob(key, ok, d, where)
    for P, nm in (('r_', 'BinReaderRef'), ('w_', 'BinWritterRef')):
        A = lambda s: (s.arg('o', 64), s.arg('p', 64), s.arg('pos', 64), s.arg('size', 64))
        s, st = go(P + 'seek')
        o, p, pos, size = A(s)
        eq(nm + '::Seek(p) -> p+origin', st.posw, s.c.add(o, p), s, nm + '::Seek')
        s, st = go(P + 'seek0')
        eq(nm + '::Seek default origin', st.posw, p, s, nm + '::Seek')
        s, st = go(P + 'seekcur')
        eq(nm + '::Seek(p,cur)', st.posw, s.c.add(pos, p), s, nm + '::Seek')
        s, st = go(P + 'seekend')
        eq(nm + '::Seek(p,end)', st.posw, s.c.add(size, p), s, nm + '::Seek')
        s, st = go(P + 'tell')
        eq(nm + '::Tell', s.ret, s.c.sub(pos, o), s, nm + '::Tell')
        eq(nm + '::Tell does not move', st.posw, pos, s, nm + '::Tell')
        s, st = go(P + 'tell0')
        eq(nm + '::Tell default origin', s.ret, pos, s, nm + '::Tell')
        s, st = go(P + 'sro')
        eq(nm + '::SetRelativeOrigin seeks', st.posw, o, s, nm + '::SetRelativeOrigin')
        s, st = go(P + 'sroTell')
        eq(nm + '::SetRelativeOrigin then Tell is 0', s.ret, s.const(0, 64), s, nm + '::SetRelativeOrigin')
        s, st = go(P + 'ret')
        eq(nm + '::Seek then Tell', s.ret, p, s, nm + '::Tell')
        s, st = go(P + 'rro')
        eq(nm + '::ResetRelativeOrigin', st.posw, s.const(0, 64), s, nm + '::ResetRelativeOrigin')
        s, st = go(P + 'rron')
        eq(nm + '::ResetRelativeOrigin(false)', s.ret, pos, s, nm + '::ResetRelativeOrigin')
        eq(nm + '::ResetRelativeOrigin(false) does not move', st.posw, pos, s, nm + '::ResetRelativeOrigin')
        s, st = go(P + 'push')
        eq(nm + '::Push/Pop restores absolute position', st.posw, pos, s, nm + '::Pop')
        s, st = go(P + 'size')
        eq(nm + '::GetSize', s.ret, s.c.sub(size, o), s, nm + '::GetSize')
        eq(nm + '::GetSize keeps the position', st.posw, pos, s, nm + '::GetSize')
        s, st = go(P + 'skipT')
        eq(nm + '::Skip<T>', st.posw, s.c.add(pos, s.const(8, 64)), s, nm + '::Skip')
        ns = [-1, -7, -4096, 0, 1, 2, 15, 31, 32, 33, 63, 64, 65, 100, 255]
        if c.tier == 'thorough':
            ns = list(range(-70, 300))
        for n in ns:
            ctx = prov.Ctx()
            s, st = go(P + 'skip', third=ctx.cw(n & 0xffffffff, 32))
            ok, d = s.cmp(st.posw, s.c.add(pos, s.const(n, 64)))
            zero = all(l == 0 for cell in st.out.values() for l in cell)
            cnt = len(st.out) == (max(n, 0) if P == 'w_' else 0)
            c.ob('%s::Skip(%d)' % (nm, n), ok and zero and cnt, d or 'writes %d bytes, zero=%s' % (len(st.out), zero), nm + '::Skip')
        als = [1, 2, 4, 8, 16, 32, 64] + ([128, 256, 512, 2048, 65536] if P == 'r_' else [512, 4096])
        for a in als:
            k = a.bit_length() - 1
            for r in range(a) if a <= 16 or a <= 64 and c.tier == 'thorough' else (0, 1, a // 2 - 1, a // 2, a // 2 + 1, a - 2, a - 1):
                # relative offset x with known low bits, physical position x + origin
                for origin in (None, 0):
                    s = S(m)
                    x = Word([(r >> i) & 1 for i in range(k)] + list(s.arg('x', 64))[k:])
                    ow = s.arg('o', 64) if origin is None else s.const(0, 64)
                    st = Stream(s, start=s.c.add(x, ow) if origin is None else x)
                    if a == 16 and r % 2:
                        s.run(P + 'padd', [s.buf('strm'), ow])
                    else:
                        s.run(P + 'pad', [s.buf('strm'), ow, s.const(a, 32)])
                    pad = (a - r) % a
                    want = s.c.add(s.c.add(x, ow), s.const(pad, 64)) if origin is None else s.c.add(x, s.const(pad, 64))
                    ok, d = s.cmp(st.posw, want)
                    zero = all(l == 0 for cell in st.out.values() for l in cell)
                    cnt = len(st.out) == (pad if P == 'w_' else 0)
                    c.ob('%s::ApplyPadding(%d) offset%%%d=%d origin=%s' % (nm, a, a, r, 'o' if origin is None else '0'),
                         ok and zero and cnt, d or 'writes %d bytes, zero=%s' % (len(st.out), zero), nm + '::ApplyPadding')
    c.unit('B04 driver', m)
