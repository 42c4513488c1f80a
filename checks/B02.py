"""Reading: bytes consumed, bytes delivered, swapped exactly when asked."""
import ir
from drv import *

MIN = 90
T = {'uint8': 1, 'int8': 1, 'char': 1, 'uint16': 2, 'int16': 2, 'uint32': 4, 'int32': 4, 'float': 4, 'uint64': 8, 'int64': 8,
     'double': 8, 'E16': 2, 'E32': 4, 'E8': 1, 'Vector2': (4, 2), 'Vector': (4, 3), 'Vector4A16': (4, 4), 'USVector4': (2, 4),
     'UCVector4': (1, 4)}
FL = ['-D_GLIBCXX_EXTERN_TEMPLATE=0']


def es(v):
    return v if isinstance(v, tuple) else (v, 1)


MORE = []  # counts next to numbers the code of this tree compares with


def CNT(k):
    return ((0, 1, 2, 3, 7, 8, 16, 33) if k in ('uint16', 'uint32', 'uint64') else (0, 1, 3)) + tuple(MORE if k in ('char', 'uint16', 'uint32', 'Vector') else ())


def sized(src, name, known):
    """the unit of a driver; if its code compares with numbers the reference tree does not know, with counts around them"""
    m = ir.unit(text=src(), name=name, flags=FL)
    MORE[:] = [n for n in ir.around(m, set(known), 4, 700) if n not in (7, 8, 16, 33)][:6]
    return ir.unit(text=src(), name=name + 'x', flags=FL) if MORE else m


def src():
    t = ['#include "datas/binreader_stream.hpp"', '#include "datas/vectors_simd.hpp"', '#include <vector>', '#include <string>',
         'enum class E8 : uint8 { A }; enum class E16 : uint16 { A }; enum E32 : uint32 { EA };',
         'struct Own { uint32 a; void Read(BinReaderRef rd); };',
         'struct Sw { uint32 a, b; void SwapEndian(); };']
    for k in T:
        n = k
        t.append('extern "C" void r_%s(std::istream &s, %s *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.Read(*o); r.Read(*(o+1)); }' % (n, k))
        t.append('extern "C" void ra_%s(std::istream &s, %s (*o)[3], bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.Read(*o); }' % (n, k))
        for cnt in CNT(k):
            t.append('extern "C" void rc%d_%s(std::istream &s, std::vector<%s> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer(*o, %d); }' % (cnt, n, k, cnt))
    for ct in ('uint8', 'uint16', 'uint32', 'uint64'):
        t.append('extern "C" void cnt_%s(std::istream &s, std::vector<uint16> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer<%s>(*o); }' % (ct, ct))
    t.append('extern "C" void cnt_def(std::istream &s, std::vector<uint16> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer(*o); }')
    # containers with something in them: what is read replaces it
    for cnt in (0, 1, 2, 5):
        t.append('extern "C" void re%d(std::istream &s, std::vector<uint16> *o, bool sw) { new (o) std::vector<uint16>(3); BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer(*o, %d); }' % (cnt, cnt))
        t.append('extern "C" void rl%d(std::istream &s, std::vector<uint16> *o, bool sw) { new (o) std::vector<uint16>(3); BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainerLambda(*o, %d, [](BinReaderRef rd, uint16 &v) { rd.Read(v); }); }' % (cnt, cnt))
        t.append('extern "C" void rk%d(std::istream &s, std::vector<uint16> *o, bool sw) { new (o) std::vector<uint16>(3); BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer<uint8>(*o); }' % cnt)
        t.append('extern "C" void rm%d(std::istream &s, std::vector<uint16> *o, bool sw) { new (o) std::vector<uint16>(3); BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainerLambda<uint8>(*o, [](BinReaderRef rd, uint16 &v) { rd.Read(v); }); }' % cnt)
    t.append('void elem(BinReaderRef, uint16 &);')
    t.append('extern "C" void lam(std::istream &s, std::vector<uint16> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainerLambda(*o, [](BinReaderRef rd, uint16 &v) { elem(rd, v); }); }')
    t.append('extern "C" void rbuf(std::istream &s, char *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadBuffer(o, 7); }')
    t.append('extern "C" void rstr(std::istream &s, std::string *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); new (o) std::string(); r.ReadString(*o); }')
    t.append('extern "C" void rstr16(std::istream &s, std::basic_string<char16_t> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); new (o) std::basic_string<char16_t>(); r.ReadString(*o); }')
    t.append('extern "C" void rstrc(std::istream &s, std::string *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); new (o) std::string(); r.ReadContainer(*o, 5); }')
    t.append('extern "C" void own1(std::istream &s, Own *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.Read(*o); }')
    t.append('extern "C" void ownc(std::istream &s, std::vector<Own> *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.ReadContainer(*o, 3); }')
    t.append('extern "C" void sw1(std::istream &s, Sw *o, bool sw) { BinReaderRef r(s); r.SwapEndian(sw); r.Read(*o); }')
    t.append('extern "C" bool swflag(std::istream &s, bool sw) { BinReaderRef r(s); if (r.SwappedEndian()) return !sw; r.SwapEndian(sw); return r.SwappedEndian(); }')
    # containers whose size is not known: the count must reach resize() and the stream whole
    t.append('struct CC { using value_type = uint32; void resize(size_t); value_type &operator[](size_t); value_type *begin(); value_type *end(); };')
    for ct in ('uint8', 'uint16', 'uint32', 'uint64'):
        t.append('extern "C" void big_%s(std::istream &s, CC *o) { BinReaderRef r(s); r.ReadContainer<%s>(*o); }' % (ct, ct))
        t.append('extern "C" void bigl_%s(std::istream &s, CC *o) { BinReaderRef r(s); r.SwapEndian(true); r.ReadContainerLambda<%s>(*o, [](BinReaderRef, uint32 &) {}); }' % (ct, ct))
    t.append('extern "C" void bign(std::istream &s, CC *o, size_t n) { BinReaderRef r(s); r.ReadContainer(*o, n); }')
    t.append('extern "C" void bigb(std::istream &s, char *o, size_t n) { BinReaderRef r(s); r.ReadBuffer(o, n); }')
    return '\n'.join(t)


def vecdata(s, name, esz):
    """(begin pointer, number of elements) of a std::vector object"""
    o = s.it.obj(s.out, name)
    b = s.it.get(o, 0, ['p'], name)
    e = s.it.get(o, 8, ['p'], name)
    if b.base != e.base:
        return b, None
    return b, (e.off - b.off) // esz


def run(c):
    c.rule('Provenance dataflow over the reader templates: the bits of the destination object must be the consumed stream bytes in '
           'order, byte-reversed per element iff swapping is on and the element has more than one byte; the stream must advance by '
           'exactly the element sizes and nothing beyond the destination may change.')
    c.assumption('std::istream::read delivers the requested number of bytes.')
    m = sized(src, 'B02', (5, 6, 7, 8, 12, 16, 24, 33, 36, 48))

    def want(s, pos, e, n, sw):
        w = []
        for i in range(n):
            b = s.inbits('S', pos + i * e, e)
            w += rev(b) if sw and e > 1 else b
        return w

    for k, v in T.items():
        e, n = es(v)
        sz = e * n
        for sw in (0, 1):
            s = S(m)
            st = Stream(s)
            s.buf('O')
            s.run('r_' + k, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            ok, d = s.cmp(s.outbits('O', 0, 2 * sz + 8), want(s, 0, e, 2 * n, sw) + s.inbits('O', 2 * sz, 8))
            c.ob('Read<%s> swap=%d' % (k, sw), ok and st.pos == 2 * sz, d or 'stream advanced by %s' % (st.pos,), 'BinReaderRef::Read')
            s = S(m)
            st = Stream(s)
            s.buf('O')
            s.run('ra_' + k, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            ok, d = s.cmp(s.outbits('O', 0, 3 * sz + 8), want(s, 0, e, 3 * n, sw) + s.inbits('O', 3 * sz, 8))
            c.ob('Read<%s[3]> swap=%d' % (k, sw), ok and st.pos == 3 * sz, d or 'stream advanced by %s' % (st.pos,), 'BinReaderRef::Read')
            for cnt in CNT(k):
                s = S(m)
                st = Stream(s)
                s.buf('V')
                for i in range(24):
                    s.mem.o['V'].cells[i] = (0,) * 8
                s.run('rc%d_%s' % (cnt, k), [s.buf('strm'), Ptr('V'), s.const(sw, 1)])
                b, num = vecdata(s, 'V', sz)
                ok = num == cnt and st.pos == cnt * sz
                d = 'container has %s elements, stream advanced by %s' % (num, st.pos)
                if ok and cnt:
                    o = s.it.obj(s.out, b.base)
                    got = []
                    for i in range(cnt * sz):
                        got += list(s.it.cell(o, b.off + i, b.base))
                    ok, d = s.cmp(got, want(s, 0, e, cnt * n, sw))
                c.ob('ReadContainer<%s>(%d) swap=%d' % (k, cnt, sw), ok, d, 'BinReaderRef::ReadContainer')
    for ct, w in (('uint8', 1), ('uint16', 2), ('uint32', 4), ('uint64', 8), ('def', 4)):
        for sw in (0, 1):
            s = S(m)
            st = Stream(s)
            bits = list(s.const(2, 8 * w))
            st.preset(0, rev(bits) if sw else bits)
            s.buf('V')
            for i in range(24):
                s.mem.o['V'].cells[i] = (0,) * 8
            s.run('cnt_' + ct, [s.buf('strm'), Ptr('V'), s.const(sw, 1)])
            b, num = vecdata(s, 'V', 2)
            ok = num == 2 and st.pos == w + 4
            d = 'container has %s elements, stream advanced by %s' % (num, st.pos)
            if ok:
                o = s.it.obj(s.out, b.base)
                got = []
                for i in range(4):
                    got += list(s.it.cell(o, b.off + i, b.base))
                ok, d = s.cmp(got, want(s, w, 2, 2, sw))
            c.ob('ReadContainer count prefix %s swap=%d' % (ct, sw), ok, d, 'BinReaderRef::ReadContainer')
    for cnt in (0, 1, 2, 5):
        for fn in ('re', 'rl', 'rk', 'rm'):
            for sw in (0, 1):
                s = S(m)
                st = Stream(s)
                pre = fn in ('rk', 'rm')
                if pre:
                    st.preset(0, list(s.const(cnt, 8)))
                s.buf('V')
                s.run('%s%d' % (fn, cnt), [s.buf('strm'), Ptr('V'), s.const(sw, 1)])
                b, num = vecdata(s, 'V', 2)
                ok = num == cnt and st.pos == cnt * 2 + pre
                d = 'container has %s elements, stream advanced by %s' % (num, st.pos)
                if ok and cnt:
                    o = s.it.obj(s.out, b.base)
                    got = []
                    for i in range(cnt * 2):
                        got += list(s.it.cell(o, b.off + i, b.base))
                    ok, d = s.cmp(got, want(s, int(pre), 2, cnt, sw))
                c.ob('%s of %d into a filled container swap=%d' % ({'re': 'ReadContainer', 'rl': 'ReadContainerLambda', 'rk': 'counted ReadContainer', 'rm': 'counted ReadContainerLambda'}[fn], cnt, sw), ok, d, 'BinReaderRef::ReadContainer')
    for sw in (0, 1):
        # lambda containers: one call per element, in order, with an equally configured reader
        s = S(m)
        st = Stream(s)
        bits = list(s.const(3, 32))
        st.preset(0, rev(bits) if sw else bits)
        s.buf('V')
        for i in range(24):
            s.mem.o['V'].cells[i] = (0,) * 8
        calls = []

        def h(it, dem, i, args, mem):
            rd = it.ptr(args[0])
            calls.append((it.ptr(args[1]).off, it.c.cval(it.get(it.obj(mem, rd.base), rd.off, ['i', 8], rd.base))))
            return None
        s.it.models.append((re.compile(r'^elem\('), h))
        s.run('lam', [s.buf('strm'), Ptr('V'), s.const(sw, 1)])
        b, num = vecdata(s, 'V', 2)
        c.ob('ReadContainerLambda swap=%d' % sw, num == 3 and calls == [(0, sw), (2, sw), (4, sw)] and st.pos == 4, repr(calls), 'BinReaderRef::ReadContainerLambda')
        s = S(m)
        st = Stream(s)
        s.buf('O')
        s.run('rbuf', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        ok, d = s.cmp(s.outbits('O', 0, 16), s.inbits('S', 0, 7) + s.inbits('O', 7, 9))
        c.ob('ReadBuffer swap=%d' % sw, ok and st.pos == 7, d, 'BinReaderRef::ReadBuffer')
        # classes that read themselves are asked, never read raw
        for fn, cnt in (('own1', 1), ('ownc', 3)):
            s = S(m)
            st = Stream(s)
            s.buf('V')
            for i in range(24):
                s.mem.o['V'].cells[i] = (0,) * 8
            calls = []

            def h2(it, dem, i, args, mem):
                rd = it.ptr(args[1])
                calls.append((it.ptr(args[0]).off, it.c.cval(it.get(it.obj(mem, rd.base), rd.off, ['i', 8], rd.base))))
                return None
            s.it.models.append((re.compile(r'^Own::Read\('), h2))
            s.run(fn, [s.buf('strm'), Ptr('V'), s.const(sw, 1)])
            c.ob('self-reading class x%d swap=%d' % (cnt, sw), calls == [(4 * j, sw) for j in range(cnt)] and st.pos == 0, repr(calls), 'BinReaderRef::Read')
        s = S(m)
        st = Stream(s)
        s.buf('O')
        calls = []
        s.it.models.append((re.compile(r'^Sw::SwapEndian\('), lambda it, dem, i, args, mem: calls.append(it.ptr(args[0])) or None))
        s.run('sw1', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        ok, d = s.cmp(s.outbits('O', 0, 16), s.inbits('S', 0, 8) + s.inbits('O', 8, 8))
        c.ob('class with own swap swap=%d' % sw, ok and calls == [Ptr('O')] * sw, d or repr(calls), 'BinReaderRef::Read')
        s = S(m)
        s.run('swflag', [s.buf('strm'), s.const(sw, 1)])
        c.ob('swap switch %d' % sw, s.c.cval(s.ret) == sw, 'SwappedEndian() does not report the setting / default is not off', 'SwapEndian')
        # strings: up to the terminator, terminator consumed and not stored
        for fn, w in (('rstr', 1), ('rstr16', 2)):
            s = S(m)
            st = Stream(s)
            for q in range(3):
                b = s.inbits('S', q * w, w)
                b[3] = 1
                if w == 2:
                    b[11] = 1
                st.preset(q * w, b)
            st.preset(3 * w, [0] * (8 * w))
            s.buf('O', 32)
            # stream state: good
            s.it.models.insert(0, (re.compile(r'::eof\('), lambda it, dem, i, args, mem: it.c.cw(0, 1)))
            eof_hook(s)
            s.run(fn, [Ptr('strm'), Ptr('O'), s.const(sw, 1)])
            o = s.it.obj(s.out, 'O')
            p = s.it.get(o, 0, ['p'], 'O')
            ln = s.c.cval(s.it.get(o, 8, ['i', 64], 'O'))
            ok = ln == 3 and st.pos == 4 * w
            d = 'length %s, stream advanced by %s' % (ln, st.pos)
            if ok:
                oo = s.it.obj(s.out, p.base)
                got, wn = [], []
                for q in range(3):
                    for x in range(w):
                        got += list(s.it.cell(oo, p.off + q * w + x, p.base))
                    b = [y for x in range(w) for y in st.pre[q * w + x]]
                    wn += rev(b) if sw else b
                ok, d = s.cmp(got, wn)
            c.ob('ReadString %d-byte swap=%d' % (w, sw), ok, d, 'BinReaderRef::ReadString')
        # without a terminator the string ends with the stream
        for fn, w in (('rstr', 1), ('rstr16', 2)):
            for have in range(4):
                key = 'ReadString of %d characters without terminator, %d-byte swap=%d' % (have, w, sw)
                with c.part(key):
                    s = S(m)
                    st = Stream(s)
                    for q in range(have):
                        b = s.inbits('S', q * w, w)
                        b[3] = 1
                        if w == 2:
                            b[11] = 1
                        st.preset(q * w, b)
                    s.buf('O', 32)

                    def rd2(it, dem, i, args, mem):
                        n = it.c.cval(args[2])
                        if it.ptr(args[0]) != Ptr('strm') or n is None or not isinstance(st.pos, int):
                            return NotImplemented
                        if st.pos + n <= have * w:
                            return NotImplemented
                        o = it.obj(mem, 'strm')
                        for j, v in enumerate((6, 0, 0, 0)):
                            o.cells[32 + j] = tuple(v >> x & 1 for x in range(8))
                        return args[0]
                    s.it.models.insert(0, (re.compile(r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::read\('), rd2))
                    eof_hook(s)
                    s.run(fn, [Ptr('strm'), Ptr('O'), s.const(sw, 1)])
                    o = s.it.obj(s.out, 'O')
                    p = s.it.get(o, 0, ['p'], 'O')
                    ln = s.c.cval(s.it.get(o, 8, ['i', 64], 'O'))
                    ok, d = ln == have, 'length %s' % ln
                    if ok:
                        oo = s.it.obj(s.out, p.base)
                        got, wn = [], []
                        for q in range(have):
                            for x in range(w):
                                got += list(s.it.cell(oo, p.off + q * w + x, p.base))
                            b = [y for x in range(w) for y in st.pre[q * w + x]]
                            wn += rev(b) if sw else b
                        ok, d = s.cmp(got, wn)
                    c.ob(key, ok, d, 'BinReaderRef::ReadString')
    for ct, w in (('uint8', 1), ('uint16', 2), ('uint32', 4), ('uint64', 8), ('n', 0), ('b', 0)):
        for fn in ('big_', 'bigl_') if w else ('big',):
            s = S(m)
            st = Stream(s)
            log = []

            def rd(it, dem, i, args, mem):
                log.append(list(args[2]))
                n = it.c.cval(args[2])
                if n is not None:
                    return NotImplemented
                return args[0]
            s.it.models.insert(0, (re.compile(r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::read\('), rd))
            rs = []
            s.it.models.append((re.compile(r'^CC::resize\('), lambda it, dem, i, args, mem: rs.append(list(args[1])) or None))
            s.it.models.append((re.compile(r'^CC::(operator\[\]|begin|end)'), lambda it, dem, i, args, mem: Ptr('elems')))
            s.buf('elems')
            s.buf('O')
            a = [s.buf('strm'), Ptr('O')] + ([] if w else [s.arg('n', 64)])
            try:
                s.run(fn + ct, a)
            except prov.Unsupported:
                if not rs:
                    raise
            n = s.inbits('S', 0, w) + [0] * (64 - 8 * w) if w else list(s.arg('n', 64))
            if fn == 'bigl_':
                n = rev(s.inbits('S', 0, w)) + [0] * (64 - 8 * w)
            ok, d = (True, '') if ct == 'b' else s.cmp(rs[0], n) if len(rs) == 1 else (False, 'resize called %d times' % len(rs))
            if ok and fn != 'bigl_':
                ok, d = s.cmp(log[-1], n if ct == 'b' else [0, 0] + n[:62])
            c.ob('count reaches container and stream whole: %s %s' % (fn, ct), ok, d, 'BinReaderRef::ReadContainer')
    c.unit('B02 driver', m)


def eof_hook(s):
    """a std::istream object whose state word is "good": the vtable pointer leads to a
    zero virtual-base offset, the state word is zero"""
    s.buf('strm')
    s.buf('vt')
    o = s.mem.o['strm']
    for i in range(8):
        o.cells[i] = ('pf', Ptr('vt', 64), i)
    for i in range(8, 512):
        o.cells[i] = (0,) * 8
    v = s.mem.o['vt']
    for i in range(0, 64):
        v.cells[i] = (0,) * 8
