"""Writing: emitted bytes, swapped exactly when asked, source untouched; write then read is the identity."""
import ir
from drv import *
from B02 import T, es, FL, CNT, sized

MIN = 90


def src():
    t = ['#include "datas/binreader_stream.hpp"', '#include "datas/binwritter_stream.hpp"', '#include "datas/vectors_simd.hpp"',
         '#include "datas/bitfield.hpp"',
         '#include <vector>', '#include <string>',
         'enum class E8 : uint8 { A }; enum class E16 : uint16 { A }; enum E32 : uint32 { EA };',
         'struct Own { uint32 a; void Write(BinWritterRef wr) const; };',
         'struct Sw { uint32 a; uint16 b, c; void SwapEndian() { FByteswapper(a); FByteswapper(b); FByteswapper(c);} };',
         'struct Sw1 { uint32 a; void SwapEndian(bool); };',
         'using BF = BitFieldType<uint32, BitMemberDecl<0, 3>, BitMemberDecl<1, 9>, BitMemberDecl<2, 20>>;']
    for k in list(T) + ['Sw', 'BF']:
        t.append('extern "C" void w_%s(std::ostream &s, const %s *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); r.Write(*(o+1)); }' % (k, k))
        t.append('extern "C" void rt_%s(std::ostream &s, std::istream &i, const %s *o, %s *p, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); BinReaderRef rd(i); rd.SwapEndian(sw); rd.Read(*p); }' % (k, k, k))
        if k == 'BF':
            continue
        t.append('extern "C" void wa_%s(std::ostream &s, const %s (*o)[3], bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); }' % (k, k))
        for cnt in CNT(k):
            t.append('extern "C" void wc%d_%s(std::ostream &s, %s *b, bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
                     ' struct { using value_type = %s; const %s *b; const %s *data() const { return b; } size_t size() const { return %d; } } v{b}; r.WriteContainer(v); }' % (cnt, k, k, k, k, k, cnt))
    for ct in ('uint8', 'uint16', 'uint32', 'uint64'):
        t.append('extern "C" void cnt_%s(std::ostream &s, uint16 *b, bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
                 ' struct { using value_type = uint16; const uint16 *b; const uint16 *data() const { return b; } size_t size() const { return 2; } } v{b}; r.WriteContainerWCount<%s>(v); }' % (ct, ct))
    t.append('extern "C" void cnt_def(std::ostream &s, uint16 *b, bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
             ' struct { using value_type = uint16; const uint16 *b; const uint16 *data() const { return b; } size_t size() const { return 2; } } v{b}; r.WriteContainerWCount(v); }')
    t.append('void elem(BinWritterRef, const uint16 &);')
    t.append('extern "C" void lam(std::ostream &s, uint16 *b, bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
             ' struct { const uint16 *b; const uint16 *begin() const { return b; } const uint16 *end() const { return b + 3; } size_t size() const { return 3; } } v{b};'
             ' r.WriteContainerLambda(v, [](BinWritterRef wr, const uint16 &x) { elem(wr, x); }); }')
    t.append('extern "C" void wbuf(std::ostream &s, const char *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.WriteBuffer(o, 7); }')
    t.append('extern "C" void wt(std::ostream &s, const char *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.WriteT(es::string_view(o, 5)); }')
    t.append('extern "C" void wtw(std::ostream &s, const wchar_t *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.WriteT(es::wstring_view(o, 3)); }')
    for n in range(5):
        t.append('extern "C" void wt%d(std::ostream &s, const char *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.WriteT(es::string_view(o, size_t(%d))); }' % (n, n))
        t.append('extern "C" void wtw%d(std::ostream &s, const wchar_t *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.WriteT(es::wstring_view(o, size_t(%d))); }' % (n, n))
    for n in (1, 2, 4):
        t.append('extern "C" void ba%d(std::ostream &s, std::istream &i, const BF (*o)[%d], BF (*p)[%d], bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); BinReaderRef rd(i); rd.SwapEndian(sw); for (auto &x : *p) rd.Read(x); }' % (n, n, n))
        t.append('extern "C" void bv%d(std::ostream &s, std::istream &i, const BF *o, BF (*p)[%d], bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
                 ' struct { using value_type = BF; const BF *b; const BF *data() const { return b; } size_t size() const { return %d; } } v{o}; r.WriteContainer(v); BinReaderRef rd(i); rd.SwapEndian(sw); for (auto &x : *p) rd.Read(x); }' % (n, n, n))
    t.append('extern "C" void own1(std::ostream &s, const Own *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); }')
    t.append('extern "C" void ownc(std::ostream &s, const Own *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw);'
             ' struct { using value_type = Own; const Own *b; const Own *data() const { return b; } size_t size() const { return 3; } } v{o}; r.WriteContainer(v); }')
    t.append('extern "C" void sw1(std::ostream &s, const Sw1 *o, bool sw) { BinWritterRef r(s); r.SwapEndian(sw); r.Write(*o); }')
    t.append('extern "C" bool swflag(std::ostream &s, bool sw) { BinWritterRef r(s); if (r.SwappedEndian()) return !sw; r.SwapEndian(sw); return r.SwappedEndian(); }')
    # containers and strings whose size is not known
    t.append('struct CC { using value_type = uint32; size_t n; const uint32 *b; const uint32 *data() const { return b; } size_t size() const { return n; } const uint32 *begin() const; const uint32 *end() const; };')
    for ct in ('uint8', 'uint16', 'uint32', 'uint64'):
        t.append('extern "C" void big_%s(std::ostream &s, const uint32 *b, size_t n) { BinWritterRef r(s); CC c{n, b}; r.WriteContainerWCount<%s>(c); }' % (ct, ct))
        t.append('extern "C" void bigl_%s(std::ostream &s, const uint32 *b, size_t n) { BinWritterRef r(s); r.SwapEndian(true); CC c{n, b}; r.WriteContainerLambda<%s>(c, [](BinWritterRef, const uint32 &) {}); }' % (ct, ct))
    t.append('extern "C" void bign(std::ostream &s, const uint32 *b, size_t n) { BinWritterRef r(s); CC c{n, b}; r.WriteContainer(c); }')
    t.append('extern "C" void bigb(std::ostream &s, const char *b, size_t n) { BinWritterRef r(s); r.WriteBuffer(b, n); }')
    t.append('extern "C" void bigt(std::ostream &s, const char *b, size_t n) { BinWritterRef r(s); r.SwapEndian(true); r.WriteT(es::string_view(b, n)); }')
    t.append('extern "C" void bigw(std::ostream &s, const wchar_t *b, size_t n) { BinWritterRef r(s); r.WriteT(es::wstring_view(b, n)); }')
    return '\n'.join(t)


def run(c):
    c.rule('Provenance dataflow over the writer templates: emitted bytes must be the object bytes in order, byte-reversed per element '
           'iff swapping is on and the element has more than one byte; the source object keeps its bits; feeding the emitted bytes to '
           'the reader with the same setting yields the source bits.')
    c.assumption('std::ostream::write accepts the given bytes, std::istream::read delivers them.')
    m = sized(src, 'B03', (5, 6, 7, 8, 12, 16, 24, 33, 36, 48))

    def want(s, off, e, n, sw):
        w = []
        for i in range(n):
            b = s.inbits('O', off + i * e, e)
            w += rev(b) if sw and e > 1 else b
        return w

    def sess():
        s = S(m)
        st = Stream(s)
        s.buf('O')
        return s, st

    def fin(key, s, st, wn, n, where):
        ok, d = s.cmp(st.outbits(0, n), wn)
        ok2, d2 = s.cmp(s.outbits('O', 0, n + 32), s.inbits('O', 0, n + 32))
        c.ob(key, ok and ok2 and st.pos == n and not st.condwrites, d or (d2 and 'source modified: ' + d2) or 'stream advanced by %s instead of %d' % (st.pos, n), where)

    for k, v in list(T.items()):
        e, n = es(v)
        sz = e * n
        for sw in (0, 1):
            s, st = sess()
            s.run('w_' + k, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            fin('Write<%s> swap=%d' % (k, sw), s, st, want(s, 0, e, 2 * n, sw), 2 * sz, 'BinWritterRef::Write')
            s, st = sess()
            s.run('wa_' + k, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            fin('Write<%s[3]> swap=%d' % (k, sw), s, st, want(s, 0, e, 3 * n, sw), 3 * sz, 'BinWritterRef::Write')
            for cnt in CNT(k):
                s, st = sess()
                s.run('wc%d_%s' % (cnt, k), [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
                fin('WriteContainer<%s>(%d) swap=%d' % (k, cnt, sw), s, st, want(s, 0, e, cnt * n, sw), cnt * sz, 'BinWritterRef::WriteContainer')
    for k in list(T) + ['Sw', 'BF']:
        sz = 8 if k == 'Sw' else 4 if k == 'BF' else es(T[k])[0] * es(T[k])[1]
        for sw in (0, 1):
            s = S(m)
            s.buf('O')
            s.buf('P')
            w = Stream(s, only=Ptr('ostrm'))
            r = Stream(s, only=Ptr('istrm'))
            r.link = w
            s.buf('ostrm')
            s.buf('istrm')
            s.run('rt_' + k, [Ptr('ostrm'), Ptr('istrm'), Ptr('O'), Ptr('P'), s.const(sw, 1)])
            ok, d = s.cmp(s.outbits('P', 0, sz + 8), s.inbits('O', 0, sz) + s.inbits('P', sz, 8))
            c.ob('Read(Write(%s)) swap=%d' % (k, sw), ok and w.pos == sz and r.pos == sz, d, 'BinWritterRef::Write / BinReaderRef::Read')
    for ct, w in (('uint8', 1), ('uint16', 2), ('uint32', 4), ('uint64', 8), ('def', 4)):
        for sw in (0, 1):
            s, st = sess()
            s.run('cnt_' + ct, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            b = list(s.const(2, 8 * w))
            fin('WriteContainerWCount %s swap=%d' % (ct, sw), s, st, (rev(b) if sw else b) + want(s, 0, 2, 2, sw), w + 4, 'WriteContainerWCount')
    for sw in (0, 1):
        s, st = sess()
        calls = []

        def h(it, dem, i, args, mem):
            rd = it.ptr(args[0])
            calls.append((it.ptr(args[1]), it.c.cval(it.get(it.obj(mem, rd.base), rd.off, ['i', 8], rd.base))))
            return None
        s.it.models.append((re.compile(r'^elem\('), h))
        s.run('lam', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        b = list(s.const(3, 32))
        ok, d = s.cmp(st.outbits(0, 4), rev(b) if sw else b)
        c.ob('WriteContainerLambda swap=%d' % sw, ok and calls == [(Ptr('O', 2 * j), sw) for j in range(3)] and st.pos == 4, d or repr(calls), 'WriteContainerLambda')
        s, st = sess()
        s.run('wbuf', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        fin('WriteBuffer swap=%d' % sw, s, st, s.inbits('O', 0, 7), 7, 'WriteBuffer')
        s, st = sess()
        s.run('wt', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        fin('WriteT(char) swap=%d' % sw, s, st, s.inbits('O', 0, 5) + [0] * 8, 6, 'WriteT')
        s, st = sess()
        s.run('wtw', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        fin('WriteT(wchar_t) swap=%d' % sw, s, st, want(s, 0, 4, 3, sw) + [0] * 32, 16, 'WriteT')
        for n in range(5):
            s, st = sess()
            s.run('wt%d' % n, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            fin('WriteT of %d char swap=%d' % (n, sw), s, st, s.inbits('O', 0, n) + [0] * 8, n + 1, 'WriteT')
            s, st = sess()
            s.run('wtw%d' % n, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            fin('WriteT of %d wchar_t swap=%d' % (n, sw), s, st, want(s, 0, 4, n, sw) + [0] * 32, 4 * n + 4, 'WriteT')
        for n in (1, 2, 4):
            for fn in 'av':
                s = S(m)
                s.buf('O'), s.buf('P')
                w = Stream(s, only=Ptr('ostrm'))
                r = Stream(s, only=Ptr('istrm'))
                r.link = w
                s.buf('ostrm'), s.buf('istrm')
                s.run('b%s%d' % (fn, n), [Ptr('ostrm'), Ptr('istrm'), Ptr('O'), Ptr('P'), s.const(sw, 1)])
                ok, d = s.cmp(s.outbits('P', 0, 4 * n + 8), s.inbits('O', 0, 4 * n) + s.inbits('P', 4 * n, 8))
                c.ob('%s of %d bit fields reads back swap=%d' % ('array' if fn == 'a' else 'container', n, sw), ok and w.pos == 4 * n and r.pos == w.pos, d, 'BinWritterRef::Write')
        for fn, cnt in (('own1', 1), ('ownc', 3)):
            s, st = sess()
            calls = []

            def h2(it, dem, i, args, mem):
                rd = it.ptr(args[1])
                calls.append((it.ptr(args[0]), it.c.cval(it.get(it.obj(mem, rd.base), rd.off, ['i', 8], rd.base))))
                return None
            s.it.models.append((re.compile(r'^Own::Write\('), h2))
            s.run(fn, [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
            c.ob('self-writing class x%d swap=%d' % (cnt, sw), calls == [(Ptr('O', 4 * j), sw) for j in range(cnt)] and st.pos == 0, repr(calls), 'BinWritterRef::Write')
        s, st = sess()
        calls = []

        def h3(it, dem, i, args, mem):
            calls.append((it.ptr(args[0]) != Ptr('O'), it.c.cval(args[1])))
            return None
        s.it.models.append((re.compile(r'^Sw1::SwapEndian\('), h3))
        s.run('sw1', [s.buf('strm'), Ptr('O'), s.const(sw, 1)])
        c.ob('class with directed swap swap=%d' % sw, calls == [(True, 1)] * sw and st.pos == 4, 'a copy must be swapped outwards exactly once: %r' % calls, 'BinWritterRef::Write')
        s = S(m)
        s.run('swflag', [s.buf('strm'), s.const(sw, 1)])
        c.ob('swap switch %d' % sw, s.c.cval(s.ret) == sw, 'SwappedEndian() does not report the setting / default is not off', 'SwapEndian')
    for ct, w, e in (('uint8', 1, 2), ('uint16', 2, 2), ('uint32', 4, 2), ('uint64', 8, 2), ('n', 0, 2), ('b', 0, 0), ('t', 0, 0), ('w', 0, 2)):
        for fn in ('big_', 'bigl_') if w else ('big',):
            s = S(m)
            log = []

            def wr(it, dem, i, args, mem):
                p = it.ptr(args[1])
                n = it.c.cval(args[2])
                log.append((p, list(args[2]), [b for k in range(n) for b in it.cell(it.obj(mem, p.base), p.off + k, p.base)] if n is not None else None, tuple(it.cond)))
                return args[0]
            s.it.models.insert(0, (re.compile(r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::write\('), wr))
            s.it.models.append((re.compile(r'^CC::(begin|end)'), lambda it, dem, i, args, mem: Ptr('elems')))
            s.buf('B')
            s.buf('elems')
            s.run(fn + ct, [s.buf('strm'), Ptr('B'), s.arg('n', 64)])
            n = list(s.arg('n', 64))
            ok = not any(x[3] for x in log)
            d = 'write under a condition'
            if w:
                pre = n[:8 * w] if fn == 'big_' else rev(n[:8 * w])
                if ok:
                    ok, d = s.cmp(log[0][2] or [], pre) if log else (False, 'no count written')
            elif ct in 'tw':
                tail = {'t': 8, 'w': 32}[ct]
                if ok:
                    ok, d = s.cmp(log[-1][2] or [], [0] * tail) if len(log) == 2 else (False, '%d writes' % len(log))
            if ok and fn != 'bigl_':
                q = log[1 if w else 0]
                ok, d = s.cmp(q[1], [0] * e + n[:64 - e])
                if ok and q[0] != Ptr('B'):
                    ok, d = False, 'data written from %r' % (q[0],)
            c.ob('count and data reach the stream whole: %s %s' % (fn, ct), ok, d, 'BinWritterRef::Write*')
    c.unit('B03 driver', m)
