"""UTF conversions: exactly the characters of the text go through the converter that fits their size; messages are never formats."""
import ir
from drv import *
from refl import PRE
from E02 import text

MIN = 60
SRC = PRE + r'''
#include <codecvt>
#include <locale>
#include <string>
extern "C" { void rig_out(std::string *r, int kind, const void *b, const void *e, size_t n); void rig_in(void *r, int kind, const char *b, const char *e, size_t n); void bytes(const char *, size_t); void units(const void *, size_t, size_t); }
template <class C> struct RigKind { static const int v = -1; };
template <class E, unsigned long M, std::codecvt_mode D> struct RigKind<std::codecvt_utf8<E, M, D>> { static const int v = M >= 0x10ffff && D == 0 ? (sizeof(E) == 4 ? 32 : 2) : -2; };
template <class E, unsigned long M, std::codecvt_mode D> struct RigKind<std::codecvt_utf8_utf16<E, M, D>> { static const int v = M >= 0x10ffff && D == 0 ? 16 : -2; };
namespace std {
template <class C, class E = wchar_t, class W = allocator<E>, class B = allocator<char>> struct RigConvert {
  typedef basic_string<E> wide_string; typedef string byte_string;
  RigConvert() {} explicit RigConvert(C *) {} RigConvert(const string &, const wide_string & = wide_string()) {}
  string to_bytes(const E *b, const E *e) { string r; rig_out(&r, RigKind<C>::v, b, e, sizeof(E)); return r; }
  string to_bytes(const wide_string &s) { return to_bytes(s.data(), s.data() + s.size()); }
  string to_bytes(const E *s) { return to_bytes(s, s + char_traits<E>::length(s)); }
  string to_bytes(E c) { return to_bytes(&c, &c + 1); }
  wide_string from_bytes(const char *b, const char *e) { wide_string r; rig_in(&r, RigKind<C>::v, b, e, sizeof(E)); return r; }
  wide_string from_bytes(const string &s) { return from_bytes(s.data(), s.data() + s.size()); }
  wide_string from_bytes(const char *s) { return from_bytes(s, s + char_traits<char>::length(s)); }
  wide_string from_bytes(char c) { return from_bytes(&c, &c + 1); }
};
}
#define wstring_convert RigConvert
#include "datas/unicode.hpp"
#include <cstdio>
#include <cwchar>
#include "datas/tchar.hpp"
#undef wstring_convert
#define R(x) { std::string r = x; bytes(r.data(), r.size()); }
#define W(x) { std::wstring r = x; units(r.data(), r.size(), sizeof(wchar_t)); }
template <class T> std::basic_string<T> mk(const T *p, size_t n) { return std::basic_string<T>(p, n); }
extern "C" {
void p16(const char16_t *p) R(es::ToUTF8(p))
void p32(const char32_t *p) R(es::ToUTF8(p))
void pw(const wchar_t *p) R(es::ToUTF8(p))
void s16(const char16_t *p, size_t n) R(es::ToUTF8(mk(p, n)))
void s32(const char32_t *p, size_t n) R(es::ToUTF8(mk(p, n)))
void sw(const wchar_t *p, size_t n) R(es::ToUTF8(mk(p, n)))
void up(const char *p) W(es::ToUTF1632(p))
void us(const char *p, size_t n) W(es::ToUTF1632(mk(p, n)))
void t_sw(const wchar_t *p, size_t n) R(std::to_string(mk(p, n)))
void t_pw(const wchar_t *p) R(std::to_string(p))
void t_us(const char *p, size_t n) W(std::to_wstring(mk(p, n)))
void t_up(const char *p) W(std::to_wstring(p))
void id_s(const char *p, size_t n) R(std::to_string(mk(p, n)))
void id_p(const char *p) R(std::to_string(p))
void id_sw(const wchar_t *p, size_t n) W(std::to_wstring(mk(p, n)))
void id_pw(const wchar_t *p) W(std::to_wstring(p))
void show(const char *p) { UPrintf(p); }
}
'''
U = 2           # names of bits known to be set: characters that are not zero


def run(c):
    c.rule('The converter is opaque: it must be the one of the size of the characters (UTF-16 units of 2 bytes, code points of 4 bytes), get exactly the range of the text and its result is returned; where the code converts by itself, '
           'constant texts are compared. UPrintf may use its text only as an argument of a constant format or of a function without formats.')
    c.assumption('the standard converters are right; texts for pointers have no zero character before their end')
    builds = {b: ir.unit(text=(d + SRC), name='S03' + b, flags=[]) for b, d in (('', ''), ('u', '#define UNICODE 1\n'))}
    seen = {}

    def sess(b, const=False):
        s = S(builds[b])
        s.it.exceptions = True
        s.it.globals_initial = True
        s.it.record_access = True
        cstring_models(s)
        s.conv, s.res, s.prints = [], [], []
        A = lambda r, h: s.it.models.append((re.compile(r), h))

        def put(it, mem, r, cells, w):
            """a new basic_string with units of w bytes"""
            n = len(cells) // w
            d = Ptr(r.base, r.off + 16)
            if n * w >= 16:
                d = Ptr(it.freshheap('str', mem))
                mem.o[d.base] = Obj('undef:%s' % (d.base,), (n + 1) * w)
                mem.own.add(d.base)
                it.store(mem, Ptr(r.base, r.off + 16), ['i', 64], it.c.cw(n, 64), {})
            it.obj(mem, d.base)
            o = mem.w(d.base)
            for k, x in enumerate(cells + [(0,) * 8] * w):
                o.cells[d.off + k] = x
            it.store(mem, r, ['p'], d, {})
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(n, 64), {})

        def rng(it, mem, a, b, i):
            p, q = it.ptr(a), it.ptr(b)
            if p.base != q.base or p.sym or q.sym:
                raise prov.Unsupported('range of unknown length')
            it.access('load', p, q.off - p.off, i, mem)
            return text(s, it, mem, p, q.off - p.off)

        def out(it, dem, i, args, mem):
            kind, w = it.c.cval(args[1]), it.c.cval(args[4])
            kind -= (kind >> 31) << 32
            x = rng(it, mem, args[2], args[3], i)
            s.conv.append((kind, w, x))
            if const:
                v = bytes(it.c.cval(Word(b)) for b in x)
                try:
                    t = (v.decode('utf-16-le' if w == 2 else 'utf-32-le')).encode() if kind == 8 * w else b''
                except UnicodeError:
                    t = b''
                put(it, mem, it.ptr(args[0]), [tuple(it.c.cw(b, 8)) for b in t], 1)
            else:
                put(it, mem, it.ptr(args[0]), [tuple(it.c.inp('converted%d' % k, 8)) for k in range(7)], 1)

        def in_(it, dem, i, args, mem):
            kind, w = it.c.cval(args[1]), it.c.cval(args[4])
            kind -= (kind >> 31) << 32
            x = rng(it, mem, args[2], args[3], i)
            s.conv.append((kind, w, x))
            if const:
                t = bytes(it.c.cval(Word(b)) for b in x).decode()
                put(it, mem, it.ptr(args[0]), [tuple(it.c.cw(b, 8)) for b in t.encode('utf-16-le' if w == 2 else 'utf-32-le')] if kind == 8 * w else [], w)
            else:
                put(it, mem, it.ptr(args[0]), [tuple(it.c.inp('converted%d' % k, 8)) for k in range(7 * w)], w)

        def res(it, dem, i, args, mem):
            n = it.c.cval(args[1]) * (1 if dem == 'bytes' else it.c.cval(args[2]))
            s.res.append(text(s, it, mem, it.ptr(args[0]), n))

        def pf(it, dem, i, args, mem):
            s.prints.append((dem, [it.ptr(a) if isinstance(a, Ptr) else a for a in args], i, mem.copy()))
            return it.c.cw(1, 32)
        A(r'^rig_out$', out)
        A(r'^rig_in$', in_)
        A(r'^(bytes|units)$', res)
        A(r'^(w?printf|f?w?puts|fputws|fprintf|fwprintf|putchar|putwchar|fwrite|fputs)$', pf)
        return s

    def over(s):
        r = []
        for e in s.it.events:
            if e.kind in ('load', 'store') and e.ptr.base == 'T' and not e.ptr.sym and isinstance(e.size, int) and (e.ptr.off < 0 or e.ptr.off + e.size > s.size):
                r.append('%s of byte %d of %d at %s' % (e.kind, e.ptr.off + e.size - 1, s.size, loc_str(e.loc)))
        return r

    TEXTS = ['', 'a', 'plain text', 'a text that is longer than short strings', '\x7f\x80', 'grün', '\u07ff\u0800', 'ΑΩ', '漢字かな', '\ud7ff\ue000\uffff', '\U00010000', 'a😀b', '\U0010ffff' * 3]
    FUN = {'p16': (2, 'out', 0), 'p32': (4, 'out', 0), 'pw': (4, 'out', 0), 's16': (2, 'out', 1), 's32': (4, 'out', 1), 'sw': (4, 'out', 1), 'up': (1, 'in', 0), 'us': (1, 'in', 1),
           't_sw': (4, 'out', 1), 't_pw': (4, 'out', 0), 't_us': (1, 'in', 1), 't_up': (1, 'in', 0), 'id_s': (1, 'id', 1), 'id_p': (1, 'id', 0), 'id_sw': (4, 'id', 1), 'id_pw': (4, 'id', 0)}

    def call(s, f, cells, w, sized):
        n = len(cells) // w
        s.size = len(cells) + (0 if sized else w)
        s.buf('T', s.size)
        for k, x in enumerate(cells):
            s.mem.o['T'].cells[k] = x
        for k in range(0 if sized else w):
            s.setc('T', len(cells) + k, 0, 1)
        return s.run(f, [Ptr('T')] + ([s.const(n, 64)] if sized else []))

    for b in builds:
        vis = set()
        for f, (w, kind, sized) in FUN.items():
            if b and f[:2] not in ('t_', 'id'):
                continue
            where = 'datas/tchar.hpp' if f[:2] in ('t_', 'id') else 'ToUTF1632' if kind == 'in' else 'ToUTF8'
            own = False
            for n in [0, 1, 2, 3, 4, 7, 8, 15, 16, 33, 260] + ir.around(builds[b], set(), 5, 1100)[:6]:
                key = '%s%s: %d characters' % (f, ' UNICODE' if b else '', n)
                if own:
                    break
                with c.part(key):
                    s = sess(b)
                    cells = []
                    for k in range(n):
                        cells += [tuple([1] + s.inbits('text', k * w, 1)[1:])] + [tuple(s.inbits('text', k * w + j, 1)) for j in range(1, w)]
                    try:
                        call(s, f, cells, w, sized)
                    except prov.Unsupported as e:
                        if s.conv or kind == 'id' or 'cond' in str(e):
                            raise
                        own = True
                        break
                    vis |= s.it.visited
                    same = lambda x, y: len(x) == len(y) and all(s.c.same(p, q) for a, b_ in zip(x, y) for p, q in zip(a, b_))
                    if kind == 'id':
                        c.ob(key + ' are returned', len(s.res) == 1 and same(s.res[0], cells), 'something else is returned', where)
                    elif not s.conv and n:
                        own = True
                        break
                    elif s.conv or n:
                        ok = len(s.conv) == 1 and same(s.conv[0][2], cells)
                        c.ob(key + ' are converted', ok, 'the converter gets %s bytes instead of %d' % ([len(x[2]) for x in s.conv], len(cells)), where)
                        want = 32 if w == 4 or kind == 'in' else 16
                        c.ob(key + ' are converted by their size', all(x[0] == want for x in s.conv), 'converter of %s' % [x[0] for x in s.conv], where)
                        c.ob(key + ' are returned', len(s.res) == 1 and len(s.res[0]) == (7 if kind == 'out' else 28) and all(s.c.same(p, q) for k, x in enumerate(s.res[0]) for p, q in zip(x, s.c.inp('converted%d' % k, 8))), 'something else is returned', where)
                    o = over(s)
                    c.ob(key + ', bounds', not o, o[:1], where)
            for t in TEXTS:
                key = '%s%s: %r' % (f, ' UNICODE' if b else '', t)
                with c.part(key):
                    s = sess(b, True)
                    enc = {1: 'utf-8', 2: 'utf-16-le', 4: 'utf-32-le'}[w]
                    call(s, f, [tuple(s.c.cw(x, 8)) for x in t.encode(enc)], w, sized)
                    want = t.encode({'id': enc, 'out': 'utf-8', 'in': 'utf-32-le'}[kind])
                    got = bytes(s.c.cval(Word(x)) if s.c.cval(Word(x)) is not None else 0 for x in s.res[0]) if len(s.res) == 1 else None
                    c.ob(key, got == want, 'gives %r instead of %r' % (got, want), where)
            if sized:
                key = '%s%s: a text with zero characters' % (f, ' UNICODE' if b else '')
                with c.part(key):
                    s = sess(b, True)
                    t = 'a\0b\0'
                    enc = {1: 'utf-8', 2: 'utf-16-le', 4: 'utf-32-le'}[w]
                    call(s, f, [tuple(s.c.cw(x, 8)) for x in t.encode(enc)], w, sized)
                    want = t.encode({'id': enc, 'out': 'utf-8', 'in': 'utf-32-le'}[kind])
                    got = bytes(s.c.cval(Word(x)) for x in s.res[0]) if len(s.res) == 1 else None
                    c.ob(key, got == want, 'gives %r instead of %r' % (got, want), where)
        key = 'UPrintf' + (' UNICODE' if b else '')
        with c.part(key):
            for t in (b'100% of %s and %n', b'plain', b''):
                s = sess(b, True)
                call(s, 'show', [tuple(s.c.cw(x, 8)) for x in t], 1, 0)
                shown = b''
                bad = ''
                for dem, args, i, mem in s.prints:
                    def val(a, wide, n=None):
                        x = text(s, s.it, mem, a, n) if not wide else None
                        if wide:
                            x, k = [], 0
                            while True:
                                y = text(s, s.it, mem, Ptr(a.base, a.off + 4 * k), 4)
                                if all(bit == 0 for z in y for bit in z):
                                    break
                                x.append(y[0])
                                k += 1
                        return bytes(s.c.cval(Word(z)) for z in x)
                    wide = 'w' in dem.replace('fwrite', 'frite')
                    if 'printf' in dem:
                        k = 1 if dem.startswith('f') else 0
                        fm = args[k]
                        const = isinstance(fm.base, tuple) and fm.base[0] == 'g' and s.it.mod.globals[fm.base[1]]['const']
                        if not const:
                            bad = 'the text is the format of %s at %s' % (dem, loc_str(i))
                            break
                        fs = val(fm, wide)
                        parts = re.split(rb'(%l?s|%%)', fs)
                        va = args[k + 1:]
                        for p in parts:
                            if p in (b'%s', b'%ls'):
                                shown += val(va.pop(0), p == b'%ls')
                            else:
                                shown += p.replace(b'%%', b'%')
                    elif 'put' in dem and 'char' not in dem:
                        shown += val(args[0], wide) + (b'\n' if dem == 'puts' else b'')
                    elif 'char' in dem:
                        shown += bytes([s.c.cval(args[0]) & 255])
                    else:
                        shown += val(args[0], False, s.c.cval(args[1]) * s.c.cval(args[2]))
                c.ob('%s: %r' % (key, t), not bad and shown == t, bad or 'shows %r' % shown, 'UPrintf')
            vis |= s.it.visited
        seen[b] = vis
    for b, m in builds.items():
        c.unit('S03' + b, m, seen[b])
