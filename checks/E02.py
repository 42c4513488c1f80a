"""Exceptions: what() names what failed, for every name, magic and version, and all of them are std::exceptions."""
import ir
from drv import *
from refl import PRE
from textstream import chars as text, printf

MIN = 150
SRC = PRE + r'''
#include <stdexcept>
#include <string>
#include <type_traits>
#include <cctype>
#include "datas/except.hpp"
#include "uni/internal/exception.hpp"
template <class E> constexpr bool std_error() { return std::is_convertible<E *, std::exception *>::value && std::is_convertible<E *, std::runtime_error *>::value && std::is_copy_constructible<E>::value; }
extern "C" {
void sent(const char *, size_t);
void notfound(const char *p, size_t n) { es::FileNotFoundError e(es::string_view(p, n)); (void)e; }
void notfound0() { es::FileNotFoundError e; (void)e; }
void access_(const char *p, size_t n) { es::FileInvalidAccessError e(es::string_view(p, n)); (void)e; }
void access0() { es::FileInvalidAccessError e; (void)e; }
void header(const char *p, size_t n) { es::InvalidHeaderError e(es::string_view(p, n)); (void)e; }
void header0() { es::InvalidHeaderError e; (void)e; }
void header8(unsigned char m) { es::InvalidHeaderError e(m); (void)e; }
void header16(unsigned short m) { es::InvalidHeaderError e(m); (void)e; }
void header32(unsigned m) { es::InvalidHeaderError e(m); (void)e; }
void headeri(int m) { es::InvalidHeaderError e(m); (void)e; }
void header64(unsigned long m) { es::InvalidHeaderError e(m); (void)e; }
void headern(unsigned long m, size_t n) { es::InvalidHeaderError e(m, n); (void)e; }
void fourcc(unsigned long m, size_t n) { std::string s = es::InvalidHeaderError::DecompileFourCC(m, n); sent(s.data(), s.size()); }
void version(size_t v) { es::InvalidVersionError e(v); (void)e; }
void version0() { es::InvalidVersionError e; (void)e; }
void eos() { es::UnexpectedEOS e; (void)e; }
void modify(const char *p) { uni::ModifyError e(p); (void)e; }
void modifys(const char *p) { std::string s(p); uni::ModifyError e(s); (void)e; }
bool is_notfound() { return std_error<es::FileNotFoundError>(); }
bool is_access() { return std_error<es::FileInvalidAccessError>(); }
bool is_header() { return std_error<es::InvalidHeaderError>(); }
bool is_version() { return std_error<es::InvalidVersionError>(); }
bool is_eos() { return std_error<es::UnexpectedEOS>(); }
bool is_modify() { return std_error<uni::ModifyError>(); }
}
'''


def run(c):
    c.rule('The text every constructor hands to std::runtime_error is compared with the expected one: names by provenance, magics and versions for a list of values; no byte outside the magic is read and the '
           'character classification gets values of unsigned char only.')
    c.assumption('std::runtime_error keeps its text; the C locale classifies characters')
    mod = ir.unit(text=SRC, name='E02')
    seen = set()

    def sess():
        s = S(mod)
        s.it.exceptions = True
        s.it.globals_initial = True
        s.it.record_access = True
        cstring_models(s)
        s.got = []
        s.bad = []
        A = lambda r, h: s.it.models.append((re.compile(r), h))

        def error(it, dem, i, args, mem):
            p = it.ptr(args[1])
            if '(char const*)' in dem:
                s.got.append(text(s, it, mem, p))
            else:
                n = it.c.cval(it.load(mem, Ptr(p.base, p.off + 8), ['i', 64], i))
                if n is None:
                    raise prov.Unsupported('text of unknown length')
                s.got.append(text(s, it, mem, it.ptr(it.load(mem, p, ['p'], i)), n))

        def sent(it, dem, i, args, mem):
            s.got.append(text(s, it, mem, it.ptr(args[0]), it.c.cval(args[1])))

        def isx(it, dem, i, args, mem):
            v = it.c.cval(args[0])
            if v is None:
                raise prov.Unsupported('unknown character')
            if 255 < v < 0xffffffff:
                s.bad.append('%s(%d) at %s' % (dem, v - (1 << 32), loc_str(i)))
            ch = chr(v & 255)
            r = v < 128 and dict(isalnum=ch.isalnum(), isalpha=ch.isalpha(), isprint=32 <= v < 127, isdigit=ch.isdigit(), isgraph=32 < v < 127, isupper=ch.isupper(), islower=ch.islower())[dem]
            return it.c.cw(8 if r else 0, 32)

        def snprintf(it, dem, i, args, mem):
            if dem == 'sprintf':
                n, out = None, printf(s, it, mem, args, 1)
            else:
                n, out = it.c.cval(args[1]), printf(s, it, mem, args, 2)
            w = out if n is None else out[:max(0, n - 1)]
            if n != 0:
                p = it.ptr(args[0])
                it.access('store', p, len(w) + 1, i, mem)
                it.obj(mem, p.base)
                o = mem.w(p.base)
                for k, b in enumerate(w + b'\0'):
                    o.cells[p.off + k] = tuple(it.c.cw(b, 8))
            return it.c.cw(len(out), 32)

        def number(it, dem, i, args, mem):
            v = it.c.cval(args[-1])
            if v is None:
                raise prov.Unsupported('unknown number')
            t = b'%d' % v
            r = it.ptr(args[0])
            d = Ptr(r.base, r.off + 16)
            if len(t) > 15:
                d = Ptr(it.freshheap('str', mem))
                mem.o[d.base] = Obj('undef:%s' % (d.base,), len(t) + 1)
                mem.own.add(d.base)
                it.store(mem, Ptr(r.base, r.off + 16), ['i', 64], it.c.cw(len(t), 64), {})
            for k, b in enumerate(t + b'\0'):
                it.store(mem, Ptr(d.base, d.off + k), ['i', 8], it.c.cw(b, 8), {})
            it.store(mem, r, ['p'], d, i)
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(len(t), 64), i)
        A(r'^std::(runtime_error|logic_error|exception)::\1\(', error)
        A(r'^sent$', sent)
        A(r'^is(alnum|alpha|print|digit|graph|upper|lower)$', isx)
        A(r'^s(n)?printf$', snprintf)
        A(r'__to_xstring<', number)
        A(r'^std::(__cxx11::)?to_string\(', number)
        return s

    def over(s):
        """accesses outside the objects"""
        r = []
        for e in s.it.events:
            if e.kind in ('load', 'store') and not e.ptr.sym:
                o = s.it.obj(s.out, e.ptr.base) if e.ptr.base in s.out.o else None
                n = e.size if isinstance(e.size, int) else None
                if o is not None and o.size is not None and n is not None and (e.ptr.off < 0 or e.ptr.off + n > o.size):
                    r.append('%s of byte %d of an object of %d at %s' % (e.kind, e.ptr.off + n - 1, o.size, loc_str(e.loc)))
        return r

    def expect(s, key, want, where):
        seen.update(s.it.visited)
        if len(s.got) != 1:
            c.ob(key, False, '%d texts' % len(s.got), where)
            return
        g = s.got[0]
        w = []
        for x in want:
            w += [tuple(s.c.cw(b, 8)) for b in x] if isinstance(x, bytes) else x
        ok = len(g) == len(w) and 'END' not in g and all(s.c.same(a, b) for x, y in zip(g, w) for a, b in zip(x, y))
        show = lambda v: ''.join(chr(s.c.cval(Word(x))) if not isinstance(x, str) and s.c.cval(Word(x)) is not None else '?' for x in v)
        c.ob(key, ok, '%r instead of %r' % (show(g), show(w)), where)

    W = {'notfound': (b"Couldn't open file: ", 'FileNotFoundError'), 'access_': (b"Couldn't access file: ", 'FileInvalidAccessError'), 'header': (b'Invalid format: ', 'InvalidHeaderError')}
    for f, (pre, where) in W.items():
        for n in (0, 1, 8, 15, 16, 40, 300):
            with c.part('%s: name of %d bytes' % (f, n)):
                s = sess()
                s.buf('N', n)
                s.run(f, [Ptr('N'), s.const(n, 64)])
                expect(s, '%s: name of %d bytes' % (f, n), [pre, [tuple(s.inbits('N', k, 1)) for k in range(n)]], where)
                o = over(s)
                c.ob('%s: name of %d bytes, bounds' % (f, n), not o, o[:1], where)
        for k, n in ((0, 0), (0, 5), (7, 9), (0, 20), (3, 30)):
            key = '%s: bytes %d to %d of a longer text' % (f, k, k + n)
            with c.part(key):
                s = sess()
                t = b'models/hero.gr2 and a longer list of files\0'
                s.buf('N', len(t))
                for j, x in enumerate(t):
                    s.setc('N', j, x, 1)
                s.run(f, [Ptr('N', k), s.const(n, 64)])
                expect(s, key, [pre, t[k:k + n]], where)
    for f, want, where in (('notfound0', b"Couldn't open file.", 'FileNotFoundError'), ('access0', b"Couldn't access file.", 'FileInvalidAccessError'), ('header0', b'Invalid format.', 'InvalidHeaderError'),
                           ('version0', b'Invalid version.', 'InvalidVersionError'), ('eos', b'Unexpected end of stream.', 'UnexpectedEOS')):
        with c.part(f):
            s = sess()
            s.run(f)
            expect(s, f, [want], where)

    def fourcc(m, n):
        b = m.to_bytes(8, 'little')[:min(n, 8)]
        b = b.split(b'\0')[0]
        if all(x < 128 and chr(x).isalnum() for x in b):
            return b
        return b''.join(b'0x%X ' % x for x in b)
    U = lambda t: int.from_bytes(t, 'little')
    MAG = [0, U(b'R'), U(b'RI'), U(b'RIF'), U(b'RIFF'), U(b'a9Z0'), U(b'DDS '), U(b'\0ABC'), U(b'A\0BC'), 0x80, 0xff, 0xffffffff, 0x80ffff7f, 0x01020304, 0x04000001]
    LONG = [U(b'ABCDEFGH'), U(b'12345678'), U(b'ABCDEFG'), U(b'ABCD\0FGH'), U(b'ABCDEFG '), 0xffffffffffffffff, 0x8182838485868788, U(b'ABCDE')]

    def magic(f, key, m, n, *args):
        with c.part(key):
            s = sess()
            s.run(f, [s.const(m, len_[f])] + [s.const(a, 64) for a in args])
            expect(s, key, [b'' if f == 'fourcc' else b'Invalid format: ', fourcc(m, n)], 'InvalidHeaderError::DecompileFourCC')
            o = over(s)
            c.ob(key + ', bounds', not o, o[:1], 'InvalidHeaderError::DecompileFourCC')
            c.ob(key + ', characters', not s.bad, s.bad[:1], 'InvalidHeaderError::DecompileFourCC')
    len_ = {'header8': 8, 'header16': 16, 'header32': 32, 'headeri': 32, 'header64': 64, 'headern': 64, 'fourcc': 64}
    for m in MAG:
        magic('header32', 'magic %08x' % m, m, 4)
        magic('headeri', 'signed magic %08x' % m, m, 4)
        if m < 1 << 16:
            magic('header16', 'magic %04x' % m, m, 2)
        if m < 1 << 8:
            magic('header8', 'magic %02x' % m, m, 1)
    for m in MAG[:6] + LONG:
        magic('header64', 'magic %016x' % m, m, 8)
        for n in (0, 1, 3, 4, 7, 8, 9, 100):
            magic('fourcc', 'magic %x in %d bytes' % (m, n), m, n, n)
        magic('headern', 'magic %x with size 5' % m, m, 5, 5)
    for b in range(256) if c.tier != 'quick' else (1, 31, 32, 47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 123, 127, 128, 129, 200, 254, 255):
        magic('header32', 'magic with byte %02x' % b, U(b'A' + bytes([b]) + b'Zz'), 4)
        magic('header32', 'magic ending in %02x' % b, U(b'abc' + bytes([b])), 4)
    for v in (0, 1, 9, 10, 4294967295, 4294967296, (1 << 64) - 1):
        with c.part('version %d' % v):
            s = sess()
            s.run('version', [s.const(v, 64)])
            expect(s, 'version %d' % v, [b'Invalid version: %d' % v], 'InvalidVersionError')
    for f in ('modify', 'modifys'):
        with c.part(f):
            s = sess()
            s.buf('N', 40)
            for k, b in enumerate(b'FrameRate of a motion\0'):
                s.setc('N', k, b, 1)
            s.run(f, [Ptr('N')])
            g = bytes(s.c.cval(Word(x)) for x in s.got[0]) if len(s.got) == 1 else b''
            c.ob(f + ' names the value', b'FrameRate of a motion ' in g, g, 'ModifyError')
    for f in ('notfound', 'access', 'header', 'version', 'eos', 'modify'):
        with c.part('is_' + f):
            s = sess()
            r = s.c.cval(s.run('is_' + f)[1])
            c.ob('%s can be caught as std::exception and copied' % f, r == 1, 'it cannot', 'datas/except.hpp' if f != 'modify' else 'uni/internal/exception.hpp')
    c.unit('E02', mod, seen)
