"""File names: splitting a path into folder, name, extension and components."""
import itertools
import ir
from drv import *
from refl import PRE

MIN = 1200
SRC = PRE + r'''
#include <stdexcept>
#include <string>
#include <vector>
#include <new>
#include "datas/fileinfo.hpp"
#include "datas/stat.hpp"
typedef size_t N;
// one result per accessor: distance from the start of the full path and length
template<class F> static void report(const F &f, N *o) {
  auto b = f.GetFullPath().data();
  auto put = [&](decltype(f.GetFullPath()) v) { *o++ = v.data() - b; *o++ = v.size(); };
  put(f.GetFullPath()); put(f.GetFullPathNoExt()); put(f.GetFilenameExt()); put(f.GetFilename()); put(f.GetExtension()); put(f.GetFolder());
}
extern "C" {
void split(const char *p, N n, N *o, AFileInfo *f) { new (f) AFileInfo(es::string_view(p, n)); report(*f, o); }
void again(const char *p, N n, N *o, AFileInfo *f) { new (f) AFileInfo("ab.c/de/f.g"); f->Load(es::string_view(p, n)); report(*f, o); }
void fresh(const char *p, N n, N *o, AFileInfo *f) { new (f) AFileInfo; f->Load(es::string_view(p, n)); report(*f, o); }
void none(N *o, AFileInfo *f) { new (f) AFileInfo; report(*f, o); }
void wide(const wchar_t *p, N n, N *o, WFileInfo *f) { new (f) WFileInfo(es::basic_string_view<wchar_t>(p, n)); report(*f, o); }
const char *full(AFileInfo *f) { return f->GetFullPath().data(); }
const wchar_t *wfull(WFileInfo *f) { return f->GetFullPath().data(); }
typedef AFileInfo::explode_type Parts;
void explode(const char *p, N n, Parts *o, AFileInfo *f) { new (f) AFileInfo(es::string_view(p, n)); new (o) Parts(f->Explode()); }
void wexplode(const wchar_t *p, N n, WFileInfo::explode_type *o, WFileInfo *f) { new (f) WFileInfo(es::basic_string_view<wchar_t>(p, n)); new (o) WFileInfo::explode_type(f->Explode()); }
void branch(const char *p, N n, const char *q, N k, std::string *o) { AFileInfo f(es::string_view(p, n)); new (o) std::string(f.CatchBranch(es::string_view(q, k))); }
}
'''
FL = []
NAMES = ['GetFullPath', 'GetFullPathNoExt', 'GetFilenameExt', 'GetFilename', 'GetExtension', 'GetFolder']


def parts(t):
    """t: path with / separators -> ranges in the order of NAMES"""
    n = len(t)
    e = t.rfind('/') + 1
    d = t.rfind('.')
    if d < e or d == 0:
        d = n
    return [(0, n), (0, d), (e, n), (e, d), (d, n), (0, e)]


def comps(t):
    r = []
    a = 1 if t[:1] == '/' else 0
    for i in range(a, len(t)):
        if t[i] == '/':
            r.append((a, i))
            a = i + 1
    if a < len(t):
        r.append((a, len(t)))
    return r


def setup(m, shape, cw=1, name='A', s=None):
    """letters are unknown (16 of them each), the others as they are"""
    if s is None:
        s = S(m)
        cstring_models(s)
        s.it.record_access = True
    s.buf(name, len(shape) * cw)
    A = []
    for i, ch in enumerate(shape):
        iw = s.inbits(name, i * cw, 1)
        w = [(iw[b] if b < 4 else 0x60 >> b & 1) if ch == 'x' else ord(ch) >> b & 1 for b in range(8)] + [0] * (8 * cw - 8)
        s.setw(name, i * cw, Word(w))
        A.append(Word(w))
    return s, A


def outside(s, base, n):
    return [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == base and (e.ptr.sym or e.ptr.off < 0 or not isinstance(e.size, int) or e.ptr.off + e.size > n)]


def fresh(s, name, size):
    s.mem.o[name] = Obj('undef:' + name, size)
    s.mem.own.add(name)
    s.it.nonnull.add(name)


def word(s, base, off):
    return s.c.cval(Word(s.outbits(base, off, 8)))


def shapes(top, more=()):
    for n in range(top + 1):
        for t in itertools.product('x/\\.', repeat=n):
            yield ''.join(t)
    # long paths: the last separators and dots far from both ends
    for n in (40, 300) + tuple(more):
        k = n // 3
        yield 'x' * n
        yield 'x' * k + '/' + 'x' * k + '.' + 'x' * (n - 2 * k - 2)
        yield 'x' * (n - 3) + '/x.'
        yield 'x/.' + 'x' * (n - 3)
        yield 'x.' + '/' * (n - 2)
        yield '.x' + '/x' * (n // 2 - 1)
    yield from ('x.x/xx', 'x/x.x/x', '/x.x/xx.x', 'xx/x.x.x', 'x\\x/x.xx', './x', '../x', '../../x.x', './.x', 'x/..', 'x/.', '/.x/x', 'x.x\\xx', 'x:/xx.xx/x', 'xxxxxxxxxx/xxxxxxxx.xx/xxx', '//xxx/xx.x', 'xx xx/x x.x')


def run(c):
    c.rule('Dataflow over path shapes: letters are unknown, separators and dots enumerated; every accessor must yield the range of the loaded path the definition gives, '
           'the loaded path must be the given one with forward slashes, and no access may leave the given text or the stored one.')
    m = ir.unit(text=SRC, name='N01', flags=FL)
    top = 4 if c.tier == 'quick' else 5

    def one(shape, fn, cw=1):
        label = "'%s'%s" % (shape.replace('x', 'a'), {'split': '', 'again': ' loaded second', 'fresh': ' loaded later', 'wide': ' in wide characters'}[fn])
        with c.part(label):
            t = shape.replace('\\', '/')
            n = len(t)
            s, A = setup(m, shape, cw)
            s.buf('O', 96)
            fresh(s, 'F', 48)
            s.run(fn, [Ptr('A'), s.const(n, 64), Ptr('O'), Ptr('F')])
            bad = None
            for k, (nm, (a, b)) in enumerate(zip(NAMES, parts(t))):
                o, l = word(s, 'O', 16 * k), word(s, 'O', 16 * k + 8)
                if (o, l) != (a, b - a) and not (l == 0 and a == b):
                    bad = bad or '%s is [%s, +%s) instead of [%d, %d)' % (nm, o, l, a, b)
            c.ob(label + ' split', not bad, bad or '', 'FileInfo::Load')
            s2 = S(m, s.c)
            s2.mem = s.out
            s2.run('wfull' if cw > 1 else 'full', [Ptr('F')])
            p = s2.ret
            got = s2.outbits(p.base, p.off, (n + 1) * cw)
            want = [b for ch, w in zip(t, A) for b in ([ord('/') >> i & 1 for i in range(8 * cw)] if ch == '/' else w)] + [0] * (8 * cw)
            ok, d = s.cmp(got, want)
            c.ob(label + ' keeps the text with forward slashes', ok, d, 'FileInfo::Load')
            ov = outside(s, 'A', n * cw)
            c.ob(label + ' stays inside', not ov, ir.loc_str(ov[0].loc) if ov else '', 'FileInfo')

    def explode(shape, cw=1):
        with c.part('explode ' + shape):
            t = shape.replace('\\', '/')
            s, A = setup(m, shape, cw)
            s.buf('O', 24)
            fresh(s, 'F', 48)
            s.run('wexplode' if cw > 1 else 'explode', [Ptr('A'), s.const(len(t), 64), Ptr('O'), Ptr('F')])
            b, e = (s.it.load(s.out, Ptr('O', k), ['p'], {}) for k in (0, 8))
            got = None
            if b.base == e.base and not b.sym and not e.sym:
                got = []
                s2 = S(m, s.c)
                s2.mem = s.out
                s2.run('wfull' if cw > 1 else 'full', [Ptr('F')])
                for k in range(b.off, min(e.off, b.off + 16 * 700), 16):
                    q = s.it.load(s.out, Ptr(b.base, k), ['p'], {})
                    got.append(((q.off - s2.ret.off) // cw if q.base == s2.ret.base and not q.sym else None, word(s, b.base, k + 8)))
            want = comps(t)
            c.ob("'%s' components%s" % (shape.replace('x', 'a'), ' of wide characters' if cw > 1 else ''), got == [(a, b - a) for a, b in want], 'gives %s instead of %s' % (got, want), 'FileInfo::Explode')

    for shape in shapes(top, ir.around(m, {47, 92}, 7, 700)[:6]):
        one(shape, 'split')
        explode(shape)
    for shape in ('', 'x', '/', 'x/x', 'x.x', '/x/x.x', 'x.x/x', 'xx\\x', '.x', 'xxxxxxxxxxxxxxxxx.x/xx/xxxxxxxxx'):
        one(shape, 'again')
        one(shape, 'fresh')
        one(shape, 'wide', 4)
        explode(shape, 4)
    with c.part('none'):
        s = S(m)
        cstring_models(s)
        s.buf('O', 96)
        fresh(s, 'F', 48)
        s.run('none', [Ptr('O'), Ptr('F')])
        bad = [nm for k, nm in enumerate(NAMES) if word(s, 'O', 16 * k + 8) != 0]
        c.ob('nothing loaded: everything is empty', not bad, '%s is not empty' % bad, 'FileInfo::FileInfo')
    # branches: the path up to the first component of the file, then the file
    for q, p in (('C:/pp/hh/uu/', '/hh/uu/f.g'), ('C:/pp/hh/uu/', 'hh/uu/f.g'), ('hh/uu', 'hh/uu/f.g'), ('/hh/uu', '/hh/uu/f.g'), ('pp/', 'hh/f.g'), ('pp/', '/hh/f.g'), ('', 'hh/f.g'), ('', 'f'), ('a/hh', '/hh/f.g')):
        with c.part('branch ' + q + ' ' + p):
            s, A = setup(m, p)
            setup(m, q, name='Q', s=s)
            fresh(s, 'O', 32)
            s.run('branch', [Ptr('A'), s.const(len(p), 64), Ptr('Q'), s.const(len(q), 64), Ptr('O')])
            first = [x for x in p.split('/') if x][0]
            i = q.find(first)
            if i < 0:
                want = q + p[p.rfind('/') + 1:]
            elif i == 0:
                want = p
            else:
                want = q[:i].rstrip('/') + ('/' if q[:i].endswith('/') else '') + p.lstrip('/')
            d, n = s.it.load(s.out, Ptr('O'), ['p'], {}), word(s, 'O', 8)
            got = bytes(byte(s, d, k) for k in range(min(n or 0, 200))) if not d.sym else None
            c.ob("branch of '%s' at '%s'" % (p, q), got == want.encode(), '%r instead of %r' % (got, want), 'FileInfo::CatchBranch')
    c.unit('N01 driver (fileinfo.hpp)', m)


def byte(s, p, k):
    v = s.c.cval(Word(s.outbits(p.base, p.off + k, 1)))
    return 63 if v is None else v
