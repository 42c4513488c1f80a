"""The file system helpers: scanning directories, kinds of files, creating folders."""
import re
import ir
from drv import *
from refl import PRE, tree_models

MIN = 150
SRC = PRE + r'''
#include <stdexcept>
#include <string>
#include <vector>
#include <new>
#include <set>
#include "datas/stat.hpp"
#include "datas/stat.cpp"
#include "datas/directory_scanner.cpp"
typedef size_t N; typedef DirectoryScanner D;
extern "C" {
void scan(D *d, const char *p, N n) { d->Scan(std::string(p, n)); }
void make(D *d) { new (d) D; }
void filter(D *d, const char *p, N n) { d->AddFilter(std::string(p, n)); }
void clear(D *d) { d->Clear(); }
void clearf(D *d) { d->ClearFilters(); }
const D::storage_type *files(D *d) { return &d->Files(); }
D::iterator::pointer first(D *d) { return d->begin().operator->(); }
D::iterator::pointer last(D *d) { return d->end().operator->(); }
D::const_iterator::pointer cfirst(const D *d) { return d->cbegin().operator->(); }
D::const_iterator::pointer clast(const D *d) { return d->cend().operator->(); }
int kind(const char *p, N n) { return FileType(std::string(p, n)); }
void mkone(const char *p, N n) { mkdirs(std::string(p, n)); }
void mkmany(const char *p, N n, const char *const *f, N k) { mkdirs(std::string(p, n), std::vector<const char *>(f, f + k), [](const char *c) { return c; }); }
int mk1(const char *p, uint32 m) { return es::mkdir(p, m); }
int mk2(const char *p, N n, uint32 m) { return es::mkdir(std::string(p, n), m); }
int mk3(const char *p) { return es::mkdir(p); }
}
'''
DT_DIR, DT_REG = 4, 8
TREE = {
    'top': [('.', 4), ('..', 4), ('a.txt', 8), ('sub', 4), ('b.dat', 8), ('...', 8), ('empty', 4), ('gone', 4), ('.hid', 8), ('txt', 4), ('dev', 2)],
    'top/sub': [('.', 4), ('deep', 4), ('c.txt', 8), ('..', 4), ('.x', 4)],
    'top/sub/deep': [('..', 4), ('.', 4), ('d.dat', 8), ('a.txt.bak', 8)],
    'top/sub/.x': [('.', 4), ('..', 4), ('e', 8)],
    'top/empty': [('.', 4), ('..', 4)],
    'top/txt': [('f.dat', 8), ('.', 4), ('..', 4)],
    '': [('.', 4), ('..', 4), ('r.txt', 8), ('top', 4)],
    'bare': [],
}


def walk(d, filters, out=None):
    """the files below d in the order of the directories' entries"""
    out = [] if out is None else out
    if d not in TREE:
        return out
    for n, t in TREE[d]:
        if n in ('.', '..'):
            continue
        p = (d + '/' if d else '') + n
        if t == DT_DIR:
            walk(p, filters, out)
        elif not filters or any(f in n for f in filters):
            out.append(p)
    return out


class Dirs:
    """opendir/readdir/closedir over TREE"""

    def __init__(self, s):
        self.s = s
        self.open = {}
        self.log = []
        self.bad = None
        A = s.it.models.append
        A((re.compile(r'^opendir$'), self.opendir))
        A((re.compile(r'^readdir(64)?$'), self.readdir))
        A((re.compile(r'^closedir$'), self.closedir))
        A((re.compile(r'^strcmp$'), self.strcmp))

    def text(self, it, mem, p):
        r = b''
        for k in range(4096):
            v = it.c.cval(it.load(mem, it.padd(p, k), ['i', 8], {}))
            if v is None:
                raise prov.Unsupported('unknown path')
            if not v:
                return r.decode()
            r += bytes([v])

    def strcmp(self, it, dem, i, args, mem):
        try:
            a, b = self.text(it, mem, it.ptr(args[0])), self.text(it, mem, it.ptr(args[1]))
        except prov.Unsupported:
            return NotImplemented
        return it.c.cw((a > b) - (a < b) & 0xffffffff, 32)

    def norm(self, p):
        return '/'.join(x for x in p.split('/') if x not in ('', '.'))

    def opendir(self, it, dem, i, args, mem):
        p = self.text(it, mem, it.ptr(args[0]))
        q = self.norm(p)
        self.log.append(p)
        if q not in TREE:
            return Ptr('null')
        h = it.freshheap('dir', mem)
        self.open[h] = [q, 0]
        it.nonnull.add(h)
        return Ptr(h)

    def readdir(self, it, dem, i, args, mem):
        h = it.ptr(args[0]).base
        if h not in self.open:
            self.bad = self.bad or 'reads from a directory that is not open'
            return Ptr('null')
        q, n = self.open[h]
        if n >= len(TREE[q]):
            return Ptr('null')
        self.open[h][1] += 1
        e = it.freshheap('dirent', mem)
        mem.o[e] = Obj('undef:' + str(e), 280)
        mem.own.add(e)
        it.nonnull.add(e)
        nm, t = TREE[q][n]
        for k, b in enumerate([t] + list(nm.encode()) + [0]):
            mem.o[e].cells[18 + k] = tuple(it.c.cw(b, 8))
        return Ptr(e)

    def closedir(self, it, dem, i, args, mem):
        h = it.ptr(args[0]).base
        if h not in self.open:
            self.bad = self.bad or ('closes a directory twice' if h != 'null' else 'closes a null directory')
        self.open.pop(h, None)
        return it.c.cw(0, 32)


def put(s, name, text):
    s.buf(name, len(text) + 1)
    for k, b in enumerate(text.encode() + b'\0'):
        s.setc(name, k, b, 1)
    return [Ptr(name), s.const(len(text), 64)]


def strings(s, a, b):
    """the std::string objects from a to b"""
    if a.base != b.base or a.sym or b.sym:
        return None
    r = []
    for k in range(a.off, min(b.off, a.off + 32 * 200), 32):
        p, n = s.it.load(s.out, Ptr(a.base, k), ['p'], {}), s.c.cval(Word(s.outbits(a.base, k + 8, 8)))
        if n is None or p.sym:
            return None
        t = [s.c.cval(Word(s.outbits(p.base, p.off + j, 1))) for j in range(min(n, 200))]
        r.append(''.join(chr(x) if x is not None else '?' for x in t))
    return r


def run(c):
    c.rule('Typestate and effect dataflow: the directory functions are modelled over a fixed tree; the listed files must be the matching ones in directory order, every opened directory '
           'is read only while open and closed exactly once; the kind of a file must be the one its mode says for every mode; folders are created parents before children, once for each prefix.')
    c.assumption('the file system reports the kind of directory entries (d_type), as on Linux file systems')
    m = ir.unit(text=SRC, name='N02')

    def step(s, fn, args):
        s.run(fn, args)
        s.mem = s.out

    def start():
        s = S(m)
        cstring_models(s)
        s.it.globals_initial = True
        d = Dirs(s)
        s.mem.o['D'] = Obj('undef:D', 48)
        s.mem.own.add('D')
        s.it.nonnull.add('D')
        step(s, 'make', [Ptr('D')])
        return s, d

    def listing(s):
        r = []
        for a, b in (('first', 'last'), ('cfirst', 'clast')):
            s.run(a, [Ptr('D')])
            x = s.ret
            s.run(b, [Ptr('D')])
            r.append(strings(s, x, s.ret))
        s.run('files', [Ptr('D')])
        f = s.ret
        r.append(strings(s, s.it.load(s.out, f, ['p'], {}), s.it.load(s.out, Ptr(f.base, f.off + 8), ['p'], {})))
        return r
    for d in ('top', 'top/', 'top"', 'top/sub', '', 'top/empty', 'bare', 'missing', 'top/sub/deep/', '/top', './top'):
        for fl in ((), ('.txt',), ('.dat', 'a.'), ('zzz',), ('',), ('sub',), ('.',)):
            key = "scan of '%s'%s" % (d, ' for ' + ' or '.join("'%s'" % f for f in fl) if fl else '')
            with c.part(key):
                s, D = start()
                for k, f in enumerate(fl):
                    step(s, 'filter', [Ptr('D')] + put(s, 'f%d' % k, f))
                step(s, 'scan', [Ptr('D')] + put(s, 'P', d))
                root = d.rstrip('"').rstrip('/')
                want = walk(D.norm(root), fl)
                got = listing(s)
                ok = all(g is not None and [D.norm(x) for x in g] == want and all(x.startswith(d.rstrip('"')) for x in g) for g in got)
                c.ob(key + ': files', ok, 'lists %s instead of %s' % (got[0], want), 'DirectoryScanner::Scan')
                c.ob(key + ': directories are closed', not D.open and not D.bad, D.bad or 'left open: %s' % [x[0] for x in D.open.values()], 'DirectoryScanner::Scan')
    with c.part('history'):
        s, D = start()
        P = put(s, 'P', 'top/sub/deep')
        step(s, 'scan', [Ptr('D')] + P)
        step(s, 'scan', [Ptr('D')] + put(s, 'Q', 'top/txt'))
        a = walk('top/sub/deep', ()) + walk('top/txt', ())
        c.ob('scans add up', listing(s) == [a] * 3, str(listing(s)), 'DirectoryScanner::Scan')
        step(s, 'filter', [Ptr('D')] + put(s, 'f', 'd.'))
        step(s, 'clear', [Ptr('D')])
        c.ob('Clear forgets the files', listing(s) == [[]] * 3, str(listing(s)), 'DirectoryScanner::Clear')
        step(s, 'scan', [Ptr('D')] + P)
        c.ob('Clear keeps the filters', listing(s)[0] == walk('top/sub/deep', ('d.',)), str(listing(s)), 'DirectoryScanner::Clear')
        step(s, 'clear', [Ptr('D')])
        step(s, 'clearf', [Ptr('D')])
        step(s, 'scan', [Ptr('D')] + P)
        c.ob('ClearFilters forgets the filters', listing(s)[0] == walk('top/sub/deep', ()), str(listing(s)), 'DirectoryScanner::ClearFilters')
    # kinds
    en = m.enum('FileType_e')
    E = dict(en or [('Error', 0), ('Invalid', 1), ('Directory', 2), ('File', 3)])
    for fails in (0, 1):
        for fmt in (1, 2, 4, 6, 8, 10, 12):
            with c.part('kind %d %d' % (fails, fmt)):
                s = S(m)
                cstring_models(s)
                D = Dirs(s)
                perm = s.arg('perm', 12)
                seen = []

                def stat(it, dem, i, args, mem):
                    seen.append(D.text(it, mem, it.ptr(args[-2])))
                    if fails:
                        return it.c.cw(0xffffffff, 32)
                    it.store(mem, Ptr(it.ptr(args[-1]).base, it.ptr(args[-1]).off + 24), ['i', 32], Word(list(perm) + list(it.c.cw(fmt, 4)) + [0] * 16), i)
                    return it.c.cw(0, 32)
                s.it.models.append((re.compile(r'^(stat(64)?|__xstat(64)?)$'), stat))
                s.run('kind', put(s, 'P', 'some/file.x'))
                want = 'Error' if fails else {4: 'Directory', 8: 'File'}.get(fmt, 'Invalid')
                got = s.c.cval(s.ret)
                c.ob('kind of a file of format %d%s' % (fmt, ' that cannot be examined' if fails else ''), got == E[want] and seen == ['some/file.x'],
                     'is %s instead of %s' % ([k for k, v in E.items() if v == got], want), 'FileType')

    # folders
    def mkdirs(fn, args, key, want, also=()):
        with c.part(key):
            s = S(m)
            cstring_models(s)
            D = Dirs(s)
            tree_models(s)
            s.it.globals_initial = True
            made = []

            def mk(it, dem, i, a, mem):
                t = D.text(it, mem, it.ptr(a[0]))
                made.append((t[:-1] if len(t) > 1 and t.endswith('/') and t not in also else t, it.c.cval(a[1]), not it.cond))
                return it.c.cw(0, 32)
            s.it.models.append((re.compile(r'^mkdir$'), mk))
            s.run(fn, args(s))
            got = [x[0] for x in made if x[0] not in also]
            first = list(dict.fromkeys(got))
            ok = set(first) == set(want) and all(x[2] for x in made)
            for x in first:
                up = x.rsplit('/', 1)[0]
                if up != x and up in want and up in first and first.index(up) > first.index(x):
                    ok = False
            c.ob(key, ok and all(x[1] == 0o777 for x in made), 'creates %s, required are %s' % (got, want), 'mkdirs')
    for p, w in (('a/b/c.x', ['a', 'a/b']), ('c.x', []), ('a/', ['a']), ('a\\b\\c', ['a', 'a/b']), ('/a/bb/c', ['/a', '/a/bb']), ('a.b/c.d/e', ['a.b', 'a.b/c.d'])):
        mkdirs('mkone', lambda s: put(s, 'P', p), "mkdirs of '%s'" % p, w, also=('', '/'))
    for pre, fs, w in (('out/', ['a/b/c.x', 'a/d.x', 'e.x', 'a/b/f', 'g\\h\\i'], ['out/a', 'out/a/b', 'out/g', 'out/g/h']),
                       ('o', ['/b/a/x', '/b/c/y', '/a/z'], ['o/a', 'o/b', 'o/b/a', 'o/b/c']), ('', ['b-c/d/e', 'b/x/y', 'b.e/f'], ['b', 'b-c', 'b-c/d', 'b.e', 'b/x']), ('q/', [], []), ('q/', ['f'], [])):
        def args(s):
            s.buf('L', 8 * len(fs))
            for k, f in enumerate(fs):
                p = put(s, 'F%d' % k, f)[0]
                s.it.store(s.mem, Ptr('L', 8 * k), ['p'], p, {})
            return put(s, 'P', pre) + [Ptr('L'), s.const(len(fs), 64)]
        mkdirs('mkmany', args, "mkdirs of %s in '%s'" % (fs, pre), w, also=(pre, 'o', 'o/'))
    for fn in ('mk1', 'mk2', 'mk3'):
        with c.part(fn):
            s = S(m)
            cstring_models(s)
            D = Dirs(s)
            made = []
            res = s.arg('res', 32)

            def mk(it, dem, i, a, mem):
                made.append((D.text(it, mem, it.ptr(a[0])), a[1]))
                return res
            s.it.models.append((re.compile(r'^mkdir$'), mk))
            mode = s.arg('mode', 32)
            P = put(s, 'P', 'x/yy')
            s.run(fn, {'mk1': [P[0], mode], 'mk2': P + [mode], 'mk3': [P[0]]}[fn])
            c.ob('es::mkdir (%s)' % {'mk1': 'text', 'mk2': 'string', 'mk3': 'default mode'}[fn], len(made) == 1 and made[0][0] == 'x/yy' and s.cmp(made[0][1], s.const(0o777, 32) if fn == 'mk3' else mode)[0] and s.cmp(s.ret, res)[0],
                 str(made)[:200], 'es::mkdir')
    c.unit('N02 driver (directory_scanner.cpp, stat.cpp, stat.hpp)', m)
