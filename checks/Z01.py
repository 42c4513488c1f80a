"""ZIP archives as file systems: every stored file is found with exactly its bytes; unreadable archives are rejected."""
import ir, struct
from drv import *
from refl import PRE, tree_models

MIN = 200
SRC = PRE + r'''
#include <istream>
#include <sstream>
#include <string>
namespace std { struct RigIn : istream { RigIn(); explicit RigIn(ios_base::openmode); explicit RigIn(const std::string &, ios_base::openmode = ios_base::in); RigIn(RigIn &&); RigIn &operator=(RigIn &&);
 ~RigIn(); std::string str() const; void str(const std::string &); void swap(RigIn &); }; }
#define istringstream RigIn
#define stringstream RigIn
#include "datas/zip_vfs.hpp"
#include <new>
#include <utility>
extern "C" {
void entry(const char *name, size_t len, size_t off, size_t size);
unsigned long bytes() { return sizeof(ZIPVFS); }
void load(ZIPVFS *z, std::istream &s, size_t origin) { BinReaderRef rd(s); if (origin) rd.SetRelativeOrigin(origin); new (z) ZIPVFS(rd); }
size_t count(const ZIPVFS *z) { return z->size(); }
bool empty(const ZIPVFS *z) { return z->empty(); }
bool has(const ZIPVFS *z, const char *n, size_t l) { std::string k(n, l); return z->find(k) != z->end(); }
void list(const ZIPVFS *z) { for (auto &e : *z) entry(e.first.data(), e.first.size(), e.second.first, e.second.second); }
void get(const ZIPVFS *z, const char *n, size_t l, char *o, size_t k) { std::string s(n, l); ZIPVFSFile f = z->Get(s); BinReaderRef rd = f; rd.ReadBuffer(o, k); }
void geti(const ZIPVFS *z, const char *n, size_t l, char *o, size_t k) { std::string s(n, l); ZIPVFSFile f = z->Get(z->find(s)); BinReaderRef rd = f; rd.ReadBuffer(o, k); }
size_t getsize(const ZIPVFS *z, const char *n, size_t l) { std::string s(n, l); ZIPVFSFile f = z->Get(s); BinReaderRef rd = f; return rd.GetSize(); }
bool moved(const ZIPVFS *z, const char *n, size_t l, char *o, size_t k) { std::string s(n, l); ZIPVFSFile *f = new ZIPVFSFile(z->Get(s)); BinReaderRef r0 = *f; r0.ReadBuffer(o, 1);
  f->reader.SwapEndian(true); ZIPVFSFile g(std::move(*f)); delete f; BinReaderRef rd = g; rd.ReadBuffer(o + 1, k - 1); return rd.SwappedEndian(); }
bool assigned(const ZIPVFS *z, const char *n, size_t l, const char *n2, size_t l2, char *o, size_t k) { std::string s(n, l), t(n2, l2); ZIPVFSFile *f = new ZIPVFSFile(z->Get(s)); ZIPVFSFile g = z->Get(t);
  BinReaderRef r0 = *f; r0.ReadBuffer(o, 1); f->reader.SwapEndian(true); g = std::move(*f); delete f; BinReaderRef rd = g; rd.ReadBuffer(o + 1, k - 1); return rd.SwappedEndian(); }
void two(const ZIPVFS *z, const char *n, size_t l, const char *n2, size_t l2, char *o, size_t k) { std::string s(n, l), t(n2, l2); ZIPVFSFile f = z->Get(s), g = z->Get(t); BinReaderRef a = f, b = g;
  a.ReadBuffer(o, 2); b.ReadBuffer(o + 2, 2); a.ReadBuffer(o + 4, k - 4); }
}
'''


class Lost(Exception):
    pass


class In(Stream):
    """an input stream; reading past the end is reported"""
    past = False

    def seek(self, it, dem, i, args, mem):
        if not isinstance(args[1], (Agg, Ptr)) and (it.c.cval(args[1]) is None or len(args) == 3 and 'fpos' not in dem.split('seek', 1)[1] and it.c.cval(args[2]) is None):
            raise Lost('the stream position comes to depend on bytes that do not describe sizes, at ' + loc_str(i))
        return Stream.seek(self, it, dem, i, args, mem)

    def read(self, it, dem, i, args, mem):
        if it.c.cval(args[2]) is None:
            raise Lost('the number of bytes read comes to depend on bytes that do not describe sizes, at ' + loc_str(i))
        n, k, z = self.n(it, args[2], i), self.key(0), self.s.c.cval(self.size)
        if not isinstance(k, int) or k + n > z:
            self.past = True
        return Stream.read(self, it, dem, i, args, mem)


class Buffers:
    """std::istringstream: a stream over the bytes the text had when it was made"""

    def __init__(self, s):
        self.s = s
        self.live = {}
        A = s.it.models.append
        A((re.compile(r'^std::RigIn::RigIn\(std::RigIn&&\)'), self.move))
        A((re.compile(r'^std::RigIn::operator=\('), self.move))
        A((re.compile(r'^std::RigIn::RigIn\(std::(__cxx11::)?(basic_)?string'), self.ctor))
        A((re.compile(r'^std::RigIn::RigIn\('), self.plain))
        A((re.compile(r'^std::RigIn::str\(std::'), self.ctor))
        A((re.compile(r'^std::RigIn::~RigIn\('), self.dtor))

    def drop(self, p):
        x = self.live.pop(p, None)
        if x is not None:
            x.only = Ptr('dead')

    def plain(self, it, dem, i, args, mem):
        p = it.ptr(args[0])
        self.drop(p)
        self.live[p] = In(self.s, name='empty', size=it.c.cw(0, 64), only=p)

    def ctor(self, it, dem, i, args, mem):
        p, t = it.ptr(args[0]), it.ptr(args[1])
        self.drop(p)
        d = it.ptr(it.load(mem, t, ['p'], i))
        n = it.c.cval(it.load(mem, Ptr(t.base, t.off + 8), ['i', 64], i))
        if n is None or d.sym:
            raise prov.Unsupported('stream over a text of unknown length')
        st = In(self.s, name='?', size=it.c.cw(n, 64), only=p)
        o = it.obj(mem, d.base)
        for k in range(n):
            st.pre[k] = it.cell(o, d.off + k, d.base)
        self.live[p] = st

    def move(self, it, dem, i, args, mem):
        p, q = it.ptr(args[0]), it.ptr(args[1])
        self.drop(p)
        x = self.live.pop(q, None)
        if x is None:
            raise prov.Unsupported('move of a stream that does not exist')
        x.only = p
        self.live[p] = x
        self.plain(it, dem, i, [q], mem)
        return p if 'operator=' in dem else None

    def dtor(self, it, dem, i, args, mem):
        self.drop(it.ptr(args[0]))


# archive pieces: lists of (bytes or None for unknown) and the files they define
def raw(b):
    return list(b)


def local(name, data, extra=b'', flags=0, method=0, mod_=None, size=None, usize=None, knownflags=True):
    """header with unknown version, time, date, crc; data is a length"""
    n = data if size is None else size
    u = n if usize is None else usize
    h = raw(b'PK\3\4') + [None] * 2 + raw(struct.pack('<HH', flags, method)) + [None] * 8 + raw(struct.pack('<IIHH', n, u, len(name), len(extra)))
    return h + raw(name) + [None] * len(extra) + [None] * data


def central(name, extra=0, comment=0):
    def f(st):
        off, n, flags, method = st['at'].get(name, (0, 0, 0, 0))
        st.setdefault('dir', len(st['out']))
        st['n'] = st.get('n', 0) + 1
        return raw(b'PK\1\2') + [None] * 4 + raw(struct.pack('<HH', flags, method)) + [None] * 8 + raw(struct.pack('<IIHHHHHII', n, n, len(name), extra, comment, 0, 0, 0, off)) + raw(name) + [None] * (extra + comment)
    return f


def end(comment=0):
    def f(st):
        d = st.get('dir', len(st['out']))
        n = st.get('n', 0)
        return raw(b'PK\5\6') + raw(struct.pack('<HHHHIIH', 0, 0, n, n, st.get('enddir', len(st['out'])) - d, d, comment)) + [None] * comment
    return f


def zip64(extra=0):
    def f(st):
        st['end64'] = st['enddir'] = len(st['out'])
        d, n = st.get('dir', 0), st.get('n', 0)
        return raw(b'PK\6\6') + raw(struct.pack('<QHHIIQQQQ', 44 + extra, 45, 45, 0, 0, n, n, len(st['out']) - d, d)) + [None] * extra
    return f


def locator():
    return lambda st: raw(b'PK\6\7') + raw(struct.pack('<IQI', 0, st['end64'], 1))


def signature(n):
    return raw(b'PK\5\5') + raw(struct.pack('<H', n)) + [None] * n


def extradata(n):
    return raw(b'PK\6\x08') + raw(struct.pack('<I', n)) + [None] * n


L1, L2 = b'folder/a name longer than a short string.bin', b'folder/b'
GOOD = {
    'an empty archive': [end()],
    'one file': [('f', b'a.txt', 10, {}), central(b'a.txt'), end()],
    'files with short and long names': [('f', b'x', 1, {}), ('f', L1, 40, {}), ('f', L2, 7, {}), central(b'x'), central(L1), central(L2), end()],
    'names in descending order': [('f', b'c', 5, {}), ('f', b'b', 6, {}), ('f', b'a', 7, {}), end()],
    'extra fields and comments': [('f', b'a', 5, dict(extra=b'0123456789ab')), ('f', b'bb', 6, dict(extra=b'1')), central(b'a', 5, 9), central(b'bb', 36, 300), end(21)],
    'folders and empty files': [('e', b'dir/', 0, {}), ('f', b'dir/x', 5, {}), ('e', b'dir/empty', 0, dict(extra=b'12345')), ('f', b'y', 6, {}), central(b'dir/', 4, 4), central(b'dir/x'), end()],
    'empty compressed and encrypted entries': [('e', b'dir/', 0, dict(flags=1, method=8)), ('f', b'dir/x', 5, {}), end()],
    'signature and extra data': [extradata(12), ('f', b'a', 5, {}), signature(20), central(b'a'), signature(0), end()],
    'zip64 records': [('f', b'a', 5, {}), central(b'a', 20), zip64(), locator(), end()],
    'zip64 record with extensible data': [('f', b'a', 5, {}), central(b'a'), zip64(33), locator(), end(2)],
    'all flags but encryption': [('f', b'a', 5, dict(flags=0xfff6)), central(b'a'), end()],
    'no directory': [('f', b'a', 5, {}), ('f', b'b', 5, {})],
    'large comments': [('f', b'a', 5, {}), central(b'a', 0xffff, 0xfffe), end(0xffff)],
}
BAD = {
    'encrypted file': [('f', b'a', 5, {}), local(b'b', 5, flags=1), end()],
    'encrypted file among other flags': [local(b'b', 5, flags=0x803), end()],
    'nameless file': [local(b'', 5), end()],
    'nameless file with extra field': [local(b'', 5, extra=b'123'), end()],
    'unknown block': [('f', b'a', 5, {}), raw(b'PK\7\7') + [None] * 20],
    'data descriptor': [local(b'a', 5), raw(b'PK\7\x08') + [None] * 12, end()],
    'zip64 record shorter than its fields': [('f', b'a', 5, {}), raw(b'PK\6\6') + raw(struct.pack('<Q', 20)) + [None] * 44, end()],
    'text': [raw(b'this is not an archive at all, not even a bit')],
    'zeros': [raw(bytes(64))],
    'first byte off': [raw(b'QK\3\4') + [None] * 40],
}
for _m in (1, 2, 6, 8, 9, 12, 14, 95, 98, 99, 0x100, 0xffff):
    BAD['compression method %d' % _m] = [('f', b'a', 5, {}), local(b'b', 5, method=_m), end()]


def build(pieces, at=0):
    """bytes and {name: (offset, size)}"""
    out, files = [], {}
    st = dict(out=out, at={})
    for p in pieces:
        if callable(p):
            p = p(st)
        if isinstance(p, tuple):
            kind, name, n, kw = p
            off = len(out) + 30 + len(name) + len(kw.get('extra', b''))
            if kind == 'f':
                files[name] = (off, n)
            st['at'][name] = (len(out), n, kw.get('flags', 0), kw.get('method', 0))
            p = local(name, n, **kw)
        out += p
    return out, files


def run(c):
    c.rule('Archives are skeletons of constant block sizes and names with unknown other bytes; the constructed map, the bytes delivered by every file and the stream positions are compared with the archive, and every '
           'use of the shared stream by Get must lie between locking and unlocking one and the same mutex.')
    c.assumption('names and block sizes are constants; the reader does not swap; std::map is modelled without rebalancing, std::istringstream holds a copy of the text')
    mod = ir.unit(text=SRC, name='Z01', flags=['-D_GLIBCXX_EXTERN_TEMPLATE=-1'])
    seen = set()

    def sess(data, origin=0, total=None):
        s = S(mod)
        s.it.exceptions = True
        tree_models(s)
        cstring_models(s)
        s.buf('Z', s.c.cval(s.run('bytes')[1]))
        s.buf('O')
        s.buf('strm')
        s.locks = []
        s.held = []

        def lock(it, dem, i, args, mem):
            p = it.ptr(args[0])
            un = 'unlock' in dem
            s.locks.append((un, p, len(s.st.log)))
            return it.c.cw(0, 32)
        s.it.models.append((re.compile(r'^pthread_mutex_(lock|unlock)$'), lock))

        def number(it, dem, i, args, mem):
            # a text of one character
            r = it.ptr(args[0])
            it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), i)
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(1, 64), i)
            it.store(mem, Ptr(r.base, r.off + 16), ['i', 16], it.c.cw(48, 16), i)
        s.it.models.append((re.compile(r'(^|\b)(std::(__cxx11::)?to_string\(|.*__to_xstring<)'), number))
        s.st = In(s, size=s.c.cw(total or len(data) + origin, 64), only=Ptr('strm'))
        for k, b in enumerate(data):
            if b is not None:
                s.st.preset(k + origin, list(s.c.cw(b, 8)))
        s.bufs = Buffers(s)
        s.entries = []

        def entry(it, dem, i, args, mem):
            p, n = it.ptr(args[0]), it.c.cval(args[1])
            o = it.obj(mem, p.base)
            t = bytes(it.c.cval(Word(it.cell(o, p.off + k, p.base))) for k in range(n))
            s.entries.append((t, it.c.cval(args[2]), it.c.cval(args[3])))
        s.it.models.append((re.compile(r'^entry$'), entry))
        return s

    def next_(s, n=None):
        s.mem = s.out.copy()

    def name(s, t, b='N'):
        s.buf(b)
        for k, x in enumerate(t):
            s.setc(b, k, x, 1)
        return [Ptr(b), s.const(len(t), 64)]

    def loaded(s, tag, origin=0):
        try:
            m, _ = s.run('load', [Ptr('Z'), Ptr('strm'), s.const(origin, 64)])
        except Lost as e:
            c.ob(tag + ': loads', False, str(e), 'ZIPVFS::Read')
            return False
        if m is None:
            c.ob(tag + ': loads', False, 'the constructor throws %s' % sorted({t for _, _, t in s.it.thrown}), 'ZIPVFS::Read')
            return False
        maybe = [t for g, _, t in s.it.thrown if g != 0]
        c.ob(tag + ': loads', not maybe, maybe and 'may throw %s' % maybe, 'ZIPVFS::Read')
        return not maybe

    def content(s, o, off, k):
        return s.cmp(s.outbits('O', o, k), [b for q in range(off, off + k) for b in (s.st.pre.get(q) or s.inbits('S', q, 1))])

    for t, pieces in GOOD.items():
        for origin in (0, 100) if t == 'one file' else (0,):
            tag = t + (' at a relative origin' if origin else '')
            with c.part(tag):
                data, files = build(pieces)
                s = sess(data, origin)
                if not loaded(s, tag, origin):
                    continue
                seen.update(s.it.visited)
                c.ob(tag + ': reads nothing outside', not s.st.past, 'reads past the end', 'ZIPVFS::Read')
                next_(s)
                r = s.c.cval(s.run('count', [Ptr('Z')])[1])
                c.ob(tag + ': number of files', r == len(files), '%s instead of %d' % (r, len(files)), 'ZIPVFS')
                r = s.c.cval(s.run('empty', [Ptr('Z')])[1])
                c.ob(tag + ': emptiness', r == int(not files), 'is %s' % r, 'ZIPVFS')
                s.run('list', [Ptr('Z')])
                want = sorted((n, o, k) for n, (o, k) in files.items())
                c.ob(tag + ': names, offsets and sizes', s.entries == want, '%s instead of %s' % (s.entries, want), 'ZIPVFS::ReadEntry')
                for n in list(files) + [b'', b'not there', b'a.tx']:
                    r = s.c.cval(s.run('has', [Ptr('Z')] + name(s, n))[1])
                    c.ob('%s: find %r' % (tag, n), r == int(n in files), 'gives %s' % r, 'ZIPVFS::find')
                base = s.mem
                for n, (off, k) in files.items():
                    for f in ('get', 'geti', 'moved'):
                        s.mem = base.copy()
                        s.locks.clear()
                        first = len(s.st.log)
                        s.buf('O')
                        m, _ = s.run(f, [Ptr('Z')] + name(s, n) + [Ptr('O'), s.const(k, 64)])
                        if m is None:
                            c.ob('%s: %s %r' % (tag, f, n), False, 'throws', 'ZIPVFS::Get')
                            continue
                        ok, d = content(s, 0, off + origin, k)
                        c.ob('%s: %s %r gives its bytes' % (tag, f, n), ok, d, 'ZIPVFSFile' if f == 'moved' else 'ZIPVFS::Get')
                        if f == 'moved':
                            c.ob('%s: moved %r keeps its endianness' % (tag, n), s.c.cval(Word(s.ret)) == 1, 'is %r' % s.ret, 'ZIPVFSFile')
                        # lock discipline
                        held, owner, bad, it = None, set(), '', 0
                        marks = list(s.locks)
                        for q in range(first, len(s.st.log)):
                            before = [x for x in marks if x[2] <= q]
                            h = []
                            for un, p, _ in before:
                                if un:
                                    h = [x for x in h if x != p]
                                else:
                                    h.append(p)
                            if not [p for p in h if p.base == 'Z']:
                                bad = 'stream used without lock at ' + loc_str(s.st.log[q][-1])
                                break
                            owner.update(h)
                        left = [p for un, p, _ in marks if not un]
                        for un, p, _ in marks:
                            if un and p in left:
                                left.remove(p)
                        c.ob('%s: %s %r locks the stream' % (tag, f, n), not bad and len(owner) == 1 and not left, bad or (left and 'the lock is kept') or 'different locks', 'ZIPVFS::Get')
                    s.mem = base.copy()
                    r = s.c.cval(s.run('getsize', [Ptr('Z')] + name(s, n))[1])
                    c.ob('%s: size of %r' % (tag, n), r == k, 'is %s instead of %d' % (r, k), 'ZIPVFS::Get')
                    c.ob('%s: buffers of %r are released' % (tag, n), not s.bufs.live, 'still there: %s' % list(s.bufs.live), 'ZIPVFSFile')
                fs = [(n, v) for n, v in files.items() if v[1] > 4]
                for (n, (o1, k1)), (n2, (o2, k2)) in zip(fs, fs[1:] + fs[:1]):
                    s.mem = base.copy()
                    s.buf('O')
                    s.run('two', [Ptr('Z')] + name(s, n) + name(s, n2, 'N2') + [Ptr('O'), s.const(k1 + 2, 64)])
                    ok, d = content(s, 0, o1 + origin, 2)
                    ok2, d2 = content(s, 2, o2 + origin, 2)
                    ok3, d3 = content(s, 4, o1 + origin + 2, k1 - 2)
                    c.ob('%s: %r and %r at the same time' % (tag, n, n2), ok and ok2 and ok3, d or d2 or d3, 'ZIPVFS::Get')
                    s.mem = base.copy()
                    s.buf('O')
                    s.run('assigned', [Ptr('Z')] + name(s, n) + name(s, n2, 'N2') + [Ptr('O'), s.const(k1, 64)])
                    ok, d = content(s, 0, o1 + origin, k1)
                    c.ob('%s: %r moved over %r' % (tag, n, n2), ok, d, 'ZIPVFSFile')
                    c.ob('%s: %r moved over %r keeps its endianness' % (tag, n, n2), s.c.cval(Word(s.ret)) == 1, 'is %r' % s.ret, 'ZIPVFSFile')
                s.mem = base.copy()
                m, _ = s.run('get', [Ptr('Z')] + name(s, b'not there') + [Ptr('O'), s.const(1, 64)])
                th = sorted({x[2] for x in s.it.thrown})
                c.ob(tag + ': Get of a missing file throws', m is None and th == ['_ZTISt12out_of_range'], th or 'it returns', 'ZIPVFS::Get')
                seen.update(s.it.visited)
    for t, pieces in BAD.items():
        with c.part(t):
            data, files = build(pieces)
            s = sess(data)
            try:
                m, _ = s.run('load', [Ptr('Z'), Ptr('strm'), s.const(0, 64)])
            except Lost as e:
                c.ob(t + ' is rejected', False, str(e), 'ZIPVFS::ReadEntry')
                continue
            th = sorted({x[2] for x in s.it.thrown})
            c.ob(t + ' is rejected', m is None and th == ['_ZTISt13runtime_error'], th or 'the archive is accepted', 'ZIPVFS::ReadEntry')
            seen.update(s.it.visited)
    with c.part('large files'):
        for n in (0x7fffffff, 0x80000000, 0xfffffff0):
            data, _ = build([local(b'a', 0, size=n)])
            s = sess(data, total=len(data) + n + 36)
            h = [*raw(b'PK\3\4')]
            tail, _ = build([local(b'b', 5)])
            for k, b in enumerate(tail):
                if b is not None:
                    s.st.preset(len(data) + n + k, list(s.c.cw(b, 8)))
            if loaded(s, 'a file of %d bytes' % n):
                next_(s)
                s.run('list', [Ptr('Z')])
                want = [(b'a', len(data), n), (b'b', len(data) + n + 31, 5)]
                c.ob('a file of %d bytes and the one after it' % n, s.entries == want, '%s instead of %s' % (s.entries, want), 'ZIPVFS::ReadEntry')
    c.unit('Z01', mod, seen)
