"""File readers and writers: which file is opened how, whose stream is used, failures, moves."""
import re
import ir
from drv import *
from refl import PRE, guards

MIN = 200
SRC = PRE + r'''
#include <fstream>
#include <istream>
#include <ostream>
#include <sstream>
#include <vector>
#include <string>
#include <type_traits>
#include <cstring>
#include <cwctype>
#include <locale>
#include <codecvt>
#include <algorithm>
#include <new>
namespace std {
// a stream of which only the calls are known
struct RigStream {
  long state[4];
  RigStream();
  explicit RigStream(const char *, ios_base::openmode = ios_base::in | ios_base::out);
  explicit RigStream(const string &, ios_base::openmode = ios_base::in | ios_base::out);
  RigStream(const RigStream &) = delete;
  RigStream(RigStream &&);
  RigStream &operator=(RigStream &&);
  ~RigStream();
  void swap(RigStream &);
  void open(const char *, ios_base::openmode = ios_base::in | ios_base::out);
  void open(const string &, ios_base::openmode = ios_base::in | ios_base::out);
  void close();
  bool is_open() const;
  bool fail() const;
  bool bad() const;
  bool good() const;
  bool eof() const;
  bool operator!() const;
  explicit operator bool() const;
  void clear(ios_base::iostate = ios_base::goodbit);
  RigStream &read(char *, streamsize);
  RigStream &write(const char *, streamsize);
  RigStream &seekg(streamoff);
  RigStream &seekg(streamoff, ios_base::seekdir);
  RigStream &seekp(streamoff);
  RigStream &seekp(streamoff, ios_base::seekdir);
  RigStream &get(char &);
  RigStream &put(char);
  RigStream &flush();
  int get();
  int peek();
  streamoff tellg();
  streamoff tellp();
};
}
#include "datas/unicode.hpp"
#include "datas/except.hpp"
#define fstream RigStream
#define ifstream RigStream
#define ofstream RigStream
#define istream RigStream
#define ostream RigStream
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#undef fstream
#undef ifstream
#undef ofstream
#undef istream
#undef ostream
extern "C" {
unsigned fin() { return std::ios_base::binary | std::ios_base::in; }
unsigned fout() { return std::ios_base::binary | std::ios_base::out; }
unsigned fopt() { return std::ios_base::trunc | std::ios_base::binary | std::ios_base::in | std::ios_base::out; }
'''
for _c, _n in (('BinReader', 'r'), ('BinWritter', 'w')):
    SRC += '''
void %(n)s_new(%(c)s *o) { new (o) %(c)s; }
void %(n)s_ctorc(%(c)s *o, const char *f) { new (o) %(c)s(f); }
void %(n)s_ctors(%(c)s *o, const char *f, size_t n) { std::string s(f, n); new (o) %(c)s(s); }
void %(n)s_openc(%(c)s *o, const char *f) { o->Open(f); }
void %(n)s_opens(%(c)s *o, const char *f, size_t n) { std::string s(f, n); o->Open(s); }
void %(n)s_move(%(c)s *o, %(c)s *p) { new (o) %(c)s(std::move(*p)); }
void %(n)s_del(%(c)s *o) { o->~%(c)s(); }
bool %(n)s_valid(%(c)s *o) { return o->IsValid(); }
void %(n)s_swap(%(c)s *o, bool b) { o->SwapEndian(b); }
void %(n)s_org(%(c)s *o, size_t p) { o->SetRelativeOrigin(p, false); }
size_t %(n)s_push(%(c)s *o) { return o->Push(); }
void %(n)s_pop(%(c)s *o) { o->Pop(); }
size_t %(n)s_tell(%(c)s *o) { return o->Tell(); }
void %(n)s_seek(%(c)s *o, size_t p) { o->Seek(p); }
unsigned long %(n)s_size() { return sizeof(%(c)s); }
int %(n)s_traits() { return std::is_copy_constructible<%(c)s>::value | std::is_copy_assignable<%(c)s>::value << 1 | !std::is_move_constructible<%(c)s>::value << 2; }
''' % dict(c=_c, n=_n)
SRC += '''
void r_use(BinReader *o, char *b, size_t n) { o->ReadBuffer(b, n); }
void w_use(BinWritter *o, const char *b, size_t n) { o->WriteBuffer(b, n); }
unsigned r_val(BinReader *o) { uint16 v = 0; o->Read(v); return v; }
unsigned w_val(BinWritter *o) { o->Write(uint16(0x1234)); return 0; }
void r_ref(BinReader *o, char *b, size_t n) { BinReaderRef r(*o); r.ReadBuffer(b, n); }
void w_ref(BinWritter *o, const char *b, size_t n) { BinWritterRef r(*o); r.WriteBuffer(b, n); }
}
'''


class Streams:
    """the file streams: calls on them and what they answer"""

    def __init__(self, m, exists=True):
        self.m = m
        self.exists = exists
        self.log = []
        self.st = {}
        self.mem = None
        self.ctx = None
        self.bad = ''
        self.named = None

    def run(self, fn, args, bufs=()):
        s = S(self.m, self.ctx)
        self.ctx = s.c
        if self.mem is not None:
            s.mem = self.mem.copy()
        for b, n in bufs:
            s.buf(b, n)
        s.it.exceptions = True
        guards(s)
        cstring_models(s)
        s.it.nonnull.update(b for b in s.mem.o if isinstance(b, str))
        s.it.models.insert(0, (re.compile(r'^std::RigStream::'), self.call))
        s.it.models.insert(0, (re.compile(r'^std::runtime_error::runtime_error\((char const\*|.*string.*)\)'), self.error))
        self.log = []
        self.named = None
        m, r = s.run(fn, args)
        if m is not None:
            self.mem = m
        self.s = s
        return m, r

    def error(self, it, dem, i, a, mem):
        """the text an exception is made with"""
        self.named = self.name(it, a[1], dem, mem, i)
        return NotImplemented

    def key(self, it, a):
        p = it.ptr(a)
        if p.sym:
            raise ir.AnalysisBroken('the stream of a call is not known')
        return (p.base, p.off)

    def name(self, it, a, dem, mem, i):
        """the text a file name argument points to"""
        p = it.ptr(a)
        if 'char const*' not in dem:
            p = it.load(mem, p, ['p'], i)
        if not isinstance(p, Ptr) or p.sym:
            return None
        out = []
        for k in range(64):
            v = it.c.cval(it.load(mem, Ptr(p.base, p.off + k), ['i', 8], i))
            if v is None:
                return None
            if not v:
                break
            out.append(v)
        return bytes(out)

    def call(self, it, dem, i, args, mem):
        f = re.match(r'std::RigStream::(~?\w+(?: bool)?|operator.)', dem).group(1)
        if it.cond and any(l > 1 for l in it.cond):
            raise ir.AnalysisBroken('a stream call under a condition')
        k = self.key(it, args[0])
        st = self.st.get(k)
        self.log.append((f, k, args[1:]))
        if f == 'RigStream':
            if 'RigStream&&' in dem:
                o = self.key(it, args[1])
                self.st[k] = self.st.pop(o, None)
                self.st[o] = dict(open=None, mode=None, fail=False)
            else:
                self.st[k] = dict(open=None, mode=None, fail=False)
                if len(args) > 1:
                    return self.open(it, dem, i, args, mem, k)
            return None
        if f == '~RigStream':
            self.st[k] = None
            return None
        if f == 'swap':
            o = self.key(it, args[1])
            self.st[k], self.st[o] = self.st.get(o), self.st.get(k)
            return None
        if st is None:
            self.bad = self.bad or '%s is called on a stream that is not there (any more)' % f
            return it.opaque(i['t'], 'rig', it.freshname('z')) if i['t'][0] in 'if' else Ptr(*k) if i['t'][0] == 'p' else None
        if f == 'open':
            return self.open(it, dem, i, args, mem, k)
        if f == 'close':
            if not st['open']:
                st['fail'] = True
            st['open'] = None
            return None
        if f in ('is_open',):
            return it.c.cw(int(bool(st['open'])), i['t'][1])
        if f in ('bad', 'eof'):
            return it.c.cw(int(bool(st.get(f))), i['t'][1])
        if f in ('fail', 'operator!'):
            return it.c.cw(int(st['fail']), i['t'][1])
        if f == 'good':
            return it.c.cw(int(not (st['fail'] or st.get('eof') or st.get('bad'))), i['t'][1])
        if f == 'operator bool':
            return it.c.cw(int(not st['fail']), i['t'][1])
        if f == 'clear':
            st.update(fail=False, eof=False, bad=False)
            return None
        if f == 'operator=':
            o = self.key(it, args[1])
            self.st[k] = self.st.get(o)
            self.st[o] = dict(open=None, mode=None, fail=False)
            return Ptr(*k)
        if f in ('tellg', 'tellp'):
            return it.c.inp('position', 64)
        if f in ('read', 'write', 'seekg', 'seekp', 'flush', 'put'):
            if not st['open'] or st['fail']:
                self.bad = self.bad or '%s is called on a stream that is not open' % f
            if f in ('read', 'write') and isinstance(args[1], Ptr) and it.c.cval(args[2]) == 2:
                if f == 'read':
                    it.store(mem, args[1], ['i', 16], it.c.cw(0x1234, 16), i)
                self.seen = it.c.cval(it.load(mem, args[1], ['i', 16], i))
            return Ptr(*k)
        return it.opaque(i['t'], 'rig', it.freshname('z')) if i['t'][0] in 'if' else None

    def open(self, it, dem, i, args, mem, k):
        st = self.st[k]
        st['tried'] = self.name(it, args[1], dem, mem, i)
        mode = it.c.cval(args[2])
        if st['open'] or not self.exists:
            st['fail'] = True
        else:
            st.update(open=st['tried'], mode=mode, fail=False, eof=False, bad=False)
        return None


def run(c):
    m = ir.unit(text=SRC, name='B09', passes=ir.LIGHT)
    c.rule('The stream classes are replaced by one of which only declarations are known; every call on it is recorded with the stream it is made on, in sequences of constructions, openings, moves, deletions and uses.')
    s = S(m)
    fin, fout, optional = (s.c.cval(s.run(f)[1]) for f in ('fin', 'fout', 'fopt'))
    for n, cls, want, err, use in (('r', 'BinReader', fin, 'FileNotFoundError', 'read'), ('w', 'BinWritter', fout, 'FileInvalidAccessError', 'write')):
        size = s.c.cval(s.run(n + '_size')[1])

        def name(r, how, text, obj, fn):
            """run fn with a file name given as C string or std::string"""
            b = 'F%s' % text
            ss = [(b, len(text) + 1)]
            args = [Ptr(obj), Ptr(b)] + ([r.ctx_const(len(text))] if how == 's' else [])
            return fn + how, args, ss

        class T(Streams):
            def ctx_const(self, v):
                return S(m, self.ctx).const(v, 64)

            def file(self, fn, how, text, obj):
                if self.mem is None:
                    self.mem = Mem()
                t = S(m, self.ctx)
                self.ctx = t.c
                t.mem = self.mem.copy()
                t.buf('F' + text, len(text) + 1)
                for k, ch in enumerate(text.encode() + b'\0'):
                    t.setc('F' + text, k, ch, 1)
                if obj not in t.mem.o:
                    t.buf(obj, size)
                self.mem = t.mem
                return self.run('%s_%s%s' % (n, fn, how), [Ptr(obj), Ptr('F' + text)] + ([self.ctx_const(len(text))] if how == 's' else []))

            def using(self, obj, fn='use'):
                """the stream a buffer operation uses: its state, or None"""
                self.bad = ''
                mm, _ = self.run('%s_%s' % (n, fn), [Ptr(obj), Ptr('B'), self.ctx_const(5)], [('B', 5)])
                u = [x for x in self.log if x[0] == use]
                if mm is None or len(u) != 1 or self.bad:
                    return None, self.bad or 'no %s of the stream' % use
                a = u[0][2]
                if not (isinstance(a[0], Ptr) and a[0] == Ptr('B')) or self.s.c.cval(a[1]) != 5:
                    return None, 'another buffer or size is given to the stream'
                return self.st.get(u[0][1]), 'the stream at %s+%d' % u[0][1]

        def opened(key, r, obj, text):
            st, d = r.using(obj)
            if st is None:
                c.ob(key, False, d, cls)
                return
            c.ob(key, st['open'] == text.encode(), 'it uses the file %r' % (st['open'],), cls)
            c.ob(key + ': mode', st['mode'] is not None and st['mode'] & ~(optional & ~(fin | fout)) | want == want and st['mode'] & want == want,
                 'mode %s, required %s' % (st['mode'], want), cls)
            v = r.run(n + '_valid', [Ptr(obj)])[1]
            c.ob(key + ': valid', r.s.c.cval(v) == 1, 'IsValid is %s' % r.s.c.cval(v), cls + '::IsValid')
            st, d = r.using(obj, 'ref')
            c.ob(key + ': through a reference', st is not None and st['open'] == text.encode(), d, cls)
        for how, what in (('c', 'C string'), ('s', 'std::string')):
            with c.part('%s %s' % (cls, what)):
                r = T(m)
                ok = r.file('ctor', how, 'first', 'O')[0] is not None
                c.ob('%s(%s) of a file returns' % (cls, what), ok, 'it throws', cls)
                if ok:
                    opened('%s(%s) opens the file' % (cls, what), r, 'O', 'first')
                    ok = r.file('open', how, 'second', 'O')[0] is not None
                    c.ob('%s::Open(%s) of another file returns' % (cls, what), ok, 'it throws', cls + '::Open')
                    if ok:
                        opened('%s::Open(%s) opens the other file' % (cls, what), r, 'O', 'second')
                    # the file ended: the stream failed and is opened for another file
                    for x in r.st.values():
                        if x and x['open']:
                            x['fail'] = x['eof'] = True
                    ok = r.file('open', how, 'next', 'O')[0] is not None
                    c.ob('%s::Open(%s) after the stream failed returns' % (cls, what), ok, 'it throws', cls + '::Open')
                    if ok:
                        opened('%s::Open(%s) after the stream failed opens the file' % (cls, what), r, 'O', 'next')
                r = T(m, False)
                mm, _ = r.file('ctor', how, 'missing', 'O')
                th = [x[2] for x in r.s.it.thrown]
                c.ob('%s(%s) of a missing file throws' % (cls, what), mm is None and len(th) == 1 and err in th[0] and b'missing' in (r.named or b''), 'throws %s with the text %s' % (th, r.named), cls)
                # an object is made, opened, fails to open another file
                r = T(m)
                r.run(n + '_new', [Ptr('O')], [('O', size)])
                ok = r.file('open', how, 'third', 'O')[0] is not None
                c.ob('%s::Open(%s) of a new object returns' % (cls, what), ok, 'it throws', cls + '::Open')
                if ok:
                    opened('%s::Open(%s) of a new object opens the file' % (cls, what), r, 'O', 'third')
                r.exists = False
                mm, _ = r.file('open', how, 'missing', 'O')
                th = [x[2] for x in r.s.it.thrown]
                c.ob('%s::Open(%s) of a missing file throws' % (cls, what), mm is None and len(th) == 1 and err in th[0] and b'missing' in (r.named or b''), 'throws %s with the text %s' % (th, r.named), cls + '::Open')
                r.mem = r.s.it.thrown[0][1].copy() if r.s.it.thrown else r.mem
                v = r.run(n + '_valid', [Ptr('O')])[1]
                c.ob('%s::Open(%s) of a missing file: not valid' % (cls, what), r.s.c.cval(v) == 0, 'IsValid is %s' % r.s.c.cval(v), cls + '::IsValid')
                r.exists = True
                ok = r.file('open', how, 'fourth', 'O')[0] is not None
                c.ob('%s::Open(%s) after a failure returns' % (cls, what), ok, 'it throws', cls + '::Open')
                if ok:
                    opened('%s::Open(%s) after a failure opens the file' % (cls, what), r, 'O', 'fourth')
        for flip in (0, 1):
          with c.part('%s move %d' % (cls, flip)):
            r = T(m)
            r.file('ctor', 'c', 'file', 'O')
            sw, org = int(n == 'r') ^ flip, r.s.c.inp('origin', 64)
            r.run(n + '_swap', [Ptr('O'), r.s.const(sw, 1)])
            r.run(n + '_org', [Ptr('O'), org])
            r.run(n + '_push', [Ptr('O')])
            mm, _ = r.run(n + '_move', [Ptr('P'), Ptr('O')], [('P', size)])
            c.ob(cls + ' move: returns', mm is not None, 'it throws', cls)
            for when in ('moved', 'moved, the old one opened again', 'moved, the old one destroyed', 'moved twice'):
                if when.endswith('again'):
                    ok = r.file('open', 's', 'other', 'O')[0] is not None
                    c.ob('%s: the moved one can be opened again' % cls, ok, 'it throws', cls)
                    if ok:
                        opened('%s: the moved one uses its new file' % cls, r, 'O', 'other')
                if when.endswith('destroyed'):
                    r.run(n + '_del', [Ptr('O')])
                    for x in list(r.mem.o):
                        if x == 'O':
                            r.mem = r.mem.copy()
                            r.mem.w('O').freed = 1
                obj = 'P'
                if when == 'moved twice':
                    obj = 'Q'
                    r.run(n + '_move', [Ptr('Q'), Ptr('P')], [('Q', size)])
                opened('%s %s' % (cls, when), r, obj, 'file')
                b = r.run(n + '_val', [Ptr(obj)])[1]
                b = r.s.c.cval(b) if n == 'r' else getattr(r, 'seen', None)
                c.ob('%s %s: keeps swapping %s' % (cls, when, 'on' if sw else 'off'), b == (0x3412 if sw else 0x1234), '0x1234 becomes %s' % b, cls)
                sk = r.run(n + '_seek', [Ptr(obj), r.s.const(0, 64)])
                a = [x[2][0] for x in r.log if x[0].startswith('seek')]
                c.ob('%s %s: keeps the origin' % (cls, when), len(a) == 1 and r.s.cmp(a[0], org)[0], 'seeks %s' % (a and r.s.c.show(a[0][0])), cls)
                r.run(n + '_pop', [Ptr(obj)])
                a = [x[2][0] for x in r.log if x[0].startswith('seek')]
                c.ob('%s %s: keeps the saved position' % (cls, when), len(a) == 1 and r.s.cmp(a[0], r.s.c.inp('position', 64))[0], 'seeks %s' % (a and r.s.c.show(a[0][0])), cls)
        with c.part(cls + ' move of a new one'):
            r = T(m)
            r.run(n + '_new', [Ptr('O')], [('O', size)])
            mm, _ = r.run(n + '_move', [Ptr('P'), Ptr('O')], [('P', size)])
            ok = mm is not None and r.file('open', 'c', 'late', 'P')[0] is not None
            c.ob(cls + ' moved before it was opened can be opened', ok, 'it throws', cls)
            if ok:
                opened(cls + ' moved before it was opened', r, 'P', 'late')
        t = S(m)
        v = t.c.cval(t.run(n + '_traits')[1])
        c.ob(cls + ' can be moved and not copied', v == 0, 'traits %s' % v, cls)
    c.unit('B09 driver (binreader.hpp, binwritter.hpp)', m)
