"""Helpers around the provenance dataflow: named input objects, expected bytes, a
model of std::istream/std::ostream as a typed byte sequence."""
import re
from ir import AnalysisBroken, NoReturn, loc_str
import prov
from prov import Interp, Mem, Obj, Ptr, Word, Vec, Agg, Event


class S:
    """one abstract evaluation of one driver function"""

    def __init__(self, mod, ctx=None, budget=600000):
        self.mod = mod
        self.it = Interp(mod, ctx, budget)
        self.c = self.it.c
        self.mem = Mem()
        self._out = self._fn = None

    @property
    def out(self):
        """the memory after the run"""
        if self._out is None and self._fn:
            raise NoReturn(self._fn)
        return self._out

    @out.setter
    def out(self, m):
        self._out = m

    def buf(self, name, size=None, opaque=None):
        """memory object whose bytes are the input bits of `name`"""
        o = Obj(name, size)
        self.mem.o[name] = o
        self.mem.own.add(name)
        self.it.nonnull.add(name)
        return Ptr(name)

    def setc(self, name, off, value, n):
        w = self.c.cw(value & ((1 << (8 * n)) - 1), 8 * n)
        for i in range(n):
            self.mem.o[name].cells[off + i] = tuple(w[8 * i:8 * i + 8])

    def setw(self, name, off, w):
        for i in range(len(w) // 8):
            self.mem.o[name].cells[off + i] = tuple(w[8 * i:8 * i + 8])

    def inbits(self, name, off, n):
        if off + n <= 4096:
            return list(self.c.atoms(self.c.term('in', name), 8 * (off + n)))[8 * off:]
        return [b for k in range(off, off + n) for b in (self.inbits(name, k, 1) if k < 4096 else self.c.inp('%s@%d' % (name, k), 8))]

    def const(self, v, width):
        return self.c.cw(v & ((1 << width) - 1), width)

    def arg(self, name, width):
        return self.c.inp(name, width)

    def run(self, fn, args=()):
        f = self.mod.funcs.get(fn)
        if f is None or f.decl:
            raise AnalysisBroken('driver %s not found' % fn)
        m, r = self.it.call(f, list(args), self.mem)
        self.out = m
        self.ret = r
        self._fn = fn
        return m, r

    def outbits(self, name, off, n):
        o = self.it.obj(self.out, name)
        r = []
        for i in range(n):
            cell = self.it.cell(o, off + i, name)
            if cell[0] == 'pf':
                cell = tuple(self.it.p2i(cell[1])[8 * cell[2]:8 * cell[2] + 8])
            r += list(cell)
        return r

    def cmp(self, got, want):
        """(equal?, description of the first difference)"""
        got = list(got)
        want = list(want)
        if len(got) != len(want):
            return False, 'length %d instead of %d bits' % (len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            if not self.c.same(g, w) and not tab_same(self.c, g, w):
                return False, 'bit %d is %s, required %s' % (i, self.c.show(g)[:160], self.c.show(w)[:160])
        return True, ''


def tab_same(c, g, w, limit=14):
    """do two literals agree for all values of their few leaf bits (evaluating terms)?"""
    leaves = sorted(c.deps(g) | c.deps(w))
    if len(leaves) > limit or all(c.terms[t][0] == 'in' for n in c.support(g) | c.support(w) for t in [c.keys[n][1]]):
        return False
    from tab import Tab, np
    t = Tab(c, 1 << len(leaves))
    try:
        for j, (tm, i) in enumerate(leaves):
            if c.terms[tm][0] != 'in':
                return False
            t.setbits([c.atoms(tm, i + 1)[i]], (np.arange(1 << len(leaves)) >> j) & 1)
        return bool((t.bit(g) == t.bit(w)).all()) and not getattr(t, 'undefined', 0)
    except AnalysisBroken:
        return False


def rev(bits):
    """byte reversal of a bit list"""
    n = len(bits) // 8
    return [b for k in range(n - 1, -1, -1) for b in bits[8 * k:8 * k + 8]]


class Stream:
    """std::istream/std::ostream as seen by the code under analysis: a byte
    sequence plus a position (a word, possibly symbolic).  Reads deliver the bits of
    input `name` (or preset bytes), writes append, seeks move, tells report."""

    def __init__(self, s, name='S', start=None, size=None, only=None):
        self.s = s
        self.name = name
        self.posw = s.c.cw(0, 64) if start is None else start
        self.out = {}          # position key -> cell
        self.pre = {}          # preset input cells
        self.log = []
        self.size = size       # word
        self.link = None       # another Stream whose written bytes are read here
        self.condwrites = 0
        self.only = only
        self.neof = 0
        self.eof_value = None
        it = s.it
        A = it.models.append
        A((re.compile(r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::read\('), self.mine(self.read)))
        A((re.compile(r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::write\('), self.mine(self.write)))
        A((re.compile(r'^std::(ostream|istream|basic_istream<char, std::char_traits<char> ?>|basic_ostream<char, std::char_traits<char> ?>)::seek[gp]\('), self.mine(self.seek)))
        A((re.compile(r'^std::(ostream|istream|basic_istream<char, std::char_traits<char> ?>|basic_ostream<char, std::char_traits<char> ?>)::tell[gp]\('), self.mine(self.tell)))

    def mine(self, h):
        def f(it, dem, i, args, mem):
            if self.only is not None and it.ptr(args[0]) != self.only:
                return NotImplemented
            return h(it, dem, i, args, mem)
        return f

    @property
    def pos(self):
        return self.key(0)

    def key(self, k):
        v = self.s.c.cval(self.posw)
        if v is not None:
            return v + k
        d, c0 = self.s.c.linof(self.posw)
        return (frozenset(d.items()), (c0 + k) & ((1 << 64) - 1))

    def preset(self, pos, bits):
        for i in range(len(bits) // 8):
            self.pre[pos + i] = tuple(bits[8 * i:8 * i + 8])

    def n(self, it, w, i):
        n = it.c.cval(w)
        if n is None:
            raise prov.Unsupported('stream access of unknown size at ' + loc_str(i))
        if n >= 1 << 63:
            n -= 1 << 64
        return n

    def adv(self, w):
        c = self.s.c
        if not isinstance(w, Word):
            w = c.cw(w & ((1 << 64) - 1), 64)
        self.move(c.add(self.posw, w))

    def move(self, w):
        # a move under an unknown condition joins with staying
        it = self.s.it
        cc = 1
        for x in it.cond:
            cc = it.c.AND(cc, x)
        self.posw = Word(it.c.ITE(cc, a, b) for a, b in zip(w, self.posw))

    def read(self, it, dem, i, args, mem):
        n = self.n(it, args[2], i)
        p = it.ptr(args[1])
        self.log.append(('read', self.key(0), n, p, tuple(it.cond), i))
        if n > 0:
            if p.sym:
                raise prov.Unsupported('read to unknown offset')
            it.access('store', p, n, i, mem)
            it.obj(mem, p.base)
            o = mem.w(p.base)
            for k in range(n):
                q = self.key(k)
                if self.link is not None:
                    c = self.link.out.get(q)
                    if c is None:
                        c = tuple(it.c.inp('beyond@%s' % (q,), 8))
                elif q in self.pre:
                    c = self.pre[q]
                elif isinstance(q, int):
                    c = tuple(self.s.inbits(self.name, q, 1))
                else:
                    c = tuple(it.c.op(8, 'stream', self.name, q))
                o.cells[p.off + k] = c
            self.adv(n)
        return args[0]

    def write(self, it, dem, i, args, mem):
        n = self.n(it, args[2], i)
        p = it.ptr(args[1])
        self.log.append(('write', self.key(0), n, p, tuple(it.cond), i))
        if n < 0 or n > 1 << 20:
            return args[0]
        it.access('load', p, n, i, mem)
        if it.cond:
            self.condwrites += 1
        for k in range(n):
            o = it.obj(mem, p.base)
            if p.sym:
                raise prov.Unsupported('write from unknown offset')
            c = it.cell(o, p.off + k, p.base)
            if c[0] == 'pf':
                c = tuple(it.p2i(c[1])[8 * c[2]:8 * c[2] + 8])
            self.out[self.key(k)] = c
        self.adv(n)
        return args[0]

    def outbits(self, pos, n):
        r = []
        for k in range(n):
            c = self.out.get(pos + k)
            if c is None:
                c = tuple(self.s.c.inp('unwritten@%d' % (pos + k), 8))
            r += list(c)
        return r

    def seek(self, it, dem, i, args, mem):
        pos = args[1]
        if isinstance(pos, (Agg, Ptr)):
            raise prov.Unsupported('seek argument')
        d = 0
        if 'fpos' not in dem.split('seek', 1)[1] and len(args) == 3:
            d = it.c.cval(args[2])
        self.log.append(('seek', pos, d, tuple(it.cond), i))
        if d == 0:
            self.move(pos)
        elif d == 1:
            self.adv(pos)
        elif d == 2 and self.size is not None:
            self.move(it.c.add(self.size, pos))
        else:
            raise prov.Unsupported('seek direction')
        return args[0]

    def tell(self, it, dem, i, args, mem):
        self.log.append(('tell', self.posw, tuple(it.cond), i))
        w = self.posw
        t = i['t']
        if t[0] == 's':
            return Agg([w] + [it.c.cw(0, x[1]) if x[0] == 'i' else it.zero(x) for x in t[1][1:]])
        return w


def cstring_models(s):
    """memcmp/bcmp/strlen on buffers of known length"""
    c = s.c

    def byte(it, mem, p, k):
        x = it.cell(it.obj(mem, p.base), p.off + k, p.base)
        return x if x[0] != 'pf' else None

    def memcmp(it, dem, i, args, mem):
        n = c.cval(args[2])
        p, q = it.ptr(args[0]), it.ptr(args[1])
        if n is None or n > 256 or p.sym or q.sym:
            return NotImplemented
        it.access('load', p, n, i, mem)
        it.access('load', q, n, i, mem)
        eq, lt = 1, 0
        for k in range(n):
            x, y = byte(it, mem, p, k), byte(it, mem, q, k)
            if x is None or y is None:
                return NotImplemented
            x, y = Word(x), Word(y)
            lt = c.OR(lt, c.AND(eq, c.ult(x, y)))
            eq = c.AND(eq, c.eq(x, y))
        # -1, 0 or 1
        return Word([eq ^ 1] + [lt] * 31)

    def strlen(it, dem, i, args, mem):
        p = it.ptr(args[0])
        if p.sym:
            return NotImplemented
        size = it.obj(mem, p.base).size
        for k in range(1 << 17):
            if size is not None and p.off + k >= size:
                it.access('load', p, k + 1, i, mem)     # runs past the object
                return c.cw(k, 64)
            x = byte(it, mem, p, k)
            if x is None:
                return NotImplemented
            if all(b == 0 for b in x):
                it.access('load', p, k + 1, i, mem)
                return c.cw(k, 64)
            if not any(b == 1 for b in x):
                return NotImplemented
        return NotImplemented
    def strcmp(it, dem, i, args, mem):
        p, q = it.ptr(args[0]), it.ptr(args[1])
        m = None if dem == 'strcmp' else c.cval(args[2])
        if p.sym or q.sym or dem != 'strcmp' and m is None:
            return NotImplemented
        sp, sq = it.obj(mem, p.base).size, it.obj(mem, q.base).size
        eq, lt = 1, 0
        for k in range(4096 if m is None else min(m, 4096)):
            it.access('load', p, k + 1, i, mem)
            it.access('load', q, k + 1, i, mem)
            if sp is not None and p.off + k >= sp or sq is not None and q.off + k >= sq:
                return c.cw(0, 32)
            x, y = byte(it, mem, p, k), byte(it, mem, q, k)
            if x is None or y is None:
                return NotImplemented
            x, y = Word(x), Word(y)
            lt = c.OR(lt, c.AND(eq, c.ult(x, y)))
            eq = c.AND(eq, c.eq(x, y))
            if eq == 0 or all(b == 0 for b in x) or all(b == 0 for b in y):
                return Word([eq ^ 1] + [lt] * 31)
            if not any(b == 1 for b in x) and not any(b == 1 for b in y):
                return NotImplemented
        return Word([eq ^ 1] + [lt] * 31) if m is not None and m <= 4096 else NotImplemented

    def wide(it, mem, p, k):
        return it.bytes_word([it.cell(it.obj(mem, p.base), p.off + 4 * k + j, p.base) for j in range(4)])

    def wmemcmp(it, dem, i, args, mem):
        n = c.cval(args[2])
        p, q = it.ptr(args[0]), it.ptr(args[1])
        if n is None or n > 256 or p.sym or q.sym:
            return NotImplemented
        it.access('load', p, 4 * n, i, mem)
        it.access('load', q, 4 * n, i, mem)
        eq, lt = 1, 0
        for k in range(n):
            x, y = wide(it, mem, p, k), wide(it, mem, q, k)
            if not isinstance(x, Word) or not isinstance(y, Word):
                return NotImplemented
            # wchar_t is signed
            lt = c.OR(lt, c.AND(eq, c.ult(Word(list(x[:31]) + [c.XOR(x[31], 1)]),
                                          Word(list(y[:31]) + [c.XOR(y[31], 1)]))))
            eq = c.AND(eq, c.eq(x, y))
        return Word([eq ^ 1] + [lt] * 31)

    def wcslen(it, dem, i, args, mem):
        p = it.ptr(args[0])
        if p.sym:
            return NotImplemented
        size = it.obj(mem, p.base).size
        for k in range(1 << 17):
            if size is not None and p.off + 4 * k >= size:
                it.access('load', p, 4 * k + 4, i, mem)
                return c.cw(k, 64)
            x = wide(it, mem, p, k)
            if all(b == 0 for b in x):
                it.access('load', p, 4 * k + 4, i, mem)
                return c.cw(k, 64)
            if not any(b == 1 for b in x):
                return NotImplemented
        return NotImplemented

    def wmemcpy(it, dem, i, args, mem):
        n = c.cval(args[2])
        p, q = it.ptr(args[0]), it.ptr(args[1])
        if n is None or n > 4096 or p.sym or q.sym:
            return NotImplemented
        it.access('store', p, 4 * n, i, mem)
        it.access('load', q, 4 * n, i, mem)
        cells = [it.cell(it.obj(mem, q.base), q.off + k, q.base) for k in range(4 * n)]
        it.obj(mem, p.base)
        o = mem.w(p.base)
        for k, x in enumerate(cells):
            o.cells[p.off + k] = x
        return args[0]
    def memchr(it, dem, i, args, mem):
        n = c.cval(args[2])
        p = it.ptr(args[0])
        cw = 4 if dem.startswith('w') else 1
        if n is None or n > 4096 or p.sym:
            return NotImplemented
        at = []
        for k in range(n):
            x = wide(it, mem, p, k) if cw > 1 else byte(it, mem, p, k)
            if x is None:
                return NotImplemented
            at.append(c.eq(Word(x), Word(args[1][:8 * cw])))
            if at[-1] == 1:
                break
        r = Ptr('null')
        for k in reversed(range(len(at))):
            r = it.merge_val(at[k], it.padd(p, k * cw), r) if at[k] != 0 else r
        if at:
            it.access('load', p, len(at) * cw, i, mem)
        return r
    s.it.models.append((re.compile(r'^w?memchr$'), memchr))
    s.it.models.append((re.compile(r'^wcslen$'), wcslen))
    s.it.models.append((re.compile(r'^wmemcmp$'), wmemcmp))
    s.it.models.append((re.compile(r'^wmem(cpy|move)$'), wmemcpy))
    s.it.models.append((re.compile(r'^(memcmp|bcmp)$'), memcmp))
    s.it.models.append((re.compile(r'^strlen$'), strlen))
    s.it.models.append((re.compile(r'^strn?cmp$'), strcmp))


# std::stringstream as an opaque class: include after <sstream>, before the code that uses it
STRINGSTREAM = '''
#include <sstream>
#include <string>
namespace std { struct RigStream : iostream { RigStream(); RigStream(ios_base::openmode) : RigStream() {} ~RigStream(); std::string str() const; }; }
#define stringstream RigStream
#define ostringstream RigStream
'''


class StringStreams:
    """model of the opaque class above: own read and write positions over shared bytes"""

    def __init__(self, s):
        self.s = s
        self.live = {}
        self.made = 0
        A = s.it.models.append
        A((re.compile(r'^std::RigStream::RigStream\('), self.ctor))
        A((re.compile(r'^std::RigStream::~RigStream\('), self.dtor))
        A((re.compile(r'^std::RigStream::str'), self.str))

    def drop(self, p):
        for x in self.live.pop(p, ()):
            x.only = Ptr('dead')

    def ctor(self, it, dem, i, args, mem):
        p = it.ptr(args[0])
        self.drop(p)
        w = Stream(self.s, only=Ptr(p.base, p.off + 16))
        r = Stream(self.s, only=p)
        r.link = w
        self.live[p] = (w, r)
        self.made += 1
        return None

    def dtor(self, it, dem, i, args, mem):
        self.drop(it.ptr(args[0]))
        return None

    def str(self, it, dem, i, args, mem):
        r, p = it.ptr(args[0]), it.ptr(args[1])
        w = self.live[p][0]
        n = max(w.out) + 1 if w.out else 0
        if any(not isinstance(k, int) for k in w.out):
            raise prov.Unsupported('text of a stream of unknown length')
        if n < 16:
            d = Ptr(r.base, r.off + 16)
        else:
            d = Ptr(it.freshheap('str', mem))
            mem.o[d.base] = Obj('undef:%s' % (d.base,), n + 1)
            mem.own.add(d.base)
            it.store(mem, Ptr(r.base, r.off + 16), ['i', 64], it.c.cw(n, 64), {})
        it.obj(mem, d.base)
        o = mem.w(d.base)
        for k in range(n):
            o.cells[d.off + k] = w.out.get(k) or (0,) * 8
        o.cells[d.off + n] = (0,) * 8
        it.store(mem, r, ['p'], d, {})
        it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(n, 64), {})
        return None


class FileStream(Stream):
    """a stream on a file: gaps left by seeking are zero, reading past the end delivers nothing"""

    def length(self):
        return max(self.out, default=-1) + 1

    def seek(self, it, dem, i, args, mem):
        if len(args) == 3 and 'fpos' not in dem.split('seek', 1)[1] and it.c.cval(args[2]) == 2:
            self.size = it.c.cw(self.length(), 64)
        return Stream.seek(self, it, dem, i, args, mem)

    def read(self, it, dem, i, args, mem):
        f = self.link or self
        n, k = self.n(it, args[2], i), self.key(0)
        if not isinstance(k, int):
            raise prov.Unsupported('file read at unknown position')
        for q in range(k, min(k + n, f.length())):
            f.out.setdefault(q, (0,) * 8)
        if k + n > f.length():
            self.past = True
            args = [args[0], args[1], it.c.cw(max(0, f.length() - k), 64)]
        return Stream.read(self, it, dem, i, args, mem)
