"""Model of std::stringstream (named RigText by the drivers) on constant-length text."""
from drv import *

RIGTEXT = r'''
#include <sstream>
namespace std { struct RigText : iostream { RigText(); explicit RigText(ios_base::openmode); explicit RigText(const std::string &, ios_base::openmode = ios_base::in | ios_base::out); ~RigText();
 std::string str() const; void str(const std::string &); void open(const std::string &, ios_base::openmode = ios_base::out); void close(); bool is_open() const; }; }
'''


class Text:
    """std::stringstream: bytes, a position to write and one to read, and the state bits, which are kept in memory"""
    NAMES = r'(ostream|istream|ios|basic_[io]*stream<char, std::char_traits<char> ?>|basic_ios<char, std::char_traits<char> ?>)'

    def __init__(self, s):
        self.s = s
        self.live = {}
        A = lambda r, h: s.it.models.append((re.compile(r), h))
        N = self.NAMES
        A(r'^std::RigText::RigText\(', self.ctor)
        A(r'^std::RigText::~RigText\(', self.dtor)
        A(r'^std::RigText::str', self.str)
        A('^std::%s::clear\\(' % N, self.clear)
        A('^std::%s::setstate\\(' % N, self.setstate)
        A('^std::%s::read\\(' % N, self.read)
        A('^std::%s::(seekp|seekg)\\(' % N, self.seek)
        A('^std::%s::(tellp|tellg)\\(' % N, self.tell)
        A('^std::%s::(put|write)\\(' % N, self.put)
        A('^std::%s::flush\\(' % N, lambda it, dem, i, args, mem: args[0])
        A(r'std::basic_ostream<char, std::char_traits<char> ?>& std::(endl|ends|flush)<', self.manip)
        A(r'std::operator<< ?<', self.insert)
        A(r'std::__ostream_insert<', self.insertn)
        A(r'^std::RigText::(imbue|swap)', lambda it, dem, i, args, mem: None)

    def base(self, it, p):
        """the stream a subobject belongs to"""
        for d in (0, 16, 24):
            q = Ptr(p.base, p.off - d)
            if q in self.live:
                return q
        return None

    def mk(self, it, mem, p):
        vt = Ptr(('vt', 'text'), 64)
        o = mem.o[vt.base] = Obj('vt:text', 128)
        it.store(mem, Ptr(vt.base, 64 - 24), ['i', 64], it.c.cw(24, 64), {})
        it.store(mem, Ptr(vt.base, 96 - 24), ['i', 64], it.c.cw(8, 64), {})
        it.store(mem, p, ['p'], vt, {})
        it.store(mem, Ptr(p.base, p.off + 16), ['p'], Ptr(vt.base, 96), {})
        ct = Ptr(('vt', 'ctype'))
        it.nonnull.add(ct.base)
        o = mem.o[ct.base] = Obj('vt:ctype', 576)
        for k, v in enumerate([1] + list(range(256))):
            o.cells[56 + k] = tuple(it.c.cw(v, 8))
        it.store(mem, Ptr(p.base, p.off + 24 + 240), ['p'], ct, {})
        self.live[p] = dict(b=[], g=0, p=0)
        self.setst(it, mem, p, 0)

    def st(self, it, mem, p):
        return it.c.cval(it.load(mem, Ptr(p.base, p.off + 24 + 32), ['i', 32], {}))

    def setst(self, it, mem, p, v):
        it.store(mem, Ptr(p.base, p.off + 24 + 32), ['i', 32], it.c.cw(v, 32), {})

    def get(self, it, mem, a, i):
        p = it.ptr(a)
        q = self.base(it, p)
        if q is None:
            return None, None, None
        if it.cond:
            raise prov.Unsupported('text stream under an unknown condition at ' + loc_str(i))
        it.access('store', q, 1, i, mem)
        v = self.st(it, mem, q)
        if v is None:
            raise prov.Unsupported('unknown stream state')
        return q, self.live[q], v

    def ctor(self, it, dem, i, args, mem):
        self.mk(it, mem, it.ptr(args[0]))
        if len(args) > 2:
            raise prov.Unsupported('stream made from a text')

    def dtor(self, it, dem, i, args, mem):
        self.live.pop(it.ptr(args[0]), None)

    def str(self, it, dem, i, args, mem):
        if '() const' in dem:
            r, p = it.ptr(args[0]), it.ptr(args[1])
            x = self.live[p]
            it.access('load', p, 1, i, mem)
            n = len(x['b'])
            d = Ptr(r.base, r.off + 16)
            if n >= 16:
                d = Ptr(it.freshheap('str', mem))
                mem.o[d.base] = Obj('undef:%s' % (d.base,), n + 1)
                mem.own.add(d.base)
                it.store(mem, Ptr(r.base, r.off + 16), ['i', 64], it.c.cw(n, 64), {})
            it.obj(mem, d.base)
            o = mem.w(d.base)
            for k, b in enumerate(x['b'] + [(0,) * 8]):
                o.cells[d.off + k] = b
            it.store(mem, r, ['p'], d, {})
            it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(n, 64), {})
            return None
        q, x, v = self.get(it, mem, args[0], i)
        p = it.ptr(args[1])
        if 'char const' in dem:
            d, n = p, None
            raise prov.Unsupported('str of a C string')
        d = it.ptr(it.load(mem, p, ['p'], i))
        n = it.c.cval(it.load(mem, Ptr(p.base, p.off + 8), ['i', 64], i))
        if n is None:
            raise prov.Unsupported('text of unknown length')
        x['b'] = [it.cell(it.obj(mem, d.base), d.off + k, d.base) for k in range(n)]
        x['g'] = x['p'] = 0

    def clear(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        self.setst(it, mem, q, it.c.cval(args[1]) if len(args) > 1 else 0)

    def setstate(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        self.setst(it, mem, q, v | it.c.cval(args[1]))

    def fail(self, it, mem, q, v, bits):
        self.setst(it, mem, q, v | bits)

    def read(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        n = it.c.cval(args[2])
        p = it.ptr(args[1])
        if n is None or p.sym:
            raise prov.Unsupported('read of unknown size')
        k = 0
        if v & 7:
            self.fail(it, mem, q, v, 4)
        else:
            k = max(0, min(n, len(x['b']) - x['g']))
            it.access('store', p, n, i, mem)
            it.obj(mem, p.base)
            o = mem.w(p.base)
            for j in range(k):
                o.cells[p.off + j] = x['b'][x['g'] + j]
            x['g'] += k
            if k < n:
                self.fail(it, mem, q, v, 6)
        it.store(mem, Ptr(q.base, q.off + 8), ['i', 64], it.c.cw(k, 64), i)
        return args[0]

    def seek(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        w = 'p' if 'seekp' in dem else 'g'
        if w == 'g':
            v &= ~2
            self.setst(it, mem, q, v)
        if v & 5:
            return args[0]
        pos = args[1]
        if isinstance(pos, Agg):
            pos = pos.v[0] if hasattr(pos, 'v') else pos[0]
        k = it.c.cval(pos)
        d = 0
        if 'fpos' not in dem.split('seek', 1)[1] and len(args) == 3:
            d = it.c.cval(args[2])
        if k is None or d is None:
            raise prov.Unsupported('seek to unknown position')
        if k >> 63:
            k -= 1 << 64
        k += (0, x[w], len(x['b']))[d]
        if k < 0 or k > len(x['b']):
            self.fail(it, mem, q, v, 4)
        else:
            x[w] = k
        return args[0]

    def tell(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        k = -1 if v & 5 else x['p' if 'tellp' in dem else 'g']
        w = it.c.cw(k & ((1 << 64) - 1), 64)
        t = i['t']
        if t[0] == 's':
            return Agg([w] + [it.c.cw(0, y[1]) if y[0] == 'i' else it.zero(y) for y in t[1][1:]])
        return w

    def add(self, it, mem, q, x, v, cells):
        if v & 7:
            self.fail(it, mem, q, v, 4)
            return
        for b in cells:
            x['b'][x['p']:x['p'] + 1] = [b]
            x['p'] += 1

    def chars(self, it, mem, p, n, i):
        if p.sym:
            raise prov.Unsupported('text at unknown place')
        o = it.obj(mem, p.base)
        if n is None:
            n = 0
            while any(b != 0 for b in it.cell(o, p.off + n, p.base)):
                n += 1
                if n > 100000:
                    raise prov.Unsupported('text of unknown length')
        it.access('load', p, n, i, mem)
        return [it.cell(o, p.off + k, p.base) for k in range(n)]

    def put(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        if '::put(' in dem:
            cells = [tuple(args[1][:8])]
        else:
            n = it.c.cval(args[2])
            if n is None:
                raise prov.Unsupported('write of unknown size')
            cells = self.chars(it, mem, it.ptr(args[1]), n, i)
        self.add(it, mem, q, x, v, cells)
        return args[0]

    def manip(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        if 'flush<' not in dem:
            self.add(it, mem, q, x, v, [tuple(self.s.c.cw(10 if 'endl' in dem else 0, 8))])
        return args[0]

    def insert(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        if 'char const*' in dem.split('(', 1)[1]:
            p = it.ptr(args[1])
            if p.base == 'null':
                self.fail(it, mem, q, v, 1)
            else:
                self.add(it, mem, q, x, v, self.chars(it, mem, p, None, i))
        elif 'basic_string' in dem.split('(', 1)[1] or 'std::string' in dem.split('(', 1)[1]:
            p = it.ptr(args[1])
            n = it.c.cval(it.load(mem, Ptr(p.base, p.off + 8), ['i', 64], i))
            if n is None:
                raise prov.Unsupported('text of unknown length')
            self.add(it, mem, q, x, v, self.chars(it, mem, it.ptr(it.load(mem, p, ['p'], i)), n, i))
        else:
            self.add(it, mem, q, x, v, [tuple(args[1][:8])])
        return args[0]

    def insertn(self, it, dem, i, args, mem):
        q, x, v = self.get(it, mem, args[0], i)
        if q is None:
            return NotImplemented
        n = it.c.cval(args[2])
        if n is None:
            raise prov.Unsupported('text of unknown length')
        self.add(it, mem, q, x, v, self.chars(it, mem, it.ptr(args[1]), n, i))
        return args[0]


def chars(s, it, mem, p, n=None):
    o = it.obj(mem, p.base)
    if p.sym:
        raise prov.Unsupported('text at unknown place')
    r = []
    while n is None or len(r) < n:
        if o.size is not None and p.off + len(r) >= o.size:
            r.append('END')
            break
        x = it.cell(o, p.off + len(r), p.base)
        if n is None and all(b == 0 for b in x):
            break
        if n is None and not any(b == 1 for b in x):
            raise prov.Unsupported('text of unknown length')
        r.append(tuple(x))
        if len(r) > 9999:
            raise prov.Unsupported('text of unknown length')
    return r


def printf(s, it, mem, args, k):
    """the text a format with constant arguments makes"""
    f = bytes(it.c.cval(Word(x)) for x in chars(s, it, mem, it.ptr(args[k])))
    va = list(args[k + 1:])
    out = b''
    for j, m in enumerate(re.split(rb'(%[0-9.#lhzjx-]*[diuxXpsc%])', f)):
        if j % 2 == 0:
            out += m
        elif m == b'%%':
            out += b'%'
        elif m[-1:] == b's':
            out += bytes(it.c.cval(Word(x)) for x in chars(s, it, mem, it.ptr(va.pop(0))))
        else:
            a = va.pop(0)
            v = it.c.cval(a)
            if v is None:
                raise prov.Unsupported('unknown number in a format')
            if b'l' not in m and b'z' not in m:
                v &= 0xffffffff
                a = a[:32]
            if m[-1:] in b'di' and v >> (len(a) - 1):
                v -= 1 << len(a)
            m = re.sub(rb'[lhzj]', b'', m)
            out += bytes([v & 255]) if m[-1:] == b'c' else (m[:-1].decode() + {'i': 'd', 'u': 'd'}.get(m[-1:].decode(), m[-1:].decode())).__mod__(v).encode()
    return out
