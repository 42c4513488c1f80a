"""Vectors as text: components in order, each as it prints alone, one space between them."""
import itertools, struct
import ir
from refl import *
from drv import *
from textstream import Text, RIGTEXT

MIN = 99
# element type: bits, how it is declared
TY = {'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int32': 32, 'uint32': 32, 'int64': 64, 'uint64': 64, 'float': 32, 'double': 64}
CL = {'t_Vector2': 2, 't_Vector': 3, 't_Vector4': 4}
KIND = {'stream': 'printed to a stream', 'string': 'converted to a string', 'wide': 'converted to a wide string'}
SRC = PRE + RIGTEXT + r'''
#include "datas/vectors_stream.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/vectors_string.hpp"
extern "C" { void said(const void *, size_t); }
#define STREAM(n, T, e) void n(const T *a) { const T &v = *a; std::RigText s; s << e; std::string t = s.str(); said(t.data(), t.size()); }
#define STRING(n, T, e) void n(const T *a) { const T &v = *a; std::string t = e; said(t.data(), t.size()); }
#define WIDE(n, T, e) void n(const T *a) { const T &v = *a; std::wstring t = e; said(t.data(), t.size()); }
extern "C" {
'''
MAC = {'stream': 'STREAM', 'string': 'STRING', 'wide': 'WIDE'}
SEP = {'stream': ' << " " << ', 'string': " + ' ' + ", 'wide': " + L' ' + "}
WHOLE = {'stream': 'v', 'string': 'std::to_string(v)', 'wide': 'std::to_wstring(v)'}
ONE = {'stream': 'v.%s', 'string': 'std::to_string(v.%s)', 'wide': 'std::to_wstring(v.%s)'}
CASES = []


def case(cl, n, T, x, bits):
    global SRC
    SRC += 'typedef %s V%s;\n' % (T, x)
    for k in KIND:
        SRC += '%s(t_%s_%s, V%s, %s)\n' % (MAC[k], k, x, x, WHOLE[k])
        SRC += '%s(r_%s_%s, V%s, %s)\n' % (MAC[k], k, x, x, SEP[k].join(ONE[k] % q for q in 'XYZW'[:n]))
        CASES.append(('%s %s' % (T, KIND[k]), '%s_%s' % (k, x), n, bits, k))


for cl, n in CL.items():
    for ty, bits in TY.items():
        case(cl, n, '%s<%s>' % (cl, ty), '%s_%s' % (cl, ty), bits)
for nm in ('Vector4A16', 'IVector4A16', 'UIVector4A16'):
    case(nm, 4, nm, nm, 32)
SRC += '}\n'
NUM = {'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64}


def run(c):
    c.rule('Printing a vector and printing its named components one after another, with a space between them, are run abstractly on the same unknown components; both must write the same characters, where the text of a '
           'number is a function of its value and its kind.')
    m = ir.unit(text=SRC, name='V03', flags=['-fno-inline'], passes=ir.LIGHT)
    seen = set()
    for key, fn, n, bits, kind in CASES:
        at = 'datas/vectors_stream.hpp' if kind == 'stream' else 'datas/vectors_string.hpp'
        with c.part(key):
            try:
                good, d = one(m, seen, fn, n, bits, kind)
            except prov.Unsupported as e:
                # what is printed depends on the values: some of them decide whether that is wrong
                good = True
                for vals in itertools.product((0, 1, 5), repeat=n):
                    for f in (False, True):
                        if good:
                            good, d = one(m, seen, fn, n, bits, kind, vals, f)
                            d = 'for components %s: %s' % (vals, d)
                if good:
                    raise
            c.ob(key, good, d, at)
    c.unit('vectors as text', m, seen)


def one(m, seen, fn, n, bits, kind, vals=None, flt=False):
    """are the texts of a vector and of its components the same"""
    s = S(m)
    s.it.record_access = True
    s.it.globals_initial = True
    s.it.fcmp_bits = vals is not None
    cstring_models(s)
    s.text = Text(s)
    said = []

    def tok(it, ty, a):
        if ty in ('float', 'double'):
            w = Word(a)
            if ty == 'float':
                w = Word(s.c.op(64, 'fpext', w))
            key = ('f', w)
        else:
            w = NUM[ty]
            a = list(a[:w])
            sg = not ty.startswith('unsigned')
            key = ('s' if sg else 'u', Word(a + [a[-1] if sg else 0] * (64 - w)))
        return tokenbytes(s.c, (kind,) + key)

    def say(it, dem, i, args, mem):
        if it.cond:
            raise prov.Unsupported('output under an unknown condition')
        k = it.c.cval(args[1])
        p = it.ptr(args[0])
        said.append([it.cell(it.obj(mem, p.base), p.off + j, p.base) for j in range(k * (4 if kind == 'wide' else 1))])

    def tostring(it, dem, i, args, mem):
        t = dem.split('(')[1].rstrip(')')
        wide = 'to_wstring' in dem.split('(')[0]
        if t not in NUM:
            return NotImplemented
        r = it.ptr(args[0])
        it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), {})
        it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], it.c.cw(3, 64), {})
        for k, b in enumerate(tok(it, t, args[1]) + [(0,) * 8]):
            if wide:
                for j in range(4):
                    mem.w(r.base).cells[r.off + 16 + 4 * k + j] = tuple(b) if j == 0 else (0,) * 8
            else:
                mem.w(r.base).cells[r.off + 16 + k] = tuple(b)
        return None, mem

    def put(it, dem, i, args, mem):
        t = dem.rsplit('(', 1)[1].rstrip(')')
        q, x, v = s.text.get(it, mem, args[0], i)
        if q is None or t not in NUM:
            return NotImplemented
        s.text.add(it, mem, q, x, v, [tuple(b) for b in tok(it, t, args[1])])
        return args[0]
    A = lambda r, h: s.it.models.insert(0, (re.compile(r), h))
    A(r'^said$', say)
    A(r'^std::(__cxx11::)?to_w?string\([a-z ]+\)$', tostring)
    A(r'^std::(ostream|basic_ostream<.*>)::operator<<\([a-z ]+\)$', put)
    s.buf('A', n * bits // 8)
    for k, v in enumerate(vals or ()):
        if flt and bits >= 32:
            v = struct.unpack('<I' if bits == 32 else '<Q', struct.pack('<f' if bits == 32 else '<d', v))[0]
        s.setc('A', k * bits // 8, v, bits // 8)
    got, _ = s.run('t_' + fn, [Ptr('A')])
    seen.update(s.it.visited)
    a = said[:]
    del said[:]
    want, _ = s.run('r_' + fn, [Ptr('A')])
    d = 'the texts differ'
    good = len(a) == 1 and len(said) == 1 and len(a[0]) == len(said[0])
    if not good:
        d = '%s characters instead of %s' % ([len(x) for x in a], [len(x) for x in said])
    if good:
        good, d = s.cmp([b for x in a[0] for b in x], [b for x in said[0] for b in x])
    return good, d
