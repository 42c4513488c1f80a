"""The rig for the reflection checks: reflected types with a member of every kind,
declared with the repository's own macros, and small driver functions that forward
to the public API."""
import re
import ir
from ir import AnalysisBroken
from prov import Ptr, Word, Agg, Obj, Mem

HEAD = r'''
#include <limits>
#include "datas/flags.hpp"
#include "datas/bitfield.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/refl_array.hpp"
#include "datas/endian.hpp"
#include "datas/reflector.hpp"
#include <array>

REFLECTOR_CREATE(E8, ENUM, 2, CLASS, 8, e8a, e8b, e8c = 7, e8d)
REFLECTOR_CREATE(E16, ENUM, 2, CLASS, 16, e16a = 3, e16b = 0x8bcd)
REFLECTOR_CREATE(E32, ENUM, 0, e32a, e32b = 0x10, e32c, e32d = 5, e32e, e32f = 0x7fffffff, e32g = 100, e32h)
REFLECTOR_CREATE(EF, ENUM, 2, CLASS, 8, efa, efb = 31, efc = 32, efd = 63)
REFLECTOR_CREATE(E64, ENUM, 2, CLASS, 64, e64a = 0x123456789a, e64b)

struct Sub { int32 s0; float s1; void ReflectorTag(); };
REFLECTOR_CREATE(Sub, 1, VARNAMES, s0, s1)

using bf0 = BitMemberDecl<0, 3>;
using bf1 = BitMemberDecl<1, 5>;
using bf2 = BitMemberDecl<2, 1>;
using bf3 = BitMemberDecl<3, 7>;
using B16 = BitFieldType<uint16, bf0, bf1, bf2, bf3>;
REFLECTOR_CREATE(B16, BITFIELD, 1, VARNAMES, bf0, bf1, bf2, bf3)

using bq0 = BitMemberDecl<0, 20>;
using bq1 = BitMemberDecl<1, 35>;
using bq2 = BitMemberDecl<2, 9>;
using B64 = BitFieldType<uint64, bq0, bq1, bq2>;
REFLECTOR_CREATE(B64, BITFIELD, 1, VARNAMES, bq0, bq1, bq2)

using bw0 = BitMemberDecl<0, 5>;
using bw1 = BitMemberDecl<1, 6>;
using bw2 = BitMemberDecl<2, 14>;
using bw3 = BitMemberDecl<3, 7>;
using B32 = BitFieldType<uint32, bw0, bw1, bw2, bw3>;
REFLECTOR_CREATE(B32, BITFIELD, 1, VARNAMES, bw0, bw1, bw2, bw3)
using bz0 = BitMemberDecl<0, 31>;
using bz1 = BitMemberDecl<1, 32>;
using bz2 = BitMemberDecl<2, 1>;
using B64b = BitFieldType<uint64, bz0, bz1, bz2>;
REFLECTOR_CREATE(B64b, BITFIELD, 1, VARNAMES, bz0, bz1, bz2)

struct T {
  bool b;
  int8 i8; uint8 u8; int16 i16; uint16 u16; int32 i32; uint32 u32; int64 i64; uint64 u64;
  float f; double d;
  E8 e8; E16 e16; E32 e32; E64 e64;
  es::Flags<E8, uint8> fl8; es::Flags<E8, uint32> fl32; es::Flags<E16, uint16> fl16; es::Flags<E8, uint64> fl64;
  Vector v3; Vector2 v2; Vector4 v4; Vector4A16 v4a; USVector us3; t_Vector<int8> vb3; t_Vector2<int64> vq2;
  Sub sub; B16 bits; B64 bitq;
  bool ab[4];
  int8 ai8[3]; uint8 au8[4]; int16 ai16[2]; uint16 au16[5]; int32 ai32[3]; uint32 au32[2]; int64 ai64[2]; uint64 au64[3];
  float af[3]; double ad[2];
  std::array<int32, 4> sa; std::array<float, 2> sf;
  E8 ae8[3]; E16 ae16[2]; E32 ae32[2];
  es::Flags<E8, uint8> afl8[2]; es::Flags<E8, uint32> afl32[3]; es::Flags<E8, uint64> afl64[2];
  Vector av3[2]; Vector2 av2[3]; Vector4A16 av4[2]; t_Vector2<int16> avs[3]; t_Vector4<uint8> avb[2];
  Sub asub[3]; B16 abits[2];
  const char *cs; std::string str; std::string astr[2];
  es::Flags<EF, uint64> ff;
  t_Vector2<int64> avq[2];
  int32 tail;
};
REFLECTOR_CREATE(T, 1, VARNAMES, b, i8, u8, i16, u16, i32, u32, i64, u64, f, d, e8, e16, e32, e64, fl8, fl32, fl16, fl64,
  v3, v2, v4, v4a, us3, vb3, vq2, sub, bits, bitq, ab, ai8, au8, ai16, au16, ai32, au32, ai64, au64, af, ad, sa, sf)
#define EXT EXTENDED
struct T2 : T { };
REFLECTOR_CREATE(T2, 1, VARNAMES, ae8, ae16, ae32, afl8, afl32, afl64, av3, av2, av4, avs, avb, asub, abits, cs, str, astr, ff, avq, tail)

struct X {
  int16 plain; uint32 ali; float des; double both; int32 none; uint16 last;
};
REFLECTOR_CREATE(X, 1, EXTENDED, (, plain), (A, ali, "other name"), (D, des, "des part%second"), (AD, both, "alias2", "only first"), (N, none), (A, last, "last alias"))

struct Z { uint8 z0; uint64 z1; };
REFLECTOR_CREATE(Z, 0, z0, z1)
template <class C> struct Tm { int8 t0; C t1; C t2[2]; };
REFLECTOR_CREATE((Tm<int64>), 1, TEMPLATE, t0, t1, t2)
REFLECTOR_CREATE((Tm<float>), 2, VARNAMES, TEMPLATE, t0, t1, t2)
REFLECTOR_CREATE((Tm<uint16>), 2, EXTENDED, TEMPLATE, (, t0), (A, t1, "tee one"), (, t2))
struct Big { uint8 big[40000]; int16 many[300]; int32 last; t_Vector4<double> wide[20]; };
REFLECTOR_CREATE(Big, 1, VARNAMES, big, many, last, wide)
using bx2 = BitMemberDecl<2, 7>;
using BX32 = BitFieldType<uint32, bf0, bf1, bx2>;
REFLECTOR_CREATE(BX32, BITFIELD, 1, EXTENDED, (, bf0), (A, bf1, "five bits"), (D, bx2, "seven%bits"))

'''


def guards(s):
    """function-local statics: the first call initialises them"""
    s.it.globals_initial = True

    def acquire(it, dem, i, args, mem):
        b = it.load(mem, it.ptr(args[0]), ['i', 8], {})
        if it.c.cval(b) is None:
            return NotImplemented
        return it.c.cw(1 - (it.c.cval(b) & 1), 32)

    def release(it, dem, i, args, mem):
        it.store(mem, it.ptr(args[0]), ['i', 8], it.c.cw(1, 8), {})
        return None
    s.it.models.append((re.compile(r'^__cxa_guard_acquire$'), acquire))
    s.it.models.append((re.compile(r'^__cxa_guard_release$'), release))


def bytes_at(s, mem, p, n):
    r = []
    o = s.it.obj(mem, p.base)
    for k in range(n):
        c = s.it.cell(o, p.off + k, p.base)
        if c[0] == 'pf':
            return None
        v = s.c.cval(Word(c))
        if v is None:
            return None
        r.append(v)
    return bytes(r)


def cstr(s, mem, p, limit=200):
    """the constant C string p points to, or None"""
    if not isinstance(p, Ptr) or p.base == 'null' or p.sym:
        return None
    r = b''
    while len(r) < limit:
        x = bytes_at(s, mem, Ptr(p.base, p.off + len(r)), 1)
        if x is None:
            return None
        if x == b'\0':
            return r.decode('latin1')
        r += x
    return None


def ptr_at(s, mem, p, off):
    return s.it.load(mem, Ptr(p.base, p.off + off), ['p'], {})


def int_at(s, mem, p, off, n):
    x = bytes_at(s, mem, Ptr(p.base, p.off + off), n)
    return None if x is None else int.from_bytes(x, 'little')


def jenkins(text):
    r = 0
    for b in text.encode():
        r = (r + b) & 0xffffffffffffffff
        r = (r * 1025) & 0xffffffffffffffff
        r = (r ^ (r >> 6)) & 0xffffffff
    r = r * 9
    r ^= r >> 11
    return (r * 32769) & 0xffffffff


# (name, type, sub type, element type, number of elements, type hash)
def plain(n, ty, ct, h=0):
    return (n, ty, 'None', ct, 0, h)


def vec(n, sub, ct, k):
    return (n, 'Vector', sub, ct, k, ('vec', sub, ct, k))


def arr(n, sub, ct, k, h=0):
    return (n, 'Array', sub, ct, k, h)


def flag(n, ct, e):
    return (n, 'EnumFlags', 'None', ct, 1, e)


T = [plain('b', 'Bool', 'bool'), plain('i8', 'Integer', 'int8'), plain('u8', 'UnsignedInteger', 'uint8'), plain('i16', 'Integer', 'int16'),
     plain('u16', 'UnsignedInteger', 'uint16'), plain('i32', 'Integer', 'int32'), plain('u32', 'UnsignedInteger', 'uint32'),
     plain('i64', 'Integer', 'int64'), plain('u64', 'UnsignedInteger', 'uint64'), plain('f', 'FloatingPoint', 'float'), plain('d', 'FloatingPoint', 'double'),
     plain('e8', 'Enum', 'uint8', 'E8'), plain('e16', 'Enum', 'uint16', 'E16'), plain('e32', 'Enum', 'uint32', 'E32'), plain('e64', 'Enum', 'uint64', 'E64'),
     flag('fl8', 'uint8', 'E8'), flag('fl32', 'uint32', 'E8'), flag('fl16', 'uint16', 'E16'), flag('fl64', 'uint64', 'E8'),
     vec('v3', 'FloatingPoint', 'float', 3), vec('v2', 'FloatingPoint', 'float', 2), vec('v4', 'FloatingPoint', 'float', 4), vec('v4a', 'FloatingPoint', 'float', 4),
     vec('us3', 'UnsignedInteger', 'uint16', 3), vec('vb3', 'Integer', 'int8', 3), vec('vq2', 'Integer', 'int64', 2),
     plain('sub', 'Class', 'Sub', 'Sub'), plain('bits', 'BitFieldClass', 'uint16', 'B16'), plain('bitq', 'BitFieldClass', 'uint64', 'B64'),
     arr('ab', 'Bool', 'bool', 4), arr('ai8', 'Integer', 'int8', 3), arr('au8', 'UnsignedInteger', 'uint8', 4), arr('ai16', 'Integer', 'int16', 2),
     arr('au16', 'UnsignedInteger', 'uint16', 5), arr('ai32', 'Integer', 'int32', 3), arr('au32', 'UnsignedInteger', 'uint32', 2),
     arr('ai64', 'Integer', 'int64', 2), arr('au64', 'UnsignedInteger', 'uint64', 3), arr('af', 'FloatingPoint', 'float', 3), arr('ad', 'FloatingPoint', 'double', 2),
     arr('sa', 'Integer', 'int32', 4), arr('sf', 'FloatingPoint', 'float', 2)]
T2 = [arr('ae8', 'Enum', 'uint8', 3, 'E8'), arr('ae16', 'Enum', 'uint16', 2, 'E16'), arr('ae32', 'Enum', 'uint32', 2, 'E32'),
      arr('afl8', 'EnumFlags', 'uint8', 2, 'E8'), arr('afl32', 'EnumFlags', 'uint32', 3, 'E8'), arr('afl64', 'EnumFlags', 'uint64', 2, 'E8'),
      arr('av3', 'Vector', 'Vector', 2, ('vec', 'FloatingPoint', 'float', 3)), arr('av2', 'Vector', 'Vector2', 3, ('vec', 'FloatingPoint', 'float', 2)),
      arr('av4', 'Vector', 'Vector4A16', 2, ('vec', 'FloatingPoint', 'float', 4)), arr('avs', 'Vector', 't_Vector2<int16>', 3, ('vec', 'Integer', 'int16', 2)),
      arr('avb', 'Vector', 't_Vector4<uint8>', 2, ('vec', 'UnsignedInteger', 'uint8', 4)),
      arr('asub', 'Class', 'Sub', 3, 'Sub'), arr('abits', 'BitFieldClass', 'uint16', 2, 'B16'),
      ('cs', 'CString', 'None', None, 0, 0), ('str', 'String', 'None', None, 0, 0), arr('astr', 'String', 'std::string', 2), flag('ff', 'uint64', 'EF'),
      arr('avq', 'Vector', 't_Vector2<int64>', 2, ('vec', 'Integer', 'int64', 2)), plain('tail', 'Integer', 'int32')]
X = [plain('plain', 'Integer', 'int16'), plain('ali', 'UnsignedInteger', 'uint32'), plain('des', 'FloatingPoint', 'float'),
     plain('both', 'FloatingPoint', 'double'), plain('none', 'Integer', 'int32'), plain('last', 'UnsignedInteger', 'uint16')]
SUB = [plain('s0', 'Integer', 'int32'), plain('s1', 'FloatingPoint', 'float')]
Z = [plain('z0', 'UnsignedInteger', 'uint8'), plain('z1', 'UnsignedInteger', 'uint64')]

BIG = [arr('big', 'UnsignedInteger', 'uint8', 40000), arr('many', 'Integer', 'int16', 300), plain('last', 'Integer', 'int32'),
       arr('wide', 'Vector', 't_Vector4<double>', 20, ('vec', 'FloatingPoint', 'double', 4))]


def TM(k, ct):
    return [plain('t0', 'Integer', 'int8'), plain('t1', k, ct), arr('t2', k, ct, 2)]


CLASSES = {'T': T, 'T2': T2, 'X': X, 'Sub': SUB, 'Big': BIG, 'Z': Z, 'Tm<int64>': TM('Integer', 'int64'), 'Tm<float>': TM('FloatingPoint', 'float'),
           'Tm<uint16>': TM('UnsignedInteger', 'uint16')}
NAMELESS = ['Z', 'Tm<int64>']      # declared without names


def cid(cl):
    return re.sub(r'\W', '_', cl)


SIZE = {'bool': 1, 'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8, 'float': 4, 'double': 8,
        'Vector': 12, 'Vector2': 8, 'Vector4A16': 16, 't_Vector2<int16>': 4, 't_Vector4<uint8>': 4, 't_Vector4<double>': 32, 't_Vector2<int64>': 16, 'Sub': 8, 'std::string': 32}
BITS = {'BX32': [('bf0', 3), ('bf1', 5), ('bx2', 7)], 'B16': [('bf0', 3), ('bf1', 5), ('bf2', 1), ('bf3', 7)], 'B64': [('bq0', 20), ('bq1', 35), ('bq2', 9)],
        'B32': [('bw0', 5), ('bw1', 6), ('bw2', 14), ('bw3', 7)], 'B64b': [('bz0', 31), ('bz1', 32), ('bz2', 1)]}
BITSIZE = {'B16': 2, 'B64': 8, 'BX32': 4, 'B32': 4, 'B64b': 8}
KINDS = ['None', 'Integer', 'UnsignedInteger', 'FloatingPoint', 'Class', 'Enum', 'Bool', 'CString', 'String', 'Array', 'Vector', 'ArrayClass',
         'EnumFlags', 'BitFieldMember', 'BitFieldClass']
ENUMS = {'E8': [('e8a', 0), ('e8b', 1), ('e8c', 7), ('e8d', 8)], 'E16': [('e16a', 3), ('e16b', 0x8bcd)],
         'E32': [('e32a', 0), ('e32b', 0x10), ('e32c', 0x11), ('e32d', 5), ('e32e', 6), ('e32f', 0x7fffffff), ('e32g', 100), ('e32h', 101)], 'EF': [('efa', 0), ('efb', 31), ('efc', 32), ('efd', 63)], 'E64': [('e64a', 0x123456789a), ('e64b', 0x123456789b)]}


def layout(mod_s):
    """offsets of the members and sizes of the classes, from the compiler"""
    r = {}
    for cl in CLASSES:
        s = mod_s()
        s.buf('o')
        s.run('lay_' + cid(cl), [Ptr('o')])
        v = [s.c.cval(Word(s.outbits('o', 8 * k, 8))) for k in range(len(CLASSES[cl]) + 1)]
        r[cl] = dict(zip([m[0] for m in CLASSES[cl]] + [''], v))
    return r


def layout_src():
    t = []
    for cl, ms in CLASSES.items():
        t.append('extern "C" void lay_%s(uint64 *o) { %s }' % (cid(cl), ' '.join('o[%d] = offsetof(%s, %s);' % (k, cl, m[0]) for k, m in enumerate(ms)) +
                                                             ' o[%d] = sizeof(%s);' % (len(ms), cl)))
    return '\n'.join(t)


def parse_models(s):
    """strtoull on constant text"""
    def strtoull(it, dem, i, args, mem):
        t = cstr(s, mem, it.ptr(args[0]))
        b = it.c.cval(args[2])
        if t is None:
            return NotImplemented
        m = re.match(r'\s*([+-]?)(0[xX])?', t)
        if b == 16 or (b == 0 and m.group(2)):
            x = re.match(r'\s*[+-]?(?:0[xX])?([0-9a-fA-F]+)', t)
            b = 16
        elif b == 0 and re.match(r'\s*[+-]?0', t):
            x = re.match(r'\s*[+-]?(0[0-7]*)', t)
            b = 8
        elif b in (8, 10):
            x = re.match(r'\s*[+-]?([0-7]+)' if b == 8 else r'\s*[+-]?([0-9]+)', t)
        else:
            return NotImplemented
        v = int(x.group(1), b) if x else 0
        v = min(v, (1 << 64) - 1)
        if m.group(1) == '-':
            v = -v
        return it.c.cw(v & ((1 << 64) - 1), 64)
    s.it.models.append((re.compile(r'^(__isoc23_)?strtoull?$'), strtoull))


# ---- text API --------------------------------------------------------------

PRE = '#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE -1\n'
QUIET = '''
#include "datas/master_printer.hpp"
struct RigPrinter { template <class C> RigPrinter &operator<<(const C &) { return *this; } void operator>>(int) {} };
static RigPrinter rigPrinter;
#define printer rigPrinter
#include "datas/reflector.cpp"
#undef printer
'''
REG = '''
extern "C" void reg() { RegisterReflectedTypes<E8, E16, E32, E64, EF, Sub, B16, B64> r; (void)r; }
'''


def tree_models(s):
    """std::map's out-of-line tree functions, without rebalancing"""
    def node(it, mem, p, off, v=None):
        q = Ptr(p.base, p.off + off)
        if v is None:
            return it.ptr(it.load(mem, q, ['p'], {}))
        it.store(mem, q, ['p'], v, {})
    P, L, R = 8, 16, 24

    def insert(it, dem, i, args, mem):
        left = it.c.cval(args[0])
        x, p, h = (it.ptr(a) for a in args[1:4])
        if left is None or x.sym or p.sym:
            return NotImplemented
        node(it, mem, x, P, p)
        node(it, mem, x, L, Ptr('null'))
        node(it, mem, x, R, Ptr('null'))
        if left & 1:
            node(it, mem, p, L, x)
            if p == h:
                node(it, mem, h, P, x)
                node(it, mem, h, R, x)
            elif p == node(it, mem, h, L):
                node(it, mem, h, L, x)
        else:
            node(it, mem, p, R, x)
            if p == node(it, mem, h, R):
                node(it, mem, h, R, x)
        return None

    def step(a, b):
        def f(it, dem, i, args, mem):
            x = it.ptr(args[0])
            if x.sym:
                return NotImplemented
            # stepping back from end(): the header's parent's parent is the header
            p = node(it, mem, x, P)
            if a == L and p.base != 'null' and node(it, mem, p, P) == x and node(it, mem, x, R) != Ptr('null') and x.base[0] == 'g':
                return node(it, mem, x, R)
            y = node(it, mem, x, a)
            if y.base != 'null':
                while True:
                    z = node(it, mem, y, b)
                    if z.base == 'null':
                        return y
                    y = z
            y = p
            while y.base != 'null' and node(it, mem, y, a) == x and node(it, mem, y, P) != x:
                x, y = y, node(it, mem, y, P)
            return y
        return f
    A = s.it.models.append
    A((re.compile(r'^std::_Rb_tree_insert_and_rebalance\('), insert))
    A((re.compile(r'^std::_Rb_tree_increment\('), step(R, L)))
    A((re.compile(r'^std::_Rb_tree_decrement\('), step(L, R)))


def number_models(s, log, special=(), constants=None):
    """strtol family on constant text: the number is an unknown named after its digits
    and base ('n12/10'), negative texts give negative unknowns; whether it is in range is an
    unknown for the texts in `special`.  log receives (function, text, base)."""
    c = s.c
    if 'errno' not in s.mem.o:
        s.mem.o['errno'] = Obj('zero', 4)
        s.mem.own.add('errno')
        for k in range(4):
            s.mem.o['errno'].cells[k] = (0,) * 8
        s.it.nonnull.add('errno')

    def errno(it, dem, i, args, mem):
        return Ptr('errno')

    def conv(it, dem, i, args, mem):
        p = it.ptr(args[0])
        t = cstr(s, mem, p)
        if t is None:
            return NotImplemented
        fl = dem[-1] in 'fd'
        w = 32 if dem.endswith('f') else 64
        base = 10 if fl else c.cval(args[2])
        t0 = t
        t = re.sub(r'^[ \t\n\r\v\f]+', '', t)
        m = re.match(r'([+-]?)((?:0[xX](?=[0-9a-fA-F]))?)([0-9a-fA-F]+)' if base == 16 else r'([+-]?)()([0-9]+(?:\.[0-9]*)?)' if fl else r'([+-]?)()([0-9]+)', t)
        log.append((dem, t0, base))
        if base not in (10, 16):
            return NotImplemented
        end = it.ptr(args[1])
        if end.base != 'null':
            k = len(t0) - len(t) + m.end() if m else 0
            it.store(mem, end, ['p'], Ptr(p.base, p.off + k), {})
        if m is None:
            return c.cw(0, w)
        neg = m.group(1) == '-'
        v = number(c, dem, m.group(1), m.group(3), base)
        if constants is not None:
            v = c.cw(constant(dem, m.group(1) + m.group(3), base) & ((1 << w) - 1), w)
        if t0.strip() in special:
            r = range_error(c, t0.strip())
            e = it.load(mem, Ptr('errno'), ['i', 32], {})
            it.store(mem, Ptr('errno'), ['i', 32], Word(c.ITE(r, a, b) for a, b in zip(c.cw(34, 32), e)), {})
            if not fl:
                lim = (1 << 64) - 1 if 'ull' in dem else (1 << 63) if neg else (1 << 63) - 1
                v = Word(c.ITE(r, a, b) for a, b in zip(c.cw(lim, 64), v))
        return v
    A = s.it.models.append
    A((re.compile(r'^__errno_location$'), errno))
    A((re.compile(r'^(__isoc23_)?(strtou?ll?|strto[fd]|ato[fil])$'), conv))


def number(c, fn, sign, digits, base):
    """the unknown a text converts to"""
    if fn[-1] in 'fd':
        w = 32 if fn.endswith('f') else 64
        return c.inp('%s%s%s' % ('f' if w == 32 else 'd', sign, digits), w)
    b = list(c.inp('n%s%s/%d' % ('-' if sign == '-' else '', digits, base), 64))
    if 'ull' not in fn and 'strtou' not in fn:
        b[63] = 1 if sign == '-' else 0
    return Word(b)


def constant(fn, digits, base):
    """the number a text in fact denotes"""
    if fn[-1] in 'fd':
        import struct
        f, i = ('<f', '<I') if fn.endswith('f') else ('<d', '<Q')
        return struct.unpack(i, struct.pack(f, float(digits)))[0]
    return int(digits, base)


def range_error(c, text):
    return c.inp('range error of ' + text, 1)[0]


def ctype_models(s):
    c = s.c

    def lower(it, dem, i, args, mem):
        w = args[0]
        up = c.AND(c.ult(w, c.cw(65, 32)) ^ 1, c.ult(w, c.cw(91, 32)))
        return Word(c.ITE(up, a, b) for a, b in zip(c.add(w, c.cw(32, 32)), w))
    s.it.models.append((re.compile(r'^tolower$'), lower))


class TextRig:
    """evaluations of the text API on registered types"""

    def __init__(self, m, ctx=None):
        from drv import S
        self.m = m
        self.ctx = ctx or S(m).c
        self.base = None

    def new(self, special=(), constants=None):
        from drv import S, cstring_models
        s = S(self.m, self.ctx)
        guards(s)
        s.it.exceptions = True
        if self.base is not None:
            s.mem = self.base.copy()
        self.log = []
        tree_models(s)
        number_models(s, self.log, special, constants)
        ctype_models(s)
        cstring_models(s)
        parse_models(s)
        return s

    def prepare(self, *fns):
        for f in fns:
            s = self.new(constants=True)
            s.run(f)
            self.base = s.out

    def statics(self):
        return [n for n in self.m.funcs if n.startswith('_GLOBAL__sub_I') and not self.m.funcs[n].decl]


def text(s, name, t):
    """constant text as a view's characters (not terminated)"""
    s.buf(name, len(t.encode()))
    for k, b in enumerate(t.encode()):
        s.setc(name, k, b, 1)
    return Ptr(name)


def print_models(s):
    """std::to_string and snprintf write three opaque characters standing for the
    printed number; s.printed maps their term to what they stand for"""
    c = s.c
    s.printed = {}

    def token(it, mem, p, conv, prec, w):
        if conv in 'di':
            key = ('s', Word(list(w) + [w[-1]] * (64 - len(w))))
            if key[1][-1] == 0:
                key = ('u', key[1])
        elif conv == 'u':
            key = ('u', Word(list(w) + [0] * (64 - len(w))))
        else:
            key = (conv, prec, w)
        for k, b in enumerate(tokenbytes(c, key)):
            it.obj(mem, p.base)
            mem.w(p.base).cells[p.off + k] = tuple(b)

    def parse(t):
        m = re.match(r'^%(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([diufgeFGE])$', t or '')
        return m

    def value(it, m, a):
        if m.group(3) in 'diu':
            w = {'ll': 64, 'l': 64, 'z': 64, 'j': 64, 'h': 16, 'hh': 8}.get(m.group(2), 32)
            if len(a) < w:
                raise AnalysisBroken('print of a %d bit value as %d bits' % (len(a), w))
            return Word(a[:w])
        return a

    def xstring(it, dem, i, args, mem):
        # (result, printf, size, format, value)
        m = parse(cstr(s, mem, it.ptr(args[3])))
        if not m:
            return NotImplemented
        r = it.ptr(args[0])
        it.store(mem, r, ['p'], Ptr(r.base, r.off + 16), {})
        it.store(mem, Ptr(r.base, r.off + 8), ['i', 64], c.cw(3, 64), {})
        token(it, mem, Ptr(r.base, r.off + 16), m.group(3), m.group(1), value(it, m, args[4]))
        mem.w(r.base).cells[r.off + 19] = (0,) * 8
        return None

    def snprintf(it, dem, i, args, mem):
        m = parse(cstr(s, mem, it.ptr(args[2])))
        n = c.cval(args[1])
        if not m or n is None:
            return NotImplemented
        p = it.ptr(args[0])
        prec = m.group(1)
        a = args[3:]
        if prec == '*':
            prec = str(c.cval(a[0]))
            a = a[1:]
        # sign, digits, point, exponent and terminator must fit
        if m.group(3) in 'gG' and n < int(prec or 6) + 8:
            return NotImplemented
        token(it, mem, p, m.group(3), prec, value(it, m, a[0]))
        mem.w(p.base).cells[p.off + 3] = (0,) * 8
        return c.cw(3, 32)
    A = s.it.models.append
    A((re.compile(r'__gnu_cxx::__to_xstring'), xstring))
    A((re.compile(r'^snprintf$'), snprintf))


def tokenbytes(c, key):
    t = list(c.op(24, 'printed') if False else c.op(24, 'printed', *key))
    for k in (6, 14, 22):
        t[k] = 1        # never a terminator
        t[k + 1] = 0
    return [t[8 * k:8 * k + 8] for k in range(3)]
