"""Text getters: the text of exactly the addressed member, element or flag."""
import ir
from refl import *
from drv import *

MIN = 8000
CL = ['T', 'T2', 'X', 'Big', 'B16', 'B64', 'BX32', 'B32', 'B64b']
VECS = {'Vector': 3, 'Vector2': 2, 'Vector4A16': 4, 't_Vector2<int16>': 2, 't_Vector4<uint8>': 4, 't_Vector4<double>': 4, 't_Vector2<int64>': 2}
NUM = ('Integer', 'UnsignedInteger', 'FloatingPoint')


def src():
    t = [PRE, HEAD, QUIET, REG, layout_src(), '#include <new>']
    for cl in CL:
        i = cid(cl)
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (i, cl))
        for nm, ty, w in (('s', 'size_t', 'id'), ('h', 'uint32', 'JenHash(id)')):
            t.append('extern "C" void %s1_%s(const %s *t, %s id, std::string *o) { ReflectorWrap<const %s> w(t); new (o) std::string(w.GetReflectedValue(%s)); }' % (nm, i, cl, ty, cl, w))
            t.append('extern "C" void %s2_%s(const %s *t, %s id, std::string *o, size_t a) { ReflectorWrap<const %s> w(t); new (o) std::string(w.GetReflectedValue(%s, a)); }' % (nm, i, cl, ty, cl, w))
            t.append('extern "C" void %s3_%s(const %s *t, %s id, std::string *o, size_t a, size_t b) { ReflectorWrap<const %s> w(t); new (o) std::string(w.GetReflectedValue(%s, a, b)); }' % (nm, i, cl, ty, cl, w))
            t.append('''extern "C" void %sp_%s(const %s *t, %s id, std::string *o, es::string_view *n, bool al, bool fo) { ReflectorWrap<const %s> w(t);
  Reflector::KVPairFormat f; f.aliasName = al; f.formatValue = fo; auto p = w.GetReflectedPair(%s, f); new (o) std::string(p.value); new (n) es::string_view(p.name); }''' % (nm, i, cl, ty, cl, w))
            t.append('extern "C" void %sq_%s(const %s *t, %s id, std::string *o, es::string_view *n) { ReflectorWrap<const %s> w(t); auto p = w.GetReflectedPair(%s); new (o) std::string(p.value); new (n) es::string_view(p.name); }' % (nm, i, cl, ty, cl, w))
    return '\n'.join(t)


class Rig:
    def __init__(self, c):
        self.c = c
        self.m = ir.unit(text=src(), name='R04')
        self.r = TextRig(self.m)
        self.x = self.r.ctx
        self.r.prepare(*self.r.statics())
        self.r.prepare(*['tab_' + cid(cl) for cl in CL])
        self.unreg = self.r.base
        self.r.prepare('reg')
        self.reg = self.r.base
        self.lay = layout(self.r.new)

    def get(self, cl, mem, sub=None, el=None, how='s', id=None, pre=None, registered=True, pair=None):
        self.r.base = self.reg if registered else self.unreg
        s = self.r.new()
        print_models(s)
        s.it.record_access = True
        s.buf('t'), s.buf('r')
        s.buf('n')
        if pre:
            pre(s)
        if id is None:
            id = [x[0] for x in (CLASSES.get(cl) or BITS[cl])].index(mem) if how == 's' else jenkins(mem)
        a = [Ptr('t'), s.const(id, 64 if how == 's' else 32), Ptr('r')]
        k = '1'
        if pair is not None:
            a += [Ptr('n')] + [s.const(int(v), 1) for v in pair]
            k = 'p' if pair else 'q'
        else:
            for n, y in ((2, sub), (3, el)):
                if y is not None:
                    a.append(s.const(y, 64) if isinstance(y, int) else y)
                    k = str(n)
        s.run('%s%s_%s' % (how, k, cid(cl)), a)
        self.ev = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 't']
        return s

    def outside(self, key, lo, hi):
        bad = [e for e in self.ev if e.kind == 'store' or e.ptr.sym or not isinstance(e.size, int) or e.ptr.off < lo or e.ptr.off + e.size > hi]
        self.c.ob(key + ': only the member is read', not bad, '%s' % [(e.kind, e.ptr, e.size) for e in bad][:3], ir.loc_str(bad[0].loc) if bad else '')

    def text(self, key, s, parts):
        """parts: constant text or number tokens"""
        want = []
        for p in parts:
            want += [tuple(self.x.cw(b, 8)) for b in p.encode()] if isinstance(p, str) else [tuple(b) for b in tokenbytes(self.x, p)]
        n = int_at(s, s.out, Ptr('r'), 8, 8)
        if n is None:
            try:
                n = 'unknown'
            except AnalysisBroken:
                pass
        if not self.c.ob(key + ': length of the text', n == len(want), 'is %r, required %d' % (n, len(want)), 'GetReflectedPrimitive (datas/reflector.cpp)'):
            return
        p = ptr_at(s, s.out, Ptr('r'), 0)
        if not isinstance(p, Ptr) or p.sym:
            self.c.ob(key + ': text', False, 'characters at %r' % p, 'GetReflectedPrimitive (datas/reflector.cpp)')
            return
        got = s.outbits(p.base, p.off, len(want))
        bad = None
        for k, b in enumerate(want):
            for g, w in zip(got[8 * k:8 * k + 8], b):
                if not self.x.same(g, w) and bad is None:
                    bad = k
        self.c.ob(key + ': text', bad is None, 'character %s differs from %s' % (bad, [p if isinstance(p, str) else p[:-1] for p in parts]), 'GetReflectedPrimitive (datas/reflector.cpp)')

    def num(self, s, kind, off, n):
        b = s.inbits('t', off, n)
        if kind == 'Integer':
            return ('s', Word(b + [b[-1]] * (64 - len(b))))
        if kind == 'UnsignedInteger':
            return ('u', Word(b + [0] * (64 - len(b))))
        if n == 4:
            return ('g', '6', self.x.op(64, 'fpext', Word(b)))
        return ('g', '13', Word(b))


def beyond(x, num):
    """words that together are every index from num on"""
    k = max(num - 1, 0).bit_length()
    r = [x.cw(i, 64) for i in range(num, min(1 << k, num + 600))]
    if num + 600 < 1 << k:
        lo = num + 600
        while lo < 1 << k:
            z = (lo & -lo).bit_length() - 1
            r.append(Word(list(x.inp('index', 64))[:z] + list(x.cw(lo >> z, 64 - z))))
            lo += 1 << z
    for j in range(k, 64):
        r.append(Word(list(x.inp('index', 64))[:j] + [1] + [0] * (63 - j)))
    return r


def sep(parts):
    r = []
    for k, p in enumerate(parts):
        r += ([', '] if k else []) + (p if isinstance(p, list) else [p])
    return r


def numbers(c, r):
    for cl in ('T', 'T2', 'X', 'Big'):
        for (nm, ty, sub, ct, num, th) in CLASSES[cl]:
            off = r.lay[cl][nm]
            with c.part('%s::%s' % (cl, nm)):
                if ty in NUM:
                    for how in 'sh':
                        key = '%s::%s%s' % (cl, nm, ' by name' * (how == 'h'))
                        s = r.get(cl, nm, how=how)
                        r.text(key, s, [r.num(s, ty, off, SIZE[ct])])
                        r.outside(key, off, off + SIZE[ct])
                elif ty in ('Array', 'Vector') and sub in NUM:
                    n = SIZE[ct]
                    o, e = '{}' if ty == 'Array' else '[]'
                    if num < 20:
                        for how in 'sh':
                            key = '%s::%s%s' % (cl, nm, ' by name' * (how == 'h'))
                            s = r.get(cl, nm, how=how)
                            r.text(key, s, [o] + sep([r.num(s, sub, off + k * n, n) for k in range(num)]) + [e])
                            r.outside(key, off, off + num * n)
                    for k in range(num) if num < 9 else (0, 1, 127, 128, 255, 256, num - 1):
                        for how in 'sh':
                            key = '%s::%s[%d]%s' % (cl, nm, k, ' by name' * (how == 'h'))
                            s = r.get(cl, nm, k, how=how)
                            r.text(key, s, [r.num(s, sub, off + k * n, n)])
                            r.outside(key, off + k * n, off + k * n + n)
                elif ty == 'Array' and sub == 'Vector':
                    v = VECS[ct]
                    n = SIZE[ct] // v
                    k = th[1]

                    def vec(s, a):
                        return ['['] + sep([r.num(s, k, off + a * SIZE[ct] + b * n, n) for b in range(v)]) + [']']
                    s = r.get(cl, nm)
                    key = '%s::%s' % (cl, nm)
                    r.text(key, s, ['{'] + sep([vec(s, a) for a in range(num)]) + ['}'])
                    r.outside(key, off, off + num * SIZE[ct])
                    for a in range(num):
                        s = r.get(cl, nm, a)
                        key = '%s::%s[%d]' % (cl, nm, a)
                        r.text(key, s, vec(s, a))
                        r.outside(key, off + a * SIZE[ct], off + (a + 1) * SIZE[ct])
                        for b in range(v):
                            for how in 'sh':
                                s = r.get(cl, nm, a, b, how=how)
                                key = '%s::%s[%d][%d]%s' % (cl, nm, a, b, ' by name' * (how == 'h'))
                                o = off + a * SIZE[ct] + b * n
                                r.text(key, s, [r.num(s, k, o, n)])
                                r.outside(key, o, o + n)


def missing(c, r):
    """what does not exist reads as empty text"""
    x = r.x

    def none(key, cl, nm, *a, **kw):
        s = r.get(cl, nm, *a, **kw)
        n = s.outbits('r', 8, 8)
        ok, why = s.cmp(n, x.cw(0, 64))
        c.ob(key + ' is empty', ok, why, 'Reflector::GetReflectedValue')
        bad = [e for e in r.ev]
        c.ob(key + ': nothing is read', not bad, '%s' % [(e.kind, e.ptr, e.size) for e in bad][:3], ir.loc_str(bad[0].loc) if bad else '')
    for cl in ('T', 'T2', 'Big'):
        for (nm, ty, sub, ct, num, th) in CLASSES[cl]:
            with c.part('%s::%s past the end' % (cl, nm)):
                if ty in ('Array', 'Vector') and sub not in ('Class', 'BitFieldClass'):
                    for k, i in enumerate(beyond(x, num)):
                        none('%s::%s[past the end, case %d]' % (cl, nm, k), cl, nm, i)
                        if sub in ('Vector', 'EnumFlags'):
                            none('%s::%s[past the end, case %d][0]' % (cl, nm, k), cl, nm, i, 0)
                    if sub in ('Vector', 'EnumFlags'):
                        for k, i in enumerate(beyond(x, VECS[ct] if sub == 'Vector' else 8 * SIZE[ct])):
                            none('%s::%s[%d][past the end, case %d]' % (cl, nm, num - 1, k), cl, nm, num - 1, i)
                elif ty == 'EnumFlags':
                    for k, i in enumerate(beyond(x, 8 * SIZE[ct])):
                        none('%s::%s flag past the end, case %d' % (cl, nm, k), cl, nm, i)
                elif ty in NUM + ('Bool', 'Enum', 'String', 'CString'):
                    none('%s::%s[0] (no array)' % (cl, nm), cl, nm, 0)
                    none('%s::%s[0][0] (no array)' % (cl, nm), cl, nm, 0, 0)
    for cl in ('T', 'X', 'B16'):
        n = len(CLASSES.get(cl) or BITS[cl])
        for bad in (n, 255, 256, 65536, 1 << 32, (1 << 64) - 1):
            none('%s member %d' % (cl, bad), cl, None, id=bad)
            none('%s member %d element' % (cl, bad), cl, None, 0, id=bad)
            none('%s member %d element of element' % (cl, bad), cl, None, 0, 0, id=bad)
        for nm in ('no such name', cl):
            none('%s member "%s"' % (cl, nm), cl, nm, how='h')
            none('%s member "%s" element' % (cl, nm), cl, nm, 0, how='h')
            none('%s member "%s" element of element' % (cl, nm), cl, nm, 0, 0, how='h')


def words(c, r):
    T_ = r.lay['T']

    def pre(off, v, n):
        return lambda s: s.setc('t', off, v, n)
    for v in (0, 1):
        key = 'T::b = %d' % v
        s = r.get('T', 'b', pre=pre(T_['b'], v, 1))
        r.text(key, s, [('false', 'true')[v]])
        r.outside(key, T_['b'], T_['b'] + 1)
        for k in range(4):
            key = 'T::ab[%d] = %d' % (k, v)
            s = r.get('T', 'ab', k, pre=pre(T_['ab'] + k, v, 1))
            r.text(key, s, [('false', 'true')[v]])
    for v in range(16):
        s = r.get('T', 'ab', pre=lambda s: [s.setc('t', T_['ab'] + k, v >> k & 1, 1) for k in range(4)])
        key = 'T::ab = %d' % v
        r.text(key, s, ['{' + ', '.join(('false', 'true')[v >> k & 1] for k in range(4)) + '}'])
    for nm, e in (('e8', 'E8'), ('e16', 'E16'), ('e32', 'E32'), ('e64', 'E64')):
        n = SIZE[[x for x in T if x[0] == nm][0][3]]
        for name, v in ENUMS[e] + [('', 0x77)]:
            for how in 'sh':
                s = r.get('T', nm, how=how, pre=pre(T_[nm], v, n))
                key = 'T::%s = %#x%s' % (nm, v, ' by name' * (how == 'h'))
                r.text(key, s, [name])
                r.outside(key, T_[nm], T_[nm] + n)
        s = r.get('T', nm, pre=pre(T_[nm], ENUMS[e][0][1], n), registered=False)
        r.text('T::%s, enum not registered' % nm, s, [])
    for nm, e in (('ae8', 'E8'), ('ae16', 'E16'), ('ae32', 'E32')):
        m = [x for x in T2 if x[0] == nm][0]
        n, num, off = SIZE[m[3]], m[4], r.lay['T2'][nm]
        vs = [ENUMS[e][(k + 1) % len(ENUMS[e])] for k in range(num)]

        def fill(s):
            for k, (_, v) in enumerate(vs):
                s.setc('t', off + k * n, v, n)
        s = r.get('T2', nm, pre=fill)
        r.text('T2::' + nm, s, ['{' + ', '.join(x for x, _ in vs) + '}'])
        r.outside('T2::' + nm, off, off + n * num)
        for k in range(num):
            s = r.get('T2', nm, k, pre=fill)
            r.text('T2::%s[%d]' % (nm, k), s, [vs[k][0]])
            r.outside('T2::%s[%d]' % (nm, k), off + k * n, off + k * n + n)
    for cl, nm, e in (('T', 'fl8', 'E8'), ('T', 'fl32', 'E8'), ('T', 'fl64', 'E8'), ('T2', 'ff', 'EF')):
        off = r.lay[cl][nm]
        n = SIZE[[y for y in CLASSES[cl] if y[0] == nm][0][3]]
        vs = [y for y in ENUMS[e] if y[1] < 8 * n]
        for pick in range(1 << len(vs)):
            on = [y for k, y in enumerate(vs) if pick >> k & 1]
            for how in 'sh' if pick in (0, 3) else 's':
                s = r.get(cl, nm, how=how, pre=pre(off, sum(1 << v for _, v in on), n))
                key = '%s::%s with %s%s' % (cl, nm, [x for x, _ in on], ' by name' * (how == 'h'))
                r.text(key, s, [' | '.join(x for x, _ in on) or 'NULL'])
                r.outside(key, off, off + n)
        for k in range(8 * n):
            for v in (0, 1):
                for how in 'sh' if k in (0, 31, 32) else 's':
                    def one(s):
                        w = s.inbits('t', off, n)
                        w[k] = v
                        s.setw('t', off, Word(w))
                    s = r.get(cl, nm, k, how=how, pre=one)
                    key = '%s::%s flag %d = %d%s' % (cl, nm, k, v, ' by name' * (how == 'h'))
                    r.text(key, s, [('false', 'true')[v]])
                    r.outside(key, off, off + n)
    for nm in ('afl8', 'afl32', 'afl64'):
        m = [y for y in T2 if y[0] == nm][0]
        n, num, off = SIZE[m[3]], m[4], r.lay['T2'][nm]
        for a in range(num):
            for k in range(8 * n):
                for v in (0, 1):
                    def one(s):
                        w = s.inbits('t', off + a * n, n)
                        w[k] = v
                        s.setw('t', off + a * n, Word(w))
                    s = r.get('T2', nm, a, k, pre=one)
                    key = 'T2::%s[%d] flag %d = %d' % (nm, a, k, v)
                    r.text(key, s, [('false', 'true')[v]])
                    r.outside(key, off + a * n, off + a * n + n)
            s = r.get('T2', nm, a, pre=pre(off + a * n, 0b10, n))
            r.text('T2::%s[%d] = 2' % (nm, a), s, ['e8b'])


def history(c, r):
    """what was printed before does not matter"""
    keep = r.reg
    seq = [('T2', 'ff', 1 << 31 | 1 << 63, 'efb | efd'), ('T', 'fl32', 1 << 1 | 1 << 8, 'e8b | e8d'), ('T', 'e32', 6, 'e32e'), ('T2', 'ff', 0, 'NULL'), ('T', 'e8', 7, 'e8c'),
           ('T2', 'ff', 1 << 32, 'efc'), ('T', 'fl64', 1 << 8 | 1, 'e8a | e8d'), ('T', 'e64', 0x123456789b, 'e64b'), ('T', 'e32', 101, 'e32h')]
    try:
        for cl, nm, v, t in seq + seq[::-1]:
            off = r.lay[cl][nm]
            n = SIZE[[y for y in CLASSES[cl] if y[0] == nm][0][3]]

            def fill(s):
                s.setc('t', off, v, n)
            s = r.get(cl, nm, pre=fill)
            key = '%s::%s = %#x after others' % (cl, nm, v)
            r.text(key, s, [t])
            r.outside(key, off, off + n)
            r.reg = s.out
    finally:
        r.reg = keep


def bitfields(c, r):
    for cl, ms in BITS.items():
        size = BITSIZE[cl]
        pos = 0
        for nm, w in ms:
            for how in 'sh':
                with c.part('%s::%s' % (cl, nm)):
                    s = r.get(cl, nm, how=how)
                    key = '%s::%s%s' % (cl, nm, ' by name' * (how == 'h'))
                    b = s.inbits('t', 0, size)[pos:pos + w]
                    r.text(key, s, [('u', Word(b + [0] * (64 - w)))])
                    r.outside(key, 0, size)
            pos += w


def strings(c, r):
    o = r.lay['T2']
    for t in ('', 'abc', 'a text that does not fit into the string itself'):
        def fill(s, off):
            text(s, 'chars', t + '\0')
            s.it.store(s.mem, Ptr('t', off), ['p'], Ptr('chars'), {})
            s.setc('t', off + 8, len(t), 8)
            s.it.events.clear()
        s = r.get('T2', 'str', pre=lambda s: fill(s, o['str']))
        r.text('T2::str = "%s"' % t, s, [t])
        s = r.get('T2', 'astr', 1, pre=lambda s: fill(s, o['astr'] + 32))
        r.text('T2::astr[1] = "%s"' % t, s, [t])

        def cs(s):
            text(s, 'chars', t + '\0')
            s.it.store(s.mem, Ptr('t', o['cs']), ['p'], Ptr('chars'), {})
            s.it.events.clear()
        s = r.get('T2', 'cs', pre=cs)
        r.text('T2::cs = "%s"' % t, s, [t])

    def null(s):
        s.it.store(s.mem, Ptr('t', o['cs']), ['p'], Ptr('null'), {})
        s.it.events.clear()
    s = r.get('T2', 'cs', pre=null)
    r.text('T2::cs = null', s, [])


def pairs(c, r):
    def one(cl, nm, al, fo, name, parts, how):
        s = r.get(cl, nm, how=how, pair=(al, fo) if al is not None else ())
        key = '%s::%s pair%s%s%s' % (cl, nm, ' alias' * bool(al), ' formatted' * bool(fo), ' by name' * (how == 'h'))
        if al is None:
            key += ' default'
        r.text(key, s, parts(s))
        n = int_at(s, s.out, Ptr('n'), 8, 8)
        p = ptr_at(s, s.out, Ptr('n'), 0)
        got = bytes_at(s, s.out, p, n) if n and isinstance(p, Ptr) else b''
        c.ob(key + ': name', got == name.encode(), '%r' % got, 'Reflector::GetReflectedPair')
    lay = r.lay['X']
    for k, (nm, ty, sub, ct, num, th) in enumerate(X):
        alias = {'ali': 'other name', 'both': 'alias2', 'last': 'last alias'}.get(nm, nm)
        d = {'des': ('des part ', ' second'), 'both': ('only first ', '')}.get(nm)

        def val(s):
            return [r.num(s, ty, lay[nm], SIZE[ct])]
        for how in 'sh':
            for al in (0, 1, None):
                for fo in (0, 1) if al is not None else (0,):
                    with c.part('X::%s pair' % nm):
                        one('X', nm, al, fo, alias if al else nm, (lambda s: [d[0]] + val(s) + [d[1]]) if fo and d else val, how)
    for al in (0, 1):
        for fo in (0, 1):
            one('T', 'i32', al, fo, 'i32', lambda s: [r.num(s, 'Integer', r.lay['T']['i32'], 4)], 's')
            one('BX32', 'bf1', al, fo, 'five bits' if al else 'bf1', lambda s: [('u', Word(s.inbits('t', 0, 4)[3:8] + [0] * 59))], 's')
    for bad in (len(X), 256, 1 << 32):
        s = r.get('X', None, id=bad, pair=(1, 1))
        r.text('X pair of member %d' % bad, s, [])
    s = r.get('X', 'no such name', how='h', pair=(1, 1))
    r.text('X pair of an unknown name', s, [])


def run(c):
    c.rule('Bit-provenance dataflow through the text getters with number printing as an opaque token of the printed word: the text must be exactly the tokens, words and separators of the addressed '
           'member, element or flag; only its bytes are loaded; what does not exist reads as empty.')
    c.assumption('std::to_string and printf print as the C++ standard says; enumerators and booleans are enumerated, numbers are unknown')
    r = Rig(c)
    for f in (numbers, missing, words, bitfields, strings, pairs, history):
        with c.part(f.__name__):
            f(c, r)
    c.unit('R04 driver (reflector.cpp)', r.m)
