"""Text setters: the addressed member gets the value the text denotes."""
import re
import ir
from refl import *
from drv import *

MIN = 3500
ERR = ['None', 'SignMismatch', 'OutOfRange', 'InvalidFormat', 'InvalidDestination', 'EmptyInput', 'ShortInput']
CL = ['T', 'T2', 'X', 'Tm<float>', 'Big', 'B16', 'B64', 'BX32', 'B32', 'B64b']
FLT = {4: (0x00800000, 0x7f7fffff), 8: (0x0010000000000000, 0x7fefffffffffffff)}
VECS = {'Vector': 3, 'Vector2': 2, 'Vector4A16': 4, 't_Vector2<int16>': 2, 't_Vector4<uint8>': 4, 't_Vector4<double>': 4, 't_Vector2<int64>': 2}


def src():
    t = [PRE, HEAD, QUIET, REG, layout_src()]
    for cl in CL:
        i = cid(cl)
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (i, cl))
        for nm, ty, w in (('s', 'size_t', 'id'), ('h', 'uint32', 'JenHash(id)')):
            t.append('extern "C" int %s1_%s(%s *t, %s id, const char *p, size_t n) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue(%s, es::string_view(p, n)); }' % (nm, i, cl, ty, cl, w))
            t.append('extern "C" int %s2_%s(%s *t, %s id, const char *p, size_t n, size_t a) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue(%s, es::string_view(p, n), a); }' % (nm, i, cl, ty, cl, w))
            t.append('extern "C" int %s3_%s(%s *t, %s id, const char *p, size_t n, size_t a, size_t b) { ReflectorWrap<%s> w(t); return (int)w.SetReflectedValue(%s, es::string_view(p, n), a, b); }' % (nm, i, cl, ty, cl, w))
    t.append('extern "C" void errs(uint64 *o) { %s }' % ' '.join('o[%d] = (uint64)Reflector::ErrorType::%s;' % (k, n) for k, n in enumerate(ERR)))
    return '\n'.join(t)


class Rig:
    def __init__(self, c):
        self.c = c
        self.m = ir.unit(text=src(), name='R03')
        self.r = TextRig(self.m)
        self.x = self.r.ctx
        self.r.prepare(*self.r.statics())
        self.r.prepare(*['tab_' + cid(cl) for cl in CL])
        self.unreg = self.r.base
        self.r.prepare('reg')
        self.reg = self.r.base
        s = self.r.new()
        s.buf('o')
        s.run('errs', [Ptr('o')])
        self.E = {n: self.x.cval(Word(s.outbits('o', 8 * k, 8))) for k, n in enumerate(ERR)}
        self.lay = layout(self.r.new)
        for b in BITS:
            self.lay[b] = {n: 0 for n, _ in BITS[b]}

    def idx(self, cl, mem):
        return [x[0] for x in (CLASSES.get(cl) or BITS[cl])].index(mem)

    def set(self, cl, mem, txt, sub=None, el=None, how='s', special=(), registered=True, id=None, constants=None):
        """(evaluation, stores to the object)"""
        self.r.base = self.reg if registered else self.unreg
        s = self.r.new(special, constants)
        s.it.fcmp_bits = True
        s.it.record_access = True
        s.buf('t')
        if cl == 'T2':
            for o in [self.lay['T2']['str']] + [self.lay['T2']['astr'] + 32 * k for k in (0, 1)]:
                s.it.store(s.mem, Ptr('t', o), ['p'], Ptr('t', o + 16), {})
                s.setc('t', o + 8, 0, 8)
            s.it.events.clear()
        if id is None:
            id = self.idx(cl, mem) if how == 's' else jenkins(mem)
        p = text(s, 'text', txt)
        n = len(txt)
        a = [Ptr('t'), s.const(id, 64 if how == 's' else 32), p, s.const(n, 64)]
        k = 1
        for y in (sub, el):
            if y is not None:
                a.append(s.const(y, 64) if isinstance(y, int) else y)
                k += 1
        s.run('%s%d_%s' % (how, k, cid(cl)), a)
        st = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 't']
        self.text = [e for e in s.it.events if e.kind == 'load' and e.ptr.base == 'text' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + (e.size if isinstance(e.size, int) else 1) > n)]
        return s, st

    def code(self, key, s, names):
        r = self.x.cval(s.ret)
        self.c.ob(key + ': result', r in [self.E[n] for n in names], 'is %r, required %s' % (r, [(n, self.E[n]) for n in names]), 'Reflector::SetReflectedValue')

    def only(self, key, st, lo, hi):
        bad = [e for e in st if e.ptr.sym or e.ptr.off < lo or not isinstance(e.size, int) or e.ptr.off + e.size > hi]
        self.c.ob(key + ': no other byte is written', not bad, 'stores %s' % [(e.ptr, e.size) for e in bad][:3], ir.loc_str(bad[0].loc) if bad else '')
        self.c.ob(key + ': the text is read in bounds', not self.text, 'loads %s' % [(e.ptr, e.size) for e in self.text][:3],
                  ir.loc_str(self.text[0].loc) if self.text else '')

    def value(self, key, s, off, want):
        self.c.ob(key + ': stored value', *s.cmp(s.outbits('t', off, len(want) // 8), want), 'SetReflectedMember (datas/reflector.cpp)')

    def same(self, key, s, st, off, n):
        """the member keeps its value, nothing else is written"""
        self.only(key, st, off, off + n)
        self.value(key, s, off, s.inbits('t', off, n))

    def reach(self, key, st, cond):
        x = self.x
        bad = []
        for e in st:
            r = cond
            for y in e.cond:
                r = x.AND(r, y)
            if not x.same(r, 0):
                bad.append(e)
        self.c.ob(key + ': nothing is written', not bad, 'store reachable', ir.loc_str(bad[0].loc) if bad else '')

    # what a text denotes ---------------------------------------------------
    def integer(self, txt, bits, signed, special):
        """(value bits, code word) of an in-domain integer text; None for no number"""
        x = self.x
        t = txt.strip()
        m = re.match(r'^([+-]?)(0x)?([0-9a-f]+)', t)
        if not m or not (m.group(2) or re.match(r'[+-]?[0-9]', t)):
            return None
        neg = m.group(1) == '-'
        base = 16 if m.group(2) else 10
        digits = m.group(3) if m.group(2) else re.match('[0-9]+', m.group(3)).group(0)
        v = number(x, 'strtoll' if signed else 'strtoull', m.group(1), digits, base)
        er = range_error(x, t) if t in special else 0
        if signed:
            lo, hi = x.cw((1 << 64) - (1 << (bits - 1)), 64), x.cw((1 << (bits - 1)) - 1, 64)
            if neg:
                out = x.ult(v, lo)      # negative numbers order as their patterns
                lim = lo
            else:
                out = x.ult(hi, v)
                lim = hi
            out = x.OR(out, er)
            val = Word(x.ITE(out, a, b) for a, b in zip(lim, v))
            return val[:bits], self.codes([(out, 'OutOfRange'), (1, 'None')])
        hi = x.cw((1 << bits) - 1, 64)
        if neg:
            out = er
            ok = 'SignMismatch'
        else:
            out = x.OR(x.ult(hi, v), er)
            ok = 'None'
        val = Word(x.ITE(out, a, b) for a, b in zip(hi, v))
        return val[:bits], self.codes([(out, 'OutOfRange'), (1, ok)])

    def codes(self, cs):
        x = self.x
        r = x.cw(self.E[cs[-1][1]], 32)
        for cond, n in reversed(cs[:-1]):
            r = Word(x.ITE(cond, a, b) for a, b in zip(x.cw(self.E[n], 32), r))
        return r

    def real(self, txt, n, special):
        """(value bits, code, domain) of a decimal text for an n byte float"""
        x = self.x
        t = txt.strip()
        m = re.match(r'^([+-]?)([0-9]+(?:\.[0-9]*)?)', t)
        if not m:
            return None
        w = 8 * n
        v = number(x, 'strtof' if n == 4 else 'strtod', m.group(1), m.group(2), 10)
        d = number(x, 'strtod', m.group(1), m.group(2), 10)
        er = range_error(x, t) if t in special else 0

        def anyb(bs):
            r = 0
            for b in bs:
                r = x.OR(r, b)
            return r

        def allb(bs):
            r = 1
            for b in bs:
                r = x.AND(r, b)
            return r
        e = 23 if n == 4 else 52
        sub = x.AND(anyb(v[e:-1]) ^ 1, anyb(v[:e]))
        out = x.OR(er, sub)
        nan = x.AND(allb(d[52:63]), anyb(d[:52]))
        big = x.ult(x.cw(0x3ff0000000000000, 63), Word(d[:63]))
        mn, mx = FLT[n]
        lim = [x.ITE(big, a, b) for a, b in zip(x.cw(mx, w)[:-1], x.cw(mn, w)[:-1])] + [d[63]]
        val = [x.ITE(out, a, b) for a, b in zip(lim, v)]
        return val, self.codes([(out, 'OutOfRange'), (1, 'None')]), nan ^ 1

    def number(self, key, s, st, kind, off, n, txt, special=(), bits=None):
        """obligations of setting a number"""
        c, x = self.c, self.x
        dom = 1
        if kind == 'FloatingPoint':
            r = self.real(txt, n, special)
            if r:
                val, code, dom = r
        else:
            r = self.integer(txt, bits or 8 * n, kind == 'Integer', special)
            if r:
                val, code = r
        if r is None:
            self.code(key, s, ['InvalidFormat'])
            self.same(key, s, st, off, n)
            return
        self.only(key, st, off, off + n)

        def eqd(a, b):
            return x.same(x.AND(x.XOR(a, b), dom), 0)
        got = s.outbits('t', off, n)
        bad = [k for k, (a, b) in enumerate(zip(got, val)) if not eqd(a, b)]
        c.ob(key + ': stored value', not bad, 'bit %s is %s, required %s' % (bad[0], x.show(got[bad[0]])[:150], x.show(val[bad[0]])[:150]) if bad else '', 'SetNumber (datas/reflector.cpp)')
        bad = [k for k, (a, b) in enumerate(zip(s.ret, code)) if not eqd(a, b)]
        c.ob(key + ': result', not bad, 'bit %s is %s, required %s' % (bad[0], x.show(s.ret[bad[0]])[:150], x.show(code[bad[0]])[:150]) if bad else '', 'SetNumber (datas/reflector.cpp)')


NUM = ('Integer', 'UnsignedInteger', 'FloatingPoint')
ITEXT = [('12', 1), ('-12', 1), ('0x1f', 1), ('-0x1f', 1), ('+7', 0), ('  42', 0), ('12zz', 0), ('zz', 0), ('', 0), ('-', 0), ('   ', 0)]
FTEXT = [('1.5', 1), ('-2.5', 1), ('  7', 0), ('zz', 0), ('', 0), ('-', 0)]


def texts(kind):
    return FTEXT if kind == 'FloatingPoint' else ITEXT


def scalars(c, r):
    for cl in ('T', 'T2', 'X', 'Tm<float>', 'Big'):
        for (nm, ty, sub, ct, num, th) in CLASSES[cl]:
            off = r.lay[cl][nm]
            if ty in NUM:
                n = SIZE[ct]
                with c.part('%s::%s' % (cl, nm)):
                    for how in 'sh':
                        for t, sp in texts(ty) if how == 's' else texts(ty)[:1]:
                            s, st = r.set(cl, nm, t, how=how, special=[t] if sp else [])
                            r.number('%s::%s = "%s"%s' % (cl, nm, t, ' by name' * (how == 'h')), s, st, ty, off, n, t, [t] if sp else [])
            elif ty in ('Array', 'Vector') and sub in NUM:
                n = SIZE[ct]
                t = texts(sub)[0][0]
                with c.part('%s::%s' % (cl, nm)):
                    for k in range(num) if num < 9 else (0, 1, 127, 128, 255, 256, num - 1):
                        for how in 'sh':
                            s, st = r.set(cl, nm, t, sub=k, how=how, special=[t])
                            r.number('%s::%s[%d] = "%s"%s' % (cl, nm, k, t, ' by name' * (how == 'h')), s, st, sub, off + k * n, n, t, [t])
                    s, st = r.set(cl, nm, 'zz', sub=num - 1)
                    r.number('%s::%s[%d] = "zz"' % (cl, nm, num - 1), s, st, sub, off + (num - 1) * n, n, 'zz')


def indices(c, r):
    """element indices past the end, for every index"""
    x = r.x
    for cl in ('T', 'T2', 'Big'):
        for (nm, ty, sub, ct, num, th) in CLASSES[cl]:
            if ty in ('Array', 'Vector') and sub in NUM + ('Bool',):
                t = 'true' if sub == 'Bool' else '1'
                with c.part('%s::%s index' % (cl, nm)):
                    key = '%s::%s[index past the end]' % (cl, nm)
                    i = x.inp('index', 64)
                    past = x.ult(i, x.cw(num, 64)) ^ 1
                    s, st = r.set(cl, nm, t, sub=i)
                    r.reach(key, st, past)
                    c.ob(key + ': result', x.same(x.AND(past, x.eq(s.ret, x.cw(r.E['OutOfRange'], 32)) ^ 1), 0), 'other result', 'Reflector::SetReflectedValue')
            elif ty == 'Array' and sub == 'Vector':
                n = VECS[ct]
                k = th[1]
                es_ = SIZE[ct] // n
                with c.part('%s::%s elements' % (cl, nm)):
                    for a in range(num):
                        for b in range(n):
                            for how in 'sh':
                                s, st = r.set(cl, nm, '3', sub=a, el=b, how=how)
                                r.number('%s::%s[%d][%d]%s' % (cl, nm, a, b, ' by name' * (how == 'h')), s, st, k, r.lay[cl][nm] + a * SIZE[ct] + b * es_, es_, '3')
                    for a, b, what in ((x.inp('index', 64), x.cw(0, 64), 'index past the end'), (x.cw(num - 1, 64), x.inp('index', 64), 'element past the end')):
                        key = '%s::%s[%s]' % (cl, nm, what)
                        lim = num if what.startswith('index') else n
                        past = x.ult(x.inp('index', 64), x.cw(lim, 64)) ^ 1
                        s, st = r.set(cl, nm, '3', sub=a, el=b)
                        r.reach(key, st, past)
                        c.ob(key + ': result', x.same(x.AND(past, x.eq(s.ret, x.cw(r.E['OutOfRange'], 32)) ^ 1), 0), 'other result', 'Reflector::SetReflectedValue')
            elif ty in NUM + ('Bool', 'Enum', 'Class'):
                with c.part('%s::%s no array' % (cl, nm)):
                    for kw in ({'sub': 0}, {'sub': 1}, {'sub': 0, 'el': 0}):
                        s, st = r.set(cl, nm, '1', **kw)
                        key = '%s::%s%s (no array)' % (cl, nm, ''.join('[%d]' % v for v in kw.values()))
                        r.code(key, s, ['InvalidDestination'])
                        r.reach(key, st, 1)
    for cl in ('T', 'X', 'B16'):
        ms = CLASSES.get(cl) or BITS[cl]
        for bad in (len(ms), 255, 256, 65536, 1 << 32, (1 << 64) - 1):
            for kw in ({}, {'sub': 0}, {'sub': 0, 'el': 0}):
                s, st = r.set(cl, None, '1', id=bad, **kw)
                key = '%s member %d%s' % (cl, bad, ' element' * len(kw))
                r.code(key, s, ['InvalidDestination'])
                r.reach(key, st, 1)
        for bad in ('no such name', cl, ms[0][0] + ' '):
            for kw in ({}, {'sub': 0}, {'sub': 0, 'el': 0}):
                s, st = r.set(cl, bad, '1', how='h', **kw)
                key = '%s member "%s"%s' % (cl, bad, ' element' * len(kw))
                r.code(key, s, ['InvalidDestination'])
                r.reach(key, st, 1)
    for al, nm in (('other name', 'ali'), ('alias2', 'both'), ('last alias', 'last')):
        s, st = r.set('X', al, '7', how='h')
        m = [y for y in X if y[0] == nm][0]
        r.number('X alias "%s"' % al, s, st, m[1], r.lay['X'][nm], SIZE[m[3]], '7')


def booleans(c, r):
    off = r.lay['T']['b']
    for word in ('true', 'false'):
        for lead in ('', '  '):
            # the case of every letter is unknown
            def fill(s, w=word, l=lead):
                s.buf('text', len(l + w))
                for k, ch in enumerate(l):
                    s.setc('text', k, ord(ch), 1)
                for k, ch in enumerate(w):
                    b = list(s.c.cw(ord(ch), 8))
                    b[5] = s.c.inp('case %d' % k, 1)[0]
                    s.setw('text', len(l) + k, Word(b))
            for where, kw, o in (('b', {}, off), ('ab', {'sub': 2}, r.lay['T']['ab'] + 2)):
                s, st = setbool(r, where, kw, fill, len(lead + word))
                key = 'T::%s = "%s%s" in any case' % (where, lead, word)
                r.code(key, s, ['None'])
                r.only(key, st, o, o + 1)
                r.value(key, s, o, s.const(int(word == 'true'), 8))
    for bad in ('', 'yes', '1', 'tru', 'fals', 'rue', '  ', 'nottrue'):
        s, st = r.set('T', 'b', bad)
        key = 'T::b = "%s"' % bad
        r.code(key, s, ['InvalidFormat'])
        r.only(key, st, off, off + 1)


def setbool(r, where, kw, fill, n):
    r.r.base = r.reg
    s = r.r.new()
    s.it.record_access = True
    s.buf('t')
    fill(s)
    k = 1 + len(kw)
    s.run('s%d_T' % k, [Ptr('t'), s.const(r.idx('T', where), 64), Ptr('text'), s.const(n, 64)] + [s.const(v, 64) for v in kw.values()])
    st = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 't']
    r.text = []
    return s, st


def enums(c, r):
    for nm, e in (('e8', 'E8'), ('e16', 'E16'), ('e32', 'E32'), ('e64', 'E64')):
        off = r.lay['T'][nm]
        n = SIZE[[x for x in T if x[0] == nm][0][3]]
        vs = ENUMS[e]
        for name, v in vs:
            for t in (name, '  ' + name, name + ' \t', ' ' + name + ' '):
                s, st = r.set('T', nm, t)
                key = 'T::%s = "%s"' % (nm, t)
                r.code(key, s, ['None'])
                r.only(key, st, off, off + n)
                r.value(key, s, off, s.const(v, 8 * n))
        for t in ('zz', vs[0][0][:-1], vs[0][0] + 'a', vs[0][0].upper(), vs[0][0] + ' ' + vs[1][0], '0'):
            s, st = r.set('T', nm, t)
            key = 'T::%s = "%s"' % (nm, t)
            r.code(key, s, ['InvalidFormat'])
            r.reach(key, st, 1)
        for t in ('', '   '):
            s, st = r.set('T', nm, t)
            key = 'T::%s = "%s"' % (nm, t)
            r.code(key, s, ['EmptyInput'])
            r.reach(key, st, 1)
        s, st = r.set('T', nm, vs[0][0], registered=False)
        key = 'T::%s, enum not registered' % nm
        r.code(key, s, ['InvalidDestination'])
        r.reach(key, st, 1)
    for nm, e in (('ae8', 'E8'), ('ae16', 'E16'), ('ae32', 'E32')):
        off = r.lay['T2'][nm]
        m = [x for x in T2 if x[0] == nm][0]
        n, num = SIZE[m[3]], m[4]
        for k in range(num):
            name, v = ENUMS[e][k % len(ENUMS[e])]
            s, st = r.set('T2', nm, name, sub=k)
            key = 'T2::%s[%d] = "%s"' % (nm, k, name)
            r.code(key, s, ['None'])
            r.only(key, st, off + k * n, off + k * n + n)
            r.value(key, s, off + k * n, s.const(v, 8 * n))
        names = [ENUMS[e][(k + 1) % len(ENUMS[e])] for k in range(num)]
        t = '{' + ', '.join(x for x, _ in names) + '}'
        s, st = r.set('T2', nm, t)
        key = 'T2::%s = "%s"' % (nm, t)
        r.code(key, s, ['None'])
        r.only(key, st, off, off + n * num)
        for k, (x, v) in enumerate(names):
            r.value('%s element %d' % (key, k), s, off + k * n, s.const(v, 8 * n))


def flags(c, r):
    x = r.x
    for cl, nm, e in (('T', 'fl8', 'E8'), ('T', 'fl32', 'E8'), ('T', 'fl64', 'E8'), ('T2', 'ff', 'EF')):
        off = r.lay[cl][nm]
        n = SIZE[[y for y in CLASSES[cl] if y[0] == nm][0][3]]
        vs = [y for y in ENUMS[e] if y[1] < 8 * n]
        a, b, z = vs[0], vs[1], vs[-1]
        cases = [([a], a[0]), ([b], b[0]), ([z], '  %s  ' % z[0]), ([a, z], '%s | %s' % (a[0], z[0])), ([a, b, z], '%s|%s|%s' % (z[0], b[0], a[0])),
                 ([], 'NULL'), ([a, a], '%s | %s' % (a[0], a[0])), ([z, b], '%s\t| %s' % (z[0], b[0]))]
        for fs, t in cases:
            for how in 'sh':
                s, st = r.set(cl, nm, t, how=how)
                key = '%s::%s = "%s"%s' % (cl, nm, t, ' by name' * (how == 'h'))
                r.code(key, s, ['None'])
                r.only(key, st, off, off + n)
                v = 0
                for _, k in fs:
                    v |= 1 << k
                r.value(key, s, off, s.const(v, 8 * n))
        for t, code in (('%s | zz' % a[0], 'InvalidFormat'), ('zz', 'InvalidFormat'), ('%s | ' % a[0], 'EmptyInput'), ('| %s' % a[0], 'EmptyInput'),
                        ('zz | %s | %s' % (a[0], b[0]), 'InvalidFormat'), ('%s | zz | %s | %s' % (a[0], b[0], z[0]), 'InvalidFormat')):
            s, st = r.set(cl, nm, t)
            key = '%s::%s = "%s"' % (cl, nm, t)
            r.code(key, s, [code])
            r.only(key, st, off, off + n)
        s, st = r.set(cl, nm, a[0], registered=False)
        key = '%s::%s, enum not registered' % (cl, nm)
        r.code(key, s, ['InvalidDestination'])
        r.reach(key, st, 1)
        # one flag by its index
        for t, v in (('true', 1), (' False', 0)):
            for k in range(8 * n):
                for how in 'sh' if k in (0, 31) else 's':
                    s, st = r.set(cl, nm, t, sub=k, how=how)
                    key = '%s::%s flag %d = "%s"%s' % (cl, nm, k, t, ' by name' * (how == 'h'))
                    r.code(key, s, ['None'])
                    r.only(key, st, off, off + n)
                    want = s.inbits('t', off, n)
                    want[k] = v
                    r.value(key, s, off, want)
        s, st = r.set(cl, nm, 'yes', sub=3)
        key = '%s::%s flag 3 = "yes"' % (cl, nm)
        r.code(key, s, ['InvalidFormat'])
        r.same(key, s, st, off, n)
        i = x.inp('index', 64)
        past = x.ult(i, x.cw(8 * n, 64)) ^ 1
        s, st = r.set(cl, nm, 'true', sub=i)
        key = '%s::%s flag past the end' % (cl, nm)
        r.reach(key, st, past)
        c.ob(key + ': result', x.same(x.AND(past, x.eq(s.ret, x.cw(r.E['OutOfRange'], 32)) ^ 1), 0), 'other result', 'Reflector::SetReflectedValue')
    for nm, e in (('afl8', 'E8'), ('afl32', 'E8'), ('afl64', 'E8')):
        off = r.lay['T2'][nm]
        m = [y for y in T2 if y[0] == nm][0]
        n, num = SIZE[m[3]], m[4]
        vs = [y for y in ENUMS[e] if y[1] < 8 * n]
        for k in range(num):
            t = '%s | %s' % (vs[0][0], vs[2][0])
            s, st = r.set('T2', nm, t, sub=k)
            key = 'T2::%s[%d] = "%s"' % (nm, k, t)
            r.code(key, s, ['None'])
            r.only(key, st, off + k * n, off + k * n + n)
            r.value(key, s, off + k * n, s.const(1 << vs[0][1] | 1 << vs[2][1], 8 * n))


def bitfields(c, r):
    x = r.x
    for cl, ms in BITS.items():
        total = sum(w for _, w in ms)
        size = BITSIZE[cl]
        pos = 0
        for nm, w in ms:
            with c.part('%s::%s' % (cl, nm)):
                for how in 'sh':
                    for t, sp in (('12', 1), ('0x3', 1), ('zz', 0), ('', 0), ('-5', 0)):
                        s, st = r.set(cl, nm, t, how=how, special=[t] if sp else [])
                        key = '%s::%s = "%s"%s' % (cl, nm, t, ' by name' * (how == 'h'))
                        r.only(key, st, 0, size)
                        got = s.outbits('t', 0, size)
                        want = s.inbits('t', 0, size)
                        rr = r.integer(t, w, False, [t] if sp else [])
                        if t == '-5':
                            # only its own bits
                            bad = [k for k in range(8 * size) if not pos <= k < pos + w and not x.same(got[k], want[k])]
                            c.ob(key + ': other members keep their bits', not bad, 'bits %s' % bad[:5], 'SetReflectedMember')
                            continue
                        if rr is None:
                            r.code(key, s, ['InvalidFormat'])
                        else:
                            want[pos:pos + w] = rr[0]
                            ok, why = s.cmp(s.ret, rr[1])
                            c.ob(key + ': result', ok, why, 'SetNumber')
                        c.ob(key + ': bits', *s.cmp(got, want), 'SetReflectedMember (datas/reflector.cpp)')
            pos += w


def arrays(c, r):
    """whole arrays and vectors"""
    def shapes(o, e, tk):
        a, b, d, f = tk
        L = [([a, b, d], '%s%s, %s, %s%s' % (o, a, b, d, e), ['None']), ([a, b, d], '  %s%s,%s,%s%s' % (o, a, b, d, e), ['None']),
             ([a, b, d], '%s %s , %s , %s %s ' % (o, a, b, d, e), ['None']), ([a, b, d], 'xx%s%s, %s, %s%s' % (o, a, b, d, e), ['None']),
             ([a, b, d], '%s%s, %s, %s, %s' % (o, a, b, d, e), ['None']),
             ([a, b, d], '%s%s, %s, %s, %s%s' % (o, a, b, d, f, e), ['OutOfRange']), ([a, b, d], '%s%s, %s, %s,%s,%s%s' % (o, a, b, d, f, f, e), ['OutOfRange']),
             ([a, b], '%s%s, %s%s' % (o, a, b, e), None), ([a], '%s%s%s' % (o, a, e), None),
             ([a, b], '%s%s, %s, %s' % (o, a, b, e), ['ShortInput']), ([a], '%s%s, , %s%s' % (o, a, d, e), ['ShortInput']),
             ([], '%s , %s%s' % (o, b, e), ['ShortInput']), ([], '%s%s' % (o, e), ['EmptyInput']),
             ([], '%s, %s, %s%s' % (a, b, d, e), ['InvalidFormat']), ([], '%s%s, %s, %s' % (o, a, b, d), ['InvalidFormat']),
             ([], '%s%s, %s, %s%s' % (e, a, b, d, o), ['InvalidFormat']), ([], '', ['InvalidFormat'])]
        return L

    def whole(cl, nm, kind, off, n, tk, o, e, num=3):
        for els, t, code in shapes(o, e, tk):
            with c.part('%s::%s = %s' % (cl, nm, t)):
                s, st = r.set(cl, nm, t, constants=True)
                key = '%s::%s = "%s"' % (cl, nm, t)
                if code:
                    r.code(key, s, code)
                r.only(key, st, off, off + n * num)
                for k in range(num):
                    want = els[k] if k < len(els) else None
                    if want is None:
                        r.value('%s element %d' % (key, k), s, off + k * n, s.inbits('t', off + k * n, n))
                    else:
                        elem(key, s, kind, off + k * n, n, want, k)
        if kind not in ('Bool', 'EnumFlags'):
            t = '%s%s, zz, %s%s' % (o, tk[0], tk[2], e)
            s, st = r.set(cl, nm, t, constants=True)
            key = '%s::%s = "%s"' % (cl, nm, t)
            r.only(key, st, off, off + n * num)
            elem(key, s, kind, off, n, tk[0], 0)
            r.value('%s element 1' % key, s, off + n, s.inbits('t', off + n, n))
            elem(key, s, kind, off + 2 * n, n, tk[2], 2)

    def elem(key, s, kind, off, n, want, k):
        x = r.x
        if kind == 'Bool':
            return r.value('%s element %d' % (key, k), s, off, s.const(int(want == 'true'), 8))
        if kind in ('Enum', 'EnumFlags'):
            v = dict(ENUMS['E8'])[want]
            return r.value('%s element %d' % (key, k), s, off, s.const(v if kind == 'Enum' else 1 << v, 8 * n))
        if kind == 'FloatingPoint':
            v = constant('strtof' if n == 4 else 'strtod', want, 10)
        else:
            v = int(want)
        r.value('%s element %d' % (key, k), s, off, s.const(v, 8 * n))

    D = ['1', '2', '3', '4']
    for cl, nm, o, e in (('T', 'ai8', '{', '}'), ('T', 'ai32', '{', '}'), ('T', 'au64', '{', '}'), ('T', 'af', '{', '}'), ('T', 'v3', '[', ']'), ('T', 'vb3', '[', ']'),
                         ('T', 'us3', '[', ']')):
        m = [y for y in CLASSES[cl] if y[0] == nm][0]
        whole(cl, nm, m[2], r.lay[cl][nm], SIZE[m[3]], D, o, e)
    whole('T2', 'ae8', 'Enum', r.lay['T2']['ae8'], 1, ['e8b', 'e8c', 'e8d', 'e8a'], '{', '}')
    whole('T2', 'afl32', 'EnumFlags', r.lay['T2']['afl32'], 4, ['e8b', 'e8c', 'e8d', 'e8a'], '{', '}')
    # arrays of vectors
    for nm in ('av3', 'av2', 'av4', 'avs', 'avb', 'avq'):
        m = [y for y in T2 if y[0] == nm][0]
        n, num = VECS[m[3]], m[4]
        es_ = SIZE[m[3]] // n
        off = r.lay['T2'][nm]
        for sep in (', ', ','):
            t = '{' + sep.join('[' + sep.join(str(1 + a * n + b) for b in range(n)) + ']' for a in range(num)) + '}'
            s, st = r.set('T2', nm, t, constants=True)
            key = 'T2::%s = "%s"' % (nm, t)
            r.code(key, s, ['None'])
            r.only(key, st, off, off + SIZE[m[3]] * num)
            for a in range(num):
                for b in range(n):
                    elem(key + '[%d]' % a, s, m[5][1], off + a * SIZE[m[3]] + b * es_, es_, str(1 + a * n + b), b)
        for a in range(num):
            t = '[' + ', '.join(str(5 + b) for b in range(n)) + ']'
            s, st = r.set('T2', nm, t, sub=a, constants=True)
            key = 'T2::%s[%d] = "%s"' % (nm, a, t)
            r.code(key, s, ['None'])
            r.only(key, st, off + SIZE[m[3]] * a, off + SIZE[m[3]] * (a + 1))
            for b in range(n):
                elem(key, s, m[5][1], off + a * SIZE[m[3]] + b * es_, es_, str(5 + b), b)
    s, st = r.set('T', 'ab', '{true, FALSE, True, false}')
    key = 'T::ab = "{true, FALSE, True, false}"'
    r.code(key, s, ['None'])
    for k in range(4):
        r.value('%s element %d' % (key, k), s, r.lay['T']['ab'] + k, s.const((k + 1) % 2, 8))


def strings(c, r):
    off = r.lay['T2']['str']
    for t in ('abc', 'exactly fifteen', 'sixteen letters!', 'a text that does not fit into the string itself', 'with, commas | and {braces} "quotes"', ''):
        for nm, o, kw in (('str', off, {}), ('astr', r.lay['T2']['astr'] + 32, {'sub': 1})):
            s, st = r.set('T2', nm, t, **kw)
            key = 'T2::%s = "%s"' % (nm, t)
            r.code(key, s, ['None'])
            r.only(key, st, o, o + 32)
            p = ptr_at(s, s.out, Ptr('t'), o)
            n = int_at(s, s.out, Ptr('t'), o + 8, 8)
            c.ob(key + ': length', n == len(t), '%r' % n, 'SetReflectedMember')
            b = bytes_at(s, s.out, p, len(t) + 1) if isinstance(p, Ptr) else None
            c.ob(key + ': text', b == t.encode() + b'\0', '%r' % b, 'SetReflectedMember')
            c.ob(key + ': storage', isinstance(p, Ptr) and (p == Ptr('t', o + 16) if len(t) < 16 else p.base != 't'), '%r' % p, 'SetReflectedMember')
    base = r.lay['T2']['astr']
    for t, els in (('{"a, b", c}', ['"a, b"', 'c']), ('{(1,2), [3, 4]}', ['(1,2)', '[3, 4]']), ('{x, {y, z}}', ['x', '{y, z}']), ('{a}b, c}', ['a}b', 'c'])):
        s, st = r.set('T2', 'astr', t)
        key = 'T2::astr = "%s"' % t
        r.code(key, s, ['None'])
        r.only(key, st, base, base + 64)
        for k, e in enumerate(els):
            p = ptr_at(s, s.out, Ptr('t'), base + 32 * k)
            n = int_at(s, s.out, Ptr('t'), base + 32 * k + 8, 8)
            b = bytes_at(s, s.out, p, n) if isinstance(p, Ptr) and n is not None else None
            c.ob(key + ' element %d: text' % k, b == e.encode(), '%r' % b, 'SetReflectedArray')
    for t, els in (('{abc, a text that does not fit into the string}', ['abc', 'a text that does not fit into the string']), ('{one,two, three}', ['one', 'two'])):
        s, st = r.set('T2', 'astr', t)
        key = 'T2::astr = "%s"' % t
        r.code(key, s, ['None'] if len(els) == t.count(',') + 1 else ['OutOfRange'])
        r.only(key, st, base, base + 64)
        for k, e in enumerate(els):
            p = ptr_at(s, s.out, Ptr('t'), base + 32 * k)
            n = int_at(s, s.out, Ptr('t'), base + 32 * k + 8, 8)
            b = bytes_at(s, s.out, p, n) if isinstance(p, Ptr) and n is not None else None
            c.ob(key + ' element %d: text' % k, b == e.encode(), '%r' % b, 'SetReflectedArray')


def history(c, r):
    """what was set before does not matter"""
    keep = r.reg
    seq = [('T2', 'ff', 'efb | efd', 1 << 31 | 1 << 63), ('T', 'fl32', 'e8b|e8d', 1 << 1 | 1 << 8), ('T', 'e32', 'e32e', 6), ('T2', 'ff', 'NULL', 0), ('T', 'e8', 'e8c', 7),
           ('T2', 'ff', 'efc', 1 << 32), ('T', 'fl64', 'e8d | e8a', 1 << 8 | 1), ('T', 'e64', 'e64b', 0x123456789b), ('T', 'i16', '77', 77), ('T', 'e32', 'e32h', 101)]
    try:
        for cl, nm, t, v in seq + seq[::-1]:
            off = r.lay[cl][nm]
            n = SIZE[[y for y in CLASSES[cl] if y[0] == nm][0][3]]
            s, st = r.set(cl, nm, t, constants=True)
            key = '%s::%s = "%s" after others' % (cl, nm, t)
            r.code(key, s, ['None'])
            r.only(key, st, off, off + n)
            r.value(key, s, off, s.const(v, 8 * n))
            r.reg = s.out
    finally:
        r.reg = keep


def run(c):
    c.rule('Bit-provenance dataflow through the text setters with strtol/strtod as unknown conversions of their digits: per member and text shape, the stored bits must be the '
           'converted number (or its clamped limit), the flag, enumerator or characters; stores outside of the addressed member or at an index past the end must not exist; the result code is the documented one.')
    c.assumption('strto* convert as the C standard says; text shapes are enumerated, numbers are unknown')
    r = Rig(c)
    for f in (scalars, indices, booleans, enums, flags, bitfields, arrays, strings, history):
        with c.part(f.__name__):
            f(c, r)
    c.unit('R03 driver (reflector.cpp)', r.m)
