"""Algebraic value numbering of float terms: every 32/64-bit word the dataflow produced
from float operations is normalised to a polynomial over its leaf words with exact
rational coefficients (rounding, NaN and signed zero are abstracted away; float and
double are one field).  Divisions, roots and everything else become leaf functions of
normalised arguments, so two computations compare equal iff they agree as formulas,
however they are associated, ordered or vectorised."""
import struct
from fractions import Fraction
from prov import Word, Vec, Unsupported


class FAlg:
    def __init__(self, ctx):
        self.c = ctx
        self.leaf = {}
        self.names = []
        self.cache = {}
        self.bcache = {}
        self.bits = False      # expand words of known exponent and converted integers over their bits
        self.assume = None     # (kind, difference) -> 0/1/None: sign conditions known in this partition

    def atom(self, key):
        i = self.leaf.get(key)
        if i is None:
            i = len(self.names)
            self.leaf[key] = i
            self.names.append(key)
        return {((i, 1),): Fraction(1)}

    # polynomials: {((atom, exp), ...): coefficient}
    @staticmethod
    def pconst(v):
        return {(): Fraction(v)} if v else {}

    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, v in b.items():
            x = r.get(m, 0) + k * v
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        r = {}
        for m, v in a.items():
            for n, w in b.items():
                d = dict(m)
                for x, e in n:
                    d[x] = d.get(x, 0) + e
                q = tuple(sorted((x, e) for x, e in d.items() if e))
                z = r.get(q, 0) + v * w
                if z:
                    r[q] = z
                else:
                    r.pop(q, None)
        # sqrt(x)^2 = x
        for q in list(r):
            for x, e in q:
                k = self.names[x]
                if k[0] == 'sqrt' and abs(e) >= 2 and e > 0:
                    v = r.pop(q)
                    rest = {tuple((y, f) for y, f in q if y != x): v}
                    if e % 2:
                        rest = self.pmul(rest, {((x, 1),): Fraction(1)})
                    for _ in range(e // 2):
                        rest = self.pmul(rest, dict(k[1]))
                    r = self.padd(r, rest)
                    break
        return r

    @staticmethod
    def key(p):
        return tuple(sorted(p.items()))

    def pinv(self, p):
        if not p:
            return self.atom(('inv', ()))
        if len(p) == 1:
            (m, v), = p.items()
            return {tuple((x, -e) for x, e in m): 1 / v}
        k = self.key(p)
        lead = k[0][1]
        return {m: v / lead for m, v in self.atom(('inv', self.key({m: v / lead for m, v in p.items()}))).items()}

    def fn(self, name, *args):
        return self.atom((name,) + tuple(self.key(a) for a in args))

    def bit(self, l):
        if l <= 1:
            return self.pconst(l)
        a = self.atom(('bit', l & ~1))
        return self.padd(self.pconst(1), a, -1) if l & 1 else a

    def bitsum(self, w, top=1, scale=1):
        r = {}
        for i, l in enumerate(w):
            k = Fraction(2) ** i * scale
            r = self.padd(r, self.bit(l), k * top if i == len(w) - 1 else k)
        return r

    def nonneg(self, p):
        return all(v >= 0 for v in p.values()) and all(self.names[x][0] == 'bit' for m in p for x, _ in m)

    # -- words
    def term_of(self, w):
        """(term, negated top bit) if the word is all bits of one term"""
        l = w[0]
        if l <= 1 or l & 1:
            return None
        k = self.c.keys[l >> 1]
        if k[0] != 'a' or k[2] != 0:
            return None
        at = self.c.atoms(k[1], len(w))
        if w == at:
            return k[1], 0
        if tuple(w[:-1]) == tuple(at[:-1]) and w[-1] == at[-1] ^ 1:
            return k[1], 1
        return None

    def poly(self, w):
        p = self.cache.get(w)
        if p is None:
            p = self._poly(w)
            self.cache[w] = p
        return p

    def _poly(self, w):
        v = self.c.cval(w)
        if v is not None:
            if len(w) == 32:
                f = struct.unpack('<f', struct.pack('<I', v))[0]
            else:
                f = struct.unpack('<d', struct.pack('<Q', v))[0]
            if f != f or f in (float('inf'), float('-inf')):
                return self.atom(('special', v, len(w)))
            return self.pconst(Fraction(f))
        t = self.term_of(w)
        if t is None and self.bits and len(w) == 32 and w[31] <= 1:
            e = self.c.cval(Word(w[23:31]))
            if e is not None and 0 < e < 255:
                p = self.padd(self.pconst(Fraction(2) ** (e - 127)), self.bitsum(w[:23]), Fraction(2) ** (e - 127 - 23))
                return {m: -v for m, v in p.items()} if w[31] else p
            a = self.c.keys[w[0] >> 1]
            if a[0] == 'a' and a[2] == 0 and not w[0] & 1:
                at = self.c.atoms(a[1], 32)
                if tuple(at[:31]) == tuple(w[:31]):
                    p = self.poly(at)
                    if self.nonneg(p):
                        return {m: -v for m, v in p.items()} if w[31] else p
        if t is None:
            b = self.cbits(w)
            if b != w and (self.term_of(b) or self.c.cval(b) is not None or b[-1] & 1):
                return self.poly(b)
            if b[-1] & 1 and b[-1] > 1:
                return {m: -v for m, v in self.poly(Word(list(b[:-1]) + [b[-1] ^ 1])).items()}
            return self.atom(('w', b))
        term, neg = t
        k = self.c.terms[term]
        p = None
        if k[0] == 'op':
            n = k[2]
            if n == 'poly':
                p = dict(k[3])
            elif self.bits and n in ('uitofp*', 'sitofp*'):
                p = self.bitsum(k[3], -1 if n[0] == 's' else 1)
            elif n in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x, y = self.poly(k[3]), self.poly(k[4])
                if n == 'fadd':
                    p = self.padd(x, y)
                elif n == 'fsub':
                    p = self.padd(x, y, -1)
                elif n == 'fmul':
                    p = self.pmul(x, y)
                else:
                    p = self.pmul(x, self.pinv(y))
            elif n in ('fpext', 'fptrunc') and len(k) == 4:
                p = self.poly(k[3])
            elif n in ('llvm.fmuladd', 'llvm.fma'):
                p = self.padd(self.pmul(self.poly(k[3]), self.poly(k[4])), self.poly(k[5]))
            elif isinstance(n, str) and (n in ('llvm.sqrt', 'sqrt', 'sqrtf') or n.startswith('call:sqrt')):
                a = self.poly(k[3])
                p = self.fn('sqrt', a)
            elif n == 'call' and k[3] in ('sqrt', 'sqrtf', 'std::sqrt(float)'):
                p = self.fn('sqrt', self.poly(k[4]))
            elif n in ('llvm.pow', 'pow') and self.c.cval(k[4]) is not None and self.poly(k[4]) == self.pconst(2):
                a = self.poly(k[3])
                p = self.pmul(a, a)
        if p is None:
            p = self.atom(('t', term))
        if neg:
            p = {m: -v for m, v in p.items()}
        return p

    def cbits(self, w):
        return Word(self.lit(l) for l in w)

    # -- literals: comparisons of floats become sign conditions on normalised differences
    def lit(self, l):
        n = l >> 1
        r = self.bcache.get(n)
        if r is None:
            k = self.c.keys[n]
            if n == 0:
                r = 0
            elif k[0] == 'a':
                t = self.c.terms[k[1]]
                r = 2 * n
                if t[0] == 'op' and isinstance(t[2], str):
                    if t[2].startswith('fcmp_') and t[2] in ('fcmp_olt', 'fcmp_ole'):
                        d = self.padd(self.poly(t[4]), self.poly(t[3]), -1)
                        r = self.sign('pos' if t[2] == 'fcmp_olt' else 'nonneg', d)
                    elif t[2] in ('fcmp_oeq', 'fcmp_one'):
                        d = self.padd(self.poly(t[4]), self.poly(t[3]), -1)
                        r = self.sign('zero', d) ^ (t[2] == 'fcmp_one')
                    elif t[2] in ('fadd', 'fsub', 'fmul', 'fdiv') and t[1] in (32, 64):
                        r = self.c.op(t[1], 'poly', self.key(self.poly(self.c.atoms(k[1], t[1]))))[k[2]]
            else:
                f = self.c.AND if k[0] == '&' else self.c.XOR
                r = 1 if k[0] == '&' else 0
                for x in k[1]:
                    r = f(r, self.lit(x))
            self.bcache[n] = r
        return r ^ (l & 1)

    def sign(self, kind, d):
        """literal for d > 0 ('pos'), d >= 0 ('nonneg'), d == 0 ('zero')"""
        if self.assume:
            v = self.assume(kind, d)
            if v is not None:
                return v
        if not d:
            return int(kind != 'pos')
        if len(d) == 1 and () in d:
            return int({'pos': d[()] > 0, 'nonneg': d[()] >= 0, 'zero': False}[kind])
        if kind == 'zero':
            d2 = {m: -v for m, v in d.items()}
            return self.c.op(1, kind, min(self.norm(d), self.norm(d2)))[0]
        return self.c.op(1, kind, self.norm(d))[0]

    def assume_sign(self, facts):
        """facts: list of (polynomial, sign in -1/0/1)"""
        def f(kind, d):
            for p, sg in facts:
                if not d or set(d) != set(p):
                    continue
                r = {d[m] / p[m] for m in p}
                if len(r) != 1:
                    continue
                k = r.pop()
                x = sg if k > 0 else -sg
                return int({'pos': x > 0, 'nonneg': x >= 0, 'zero': x == 0}[kind])
            return None
        self.assume = f
        self.cache.clear()
        self.bcache.clear()

    def norm(self, d):
        """difference scaled by a positive constant"""
        if not d:
            return ()
        k = self.key(d)
        s = abs(k[0][1])
        return tuple((m, v / s) for m, v in k)

    def show(self, p):
        r = []
        for m, v in sorted(p.items(), key=lambda x: str(x)):
            s = str(v)
            for x, e in m:
                k = self.names[x]
                if k[0] == 'w':
                    n = self.c.show(k[1][0])
                elif k[0] == 't':
                    n = self.c.show(self.c.atoms(k[1], 1)[0])
                else:
                    n = k[0] + '(..)'
                s += '*' + n.replace('[0]', '') + ('^%d' % e if e != 1 else '')
            r.append(s)
        return ' + '.join(r) or '0'

    def eq(self, got, want):
        """two words (or a word and a polynomial): (equal?, text)"""
        g = self.poly(Word(got)) if isinstance(got, (tuple, list)) else got
        w = self.poly(Word(want)) if isinstance(want, (tuple, list)) else want
        if g == w:
            return True, ''
        return False, 'is %s, required %s' % (self.show(g)[:200], self.show(w)[:200])
