"""Bit-provenance dataflow over LLVM IR.

Abstract values are bit vectors whose bits are hash-consed boolean nodes over
"atoms" (bit i of an input, or bit i of an uninterpreted operation such as fadd of
two given values), memory is a map object -> byte cells, and control flow with an
unknown condition is merged at the immediate post-dominator (both arms are joined,
no path is enumerated or handed to a solver).  Everything is a forward dataflow
over the functions of one module; nothing is run."""
import re
import struct
from ir import AnalysisBroken, NoReturn, loc_str, term_succs


class Unsupported(AnalysisBroken):
    pass


class Word(tuple):
    __slots__ = ()


class Vec(tuple):
    __slots__ = ()


class Agg(tuple):
    __slots__ = ()


class Ptr:
    __slots__ = ('base', 'off', 'sym', '_h')

    def __init__(self, base, off=0, sym=()):
        self.base = base
        self.off = off
        self.sym = sym
        self._h = hash((base, off, sym))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self._h == o._h and self.base == o.base and self.off == o.off and self.sym == o.sym

    def __repr__(self):
        return 'Ptr(%s+%d%s)' % (str(self.base)[:60], self.off, '+sym' if self.sym else '')


class Ctx:
    """Hash-consed boolean nodes.  A literal is 2*node+negated; 0=false, 1=true."""

    def __init__(self):
        self.keys = [('const',)]
        self.tab = {}
        self.terms = []
        self.ttab = {}
        self._deps = {0: frozenset()}
        self._tdeps = {}
        self._same = {}

    # -- nodes
    def node(self, key):
        n = self.tab.get(key)
        if n is None:
            n = len(self.keys)
            self.keys.append(key)
            self.tab[key] = n
        return n

    def term(self, *key):
        t = self.ttab.get(key)
        if t is None:
            t = len(self.terms)
            self.terms.append(key)
            self.ttab[key] = t
        return t

    def atoms(self, t, width):
        return Word(2 * self.node(('a', t, i)) for i in range(width))

    def inp(self, name, width):
        return self.atoms(self.term('in', name), width)

    def op(self, width, *key):
        return self.atoms(self.term('op', width, *key), width)

    def AND(self, a, b):
        if a == 0 or b == 0 or a == b ^ 1:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        s = set()
        for x in (a, b):
            if not x & 1 and self.keys[x >> 1][0] == '&':
                s |= self.keys[x >> 1][1]
            else:
                s.add(x)
        for x in s:
            if x ^ 1 in s:
                return 0
        # absorption: a & !(a & y) = a & !y
        changed = True
        while changed:
            changed = False
            for x in list(s):
                if x & 1 and self.keys[x >> 1][0] == '&':
                    inner = self.keys[x >> 1][1]
                    common = inner & s
                    if common:
                        rest = inner - s
                        s.discard(x)
                        r = 1
                        for y in rest:
                            r = self.AND(r, y)
                        r ^= 1
                        if r == 0:
                            return 0
                        if r != 1:
                            if not r & 1 and self.keys[r >> 1][0] == '&':
                                s |= self.keys[r >> 1][1]
                            else:
                                s.add(r)
                        changed = True
                        break
                    if any((y ^ 1) in s for y in inner):
                        s.discard(x)
                        changed = True
                        break
            for x in s:
                if x ^ 1 in s:
                    return 0
        if len(s) == 0:
            return 1
        if len(s) == 1:
            return next(iter(s))
        return 2 * self.node(('&', frozenset(s)))

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def XOR(self, a, b):
        neg = (a & 1) ^ (b & 1)
        a &= ~1
        b &= ~1
        if a == b:
            return neg
        if a == 0:
            return b ^ neg
        if b == 0:
            return a ^ neg
        s = set()
        for x in (a, b):
            k = self.keys[x >> 1]
            if k[0] == '^':
                s ^= k[1]
            else:
                s ^= {x}
        if not s:
            return neg
        if len(s) == 1:
            return next(iter(s)) ^ neg
        return 2 * self.node(('^', frozenset(s))) ^ neg

    def ITE(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1:
            return self.OR(c, b)
        if a == 0:
            return self.AND(c ^ 1, b)
        if b == 1:
            return self.OR(c ^ 1, a)
        if b == 0:
            return self.AND(c, a)
        if a == b ^ 1:
            return self.XOR(c, b)
        return self.OR(self.AND(c, a), self.AND(c ^ 1, b))

    # -- dependencies: set of leaf atoms (term, idx) a literal may depend on
    def deps(self, lit):
        n = lit >> 1
        d = self._deps.get(n)
        if d is not None:
            return d
        k = self.keys[n]
        if k[0] == 'a':
            t = self.terms[k[1]]
            if t[0] == 'op':
                d = self.tdeps(k[1])
            else:
                d = frozenset([(k[1], k[2])])
        else:
            d = frozenset().union(*[self.deps(x) for x in k[1]])
        self._deps[n] = d
        return d

    def tdeps(self, t):
        d = self._tdeps.get(t)
        if d is None:
            s = set()
            self._collect(self.terms[t][2:], s)
            d = frozenset(s)
            self._tdeps[t] = d
        return d

    def _collect(self, x, s):
        if isinstance(x, Word):
            for l in x:
                s |= self.deps(l)
        elif isinstance(x, Ptr):
            self._collect(x.base, s)
            self._collect(x.sym, s)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                self._collect(y, s)

    def leaf_name(self, d):
        return '%s.%d' % (self.terms[d[0]][1] if self.terms[d[0]][0] == 'in' else self.terms[d[0]], d[1])

    def show(self, lit):
        n = lit >> 1
        k = self.keys[n]
        neg = '!' if lit & 1 else ''
        if n == 0:
            return '1' if lit else '0'
        if k[0] == 'a':
            t = self.terms[k[1]]
            if t[0] == 'op':
                return neg + '%s(..)[%d]' % (t[2], k[2])
            return neg + '%s[%d]' % (t[1], k[2])
        return neg + k[0] + '(' + ','.join(sorted(self.show(x) for x in k[1]))[:120] + ')'

    # -- truth-table comparison of two boolean functions of few atoms
    def support(self, lit):
        seen = set()
        at = set()
        st = [lit >> 1]
        while st:
            n = st.pop()
            if n in seen or n == 0:
                continue
            seen.add(n)
            k = self.keys[n]
            if k[0] == 'a':
                at.add(n)
            else:
                st += [x >> 1 for x in k[1]]
        return at

    def same(self, a, b, limit=18):
        if a == b:
            return True
        if a >> 1 == b >> 1:
            return False
        r = self._same.get((a, b))
        if r is None:
            r = self._same[(a, b)] = self.same_(a, b, limit)
        return r

    def same_(self, a, b, limit):
        at = sorted(self.support(a) | self.support(b))
        if len(at) > limit:
            return self.same_many(a, b, at)
        nb = 1 << len(at)
        full = (1 << nb) - 1
        val = {0: 0}
        for j, n in enumerate(at):
            # column j of a truth table with nb rows
            blk = (1 << (1 << j)) - 1
            col = 0
            step = 1 << (j + 1)
            for r in range(1 << j, nb, step):
                col |= blk << r
            val[n] = col

        def ev(n):
            v = val.get(n)
            if v is not None:
                return v
            k = self.keys[n]
            if k[0] == '&':
                v = full
                for x in k[1]:
                    y = ev(x >> 1)
                    v &= (full ^ y) if x & 1 else y
            else:
                v = 0
                for x in k[1]:
                    y = ev(x >> 1)
                    v ^= (full ^ y) if x & 1 else y
            val[n] = v
            return v
        va = ev(a >> 1) ^ (full if a & 1 else 0)
        vb = ev(b >> 1) ^ (full if b & 1 else 0)
        return va == vb

    def linear(self, l):
        """(atom set, constant) of a literal that is an exclusive or of atoms, else None"""
        k = self.keys[l >> 1]
        if l <= 1:
            return frozenset(), l
        if k[0] == 'a':
            return frozenset((l >> 1,)), l & 1
        if k[0] != '^':
            return None
        r, c = frozenset(), l & 1
        for x in k[1]:
            y = self.linear(x)
            if y is None:
                return None
            r ^= y[0]
            c ^= y[1]
        return r, c

    def conj(self, l):
        """list of linear factors of a conjunction, else None"""
        y = self.linear(l)
        if y is not None:
            return [y]
        if l & 1 or self.keys[l >> 1][0] != '&':
            return None
        r = []
        for x in self.keys[l >> 1][1]:
            y = self.conj(x)
            if y is None:
                return None
            r += y
        return r

    @staticmethod
    def implied(fs, hyp):
        """do the linear equations hyp (each true) imply every one of fs?"""
        base = {}

        def red(st, c):
            st = set(st)
            while True:
                for x in st:
                    if x in base:
                        st ^= base[x][0]
                        c ^= base[x][1]
                        break
                else:
                    return frozenset(st), c
        for st, c in hyp:
            st, c = red(st, c ^ 1)        # equation: sum = c
            if not st:
                if c:
                    return True           # the hypothesis is contradictory
                continue
            base[next(iter(st))] = (st, c)
            for k in list(base):
                if base[k][0] != st and next(iter(st)) in base[k][0]:
                    base[k] = (base[k][0] ^ st, base[k][1] ^ c)
        for st, c in fs:
            st, c = red(st, c ^ 1)
            if st or c:
                return False
        return True

    def same_many(self, a, b, at):
        """too many atoms for a truth table: a pseudo-random valuation that separates the
        two functions refutes equality; otherwise there is no verdict"""
        for k in (0, 1):
            fa, fb = self.conj(a ^ k), self.conj(b ^ k)
            if fa is not None and fb is not None:
                return self.implied(fa, fb) and self.implied(fb, fa)
        import random
        rnd = random.Random(12345)
        nb = 1 << 13
        full = (1 << nb) - 1
        val = {0: 0}
        for j, n in enumerate(at):
            # balanced, rarely-set and rarely-clear columns in different row blocks
            u, v, w, x = (rnd.getrandbits(nb) for _ in range(4))
            third = nb // 3
            m1, m2 = (1 << third) - 1, ((1 << third) - 1) << third
            val[n] = (u & ~(m1 | m2)) | (u & v & w & x & m1) | ((u | v | w | x) & m2)

        def ev(n):
            st = [n]
            while st:
                n = st[-1]
                if n in val:
                    st.pop()
                    continue
                k = self.keys[n]
                todo = [x >> 1 for x in k[1] if x >> 1 not in val]
                if todo:
                    st += todo
                    continue
                if k[0] == '&':
                    v = full
                    for x in k[1]:
                        y = val[x >> 1]
                        v &= (full ^ y) if x & 1 else y
                else:
                    v = 0
                    for x in k[1]:
                        y = val[x >> 1]
                        v ^= (full ^ y) if x & 1 else y
                val[n] = v
                st.pop()
        ev(a >> 1)
        ev(b >> 1)
        if val[a >> 1] ^ (full if a & 1 else 0) != val[b >> 1] ^ (full if b & 1 else 0):
            return False
        x, y = self.diagram(a, b)
        if x is not None and y is not None:
            return x == y
        raise Unsupported('equality of two boolean terms over %d atoms is beyond the domain' % len(at))

    def diagram(self, *lits, limit=150000):
        """canonical ordered decision diagrams of literals (None: too large)"""
        order, seen = {}, set()
        st = [l >> 1 for l in lits][::-1]
        while st:
            n = st.pop()
            if n in seen or n == 0:
                continue
            seen.add(n)
            k = self.keys[n]
            if k[0] == 'a':
                order[n] = len(order)
            else:
                st += [x >> 1 for x in k[1]][::-1]
        nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        uniq, memo = {}, {}

        def mk(v, lo, hi):
            if lo == hi:
                return lo
            k = (v, lo, hi)
            r = uniq.get(k)
            if r is None:
                r = uniq[k] = len(nodes)
                nodes.append(k)
                if r > limit:
                    raise OverflowError
            return r

        def apply(op, x, y):
            if op == 0:
                if x == 0 or y == 0:
                    return 0
                if x == 1 or x == y:
                    return y
                if y == 1:
                    return x
            else:
                if x == y:
                    return 0
                if x == 0:
                    return y
                if y == 0:
                    return x
            if x > y:
                x, y = y, x
            k = (op, x, y)
            r = memo.get(k)
            if r is not None:
                return r
            vx, lx, hx = nodes[x]
            vy, ly, hy = nodes[y]
            v = min(vx, vy)
            if vx != v:
                lx = hx = x
            if vy != v:
                ly = hy = y
            r = memo[k] = mk(v, apply(op, lx, ly), apply(op, hx, hy))
            if len(memo) > 8 * limit:
                raise OverflowError
            return r
        val = {0: 0}
        try:
            for l in lits:
                st = [l >> 1]
                while st:
                    n = st[-1]
                    if n in val:
                        st.pop()
                        continue
                    k = self.keys[n]
                    if k[0] == 'a':
                        val[n] = mk(order[n], 0, 1)
                        st.pop()
                        continue
                    todo = [x >> 1 for x in k[1] if x >> 1 not in val]
                    if todo:
                        st += todo
                        continue
                    op = 0 if k[0] == '&' else 1
                    v = 1 - op
                    for x in k[1]:
                        y = val[x >> 1]
                        v = apply(op, v, apply(1, y, 1) if x & 1 else y)
                    val[n] = v
                    st.pop()
        except (OverflowError, RecursionError):
            return [None] * len(lits)
        return [apply(1, val[l >> 1], 1) if l & 1 else val[l >> 1] for l in lits]

    # -- words
    @staticmethod
    def cw(v, w):
        return Word((v >> i) & 1 for i in range(w))

    @staticmethod
    def cval(w):
        """constant value of a word or None"""
        r = 0
        for i, l in enumerate(w):
            if l > 1:
                return None
            r |= l << i
        return r

    def add(self, a, b, cin=0):
        w = len(a)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.cw((ca + cb) & ((1 << w) - 1), w)
        if ca == 0:
            return b
        if cb == 0:
            return a
        if all(x == 0 or y == 0 for x, y in zip(a, b)):
            return Word(x if y == 0 else y for x, y in zip(a, b))
        if w == 1:
            return Word([self.XOR(a[0], b[0])])
        # few unknown bits in total: exact ripple carry
        if len(set().union(*[self.support(x) for x in a + b])) <= 12:
            c = 0
            out = []
            for x, y in zip(a, b):
                xy = self.XOR(x, y)
                out.append(self.XOR(xy, c))
                c = self.OR(self.AND(x, y), self.AND(c, xy))
            return Word(out)
        return self.lin(w, self.linof(a), self.linof(b))

    def linof(self, a):
        """word -> (dict term-word -> coeff, const)"""
        w = len(a)
        c = self.cval(a)
        if c is not None:
            return {}, c
        l0 = a[w - 1]
        if not l0 & 1:
            k = self.keys[l0 >> 1]
            if k[0] == 'a' and k[2] == w - 1 and self.terms[k[1]][:3] == ('op', w, 'lin'):
                t = self.terms[k[1]]
                if a == self.linword(w, t[3], t[4]):
                    return dict(t[3]), t[4]
        # a sum whose range fixes its upper bits
        n = w
        while a[n - 1] < 2:
            n -= 1
        if n < w and not a[n - 1] & 1:
            k = self.keys[a[n - 1] >> 1]
            if k[0] == 'a' and k[2] == n - 1 and self.terms[k[1]][:3] == ('op', n, 'lin'):
                t = self.terms[k[1]]
                d = {Word(list(x) + [0] * (w - n)): v for x, v in t[3]}
                c0 = t[4] | self.cval(a[n:]) << n
                if self.lin(w, (d, c0), ({}, 0)) == a:
                    return d, c0
        # known one bits go to the constant, trailing zero bits to the coefficient
        c0 = 0
        for i, l in enumerate(a):
            if l == 1:
                c0 |= 1 << i
        if c0:
            a = Word(0 if l == 1 else l for l in a)
        tz = 0
        while a[tz] == 0:
            tz += 1
        if tz:
            a = Word(list(a[tz:]) + [0] * tz)
        return {a: 1 << tz}, c0


    def lin(self, w, x, y, sy=1):
        m = (1 << w) - 1
        d = dict(x[0])
        for k, v in y[0].items():
            d[k] = (d.get(k, 0) + sy * v) & m
        d = {k: v & m for k, v in d.items() if v & m}
        c = (x[1] + sy * y[1]) & m
        if not d:
            return self.cw(c, w)
        if len(d) == 1:
            (k, v), = d.items()
            if v & (v - 1) == 0:
                s = v.bit_length() - 1
                r = ([0] * s + list(k))[:w]
                if all(not (c >> i) & 1 or r[i] == 0 for i in range(w)):
                    return Word(1 if (c >> i) & 1 else r[i] for i in range(w))
        return self.linword(w, frozenset(d.items()), c)

    def linword(self, w, d, c):
        hi = c
        for x, v in d:
            hi += v * sum(1 << i for i, l in enumerate(x) if l)
            if hi >> w:
                break
        else:
            n = (c ^ hi).bit_length()
            if n < w:
                # the range of the sum fixes its upper bits
                d2 = {}
                for x, v in d:
                    d2[Word(x[:n])] = v
                return Word(list(self.lin(n, (d2, c & ((1 << n) - 1)), ({}, 0))) + [(c >> i) & 1 for i in range(n, w)])
        k = min((v & -v).bit_length() - 1 for _, v in d)
        at = self.op(w, 'lin', d, c)
        if k:
            return Word([(c >> i) & 1 for i in range(k)] + list(at[k:]))
        return at

    def sub(self, a, b):
        w = len(a)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.cw((ca - cb) & ((1 << w) - 1), w)
        if cb is not None:
            return self.add(a, self.cw((-cb) & ((1 << w) - 1), w))
        if a == b:
            return self.cw(0, w)
        if ca == (1 << w) - 1:
            return Word(x ^ 1 for x in b)
        if len(set().union(*[self.support(x) for x in a + b])) <= 12:
            c = 1
            out = []
            for x, y in zip(a, b):
                xy = self.XOR(x, y ^ 1)
                out.append(self.XOR(xy, c))
                c = self.OR(self.AND(x, y ^ 1), self.AND(c, xy))
            return Word(out)
        return self.lin(w, self.linof(a), self.linof(b), -1)

    def mul(self, a, b):
        w = len(a)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if ca is not None:
                return self.cw((ca * cb) & ((1 << w) - 1), w)
            if cb == 0:
                return b
            # disjoint partial products?
            r = None
            ok = True
            i = 0
            while cb >> i:
                if (cb >> i) & 1:
                    p = Word(([0] * i + list(a))[:w])
                    if r is None:
                        r = p
                    elif all(x == 0 or y == 0 for x, y in zip(r, p)):
                        r = Word(x if y == 0 else y for x, y in zip(r, p))
                    else:
                        ok = False
                        break
                i += 1
            if ok:
                return r
            d, c = self.linof(a)
            m = (1 << w) - 1
            return self.lin(w, ({k: (v * cb) & m for k, v in d.items()}, (c * cb) & m), ({}, 0))
        x, y = sorted([a, b])
        return self.op(w, 'mul', x, y)

    def eq(self, a, b):
        r = 1
        for x, y in zip(a, b):
            d = self.XOR(x, y)
            if d == 1:
                return 0
        for x, y in zip(a, b):
            r = self.AND(r, self.XOR(x, y) ^ 1)
            if r == 0:
                return 0
        return r

    def ult(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        w = len(a)
        if ca is not None and cb is not None:
            return int(ca < cb)
        if a == b:
            return 0
        if cb == 0:
            return 0
        if ca is not None and ca == (1 << w) - 1:
            return 0
        # decide from the known high bits
        i = w - 1
        while i >= 0 and (a[i] == b[i] or (a[i] <= 1 and b[i] <= 1)):
            if a[i] != b[i]:
                return int(a[i] < b[i])
            i -= 1
        # a shifted interval test: x + k < c
        if cb is not None or ca is not None:
            v, lim = (a, cb) if cb is not None else (b, ca + 1)
            d, k = self.linof(v)
            if k and len(d) == 1 and list(d.values()) == [1]:
                x, = d
                if x != v and not any(l == 1 for l in x):
                    m = (1 << w) - 1
                    lo = -k & m
                    hi = (lo + lim) & m
                    ge = self.ult(x, self.cw(lo, w)) ^ 1
                    lt = self.ult(x, self.cw(hi, w))
                    r = self.AND(ge, lt) if lo <= hi else self.OR(ge, lt)
                    return r if cb is not None else r ^ 1
        if ca is not None or cb is not None or len(set().union(*[self.support(x) for x in a + b])) <= 12:
            # exact comparator from the low end
            lt = 0
            for x, y in zip(a, b):
                d = self.XOR(x, y)
                lt = self.ITE(d, y, lt)
            return lt
        return self.op(1, 'ult', a, b)[0]

    def icmp(self, pred, a, b):
        if pred == 'eq':
            return self.eq(a, b)
        if pred == 'ne':
            return self.eq(a, b) ^ 1
        if pred[0] == 's':
            a = Word(list(a[:-1]) + [a[-1] ^ 1])
            b = Word(list(b[:-1]) + [b[-1] ^ 1])
            pred = 'u' + pred[1:]
        if pred == 'ult':
            return self.ult(a, b)
        if pred == 'ugt':
            return self.ult(b, a)
        if pred == 'uge':
            return self.ult(a, b) ^ 1
        if pred == 'ule':
            return self.ult(b, a) ^ 1
        raise Unsupported('icmp ' + pred)


def tw(t):
    """byte size of a type"""
    k = t[0]
    if k == 'i':
        w = t[1]
        return (w + 7) // 8   # store size
    if k == 'f':
        return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
    if k == 'p':
        return 8
    if k == 'v':
        if t[2][0] == 'i':
            return (t[1] * t[2][1] + 7) // 8
        return t[1] * tw(t[2])
    if k == 'a':
        return t[3]
    if k == 's':
        return t[3]
    raise Unsupported('sizeof %r' % (t,))


OOB = []    # memory errors: (what, instruction, path condition, context)
NACC = [0]  # accesses examined
WANTED = [0]  # ... by evaluations that ask for events
EVENTS = {}  # events recorded, by kind


class Obj:
    """One memory object: byte offset -> cell.  A cell is a tuple of 8 literals or
    ('pf', Ptr, k)."""
    __slots__ = ('cells', 'default', 'ver', 'size', 'freed')

    def __init__(self, default, size=None):
        self.cells = {}
        self.default = default  # name of the leaf the untouched bytes come from
        self.ver = 0
        self.size = size
        self.freed = 0        # literal

    def copy(self):
        o = Obj(self.default, self.size)
        o.cells = dict(self.cells)
        o.ver = self.ver
        o.freed = self.freed
        return o


class Mem:
    def __init__(self):
        self.o = {}
        self.own = set()

    def copy(self):
        m = Mem()
        m.o = dict(self.o)
        self.own = set()
        return m

    def w(self, b):
        if b not in self.own:
            self.o[b] = self.o[b].copy()
            self.own.add(b)
        return self.o[b]


class Arrival:
    __slots__ = ('mem', 'phis', 'ret', 'prev')

    def __init__(self, mem, phis, ret=None):
        self.mem = mem
        self.phis = phis
        self.ret = ret


class Event:
    def __init__(self, **k):
        self.__dict__.update(k)
        EVENTS[self.kind] = EVENTS.get(self.kind, 0) + 1


EXIT = -1


class Interp:
    def __init__(self, mod, ctx=None, budget=400000):
        self.mod = mod
        self.c = ctx or Ctx()
        self.events = []
        self.cond = []
        self.models = []      # [(compiled regex on demangled name, handler)]
        self.budget = budget
        self.unroll = 20       # nested unknown exits of one loop
        self.fresh = 0
        self.nfun = 0
        self.visited = set()  # functions entered
        self.record_access = False
        self._pd = {}
        self.depth = 0
        self.extern = 'event'
        self.nonnull = set()
        self.fcmp_bits = False    # decide float comparisons on their bit patterns
        self.exceptions = False   # follow throws to their handlers
        self.thrown = []          # [(condition, memory, type)] of the call just made
        self.fexc = []            # per active function: exceptions leaving it
        self.fbase = []
        self.caught = []
        self.typeids = {}

    # ------------------------------------------------------------------ values
    def const(self, c):
        k = c[0]
        C = self.c
        if k == 'ci' or k == 'cf':
            return C.cw(int(c[2]), c[1])
        if k == 'null':
            return Ptr('null')
        if k == 'undef':
            return self.undef(c[1], 'undef')
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            el = [self.const(x) for x in c[2]]
            return Vec(el) if c[1][0] == 'v' else Agg(el)
        if k == 'fn':
            return Ptr(('fn', c[1]))
        if k == 'g':
            return Ptr(('g', c[1]), c[2])
        if k == 'ce':
            a = [self.const(x) for x in c[3]]
            if c[1] == 'ptrtoint':
                return self.p2i(a[0], c[2][1])
            if c[1] == 'inttoptr':
                return self.i2p(a[0])
            if c[1] == 'sub':
                return C.sub(a[0], a[1])
            if c[1] == 'trunc':
                return Word(a[0][:c[2][1]])
            if c[1] in ('icmp.ne', 'icmp.eq') and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and not a[0].sym and not a[1].sym:
                # addresses of weak functions: the program is linked with them
                return C.cw(int((a[0] == a[1]) == (c[1] == 'icmp.eq')), 1)
        raise Unsupported('constant %r' % (c,))

    def undef(self, t, name):
        if t[0] in 'if':
            return self.c.inp('undef:' + name, t[1])
        if t[0] == 'p':
            return Ptr(('undef', name))
        if t[0] == 'v':
            return Vec(self.undef(t[2], name) for _ in range(t[1]))
        if t[0] == 'a':
            return Agg(self.undef(t[2], name) for _ in range(t[1]))
        if t[0] == 's':
            return Agg(self.undef(x, name) for x in t[1])
        raise Unsupported('undef %r' % (t,))

    def zero(self, t):
        if t[0] in 'if':
            return self.c.cw(0, t[1])
        if t[0] == 'p':
            return Ptr('null')
        if t[0] == 'v':
            return Vec(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'a':
            return Agg(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 's':
            return Agg(self.zero(x) for x in t[1])
        raise Unsupported('zero %r' % (t,))

    def opaque(self, t, *key):
        """value of type t made of an uninterpreted operation"""
        if t[0] in 'if':
            return self.c.op(t[1], *key)
        if t[0] == 'p':
            return self.i2p(self.c.op(64, *key))
        if t[0] == 'v':
            return Vec(self.opaque(t[2], *key, i) for i in range(t[1]))
        if t[0] == 'a':
            return Agg(self.opaque(t[2], *key, i) for i in range(t[1]))
        if t[0] == 's':
            return Agg(self.opaque(x, *key, i) for i, x in enumerate(t[1]))
        if t[0] == 'void':
            return None
        raise Unsupported('opaque %r' % (t,))

    def freshname(self, p):
        self.fresh += 1
        return '%s#%d' % (p, self.fresh)

    def freshheap(self, k, mem):
        # the memory may come from another evaluation
        while True:
            b = ('heap', self.freshname(k))
            if b not in mem.o:
                return b

    def i2p(self, w):
        c = self.c.cval(w)
        if c == 0:
            return Ptr('null')
        # a word that is exactly the bits of a pointer
        l = w[0]
        if l > 1 and not l & 1:
            k = self.c.keys[l >> 1]
            if k[0] == 'a' and k[2] == 0:
                t = self.c.terms[k[1]]
                if t[0] == 'op' and t[2] == 'p2i' and w == self.c.atoms(k[1], 64):
                    return t[3]
        if c is not None:
            return Ptr('null', c)
        d, k0 = self.c.linof(w)
        base = None
        if len(d) >= 1:
            for cand, coef in d.items():
                if coef == 1 and cand[0] > 1 and not cand[0] & 1:
                    kk = self.c.keys[cand[0] >> 1]
                    if kk[0] == 'a' and self.c.terms[kk[1]][0] == 'op' and self.c.terms[kk[1]][2] == 'p2i':
                        base = (self.c.terms[kk[1]][3], cand)
        if base:
            p, cand = base
            sym = dict(p.sym)
            for k, v in d.items():
                if k != cand:
                    sym[k] = sym.get(k, 0) + (v if v < 1 << 63 else v - (1 << 64))
            off = p.off + (k0 if k0 < 1 << 63 else k0 - (1 << 64))
            return Ptr(p.base, off, tuple(sorted((k, v) for k, v in sym.items() if v)))
        if len(d) == 1 and list(d.values())[0] == 1 and k0:
            off = k0 if k0 < 1 << 63 else k0 - (1 << 64)
            return Ptr(('w', list(d)[0]), off)
        return Ptr(('w', w))

    def p2i(self, p, width=64):
        C = self.c
        if p.base == 'null':
            r = C.cw(p.off & ((1 << 64) - 1), 64)
        elif isinstance(p.base, tuple) and p.base[0] == 'w':
            r = C.add(p.base[1], C.cw(p.off & ((1 << 64) - 1), 64)) if p.off else p.base[1]
        else:
            r = C.op(64, 'p2i', Ptr(p.base, 0))
            if p.off:
                r = C.add(r, C.cw(p.off & ((1 << 64) - 1), 64))
        for w, k in p.sym:
            r = C.add(r, C.mul(w, C.cw(k & ((1 << 64) - 1), 64)))
        return Word(r[:width]) if width <= 64 else Word(list(r) + [0] * (width - 64))

    # ------------------------------------------------------------------ memory
    def obj(self, mem, b):
        if mem is None:
            raise NoReturn('a call whose result is read')
        if b not in mem.o:
            o = None
            if isinstance(b, tuple) and b[0] == 'g':
                g = self.mod.globals.get(b[1])
                o = Obj('g:' + b[1], g['size'] if g else None)
                if g and 'init' in g and (g['const'] or getattr(self, 'globals_initial', False)):
                    self.init_cells(o, 0, g['ty'], g['init'])
                elif b[1] == '__tls_guard' and not getattr(self, 'globals_initial', False):
                    # the thread's variables have been constructed
                    o.cells[0] = (1,) + (0,) * 7
            elif isinstance(b, tuple) and b[0] == 'w':
                o = Obj(('mem', b[1]))
            else:
                o = Obj(('mem', b))
            mem.o[b] = o
            mem.own.add(b)
        return mem.o[b]

    def init_cells(self, o, off, t, c):
        if c[0] == 'zero':
            for i in range(tw(t)):
                o.cells[off + i] = (0,) * 8
            return
        if c[0] == 'agg':
            if t[0] == 's':
                for x, ot, oo in zip(c[2], t[1], t[2]):
                    self.init_cells(o, off + oo, ot, x)
            else:
                es = tw(t[2])
                for i, x in enumerate(c[2]):
                    self.init_cells(o, off + i * es, t[2], x)
            return
        if c[0] == 'undef':
            return
        try:
            v = self.const(c)
        except Unsupported:
            return
        self.put(o, off, t, v)

    def put(self, o, off, t, v):
        k = t[0]
        if k in 'if':
            n = tw(t)
            if k == 'f' and t[1] == 80:
                n = 10
            w = list(v) + [0] * (8 * n - len(v))
            for i in range(n):
                o.cells[off + i] = tuple(w[8 * i:8 * i + 8])
        elif k == 'p':
            if v.base == 'null':
                w = self.c.cw(v.off & ((1 << 64) - 1), 64)
                for i in range(8):
                    o.cells[off + i] = tuple(w[8 * i:8 * i + 8])
            else:
                for i in range(8):
                    o.cells[off + i] = ('pf', v, i)
        elif k == 'v':
            if t[2][0] == 'i' and t[2][1] % 8:
                bits = []
                for x in v:
                    bits += list(x)
                bits += [0] * (-len(bits) % 8)
                for i in range(len(bits) // 8):
                    o.cells[off + i] = tuple(bits[8 * i:8 * i + 8])
                return
            es = tw(t[2])
            for i, x in enumerate(v):
                self.put(o, off + i * es, t[2], x)
        elif k == 'a':
            es = tw(t[2])
            for i, x in enumerate(v):
                self.put(o, off + i * es, t[2], x)
        elif k == 's':
            for x, ot, oo in zip(v, t[1], t[2]):
                self.put(o, off + oo, ot, x)
        else:
            raise Unsupported('store %r' % (t,))

    def cell(self, o, off, base):
        c = o.cells.get(off)
        if c is None:
            d = o.default
            if isinstance(d, str):
                c = self.c.atoms(self.c.term('in', d), 8 * off + 8)[8 * off:] if 0 <= off < 4096 else \
                    self.c.inp('%s@%d' % (d, off), 8)
            else:
                c = self.c.op(8, 'byte', d, off)
            c = tuple(c)
            o.cells[off] = c
        return c

    def bytes_word(self, cells):
        # all fragments of one pointer in order?
        if cells and cells[0][0] == 'pf' and len(cells) == 8 and cells[0][2] == 0:
            p = cells[0][1]
            if all(c[0] == 'pf' and c[1] == p and c[2] == i for i, c in enumerate(cells)):
                return p
        bits = []
        for c in cells:
            if c[0] == 'pf':
                w = self.p2i(c[1])
                bits += w[8 * c[2]:8 * c[2] + 8]
            else:
                bits += c
        return Word(bits)

    def get(self, o, off, t, base):
        k = t[0]
        if k in 'if':
            n = tw(t)
            if k == 'f' and t[1] == 80:
                n = 10
            v = self.bytes_word([self.cell(o, off + i, base) for i in range(n)])
            if isinstance(v, Ptr):
                v = self.p2i(v)
            return Word(v[:t[1]])
        if k == 'p':
            o0 = o.cells.get(off)
            if o0 is None and not any((off + i) in o.cells for i in range(1, 8)):
                p = self.memptr(o, off)
                if p is not None:
                    for i in range(8):
                        o.cells[off + i] = ('pf', p, i)
            v = self.bytes_word([self.cell(o, off + i, base) for i in range(8)])
            return v if isinstance(v, Ptr) else self.i2p(v)
        if k == 'v':
            if t[2][0] == 'i' and t[2][1] % 8:
                n = tw(t)
                v = self.bytes_word([self.cell(o, off + i, base) for i in range(n)])
                return Vec(Word(v[i * t[2][1]:(i + 1) * t[2][1]]) for i in range(t[1]))
            es = tw(t[2])
            return Vec(self.get(o, off + i * es, t[2], base) for i in range(t[1]))
        if k == 'a':
            es = tw(t[2])
            return Agg(self.get(o, off + i * es, t[2], base) for i in range(t[1]))
        if k == 's':
            return Agg(self.get(o, off + oo, ot, base) for ot, oo in zip(t[1], t[2]))
        raise Unsupported('load %r' % (t,))

    def memptr(self, o, off):
        return None

    def access(self, kind, p, n, ins, mem):
        if not p.sym and isinstance(n, int) and n:
            o = mem.o.get(p.base)
            z = o.size if o is not None else None
            if z is None and isinstance(p.base, tuple) and p.base[0] == 'g':
                z = (self.mod.globals.get(p.base[1]) or {}).get('size')
            if z and not 0 <= p.off <= z - n:
                self.unsafe('%s of bytes %d to %d of an object of %d bytes' % (kind, p.off, p.off + n - 1, z), ins)
            elif o is not None and o.freed:
                self.unsafe('%s of memory that was deleted' % kind, ins, o.freed)
        NACC[0] += 1
        if self.record_access:
            WANTED[0] += 1
            self.events.append(Event(kind=kind, ptr=p, size=n, loc=ins, cond=tuple(self.cond)))

    def unsafe(self, what, ins, when=1):
        OOB.append((what, ins, tuple(self.cond) + (when,), self.c))

    def load(self, mem, p, t, ins):
        n = tw(t)
        self.access('load', p, n, ins, mem)
        if p.base == 'null' or (isinstance(p.base, tuple) and p.base[0] in ('undef',)):
            return self.opaque(t, 'badload', self.freshname('b'))
        if isinstance(p.base, tuple) and p.base[0] == 'ite':
            _, c, a, b = p.base
            va = self.load(mem, self.padd(a, p.off, p.sym), t, ins)
            vb = self.load(mem, self.padd(b, p.off, p.sym), t, ins)
            return self.merge_val(c, va, vb)
        o = self.obj(mem, p.base)
        if p.sym:
            r = self.sym_load(o, p, t)
            if r is not None:
                return r
            return self.opaque(t, 'ld', p, o.ver if not (isinstance(p.base, tuple) and p.base[0] == 'g') else 0)
        return self.get(o, p.off, t, p.base)

    def sym_load(self, o, p, t):
        """load at an offset with few unknown bits from a known object: multiplex"""
        if len(p.sym) != 1:
            return None
        w, k = p.sym[0]
        unk = [i for i, l in enumerate(w) if l > 1]
        if len(unk) > 4 or (o.size is None):
            return None
        val = None
        n = tw(t)
        for v in range(1 << len(unk)):
            x = 0
            c = 1
            for i, l in enumerate(w):
                if l <= 1:
                    x |= l << i
            for j, i in enumerate(unk):
                b = (v >> j) & 1
                x |= b << i
                c = self.c.AND(c, w[i] if b else w[i] ^ 1)
            if c == 0:
                continue
            if x >= 1 << (len(w) - 1):
                x -= 1 << len(w)
            off = p.off + x * k
            if off < 0 or off + n > o.size:
                # infeasible or out of bounds
                y = self.opaque(t, 'oob', Ptr(p.base, off))
            else:
                y = self.get(o, off, t, p.base)
            val = y if val is None else self.merge_val(c, y, val)
        return val

    def store(self, mem, p, t, v, ins):
        n = tw(t)
        self.access('store', p, n, ins, mem)
        if isinstance(p.base, tuple) and p.base[0] == 'ite':
            _, c, a, b = p.base
            for cc, q in ((c, a), (c ^ 1, b)):
                q = self.padd(q, p.off, p.sym)
                old = self.load(mem, q, t, ins)
                self.store(mem, q, t, self.merge_val(cc, v, old), ins)
            return
        o = self.obj(mem, p.base)
        o = mem.w(p.base)
        if p.sym:
            o.ver += 1
            self.havoc(mem, p.base)
            return
        self.put(o, p.off, t, v)

    def havoc(self, mem, b):
        self.obj(mem, b)
        o = mem.w(b)
        nm = self.freshname('havoc')
        o.default = ('mem', nm)
        if o.size is not None or True:
            o.cells = {}
        o.ver += 1

    def padd(self, p, off, sym=()):
        if not sym:
            return Ptr(p.base, p.off + off, p.sym)
        d = dict(p.sym)
        for w, k in sym:
            d[w] = d.get(w, 0) + k
        return Ptr(p.base, p.off + off, tuple(sorted((w, k) for w, k in d.items() if k)))

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a == b or c == 1:
            return a
        if c == 0:
            return b
        if isinstance(a, Word) and isinstance(b, Word):
            return Word(self.c.ITE(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Vec):
            return Vec(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Agg):
            return Agg(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return Ptr(('ite', c, a, b))
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, Ptr) and isinstance(b, Word):
            return Word(self.c.ITE(c, x, y) for x, y in zip(self.p2i(a), b))
        if isinstance(b, Ptr) and isinstance(a, Word):
            return Word(self.c.ITE(c, x, y) for x, y in zip(a, self.p2i(b)))
        raise Unsupported('merge %r %r' % (type(a), type(b)))

    def merge_mem(self, c, m1, m2):
        r = m1.copy()
        for b in set(m1.o) | set(m2.o):
            o1 = m1.o.get(b)
            o2 = m2.o.get(b)
            if o1 is o2:
                continue
            if o1 is None or o2 is None:
                # materialised in one arm only
                m = m2 if o1 is None else m1
                have = o2 if o1 is None else o1
                if b in self.arm_local(b) or True:
                    other = Obj(have.default, have.size) if have.ver == 0 else have
                    if have.ver == 0 and isinstance(b, tuple) and b[0] in ('g', 'w'):
                        tmp = Mem()
                        other = self.obj(tmp, b)
                    elif isinstance(b, tuple) and b[0] in ('alloca', 'heap'):
                        other = have
                    if o1 is None:
                        o1 = other
                    else:
                        o2 = other
                if o1 is o2:
                    r.o[b] = o1
                    continue
            n = Obj(o1.default, o1.size if o1.size is not None else o2.size)
            n.ver = max(o1.ver, o2.ver)
            n.freed = self.c.ITE(c, o1.freed, o2.freed) if o1.freed != o2.freed else o1.freed
            if o1.default != o2.default:
                n.default = ('mem', self.freshname('mrg'))
                n.ver += 1
            n.cells = {}
            for off in set(o1.cells) | set(o2.cells):
                c1 = self.cell(o1, off, b)
                c2 = self.cell(o2, off, b)
                if c1 == c2:
                    n.cells[off] = c1
                else:
                    if c1[0] == 'pf' and c2[0] == 'pf' and c1[2] == c2[2]:
                        n.cells[off] = ('pf', Ptr(('ite', c, c1[1], c2[1])), c1[2])
                        continue
                    if c1[0] == 'pf':
                        c1 = tuple(self.p2i(c1[1])[8 * c1[2]:8 * c1[2] + 8])
                    if c2[0] == 'pf':
                        c2 = tuple(self.p2i(c2[1])[8 * c2[2]:8 * c2[2] + 8])
                    n.cells[off] = tuple(self.c.ITE(c, x, y) for x, y in zip(c1, c2))
            r.o[b] = n
            r.own.add(b)
        return r

    def arm_local(self, b):
        return ()

    # ------------------------------------------------------------------ CFG
    def ipdom(self, f):
        pd = self._pd.get(f.name)
        if pd is not None:
            return pd
        n = len(f.blocks)
        succ = []
        for b in range(n):
            t = f.blocks[b][-1]
            s = list(dict.fromkeys(term_succs(t)))
            if t['op'] == 'ret':
                s = [EXIT]
            if t['op'] == 'invoke' and not self.exceptions:
                s = [t['succ'][0]]
            succ.append(s)
        # blocks that can reach EXIT
        reach = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b not in reach and any(s in reach for s in succ[b]):
                    reach.add(b)
                    ch = True
        full = set(reach)
        pds = {b: set(full) for b in reach}
        pds[EXIT] = {EXIT}
        ch = True
        order = sorted((b for b in reach if b != EXIT), reverse=True)
        while ch:
            ch = False
            for b in order:
                ss = [pds[s] for s in succ[b] if s in reach]
                new = set.intersection(*ss) | {b} if ss else {b}
                if new != pds[b]:
                    pds[b] = new
                    ch = True
        res = {}
        for b in order:
            cand = pds[b] - {b}
            # immediate: the one whose pdom set is largest
            res[b] = max(cand, key=lambda x: len(pds[x])) if cand else EXIT
        pd = (res, reach)
        self._pd[f.name] = pd
        return pd

    # ------------------------------------------------------------------ calls
    def call(self, f, args, mem):
        """abstractly evaluates function f; returns (mem, ret) or (None, None)"""
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion in ' + f.dem)
        self.visited.add(f.name)
        self.nfun += 1
        frame = self.nfun
        env = {}
        for a, v in zip(f.args, args):
            env[a['id']] = v
        self.fexc.append([])
        self.fbase.append(len(self.cond))
        ar = self.run(f, env, 0, None, EXIT, mem, frame, {})
        del self.cond[self.fbase.pop():]
        exc = self.fexc.pop()
        self.depth -= 1
        self.thrown = self.merge_exc(exc)
        if ar is None:
            return None, None
        return ar.mem, ar.ret

    # ------------------------------------------------------------------ exceptions
    def pathcond(self):
        c = 1
        for x in self.cond[self.fbase[-1]:]:
            c = self.c.AND(c, x)
        return c

    def merge_exc(self, exc):
        """one entry per type; an earlier throw keeps a later one from happening"""
        out = {}
        seen = 0
        for c, m, t in exc:
            c = self.c.AND(c, seen ^ 1)
            if c == 0:
                continue
            seen = self.c.OR(seen, c)
            if t in out:
                c0, m0 = out[t]
                out[t] = (self.c.OR(c0, c), self.merge_mem(c0, m0, m))
            else:
                out[t] = (c, m)
        return [(c, m, t) for t, (c, m) in out.items()]

    def throw(self, mem, ty):
        self.events.append(Event(kind='throw', type=ty, cond=tuple(self.cond)))
        self.thrown = [(1, mem.copy(), ty)]
        return False

    STD_BASE = {'out_of_range': 'logic_error', 'invalid_argument': 'logic_error', 'length_error': 'logic_error',
                'domain_error': 'logic_error', 'range_error': 'runtime_error', 'overflow_error': 'runtime_error',
                'underflow_error': 'runtime_error', 'logic_error': 'exception', 'runtime_error': 'exception',
                'bad_alloc': 'exception', 'bad_cast': 'exception', 'ios_base::failure': 'runtime_error'}

    def catches(self, clause, ty):
        """does a handler for type `clause` catch an exception of type ty"""
        while ty is not None:
            if clause == ty:
                return True
            m = re.match(r'_ZTISt(\d+)(\w+)$', ty)
            if m:
                b = self.STD_BASE.get(m.group(2))
                ty = '_ZTISt%d%s' % (len(b), b) if b else None
            else:
                g = self.mod.globals.get(ty)
                cur, ty = ty, None
                if g and g.get('init') and g['init'][0] in ('s', 'agg', 'st'):
                    for x in str(g['init']).split("'"):
                        if x.startswith('_ZTI') and x != cur:
                            ty = x
        return False

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def landing(self, i, ty):
        sel = 0
        take = bool(i.get('cleanup'))
        for a, t in zip(i['a'], i['at']):
            if t[0] != 'p':
                continue
            g = self.const(a)
            if isinstance(g, Ptr) and g.base == 'null':
                sel = 0x7fff
                take = True
                break
            if isinstance(g, Ptr) and isinstance(g.base, tuple) and g.base[0] == 'g' and self.catches(g.base[1], ty):
                sel = self.typeid(g.base[1])
                take = True
                break
        return take, Agg([Ptr(('exc', ty)), self.c.cw(sel, 32)])

    def unwinds(self, f, b, ty):
        for i in f.blocks[b]:
            if i['op'] == 'landingpad':
                return self.landing(i, ty)
        raise Unsupported('unwind destination without landing pad')

    def resume(self, v, mem):
        def walk(p, c):
            if isinstance(p.base, tuple) and p.base[0] == 'ite':
                walk(p.base[2], self.c.AND(c, p.base[1]))
                walk(p.base[3], self.c.AND(c, p.base[1] ^ 1))
            elif isinstance(p.base, tuple) and p.base[0] == 'exc':
                self.fexc[-1].append((self.c.AND(c, self.pathcond()), mem.copy(), p.base[1]))
        if isinstance(v, Agg):
            walk(self.ptr(v[0]), 1)

    def val(self, env, o):
        if o[0] == 'v':
            try:
                return env[o[1]]
            except KeyError:
                raise Unsupported('a value that differs in kind between paths')
        return self.const(o)

    def phis(self, f, env, b, prev):
        out = {}
        for i in f.blocks[b]:
            if i['op'] != 'phi':
                break
            for o, pb in i['in']:
                if pb == prev:
                    out[i['i']] = self.val(env, o)
                    break
        return out

    def run(self, f, env, b, prev, stop, mem, frame, pend, lp=None):
        ph = None
        while True:
            if b == stop and prev is not None:
                return Arrival(mem, self.phis(f, env, b, prev) if ph is None else ph)
            blk = f.blocks[b]
            if prev is not None or ph is not None:
                p = self.phis(f, env, b, prev) if ph is None else ph
                env.update(p)
            ph = None
            term = blk[-1]
            for i in blk:
                if i is term and i['op'] not in ('invoke',):
                    break
                if i['op'] == 'phi':
                    continue
                self.budget -= 1
                if self.budget < 0:
                    raise Unsupported('analysis budget exceeded in ' + f.dem)
                if i['op'] == 'landingpad':
                    env[i['i']] = lp
                    continue
                self.thrown = []
                r = self.step(f, env, i, mem, frame)
                if self.exceptions and self.thrown and i['op'] == 'call':
                    pc = self.pathcond()
                    for c, m, t in self.thrown:
                        self.fexc[-1].append((self.c.AND(c, pc), m, t))
                        if c > 1:
                            self.cond.append(c ^ 1)
                if r is not None:
                    if r is False:
                        if i['op'] == 'invoke' and self.exceptions and self.thrown:
                            mem = None
                            break
                        return None       # does not continue (noreturn)
                    mem = r
            op = term['op']
            arms = None
            if op == 'invoke':
                th = self.thrown if self.exceptions else []
                if not th:
                    prev, b = b, term['succ'][0]
                    continue
                self.thrown = []
                rest = 1
                arms = []
                pc = self.pathcond()
                for c, m, t in th:
                    take, v = self.unwinds(f, term['succ'][1], t)
                    rest = self.c.AND(rest, c ^ 1)
                    if take:
                        arms.append((c, term['succ'][1], m, v))
                    else:
                        self.fexc[-1].append((self.c.AND(c, pc), m, t))
                if mem is not None and rest != 0:
                    arms.insert(0, (rest, term['succ'][0], mem, None))
                if not arms:
                    return None
                if len(arms) == 1:
                    c, s, mem, lp = arms[0]
                    if c > 1:
                        self.cond.append(c)
                    prev, b = b, s
                    continue
            elif op == 'br':
                if 'cond' not in term:
                    prev, b = b, term['succ'][0]
                    continue
                c = self.val(env, term['cond'])[0]
                if c <= 1:
                    prev, b = b, term['succ'][0 if c else 1]
                    continue
                arms = [(c, term['succ'][0]), (c ^ 1, term['succ'][1])]
                if term['succ'][0] == term['succ'][1]:
                    prev, b = b, term['succ'][0]
                    continue
            elif op == 'switch':
                v = self.val(env, term['cond'])
                cv = self.c.cval(v)
                if cv is not None:
                    t = term['default']
                    for k, s in term['cases']:
                        if int(k) == cv:
                            t = s
                    prev, b = b, t
                    continue
                arms = []
                rest = 1
                by = {}
                for k, s in term['cases']:
                    e = self.c.eq(v, self.c.cw(int(k), len(v)))
                    by[s] = self.c.OR(by.get(s, 0), e)
                    rest = self.c.AND(rest, e ^ 1)
                by[term['default']] = self.c.OR(by.get(term['default'], 0), rest)
                arms = [(c, s) for s, c in by.items() if c != 0]
                if len(arms) == 1:
                    prev, b = b, arms[0][1]
                    continue
            elif op == 'ret':
                v = self.val(env, term['a'][0]) if term['a'] else None
                if stop == EXIT:
                    return Arrival(mem, {}, v)
                raise Unsupported('ret inside region')
            elif op in ('unreachable', 'resume'):
                if op == 'resume' and self.exceptions:
                    self.resume(self.val(env, term['a'][0]), mem)
                return None
            else:
                raise Unsupported('terminator ' + op)
            # unknown branch: join at the immediate post-dominator
            pdm, reach = self.ipdom(f)
            arms = [x if len(x) == 4 else x + (None, None) for x in arms]
            for _ in arms:
                key = (frame, b)
                pend[key] = pend.get(key, 0)
            if pend[(frame, b)] > self.unroll:
                raise Unsupported('loop with a trip count that depends on input at %s (%s)' % (loc_str(term), f.dem[:80]))
            join = pdm.get(b, EXIT)
            pend[(frame, b)] += 1
            res, envs = [], []
            for c, s, am, lv in arms:
                m = (mem if am is None else am).copy()
                depth = len(self.cond)
                self.cond.append(c)
                e = env.copy()
                if s == join and join != EXIT:
                    ar = Arrival(m, self.phis(f, e, s, b))
                else:
                    ar = self.run(f, e, s, b, join, m, frame, pend, lv)
                del self.cond[depth:]
                if ar is not None:
                    res.append((c, ar))
                    envs.append((c, e))
            pend[(frame, b)] -= 1
            if not res:
                return None
            acc = res[-1][1]
            for c, ar in reversed(res[:-1]):
                mm = self.merge_mem(c, ar.mem, acc.mem)
                pp = {k: self.merge_val(c, ar.phis[k], acc.phis[k]) for k in ar.phis}
                rr = self.merge_val(c, ar.ret, acc.ret) if join == EXIT else None
                acc = Arrival(mm, pp, rr)
            # values (re)defined inside the arms: a loop inside an arm redefines
            # values that are still visible after the join
            e0 = envs[0][1]
            for k in list(e0):
                vs = [e.get(k) for _, e in envs]
                if any(v is not env.get(k) for v in vs):
                    if any(v is None for v in vs):
                        env.pop(k, None)
                        continue
                    x = vs[-1]
                    try:
                        for (c, e), v in list(zip(envs, vs))[-2::-1]:
                            x = x if v is x or v == x else self.merge_val(c, v, x)
                        env[k] = x
                    except Unsupported:
                        env.pop(k, None)
            for k in [k for k in env if k not in e0]:
                del env[k]
            if join == EXIT:
                if stop != EXIT:
                    raise Unsupported('join past region')
                return acc
            mem = acc.mem
            ph = acc.phis
            if join == stop:
                acc.phis = ph
                return acc
            prev, b = b, join

    # ------------------------------------------------------------------ instructions
    def lanes(self, fn, *vs):
        if isinstance(vs[0], Vec):
            return Vec(fn(*x) for x in zip(*vs))
        return fn(*vs)

    def step(self, f, env, i, mem, frame):
        op = i['op']
        C = self.c
        if op == 'load':
            env[i['i']] = self.load(mem, self.ptr(self.val(env, i['a'][0])), i['t'], i)
            return None
        if op == 'store':
            v = self.val(env, i['a'][0])
            self.store(mem, self.ptr(self.val(env, i['a'][1])), i['at'][0], v, i)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw' and i.get('rmw') in ('add', 'sub', 'and', 'or', 'xor', 'xchg', 'nand', 'umax', 'umin'):
            # one step of a sequential history
            p, v = self.ptr(self.val(env, i['a'][0])), self.val(env, i['a'][1])
            old = self.load(mem, p, i['at'][1], i)
            k = i['rmw']
            if k == 'xchg':
                new = v
            else:
                if isinstance(old, Ptr) or isinstance(v, Ptr):
                    raise Unsupported('atomicrmw of a pointer at ' + loc_str(i))
                if k in ('add', 'sub'):
                    new = getattr(C, k)(old, v)
                elif k in ('umax', 'umin'):
                    l = C.ult(old, v)
                    new = Word(C.ITE(l, x, y) if k == 'umin' else C.ITE(l, y, x) for x, y in zip(old, v))
                else:
                    f = {'and': C.AND, 'or': C.OR, 'xor': C.XOR, 'nand': lambda x, y: C.AND(x, y) ^ 1}[k]
                    new = Word(f(x, y) for x, y in zip(old, v))
            self.store(mem, p, i['at'][1], new, i)
            env[i['i']] = old
            return None
        if op == 'cmpxchg':
            p, cmpv, new = (self.val(env, x) for x in i['a'][:3])
            p = self.ptr(p)
            old = self.load(mem, p, i['at'][1], i)
            if isinstance(old, Ptr) or isinstance(cmpv, Ptr):
                old, cmpv = self.p2i(old) if isinstance(old, Ptr) else old, self.p2i(cmpv) if isinstance(cmpv, Ptr) else cmpv
            e = C.eq(old, cmpv)
            if e == 1:
                self.store(mem, p, i['at'][1], new, i)
            elif e != 0:
                self.store(mem, p, i['at'][1], Word(C.ITE(e, x, y) for x, y in zip(self.p2i(new) if isinstance(new, Ptr) else new, old)), i)
            env[i['i']] = Agg([old, Word([e])])
            return None
        if op == 'getelementptr':
            if 'base' not in i:
                raise Unsupported('gep')
            p = self.ptr(self.val(env, i['base']))
            off = i['off']
            sym = []
            for o, sc, t in i['idx']:
                w = self.val(env, o)
                c = C.cval(w)
                if c is not None:
                    if c >= 1 << (len(w) - 1):
                        c -= 1 << len(w)
                    off += c * sc
                else:
                    if len(w) < 64:
                        w = Word(list(w) + [w[-1]] * (64 - len(w)))
                    d, k0 = C.linof(w)
                    if k0 >= 1 << 63:
                        k0 -= 1 << 64
                    off += k0 * sc
                    for ww, kk in d.items():
                        if kk >= 1 << 63:
                            kk -= 1 << 64
                        sym.append((ww, kk * sc))
            env[i['i']] = self.padd(p, off, sym)
            return None
        if op == 'alloca':
            b = ('alloca', frame, i['i'])
            o = Obj('undef:%s' % (b,), i['size'])
            mem.o[b] = o
            mem.own.add(b)
            env[i['i']] = Ptr(b)
            return None
        if op in ('call', 'invoke'):
            return self.do_call(f, env, i, mem, frame)
        a = [self.val(env, x) for x in i.get('a', [])] if op != 'phi' else []
        env[i['i']] = self.pure(op, i, a)
        return None

    def ptr(self, v):
        if isinstance(v, Ptr):
            return v
        return self.i2p(v)

    def pure(self, op, i, a):
        C = self.c
        t = i['t']
        if op in ('and', 'or', 'xor'):
            fn = {'and': C.AND, 'or': C.OR, 'xor': C.XOR}[op]
            return self.lanes(lambda x, y: Word(fn(p, q) for p, q in zip(x, y)), *a)
        if op == 'add':
            return self.lanes(C.add, *a)
        if op == 'sub':
            return self.lanes(C.sub, *a)
        if op == 'mul':
            return self.lanes(C.mul, *a)
        if op in ('shl', 'lshr', 'ashr'):
            return self.lanes(lambda x, y: self.shift(op, x, y), *a)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            def dv(x, y):
                cx, cy = C.cval(x), C.cval(y)
                w = len(x)
                if cx is not None and cy:
                    if op[0] == 's':
                        sx = cx - (1 << w) if cx >> (w - 1) else cx
                        sy = cy - (1 << w) if cy >> (w - 1) else cy
                        q = abs(sx) // abs(sy)
                        if (sx < 0) != (sy < 0):
                            q = -q
                        r = sx - q * sy
                        return C.cw((q if op == 'sdiv' else r) & ((1 << w) - 1), w)
                    return C.cw(cx // cy if op == 'udiv' else cx % cy, w)
                if cy and cy & (cy - 1) == 0 and op[0] == 'u':
                    k = cy.bit_length() - 1
                    if op == 'udiv':
                        return Word(list(x[k:]) + [0] * k)
                    return Word(list(x[:k]) + [0] * (w - k))
                return C.op(w, op, x, y)
            return self.lanes(dv, *a)
        if op in ('trunc',):
            w = (t[2] if t[0] == 'v' else t)[1]
            return self.lanes(lambda x: Word(x[:w]), a[0])
        if op == 'zext':
            w = (t[2] if t[0] == 'v' else t)[1]
            return self.lanes(lambda x: Word(list(x) + [0] * (w - len(x))), a[0])
        if op == 'sext':
            w = (t[2] if t[0] == 'v' else t)[1]
            return self.lanes(lambda x: Word(list(x) + [x[-1]] * (w - len(x))), a[0])
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            if op == 'freeze':
                return a[0]
            return self.bitcast(i['at'][0], t, a[0])
        if op == 'ptrtoint':
            return self.lanes(lambda x: self.p2i(x, (t[2] if t[0] == 'v' else t)[1]), a[0])
        if op == 'inttoptr':
            w = a[0]
            if len(w) < 64:
                w = Word(list(w) + [0] * (64 - len(w)))
            return self.i2p(w)
        if op == 'icmp':
            return self.lanes(lambda x, y: Word([self.icmp(i['pred'], x, y)]), *a)
        if op == 'fcmp':
            return self.lanes(lambda x, y: Word([self.fcmp(i['pred'], x, y)]), *a)
        if op == 'select':
            if isinstance(a[0], Vec):
                return Vec(self.merge_val(c[0], x, y) for c, x, y in zip(*a))
            return self.merge_val(a[0][0], a[1], a[2])
        if op in ('fadd', 'fmul'):
            return self.lanes(lambda x, y: self.fop(op, x, y), *a)
        if op in ('fsub', 'fdiv', 'frem'):
            return self.lanes(lambda x, y: C.op(len(x), op, x, y), *a)
        if op == 'fneg':
            return self.lanes(lambda x: Word(list(x[:-1]) + [x[-1] ^ 1]), a[0])
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            et = t[2] if t[0] == 'v' else t

            def cv(x):
                o2 = op
                k = C.cval(x)
                if k is not None:
                    k = self.fold_cv(op, k, len(x), et[1])
                    if k is not None:
                        return C.cw(k, et[1])
                if op in ('sitofp', 'uitofp'):
                    o2, x = self.normint(op, x)
                return C.op(et[1], o2, x)
            return self.lanes(cv, a[0])
        if op == 'extractelement':
            k = C.cval(a[1])
            if k is None:
                raise Unsupported('variable extractelement')
            return a[0][k]
        if op == 'insertelement':
            k = C.cval(a[2])
            if k is None:
                raise Unsupported('variable insertelement')
            l = list(a[0])
            l[k] = a[1]
            return Vec(l)
        if op == 'shufflevector':
            l = list(a[0]) + list(a[1])
            et = t[2]
            return Vec(l[m] if m >= 0 else self.undef(et, 'shuffle') for m in i['mask'])
        if op == 'extractvalue':
            v = a[0]
            for k in i['ix']:
                v = v[k]
            return v
        if op == 'insertvalue':
            def ins(v, ix):
                l = list(v)
                l[ix[0]] = a[1] if len(ix) == 1 else ins(l[ix[0]], ix[1:])
                return Agg(l)
            return ins(a[0], i['ix'])
        raise Unsupported('instruction %s at %s' % (op, loc_str(i)))

    def fold_cv(self, op, k, n, w):
        """conversion of a constant (None: not folded)"""
        F = {32: '<fI', 64: '<dQ'}
        if op in ('sitofp', 'uitofp'):
            if w not in F:
                return None
            if op[0] == 's' and k >> (n - 1):
                k -= 1 << n
            if abs(k) > 1 << 24:
                return None
            return struct.unpack('<' + F[w][2], struct.pack(F[w][:2], float(k)))[0]
        if op in ('fptosi', 'fptoui') and n in F:
            v = struct.unpack(F[n][:2], struct.pack('<' + F[n][2], k))[0]
            if v != v or abs(v) >= 1 << 62:
                return None
            v = int(v)
            lo, hi = (0, 1 << w) if op == 'fptoui' else (-(1 << (w - 1)), 1 << (w - 1))
            return v & ((1 << w) - 1) if lo <= v < hi else None
        return None

    def normint(self, op, x):
        """sitofp/uitofp normal form: ('itofp', signed?, minimal word)"""
        l = list(x)
        if op == 'sitofp':
            while len(l) > 1 and l[-1] == l[-2]:
                l.pop()
            if l[-1] == 0:
                l.pop()
                return 'uitofp*', Word(l)
            return 'sitofp*', Word(l)
        while l and l[-1] == 0:
            l.pop()
        return 'uitofp*', Word(l)

    def fop(self, op, x, y):
        if y < x:
            x, y = y, x
        r = self.c.op(len(x), op, x, y)
        if op == 'fadd' and len(x) == 32:
            for h, z in ((x, y), (y, x)):
                # 0.5 + z for 0 <= z < 2^-14 is 0.5 plus a multiple of 2^-24 not above 2^-14
                if self.c.cval(h) == 0x3f000000 and self.c.cval(z) is None:
                    e = self.c.cval(Word(z[23:]))
                    if e is not None and e < 113:
                        return Word(list(r[:11]) + list(h[11:]))
        return r

    def shift(self, op, x, y):
        C = self.c
        w = len(x)
        k = C.cval(y)
        if k is None:
            unk = [j for j, l in enumerate(y) if l > 1]
            if len(unk) > 6:
                if op == 'ashr' and x[-1] == 0:
                    op = 'lshr'
                if C.cval(x) == 0:
                    return x
                r = C.op(w, op, x, y)
                # no one bit can appear beyond the operand's own extent
                if op == 'lshr':
                    top = max(j for j in range(w) if x[j] != 0)
                    r = Word(l if j <= top else 0 for j, l in enumerate(r))
                elif op == 'shl':
                    low = min(j for j in range(w) if x[j] != 0)
                    r = Word(l if j >= low else 0 for j, l in enumerate(r))
                return r
            r = x
            for j, l in enumerate(y):
                if l == 0:
                    continue
                s = self.shiftc(op, r, 1 << j) if (1 << j) < w else None
                if s is None:
                    s = C.cw(0, w) if op != 'ashr' else Word([x[-1]] * w)
                r = Word(C.ITE(l, p, q) for p, q in zip(s, r))
            return r
        if k >= w:
            return C.inp('undef:shift', w)
        return self.shiftc(op, x, k)

    def shiftc(self, op, x, k):
        w = len(x)
        if op == 'shl':
            return Word(([0] * k + list(x))[:w])
        if op == 'lshr':
            return Word(list(x[k:]) + [0] * k)
        return Word(list(x[k:]) + [x[-1]] * k)

    def bitcast(self, ft, tt, v):
        def bits(t, v):
            if t[0] == 'v':
                r = []
                for x in v:
                    r += bits(t[2], x)
                return r
            return list(v)
        if ft[0] == 'p':
            return v
        b = bits(ft, v)
        if tt[0] == 'v':
            w = tt[2][1]
            return Vec(Word(b[j * w:(j + 1) * w]) for j in range(tt[1]))
        return Word(b)

    def icmp(self, pred, x, y):
        C = self.c
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            x = self.ptr(x)
            y = self.ptr(y)
            if isinstance(x.base, tuple) and x.base[0] == 'ite' and not x.sym:
                _, c, p, q = x.base
                return C.ITE(c, self.icmp(pred, self.padd(p, x.off), y), self.icmp(pred, self.padd(q, x.off), y))
            if isinstance(y.base, tuple) and y.base[0] == 'ite' and not y.sym:
                _, c, p, q = y.base
                return C.ITE(c, self.icmp(pred, x, self.padd(p, y.off)), self.icmp(pred, x, self.padd(q, y.off)))
            if x == y:
                return int(pred in ('eq', 'uge', 'ule', 'sge', 'sle'))
            if x.base == y.base and x.sym == y.sym:
                a, b = x.off, y.off
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[pred])
            def known(p):
                return isinstance(p.base, tuple) and p.base[0] in ('alloca', 'g', 'heap', 'fn') or p.base in self.nonnull
            if pred in ('eq', 'ne'):
                for p, q in ((x, y), (y, x)):
                    if p.base == 'null' and p.off == 0 and known(q):
                        return int(pred == 'ne')
                if known(x) and known(y) and x.base != y.base:
                    return int(pred == 'ne')
                if x.base == y.base:
                    pass
            if pred in ('ult', 'ule', 'ugt', 'uge') and known(x) and known(y):
                # distinct objects: one lies completely before the other
                a, b = sorted((x.base, y.base), key=repr)
                lt = C.inp('order:%r:%r' % (a, b), 1)[0]
                return lt ^ (pred[1] == 'g') ^ (x.base != a)
            return C.icmp(pred, self.p2i(x), self.p2i(y))
        return C.icmp(pred, x, y)

    FNEG = {'une': 'oeq', 'ugt': 'ole', 'uge': 'olt', 'ult': 'oge', 'ule': 'ogt', 'uno': 'ord', 'ueq': 'one'}

    def fcmp(self, pred, x, y):
        neg = 0
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if pred in self.FNEG:
            pred = self.FNEG[pred]
            neg = 1
        if pred in ('ogt', 'oge'):
            x, y = y, x
            pred = {'ogt': 'olt', 'oge': 'ole'}[pred]
        if self.fcmp_bits and len(x) in (32, 64):
            return self.fcmp_exact(pred, x, y) ^ neg
        if pred in ('oeq', 'ord', 'one') and y < x:
            x, y = y, x
        return self.c.op(1, 'fcmp_' + pred, x, y)[0] ^ neg

    def fcmp_exact(self, pred, x, y):
        """IEEE comparison of binary32/binary64 patterns"""
        C = self.c
        n = len(x)
        e = 23 if n == 32 else 52

        def any_(bs):
            r = 0
            for b in bs:
                r = C.OR(r, b)
            return r

        def nan(w):
            all1 = 1
            for b in w[e:n - 1]:
                all1 = C.AND(all1, b)
            return C.AND(all1, any_(w[:e]))
        ordered = C.AND(nan(x) ^ 1, nan(y) ^ 1)
        if pred == 'ord':
            return ordered
        zero = C.OR(any_(x[:-1]), any_(y[:-1])) ^ 1
        eq = C.OR(zero, C.eq(x, y))
        if pred == 'oeq':
            return C.AND(ordered, eq)
        if pred == 'one':
            return C.AND(ordered, eq ^ 1)
        mx, my = Word(x[:-1]), Word(y[:-1])
        lt = C.ITE(x[-1], C.ITE(y[-1], C.ult(my, mx), zero ^ 1), C.ITE(y[-1], 0, C.ult(mx, my)))
        return C.AND(ordered, C.OR(lt, eq) if pred == 'ole' else lt)

    # ------------------------------------------------------------------ call instr
    def do_call(self, f, env, i, mem, frame):
        C = self.c
        args = [self.val(env, x) if x[0] not in ('unk', 'asm', 'cunk') else None for x in i['a']]
        name = i.get('fn')
        if name is None and i['callee'][0] != 'asm':
            p = self.ptr(self.val(env, i['callee']))
            if isinstance(p.base, tuple) and p.base[0] == 'fn':
                name = p.base[1]
        if name is None:
            return self.extern_call(None, i, args, env, mem)
        if name.startswith('llvm.'):
            return self.intrinsic(name, i, args, env, mem)
        g = self.mod.funcs.get(name)
        dem = g.dem if g else name
        for rx, h in self.models:
            if rx.search(dem):
                r = h(self, dem, i, args, mem)
                if r is NotImplemented:
                    continue
                if r is False:
                    return False
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], Mem):
                    env[i['i']] = r[0]
                    return r[1]
                env[i['i']] = r
                return None
        if self.exceptions:
            r = self.eh_call(name, dem, i, args, env, mem)
            if r is not NotImplemented:
                return r
        if g is None or g.decl:
            return self.extern_call(dem, i, args, env, mem)
        m, r = self.call(g, args, mem)
        if m is None:
            return False
        env[i['i']] = r
        return m

    def eh_call(self, name, dem, i, args, env, mem):
        if name == '__cxa_throw':
            p = self.ptr(args[1])
            return self.throw(mem, p.base[1] if isinstance(p.base, tuple) and p.base[0] == 'g' else '?')
        m = re.match(r'std::__throw_(\w+?)(_fmt)?\(', dem)
        if m and not m.group(1).startswith('system'):
            n = m.group(1)
            return self.throw(mem, '_ZTISt%d%s' % (len(n), n))
        if name == '__cxa_begin_catch':
            p = self.ptr(args[0])
            self.caught.append(p)
            env[i['i']] = p
            return None
        if name == '__cxa_end_catch':
            return None
        if name == '__cxa_rethrow':
            p = self.caught[-1] if self.caught else None
            if p is not None and isinstance(p.base, tuple) and p.base[0] == 'exc':
                return self.throw(mem, p.base[1])
            return False
        if name == '__cxa_allocate_exception':
            b = self.freshheap('x', mem)
            mem.o[b] = Obj('undef:%s' % (b,), self.c.cval(args[0]))
            mem.own.add(b)
            env[i['i']] = Ptr(b)
            return None
        if name == '__cxa_free_exception' or name.startswith('_ZNSt') and re.match(
                r'std::(out_of_range|invalid_argument|length_error|range_error|runtime_error|logic_error|exception|domain_error)::', dem):
            if i['t'][0] != 'v0' and i['t'][0] in 'ifp':
                env[i['i']] = self.opaque(i['t'], 'exc', self.freshname('w'))
            return None
        return NotImplemented

    def extern_call(self, dem, i, args, env, mem):
        if dem and re.match(r'operator new(\[\])?\(', dem):
            b = self.freshheap('h', mem)
            mem.o[b] = Obj('undef:%s' % (b,), self.c.cval(args[0]))
            mem.own.add(b)
            self.events.append(Event(kind='new', obj=b, size=args[0], loc=i, cond=tuple(self.cond), dem=dem))
            env[i['i']] = Ptr(b)
            return None
        self.events.append(Event(kind='call', dem=dem, args=args, loc=i, cond=tuple(self.cond), mem=None))
        if dem in ('__cxa_thread_atexit', '__cxa_atexit'):
            # registers a destructor, touches nothing
            env[i['i']] = self.c.cw(0, 32)
            return None
        if i.get('noreturn'):
            return False
        key = ('call', dem) + tuple(x for x in args if x is not None)
        if not i.get('readnone'):
            key = key + (self.freshname('c'),)
            if not i.get('readonly'):
                for x in args:
                    if isinstance(x, Ptr) and not (isinstance(x.base, tuple) and x.base[0] in ('fn',)) and x.base != 'null':
                        if isinstance(x.base, tuple) and x.base[0] == 'g' and self.mod.globals.get(x.base[1], {}).get('const'):
                            continue
                        self.havoc(mem, x.base)
        env[i['i']] = self.opaque(i['t'], *key)
        if dem and args and isinstance(args[0], Ptr) and (dem.startswith('operator delete') or dem == 'free'):
            p = args[0]
            o = mem.o.get(p.base)
            if o is not None and not p.sym and isinstance(p.base, tuple) and p.base[0] in ('heap', 'alloca', 'g'):
                if p.base[0] != 'heap' or p.off:
                    self.unsafe('deletion of memory that is not an allocation', i)
                elif o.freed:
                    self.unsafe('second deletion of the same memory', i, o.freed)
                mem.w(p.base).freed = 1
        return None

    def simd(self, name, i, args):
        """lane-exact meaning of the SSE operations clang keeps as target intrinsics"""
        C = self.c
        n = name[len('llvm.x86.'):]

        def fadd(x, y):
            return self.pure('fadd', {'t': ['f', 32]}, [x, y])

        def fmul(x, y):
            return self.pure('fmul', {'t': ['f', 32]}, [x, y])
        if n == 'sse41.dpps':
            m = C.cval(args[2])
            z = C.cw(0, 32)
            p = [fmul(x, y) if (m >> (4 + k)) & 1 else z for k, (x, y) in enumerate(zip(args[0], args[1]))]
            r = fadd(fadd(p[0], p[1]), fadd(p[2], p[3]))
            return Vec(r if (m >> k) & 1 else z for k in range(4))
        if n in ('sse3.hadd.ps', 'sse3.hsub.ps', 'ssse3.phadd.d.128', 'ssse3.phsub.d.128'):
            a, b = args
            if n[4:5] == '.' and n[5] == 'h':
                op = 'fadd' if 'add' in n else 'fsub'
            else:
                op = 'add' if 'add' in n else 'sub'

            def f(x, y):
                return self.pure(op, {'t': ['f', 32] if op[0] == 'f' else ['i', 32]}, [x, y])
            return Vec([f(a[0], a[1]), f(a[2], a[3]), f(b[0], b[1]), f(b[2], b[3])])
        if n == 'ssse3.pshuf.b.128':
            r = []
            for ctl in args[1]:
                unk = [j for j in (0, 1, 2, 3, 7) if ctl[j] > 1]
                k0 = sum(ctl[j] << j for j in range(4) if ctl[j] <= 1)
                v = None
                for q in range(1 << len(unk)):
                    k, g, z = k0, 1, ctl[7] == 1
                    for j, u in enumerate(unk):
                        b = (q >> j) & 1
                        g = C.AND(g, ctl[u] if b else ctl[u] ^ 1)
                        if u == 7:
                            z = bool(b)
                        else:
                            k |= b << u
                    if g == 0:
                        continue
                    x = C.cw(0, 8) if z else args[0][k]
                    v = x if v is None else self.merge_val(g, x, v)
                r.append(v)
            return Vec(r)
        if n == 'sse.movmsk.ps':
            return Word([l[31] for l in args[0]] + [0] * 28)
        if n == 'sse41.blendvps':
            return Vec(self.merge_val(c[31], y, x) for x, y, c in zip(*args))
        if n == 'sse41.pblendvb':
            return Vec(self.merge_val(c[7], y, x) for x, y, c in zip(*args))
        if n == 'sse41.insertps':
            m = C.cval(args[2])
            r = list(args[0])
            r[(m >> 4) & 3] = args[1][m >> 6]
            return Vec(C.cw(0, 32) if (m >> k) & 1 else x for k, x in enumerate(r))
        m = re.match(r'sse2\.p(sll|srl|sra)i?\.(d|w|q)$', n)
        if m:
            w = {'w': 16, 'd': 32, 'q': 64}[m.group(2)]
            k = args[1] if isinstance(args[1], Word) else Word([b for x in args[1] for b in x][:64])
            op = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)]
            kc = C.cval(k)
            if kc is not None:
                if kc >= w:
                    return Vec(Word([x[-1]] * w) if op == 'ashr' else C.cw(0, w) for x in args[0])
                return Vec(self.shiftc(op, x, kc) for x in args[0])
            return Vec(C.op(w, 'v' + op, x, k) for x in args[0])
        if n == 'sse2.cvtps2dq':
            return Vec(C.op(32, 'cvtps2dq', x) for x in args[0])
        if n == 'sse.cmp.ps':
            return None
        return None

    def intrinsic(self, name, i, args, env, mem):
        C = self.c
        t = i['t']

        def ret(v):
            env[i['i']] = v
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|prefetch|sideeffect)', name):
            return None
        m = re.match(r'llvm\.(memcpy|memmove|memset)', name)
        if m:
            n = C.cval(args[2])
            dst = self.ptr(args[0])
            if m.group(1) == 'memset':
                if n is None or dst.sym:
                    self.access('store', dst, args[2], i, mem)
                    self.havoc(mem, dst.base)
                    return None
                self.access('store', dst, n, i, mem)
                self.obj(mem, dst.base)
                o = mem.w(dst.base)
                for k in range(n):
                    o.cells[dst.off + k] = tuple(args[1])
                return None
            src = self.ptr(args[1])
            if n is not None and n <= 64 and src.sym and not dst.sym and not (isinstance(dst.base, tuple) and dst.base[0] == 'ite'):
                vs = [self.load(mem, self.padd(src, k), ['i', 8], i) for k in range(n)]
                for k in range(n):
                    self.store(mem, self.padd(dst, k), ['i', 8], vs[k], i)
                return None
            if n is None or dst.sym or src.sym:
                self.access('load', src, n if n is not None else args[2], i, mem)
                self.access('store', dst, n if n is not None else args[2], i, mem)
                self.events.append(Event(kind='memcpy', dst=dst, src=src, n=args[2], loc=i, cond=tuple(self.cond)))
                self.havoc(mem, dst.base)
                return None
            if n == 0:
                return None
            self.access('load', src, n, i, mem)
            self.access('store', dst, n, i, mem)
            for q in (src, dst):
                if isinstance(q.base, tuple) and q.base[0] == 'ite':
                    # fall back to byte accesses through merge
                    for k in range(n):
                        v = self.load(mem, self.padd(src, k), ['i', 8], i)
                        self.store(mem, self.padd(dst, k), ['i', 8], v, i)
                    return None
            so = self.obj(mem, src.base)
            cells = [self.cell(so, src.off + k, src.base) for k in range(n)]
            self.obj(mem, dst.base)
            do = mem.w(dst.base)
            for k in range(n):
                do.cells[dst.off + k] = cells[k]
            return None
        base = name.split('.')[1]
        if base == 'threadlocal':
            ret(args[0])
            return None
        if base == 'bswap':
            ret(self.lanes(lambda x: Word([l for k in range(len(x) // 8 - 1, -1, -1) for l in x[8 * k:8 * k + 8]]), args[0]))
            return None
        if base == 'bitreverse':
            ret(self.lanes(lambda x: Word(reversed(x)), args[0]))
            return None
        if base in ('umin', 'umax', 'smin', 'smax'):
            pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
            ret(self.lanes(lambda x, y: self.merge_val(self.icmp(pr, x, y), x, y), *args))
            return None
        if base in ('fshl', 'fshr'):
            def fs(x, y, s):
                k = C.cval(s)
                if k is None:
                    return C.op(len(x), base, x, y, s)
                w = len(x)
                k %= w
                cat = list(y) + list(x)
                if base == 'fshl':
                    return Word(cat[w - k:2 * w - k])
                return Word(cat[k:k + w])
            ret(self.lanes(fs, *args))
            return None
        if base == 'fabs':
            ret(self.lanes(lambda x: Word(list(x[:-1]) + [0]), args[0]))
            return None
        if base in ('ctpop', 'ctlz', 'cttz') and t[0] == 'i' and len(set().union(*[C.support(x) for x in args[0]])) <= 16:
            # few unknown bits: exact
            x = list(args[0])
            w = len(x)
            if base == 'ctpop':
                r = [0] * w
                for b in x:
                    for k in range(w):
                        r[k], b = C.XOR(r[k], b), C.AND(r[k], b)
                        if b == 0:
                            break
                ret(Word(r))
                return None
            seq = x if base == 'cttz' else x[::-1]
            r = C.cw(w, w)
            for k in range(w - 1, -1, -1):
                r = Word(C.ITE(seq[k], a, b) for a, b in zip(C.cw(k, w), r))
            ret(r)
            return None
        if base == 'expect':
            ret(args[0])
            return None
        if name.startswith('llvm.is.fpclass'):
            x, k = args[0], C.cval(args[1])
            if k is None or len(x) not in (32, 64):
                raise Unsupported('is.fpclass')
            e = 23 if len(x) == 32 else 52
            mz, ez, eo = 1, 1, 1
            for b in x[:e]:
                mz = C.AND(mz, b ^ 1)
            for b in x[e:-1]:
                ez, eo = C.AND(ez, b ^ 1), C.AND(eo, b)
            sg = x[-1]
            q = x[e - 1]
            an = C.AND
            norm, sub, zero, inf = an(ez ^ 1, eo ^ 1), an(ez, mz ^ 1), an(ez, mz), an(eo, mz)
            cl = [an(an(eo, mz ^ 1), q ^ 1), an(an(eo, mz ^ 1), q)]
            cl += [an(v, sg) for v in (inf, norm, sub, zero)] + [an(v, sg ^ 1) for v in (zero, sub, norm, inf)]
            r = 0
            for j, v in enumerate(cl):
                if k >> j & 1:
                    r = C.OR(r, v)
            ret(Word([r]))
            return None
        if base == 'is':  # is.constant
            ret(C.cw(0, 1))
            return None
        if base == 'objectsize':
            ret(C.cw((1 << t[1]) - 1, t[1]))
            return None
        if base in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and 'with.overflow' in name:
            x, y = args
            fn = {'add': C.add, 'sub': C.sub, 'mul': C.mul}[base[1:]]
            r = fn(x, y)
            if base == 'uadd':
                ov = C.ult(r, x)
            elif base == 'usub':
                ov = C.ult(x, y)
            else:
                cx, cy = C.cval(x), C.cval(y)
                if cx is not None and cy is not None and base == 'umul':
                    ov = int(cx * cy >= 1 << len(x))
                elif base == 'umul' and cx is not None and cx and cx & (cx - 1) == 0:
                    k = cx.bit_length() - 1
                    ov = C.eq(Word(y[len(y) - k:]), C.cw(0, k)) ^ 1 if k else 0
                elif base == 'umul' and cy is not None and cy and cy & (cy - 1) == 0:
                    k = cy.bit_length() - 1
                    ov = C.eq(Word(x[len(x) - k:]), C.cw(0, k)) ^ 1 if k else 0
                else:
                    ov = C.op(1, base + '.ov', x, y)[0]
            ret(Agg([r, Word([ov])]))
            return None
        if base == 'usub' and 'sat' in name:
            ret(self.lanes(lambda x, y: self.merge_val(C.ult(x, y), C.cw(0, len(x)), C.sub(x, y)), *args))
            return None
        if base == 'abs':
            ret(self.lanes(lambda x: self.merge_val(x[-1], C.sub(C.cw(0, len(x)), x), x), args[0]))
            return None
        if base == 'vector' and 'reduce' in name:
            o = name.split('.')[3]
            v = args[0]
            if o in ('add', 'and', 'or', 'xor'):
                r = v[0]
                for x in v[1:]:
                    r = self.pure(o, i, [r, x])
                ret(r)
                return None
        if base == 'trap':
            return False
        if base == 'x86' and 'pshuf.b.128' in name:
            m2 = [C.cval(x) for x in args[1]]
            if all(x is not None for x in m2):
                ret(Vec(C.cw(0, 8) if x & 0x80 else args[0][x & 15] for x in m2))
                return None
        if base == 'x86':
            v = self.simd(name, i, args)
            if v is not None:
                ret(v)
                return None
        if base == 'eh' and self.exceptions and 'typeid' in name:
            p = self.ptr(args[0])
            ret(C.cw(self.typeid(p.base[1]), 32))
            return None
        if base == 'eh':
            ret(self.opaque(t, 'eh', self.freshname('e')))
            return None
        if i.get('readnone') or base in ('x86', 'sqrt', 'floor', 'ceil', 'fma', 'fmuladd', 'pow', 'sin', 'cos', 'exp', 'log', 'round', 'trunc', 'minnum', 'maxnum', 'ctpop', 'ctlz', 'cttz', 'copysign', 'rint', 'nearbyint'):
            if t[0] == 'v' and not name.startswith('llvm.x86') and all(isinstance(x, Vec) for x in args):
                ret(Vec(self.opaque(t[2], name.split('.v')[0], *x) for x in zip(*args)))
            else:
                ret(self.opaque(t, re.sub(r'\.f\d+$|\.i\d+$', '', name), *[x for x in args if x is not None]))
            return None
        raise Unsupported('intrinsic %s at %s' % (name, loc_str(i)))
