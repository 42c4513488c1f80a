"""Tabulation of extracted value-flow terms: the value a term takes for columns of
input values, one numpy column per unknown bit.  Used to compare terms over small
finite domains with their definition (arithmetic of IEEE floats, divisions, tables)."""
import glob
import sys
try:
    import numpy as np
except ImportError:
    sys.path += glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')
    import numpy as np
from ir import AnalysisBroken

FT = {32: np.float32, 64: np.float64}
UT = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}


class Tab:
    def __init__(self, ctx, n):
        self.c = ctx
        self.n = n
        self.bits = {0: np.zeros(n, bool)}      # node -> column
        self.terms = {}                         # term -> column of its value

    def set(self, name, col):
        """values of the input `name` of at most 64 bits"""
        self.terms[self.c.term('in', name)] = np.asarray(col, dtype=np.uint64)

    def setbits(self, lits, col):
        """values of a list of input literals"""
        col = np.asarray(col, dtype=np.uint64)
        for i, l in enumerate(lits):
            if l > 1:
                self.bits[l >> 1] = ((col >> np.uint64(i)) & np.uint64(1)).astype(bool) ^ bool(l & 1)

    def bit(self, l):
        return ~self.node(l >> 1) if l & 1 else self.node(l >> 1)

    def node(self, n):
        v = self.bits.get(n)
        if v is not None:
            return v
        c = self.c
        st = [n]
        while st:
            n = st[-1]
            if n in self.bits:
                st.pop()
                continue
            k = c.keys[n]
            if k[0] == 'a':
                v = self.term(k[1])
                v = ((v >> np.uint64(k[2])) & np.uint64(1)).astype(bool)
            else:
                todo = [x >> 1 for x in k[1] if x >> 1 not in self.bits]
                if todo:
                    st += todo
                    continue
                cols = [~self.bits[x >> 1] if x & 1 else self.bits[x >> 1] for x in k[1]]
                v = cols[0]
                for x in cols[1:]:
                    v = v & x if k[0] == '&' else v ^ x
            self.bits[n] = v
            st.pop()
        return v

    def word(self, w):
        """unsigned value column of a word of at most 64 bits"""
        if len(w) > 64:
            raise AnalysisBroken('tabulation of a word of %d bits' % len(w))
        r = np.zeros(self.n, np.uint64)
        for i, l in enumerate(w):
            if l == 1:
                r |= np.uint64(1 << i)
            elif l:
                r |= self.bit(l).astype(np.uint64) << np.uint64(i)
        return r

    def signed(self, w):
        v = self.word(w)
        s = 64 - len(w)
        return (v << np.uint64(s)).view(np.int64) >> np.int64(s)

    def flt(self, w):
        return self.word(w).astype(UT[len(w)]).view(FT[len(w)])

    def back(self, f, w):
        return np.asarray(f, dtype=FT[w]).view(UT[w]).astype(np.uint64)

    def term(self, t):
        v = self.terms.get(t)
        if v is None:
            with np.errstate(all='ignore'):
                v = self.terms[t] = self.compute(t)
        return v

    def compute(self, t):
        k = self.c.terms[t]
        if k[0] != 'op':
            raise AnalysisBroken('input %s has no column' % (k[1],))
        w, op, a = k[1], k[2], k[3:]
        m = np.uint64((1 << w) - 1)
        if op == 'lin':
            r = np.full(self.n, a[1] & ((1 << 64) - 1), np.uint64)
            for x, c in a[0]:
                r += self.word(x) * np.uint64(c & ((1 << 64) - 1))
            return r & m
        if op in ('mul', 'umul', 'add', 'sub'):
            x, y = self.word(a[0]), self.word(a[1])
            return (x + y if op == 'add' else x - y if op == 'sub' else x * y) & m
        if op == 'ult':
            return (self.word(a[0]) < self.word(a[1])).astype(np.uint64)
        if op in ('udiv', 'urem'):
            x, y = self.word(a[0]), self.word(a[1])
            y = np.where(y == 0, np.uint64(1), y)
            return x // y if op == 'udiv' else x % y
        if op in ('sdiv', 'srem'):
            x, y = self.signed(a[0]), self.signed(a[1])
            y = np.where(y == 0, 1, y)
            q = np.abs(x) // np.abs(y) * np.sign(x) * np.sign(y)
            return (q if op == 'sdiv' else x - q * y).view(np.uint64) & m
        if op in ('shl', 'lshr', 'ashr'):
            x, y = self.signed(a[0]) if op == 'ashr' else self.word(a[0]), self.word(a[1])
            if op == 'ashr':
                return (x >> y.astype(np.int64)).view(np.uint64) & m
            return (x << y if op == 'shl' else x >> y) & m
        if op in ('fadd', 'fmul', 'fsub', 'fdiv'):
            x, y = self.flt(a[0]), self.flt(a[1])
            return self.back(x + y if op == 'fadd' else x * y if op == 'fmul' else x - y if op == 'fsub' else x / y, w)
        if op in ('uitofp', 'uitofp*'):
            return self.back(self.word(a[0]).astype(FT[w]), w)
        if op in ('sitofp', 'sitofp*'):
            return self.back(self.signed(a[0]).astype(FT[w]), w)
        if op in ('fptoui', 'fptosi'):
            f = self.flt(a[0])
            lo, hi = (0, 2.0 ** w) if op == 'fptoui' else (-2.0 ** (w - 1), 2.0 ** (w - 1))
            f = np.trunc(f.astype(np.float64))
            self.undefined = getattr(self, 'undefined', 0) + int(np.sum(~((f >= lo) & (f < hi))))
            f = np.where((f >= lo) & (f < hi), f, 0)
            return (f.astype(np.uint64) if op == 'fptoui' else f.astype(np.int64).view(np.uint64)) & m
        if op in ('fpext', 'fptrunc'):
            return self.back(self.flt(a[0]).astype(FT[w]), w)
        if op in ('sqrt', 'sqrtf', 'llvm.sqrt'):
            return self.back(np.sqrt(self.flt(a[0])), w)
        if op.startswith('fcmp_'):
            x, y = self.flt(a[0]), self.flt(a[1])
            p = op[5:]
            un = np.isnan(x) | np.isnan(y)
            r = {'eq': x == y, 'ne': (x != y) & ~un, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p[1:])
            if p == 'ord':
                r = ~un
            elif p == 'uno':
                r = un
            elif p[0] == 'u':
                r = r | un
            return r.astype(np.uint64)
        if op in ('llvm.fmuladd', 'fmuladd', 'fma'):
            return self.back(self.flt(a[0]) * self.flt(a[1]) + self.flt(a[2]), w)
        if op == 'call' and a[0] in ('sqrtf', 'sqrt', 'std::sqrt(float)') and isinstance(a[1], tuple):
            return self.back(np.sqrt(self.flt(a[1])), w)
        f = getattr(self, 'ext', {}).get(op)
        if f:
            return f(self, k)
        raise AnalysisBroken('tabulation of %s is not supported' % op)
