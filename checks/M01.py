"""4x4 transforms: the matrix, quaternion and composition algebra."""
import itertools
from fractions import Fraction
import ir
from drv import *
from falg import FAlg

MIN = 90


def src():
    t = ['#include "datas/matrix44.cpp"', 'using M = esMatrix44; using F = Vector4A16;']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    d('void m_def', 'M *o', '*o = M();')
    d('void m_id', 'M *o', 'o->MakeIdentity();')
    d('void m_r3', 'M *o, const F *b', '*o = M(b[0], b[1], b[2]);')
    d('void m_r4', 'M *o, const F *b', '*o = M(b[0], b[1], b[2], b[3]);')
    d('void m_ptr', 'M *o, const F *b', '*o = M(b);')
    d('void m_tr', 'M *o', 'o->Transpose();')
    d('void m_trf', 'M *o', 'o->TransposeFull();')
    d('void m_trtr', 'M *o', 'o->TransposeFull(); o->TransposeFull();')
    d('void m_mul', 'const M *a, const M *b, M *o', '*o = *a * *b;')
    d('void m_cmul', 'M *o, const M *b', '*o *= *b;')
    d('void m_cmuls', 'M *o', '*o *= *o;')
    d('void m_rot', 'const M *a, const F *b, F *o', '*o = a->RotatePoint(*b);')
    d('void m_fq', 'M *o, const F *b', 'o->FromQuat(*b);')
    d('void m_cq', 'M *o, const F *b', '*o = M(*b);')
    d('void m_tq', 'const M *a, F *o', '*o = a->ToQuat();')
    d('void m_rt', 'const F *b, F *o', 'M m(*b); *o = m.ToQuat();')
    d('void m_cmp', 'M *o, const F *b', 'o->Compose(b[0], b[1], b[2]);')
    d('void m_dec', 'const M *a, F *o', 'a->Decompose(o[0], o[1], o[2]);')
    d('void m_inv', 'const M *a, M *o', '*o = -*a;')
    d('void m_idx', 'const M *a, F *o', 'for (int i = 0; i < 4; i++) o[i] = (*a)[i]; o[4] = a->r1(); o[5] = a->r2(); o[6] = a->r3(); o[7] = a->r4();')
    d('void m_widx', 'M *o, const F *b', 'for (int i = 0; i < 4; i++) (*o)[i] = b[i];')
    d('void m_wrow', 'M *o, const F *b', 'o->r1() = b[0]; o->r2() = b[1]; o->r3() = b[2]; o->r4() = b[3];')
    return '\n'.join(t)


def vertices(facts):
    """vertices of the cell {s >= 0, sum s = 1, L(s) >= 0}"""
    rows = [tuple(int(i == j) for j in range(4)) for i in range(4)] + [f for f, _ in facts]
    for tight in itertools.combinations(rows, 3):
        m = [[Fraction(x) for x in r] + [Fraction(0)] for r in tight] + [[Fraction(1)] * 5]
        ok = True
        for i in range(4):
            p = next((r for r in range(i, 4) if m[r][i]), None)
            if p is None:
                ok = False
                break
            m[i], m[p] = m[p], m[i]
            m[i] = [x / m[i][i] for x in m[i]]
            for r in range(4):
                if r != i and m[r][i]:
                    m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
        if ok:
            v = [m[i][4] for i in range(4)]
            if all(sum(a * x for a, x in zip(r, v)) >= 0 for r in rows):
                yield v


def feasible(facts):
    vs = list(vertices(facts))
    if not vs:
        return False
    return all(not strict or any(sum(a * x for a, x in zip(f, v)) > 0 for v in vs) for f, strict in facts)


def minimum(facts, e):
    return min(((v[e], v) for v in vertices(facts)), default=None)


def run(c):
    c.rule('Value-numbering dataflow over the IR of matrix44.cpp: every float of a result is normalised to a polynomial (with inverse square '
           'roots as leaves) over the input floats and compared with the formula of the definition.')
    c.assumption('float results are compared as real-number formulas; rounding is not distinguished')
    c.assumption('affine matrices: the W lanes of the first three rows are 0 where the 3x3 operations do not define them')
    m = ir.unit(text=src(), name='M01')

    def go(fn, *args, affine=(), aw=None):
        s = S(m)
        for b in 'ABO':
            s.buf(b, opaque=None)
        for b in affine:
            for r in range(3):
                s.setc(b, 16 * r + 12, 0, 4)
            if aw is not None:
                s.setc(b, 60, aw, 4)
        s.run(fn, [Ptr(a) for a in args])
        return s, FAlg(s.c)

    def inp(s, fa, b, off, affine=False):
        if affine and off < 48 and off % 16 == 12:
            return {}
        return fa.poly(Word(s.inbits(b, off, 4)))

    def mat(s, fa, b, affine=False):
        return [[inp(s, fa, b, 16 * i + 4 * j, affine) for j in range(4)] for i in range(4)]

    def out(s, b, off):
        return Word(s.outbits(b, off, 4))

    def same(key, where, s, fa, b, want, base=0):
        """want: {byte offset: polynomial}"""
        ok, d = True, ''
        for off, w in sorted(want.items()):
            ok, d = fa.eq(out(s, b, base + off), w)
            if not ok:
                d = 'row %d lane %d %s' % (off // 16 + 1, off % 16 // 4, d)
                break
        c.ob(key, ok, d, where)
        return ok

    def untouched(key, s, skip, sizes={'A': 80, 'B': 80, 'O': 128}):
        ok, d = True, ''
        for b, n in sizes.items():
            lo, hi = skip.get(b, (0, 0))
            for a, e in ((0, lo), (hi, n)):
                if ok and e > a:
                    g = s.outbits(b, a, e - a)
                    w = []
                    for k in range(a, e):
                        cell = s.mem.o[b].cells.get(k)
                        w += list(cell) if cell else s.inbits(b, k, 1)
                    ok, d = s.cmp(g, w)
                    if not ok:
                        d = 'memory of %s: %s' % (b, d)
        c.ob(key + ' leaves other memory alone', ok, d, key)

    N = 'esMatrix44'
    one = FAlg.pconst(1)
    ident = {16 * i + 4 * j: one if i == j else {} for i in range(4) for j in range(4)}
    for fn, nm in (('m_def', 'default constructor'), ('m_id', 'MakeIdentity')):
        with c.part(nm):
            s, fa = go(fn, 'O')
            same(nm + ' is the identity', N, s, fa, 'O', ident)
            untouched(nm, s, {'O': (0, 64)})
    for fn, nm, n in (('m_r3', 'constructor from 3 rows', 3), ('m_r4', 'constructor from 4 rows', 4), ('m_ptr', 'constructor from row array', 4),
                      ('m_widx', 'operator[] write', 4), ('m_wrow', 'row accessors write', 4)):
        with c.part(nm):
            s, fa = go(fn, 'O', 'B')
            ok, d = s.cmp(s.outbits('O', 0, 16 * n), s.inbits('B', 0, 16 * n))
            c.ob(nm + ' places each row', ok, d, N)
            untouched(nm, s, {'O': (0, 64)})
    with c.part('rows read'):
        s, fa = go('m_idx', 'A', 'O')
        ok, d = s.cmp(s.outbits('O', 0, 128), s.inbits('A', 0, 64) * 2)
        c.ob('operator[] and row accessors read', ok, d, N)
    # transposition
    with c.part('Transpose'):
        s, fa = go('m_tr', 'O')
        for i in range(3):
            for j in range(3):
                ok, d = s.cmp(s.outbits('O', 16 * i + 4 * j, 4), s.inbits('O', 16 * j + 4 * i, 4))
                c.ob('Transpose entry %d%d' % (i, j), ok, d, N + '::Transpose')
        untouched('Transpose', s, {'O': (0, 48)})
        s, fa = go('m_tr', 'O', affine='O')
        ok, d = s.cmp(sum([s.outbits('O', 16 * i + 12, 4) for i in range(3)], []), [0] * 96)
        c.ob('Transpose keeps W lanes 0 of an affine matrix', ok, d, N + '::Transpose')
    with c.part('TransposeFull'):
        s, fa = go('m_trf', 'O')
        for i in range(4):
            for j in range(4):
                ok, d = s.cmp(s.outbits('O', 16 * i + 4 * j, 4), s.inbits('O', 16 * j + 4 * i, 4))
                c.ob('TransposeFull entry %d%d' % (i, j), ok, d, N + '::TransposeFull')
        untouched('TransposeFull', s, {'O': (0, 64)})
        s, fa = go('m_trtr', 'O')
        ok, d = s.cmp(s.outbits('O', 0, 64), s.inbits('O', 0, 64))
        c.ob('TransposeFull twice is the identity', ok, d, N + '::TransposeFull')
    # product
    for fn, nm, a, b in (('m_mul', 'operator*', 'A', 'B'), ('m_cmul', 'operator*=', 'O', 'B'), ('m_cmuls', 'operator*= of itself', 'O', 'O')):
        with c.part(nm):
            s, fa = go(fn, *{'m_mul': 'ABO', 'm_cmul': 'OB', 'm_cmuls': 'O'}[fn])
            A, B = mat(s, fa, a), mat(s, fa, b)
            for i in range(4):
                w = {}
                for j in range(4):
                    x = {}
                    for k in range(4):
                        x = fa.padd(x, fa.pmul(A[i][k], B[k][j]))
                    w[16 * i + 4 * j] = x
                same('%s row %d is the matrix product' % (nm, i + 1), N + '::operator*', s, fa, 'O', w)
            untouched(nm, s, {'O': (0, 64)})
    with c.part('RotatePoint'):
        s, fa = go('m_rot', 'A', 'B', 'O', affine='A')
        A = mat(s, fa, 'A', True)
        w = {12: one}
        for j in range(3):
            x = {}
            for k in range(3):
                x = fa.padd(x, fa.pmul(inp(s, fa, 'B', 4 * k), A[k][j]))
            w[4 * j] = x
        same('RotatePoint is the row vector product with the 3x3 part', N + '::RotatePoint', s, fa, 'O', w)
        untouched('RotatePoint', s, {'O': (0, 16)})

    # quaternions
    def rotmat(fa, q):
        x, y, z, w = q
        P, A_, K = fa.pmul, fa.padd, fa.pconst

        def e(c1, terms):
            r = K(c1)
            for k, a, b in terms:
                r = A_(r, P(a, b), k)
            return r
        return [[e(1, [(-2, y, y), (-2, z, z)]), e(0, [(2, x, y), (-2, z, w)]), e(0, [(2, x, z), (2, y, w)])],
                [e(0, [(2, x, y), (2, z, w)]), e(1, [(-2, x, x), (-2, z, z)]), e(0, [(2, y, z), (-2, x, w)])],
                [e(0, [(2, x, z), (-2, y, w)]), e(0, [(2, y, z), (2, x, w)]), e(1, [(-2, x, x), (-2, y, y)])]]

    for fn, nm in (('m_fq', 'FromQuat'), ('m_cq', 'constructor from quaternion')):
        with c.part(nm):
            s, fa = go(fn, 'O', 'B')
            R = rotmat(fa, [inp(s, fa, 'B', 4 * k) for k in range(4)])
            for i in range(3):
                w = {16 * i + 4 * j: R[i][j] for j in range(3)}
                w[16 * i + 12] = {}
                same('%s row %d is the rotation matrix' % (nm, i + 1), N + '::FromQuat', s, fa, 'O', w)
            if fn == 'm_cq':
                same('%s has no translation' % nm, N, s, fa, 'O', {k: v for k, v in ident.items() if k >= 48})
            untouched(nm, s, {'O': (0, 48 if fn == 'm_fq' else 64)})
    # ToQuat of a rotation matrix is the quaternion up to sign.  Every sign condition of the code is, on |q| = 1, a linear condition on the
    # squares of the quaternion components: the code's decision tree splits the simplex into cells, in each of which the result must be +-q and
    # the component divided by must be bounded away from zero
    with c.part('ToQuat'):
        s, fa = go('m_rt', 'B', 'O')
        q = [inp(s, fa, 'B', 4 * k) for k in range(4)]
        norm2 = {}
        for x in q:
            norm2 = fa.padd(norm2, fa.pmul(x, x))
        sq = [next(iter(fa.pmul(x, x))) for x in q]

        def homo(p, deg):
            r = {}
            for mo, v in p.items():
                n = sum(x for _, x in mo)
                if n > deg or (deg - n) % 2:
                    return None
                t = {mo: v}
                for _ in range((deg - n) // 2):
                    t = fa.pmul(t, norm2)
                r = fa.padd(r, t)
            return r

        def linform(d):
            h = homo(d, 2)
            if h is None or any(mo not in sq for mo in h):
                raise prov.Unsupported('ToQuat branches on %s' % fa.show(d)[:120])
            return tuple(h.get(mo, 0) for mo in sq)

        class Split(Exception):
            pass

        def region(facts, depth):
            """facts: list of (linear form, strict) that hold in the cell"""
            def assume(kind, d):
                if not d or set(d) == {()}:
                    return None
                L = linform(d)
                if all(x == 0 for x in L):
                    return int(kind != 'pos')
                N_ = tuple(-x for x in L)
                for F, strict in facts:
                    if F == L and (strict or kind == 'nonneg'):
                        return int(kind != 'zero')
                    if F == N_ and (strict or kind == 'pos'):
                        return 0
                raise Split(kind, L)
            fa.assume = assume
            fa.cache.clear()
            fa.bcache.clear()
            if depth > 8:
                raise prov.Unsupported('ToQuat has too many branch conditions')
            if not feasible(facts):
                return
            try:
                lanes = [fa.poly(out(s, 'O', 4 * k)) for k in range(4)]
            except Split as e:
                kind, L = e.args
                N_ = tuple(-x for x in L)
                region(facts + [(L, kind == 'pos')], depth + 1)
                region(facts + [(N_, kind != 'pos')], depth + 1)
                return
            finally:
                fa.assume = None
            cells.append(facts)
            ok, d = cell(facts, lanes)
            c.ob('ToQuat restores the quaternion in cell %s' % len(cells), ok, d, N + '::ToQuat')

        def cell(facts, lanes):
            sign = None
            for k in range(4):
                p = lanes[k]
                roots = {x for mo in p for x, ex in mo if fa.names[x][0] == 'sqrt'}
                if len(roots) != 1 or any(dict(mo).get(next(iter(roots))) != -1 for mo in p):
                    return False, 'lane %d is %s' % (k, fa.show(p)[:200])
                rt = roots.pop()
                num = homo({tuple((x, ex) for x, ex in mo if x != rt): v for mo, v in p.items()}, 2)
                den = homo(dict(fa.names[rt][1]), 2)
                if den is None or num is None or len(den) != 1 or next(iter(den)) not in sq:
                    return False, 'lane %d divides by the root of %s' % (k, fa.show(dict(fa.names[rt][1]))[:200])
                e = sq.index(next(iter(den)))
                tt = next(iter(den.values()))
                mo, = fa.pmul(q[e], q[k])
                if set(num) != {mo} or num[mo] ** 2 != tt:
                    return False, 'lane %d is not +-q.%s but %s over the root of %s' % (k, 'XYZW'[k], fa.show(num)[:150], fa.show(den)[:80])
                if sign is None:
                    sign = num[mo]
                elif sign != num[mo]:
                    return False, 'lane %d has the opposite sign of lane 0' % k
            lo = minimum(facts, e)
            if lo is None or lo[0] <= 0:
                return False, 'divides by q.%s, which can vanish under the branch conditions, e.g. squares (%s)' % (
                    'XYZW'[e], ', '.join(str(x) for x in lo[1]))
            return True, ''
        cells = []
        region([], 0)
        untouched('ToQuat', s, {'O': (0, 16)})
    with c.part('Compose'):
        s, fa = go('m_cmp', 'O', 'B')
        R = rotmat(fa, [inp(s, fa, 'B', 16 + 4 * k) for k in range(4)])
        for i in range(3):
            w = {16 * i + 4 * j: fa.pmul(R[i][j], inp(s, fa, 'B', 32 + 4 * i)) for j in range(3)}
            w[16 * i + 12] = {}
            same('Compose row %d is the rotation row times its scale' % (i + 1), N + '::Compose', s, fa, 'O', w)
        same('Compose row 4 is the position', N + '::Compose', s, fa, 'O', {48 + 4 * j: inp(s, fa, 'B', 4 * j) for j in range(4)})
        untouched('Compose', s, {'O': (0, 64)})
    # Decompose
    for sg in (-1, 0, 1):
        nm = 'Decompose, determinant %s' % {-1: 'negative', 0: 'zero', 1: 'positive'}[sg]
        with c.part(nm):
            s, fa = go('m_dec', 'A', 'O', affine='A')
            A = mat(s, fa, 'A', True)
            det = {}
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                det = fa.padd(det, fa.pmul(A[0][i], fa.padd(fa.pmul(A[1][j], A[2][k]), fa.pmul(A[1][k], A[2][j]), -1)))
            fa.assume_sign([(det, sg)])
            same(nm + ': position is row 4', N + '::Decompose', s, fa, 'O', {4 * j: A[3][j] for j in range(4)})
            ln = []
            for i in range(3):
                x = {}
                for j in range(3):
                    x = fa.padd(x, fa.pmul(A[i][j], A[i][j]))
                r = fa.fn('sqrt', x)
                ln.append({mo: -v for mo, v in r.items()} if sg < 0 else r)
            same(nm + ': scale is the signed row length', N + '::Decompose', s, fa, 'O', {32 + 4 * i: ln[i] for i in range(3)})
            untouched(nm, s, {'O': (0, 48)})
            # the rotation is ToQuat of the rows divided by the scale
            nr = [[fa.pmul(A[i][j], fa.pinv(ln[i])) for j in range(3)] for i in range(3)]
            t = S(m, s.c)
            for b in 'AO':
                t.buf(b)
            for r in range(3):
                for j in range(3):
                    t.setw('A', 16 * r + 4 * j, s.c.op(32, 'poly', fa.key(nr[r][j])))
                t.setc('A', 16 * r + 12, 0, 4)
            t.run('m_tq', [Ptr('A'), Ptr('O')])
            ok, d = True, ''
            for k in range(4):
                g, w = fa.cbits(out(s, 'O', 16 + 4 * k)), fa.cbits(out(t, 'O', 4 * k))
                if ok and not all(s.c.same(x, y) for x, y in zip(g, w)):
                    ok, d = False, 'lane %d is not the quaternion of the rows divided by the scale' % k
            c.ob('%s: rotation is the quaternion of the unscaled rows' % nm, ok, d, N + '::Decompose')
    # inverse
    with c.part('inverse'):
        s, fa = go('m_inv', 'A', 'O', affine='A')
        A = mat(s, fa, 'A', True)
        import struct
        from fractions import Fraction
        rows = []
        for i in range(3):
            x = {}
            for j in range(3):
                x = fa.padd(x, fa.pmul(A[i][j], A[i][j]))
            rows.append(x)
        epsv = Fraction(struct.unpack('<f', struct.pack('<f', 1e-6))[0])
        fa.assume_sign([(fa.padd(x, fa.pconst(epsv), -1), 1) for x in rows])
        iv = [[fa.pmul(A[j][i], fa.pinv(rows[j])) for j in range(3)] for i in range(3)]
        for i in range(3):
            w = {16 * i + 4 * j: iv[i][j] for j in range(3)}
            same('inverse row %d is the transposed row over its squared length' % (i + 1), N + '::operator-', s, fa, 'O', w)
        same('inverse W', N + '::operator-', s, fa, 'O', {60: one})
        # the translation of the inverse: each inverted row applied to the translation, negated (p' = Mp + t is undone)
        w = {}
        for j in range(3):
            x = {}
            for k in range(3):
                x = fa.padd(x, fa.pmul(A[3][k], iv[j][k]), -1)
            w[48 + 4 * j] = x
        same('inverse translation is minus the inverted rows applied to the translation', N + '::operator-', s, fa, 'O', w)
        untouched('inverse', s, {'O': (0, 64)})
    c.unit('M01 driver (matrix44.cpp)', m)
