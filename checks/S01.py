"""String views: searching, comparing, copying and slicing against the definition."""
import ir
from drv import *

MIN = 4000
NPOS = (1 << 64) - 1
OPS = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')


def src():
    t = ['#include <cstdint>', '#include <stdexcept>', '#include <ostream>', '#include "datas/string_view.hpp"', 'typedef es::string_view V; typedef es::u16string_view W; typedef size_t N;']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for o in OPS:
        d('N %s_v' % o, 'const char *p, N n, const char *q, N k, N pos', 'return V(p, n).%s(V(q, k), pos);' % o)
        d('N %s_d' % o, 'const char *p, N n, const char *q, N k', 'return V(p, n).%s(V(q, k));' % o)
        d('N %s_p' % o, 'const char *p, N n, const char *q, N k, N pos', 'return V(p, n).%s(q, pos, k);' % o)
        d('N %s_z' % o, 'const char *p, N n, const char *q, N pos', 'return V(p, n).%s(q, pos);' % o)
        d('N %s_c' % o, 'const char *p, N n, const char *q, N pos', 'return V(p, n).%s(*q, pos);' % o)
        d('N %s_zd' % o, 'const char *p, N n, const char *q', 'return V(p, n).%s(q);' % o)
        d('N %s_cd' % o, 'const char *p, N n, const char *q', 'return V(p, n).%s(*q);' % o)
        d('N %s_w' % o, 'const char16_t *p, N n, const char16_t *q, N k, N pos', 'return W(p, n).%s(W(q, k), pos);' % o)
    for nm, e in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
        d('bool %s_vv' % nm, 'const char *p, N n, const char *q, N k', 'return V(p, n) %s V(q, k);' % e)
        d('bool %s_vz' % nm, 'const char *p, N n, const char *q', 'return V(p, n) %s q;' % e)
        d('bool %s_zv' % nm, 'const char *p, const char *q, N k', 'return p %s V(q, k);' % e)
        d('bool %s_vs' % nm, 'const char *p, N n, const std::string &q', 'return V(p, n) %s q;' % e)
        d('bool %s_sv' % nm, 'const std::string &p, const char *q, N k', 'return p %s V(q, k);' % e)
        d('bool %s_ww' % nm, 'const char16_t *p, N n, const char16_t *q, N k', 'return W(p, n) %s W(q, k);' % e)
    d('int cmp_v', 'const char *p, N n, const char *q, N k', 'return V(p, n).compare(V(q, k));')
    d('int cmp_pv', 'const char *p, N n, const char *q, N k, N a, N b', 'return V(p, n).compare(a, b, V(q, k));')
    d('int cmp_pp', 'const char *p, N n, const char *q, N k, N a, N b, N e, N f', 'return V(p, n).compare(a, b, V(q, k), e, f);')
    d('int cmp_z', 'const char *p, N n, const char *q', 'return V(p, n).compare(q);')
    d('int cmp_pz', 'const char *p, N n, const char *q, N a, N b', 'return V(p, n).compare(a, b, q);')
    d('int cmp_pk', 'const char *p, N n, const char *q, N k, N a, N b', 'return V(p, n).compare(a, b, q, k);')
    d('N copy_3', 'const char *p, N n, char *o, N a, N b', 'return V(p, n).copy(o, a, b);')
    d('N copy_2', 'const char *p, N n, char *o, N a', 'return V(p, n).copy(o, a);')
    d('N copy_1', 'const char *p, N n, char *o', 'return V(p, n).copy(o);')
    O = 'const char **o, N *l'
    d('void substr_2', 'const char *p, N n, N a, N b, ' + O, 'V v = V(p, n).substr(a, b); *o = v.data(); *l = v.size();')
    d('void substr_1', 'const char *p, N n, N a, ' + O, 'V v = V(p, n).substr(a); *o = v.data(); *l = v.size();')
    d('void substr_0', 'const char *p, N n, ' + O, 'V v = V(p, n).substr(); *o = v.data(); *l = v.size();')
    d('void prefix', 'const char *p, N n, N a, ' + O, 'V v(p, n); v.remove_prefix(a); *o = v.data(); *l = v.size();')
    d('void suffix', 'const char *p, N n, N a, ' + O, 'V v(p, n); v.remove_suffix(a); *o = v.data(); *l = v.size();')
    d('void resize', 'const char *p, N n, N a, ' + O, 'V v(p, n); v.resize(a); *o = v.data(); *l = v.size();')
    d('void ctor_z', 'const char *p, ' + O, 'V v(p); *o = v.data(); *l = v.size();')
    d('void ctor_r', 'const char *p, N n, ' + O, 'V v(p, p + n); *o = v.data(); *l = v.size();')
    d('void ctor_s', 'const std::string &s, ' + O, 'V v(s); *o = v.data(); *l = v.size();')
    d('void ctor_0', O, 'V v; *o = v.data(); *l = v.size();')
    d('void ctor_l', O, 'auto v = es::MakeStringView("abcde"); *o = "abcde"; *l = v.size();')
    d('void ctor_lz', O, 'auto v = es::MakeStringView("ab\\0cd\\0"); *o = "ab\\0cd\\0"; *l = v.size();')
    d('void ctor_lw', O, 'auto v = es::MakeStringView(u"ab\\0cd"); *o = 0; *l = v.size();')
    d('void out', 'const char *p, N n, std::ostream &o', 'o << V(p, n);')
    d('std::ostream *chain', 'const char *p, N n, std::ostream &o', 'return &(o << V(p, n));')
    d('void range', 'const char *p, N n, ' + O, 'V v(p, n); *o = v.begin(); *l = v.end() - v.begin();')
    d('void crange', 'const char *p, N n, ' + O, 'V v(p, n); *o = v.cbegin(); *l = v.cend() - v.cbegin();')
    d('void swp', 'const char *p, N n, const char *q, N k, %s, const char **o2, N *l2' % O,
      'V a(p, n), b(q, k); a.swap(b); *o = a.data(); *l = a.size(); *o2 = b.data(); *l2 = b.size();')
    d('void swp2', 'const char *p, N n, const char *q, N k, %s, const char **o2, N *l2' % O,
      'V a(p, n), b(q, k); es::swap(a, b); *o = a.data(); *l = a.size(); *o2 = b.data(); *l2 = b.size();')
    d('char elem', 'const char *p, N n, N i', 'return V(p, n)[i];')
    d('char at', 'const char *p, N n, N i', 'return V(p, n).at(i);')
    d('char front', 'const char *p, N n', 'return V(p, n).front();')
    d('char back', 'const char *p, N n', 'return V(p, n).back();')
    d('bool empty', 'const char *p, N n', 'return V(p, n).empty();')
    d('N length', 'const char *p, N n', 'return V(p, n).length();')
    d('N size', 'const char *p, N n', 'return V(p, n).size();')
    d('void tostr', 'const char *p, N n, std::string &r', 'new (&r) std::string(V(p, n).to_string());')
    d('void conv', 'const char *p, N n, std::string &r', 'new (&r) std::string(static_cast<std::string>(V(p, n)));')
    t[0] += '\n#include <new>'
    return '\n'.join(t)


def setup(m, n, k=None, bits=(0, 7), z=False, zp=False, cw=8, vary=None, nul=False):
    """views A and Q of n and k characters; every character is 0x40 (nul: 0) with the listed bits unknown
    (those listed in vary only, the others are 0x42)"""
    s = S(m)
    cstring_models(s)
    s.it.record_access = True
    r = []
    for nm, x, zz in (('A', n, zp), ('Q', k, z)):
        chars = []
        if x is None:
            continue
        s.buf(nm, (x + (1 if zz else 0)) * cw // 8)
        for i in range(x):
            w = Word(s.c.cw(0x42, cw)) if vary is not None and i not in vary[nm] else Word((s.inbits(nm, i * cw // 8, cw // 8)[b] if b in bits else (1 if b == 6 and not nul else 0)) for b in range(cw))
            s.setw(nm, i * cw // 8, w)
            chars.append(w)
        if zz:
            s.setc(nm, x * cw // 8, 0, cw // 8)
        r.append(chars)
    return s, r


def search(C, op, A, Q, pos):
    """the index found, as a word: the definition"""
    n, k = len(A), len(Q)
    idx = range(n)
    fwd = op in ('find', 'find_first_of', 'find_first_not_of')
    if op in ('find', 'rfind'):
        idx = range(n - k + 1) if k <= n else []

    def match(i):
        if op in ('find', 'rfind'):
            r = 1
            for j in range(k):
                r = C.AND(r, C.eq(A[i + j], Q[j]))
            return r
        r = 0
        for q in Q:
            r = C.OR(r, C.eq(A[i], q))
        return r ^ 1 if 'not' in op else r
    res = C.cw(NPOS, 64)
    cand = [i for i in idx if (i >= pos if fwd else i <= pos)]
    for i in (reversed(cand) if fwd else cand):
        g = match(i)
        res = Word(C.ITE(g, a, b) for a, b in zip(C.cw(i, 64), res))
    return res


def order(C, A, Q):
    """(equal, less) of two character sequences"""
    eq, lt = 1, 0
    for a, b in zip(A, Q):
        lt = C.OR(lt, C.AND(eq, C.ult(a, b)))
        eq = C.AND(eq, C.eq(a, b))
    if len(A) < len(Q):
        lt = C.OR(lt, eq)
    if len(A) != len(Q):
        eq = 0
    return eq, lt


def run(c):
    c.rule('Value-numbering dataflow with truth-table equality: for every listed length, needle length and start position the returned index, order, '
           'slice or copy must be the function of the character bits that the definition gives, for every assignment of the unknown bits, and no '
           'access may leave the viewed characters.')
    m = ir.unit(text=src(), name='S01', passes=ir.LIGHT)
    deep = c.tier == 'thorough'

    def inside(s, key, extra={}):
        bad = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base in ('A', 'Q', 'O')
               and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > s.mem.o[e.ptr.base].size)]
        c.ob(key + ' stays inside', not bad, 'access to %s+%s at %s' % (bad[0].ptr.base, bad[0].ptr.off, ir.loc_str(bad[0].loc)) if bad else '', key)

    def one(fn, op, n, k, pos, form, bits=(0,), cw=8, vary=None, nul=False):
        key = '%s %s of %d in %d from %s' % (op, form, k, n, 'default' if pos is None else 'npos' if pos == NPOS else pos) + (' with zeros' if nul else '')
        with c.part(key):
            s, (A, Q) = setup(m, n, k, bits, z=form == 'z', cw=cw, vary=vary, nul=nul)
            a = [Ptr('A'), s.const(n, 64), Ptr('Q')]
            if form in 'vpdw':
                w = s.const(k, 64)
                a.append(w)
            if pos is not None:
                a.append(s.const(pos, 64))
            s.run(fn, a)
            p = pos
            if pos is None:
                p = 0 if op in ('find', 'find_first_of', 'find_first_not_of') else NPOS
            ok, d = s.cmp(s.ret, search(s.c, op, A, Q, p)) if s.ret is not None else (False, 'does not return')
            c.ob(key, ok, d[:200], 'basic_string_view::' + op)
            inside(s, key)
    ns = (0, 1, 2, 3, 5) + ((4, 6, 7) if deep else ())
    ks = (1, 2, 3) + ((4,) if deep else ())
    long_ = [17, 40] + ir.around(m, {1, 2, 3, 4}, 5, 300)[:8]
    for op in OPS:
        for n in ns:
            for k in ks + (() if op in ('find', 'rfind') else (0,)):
                for pos in [None, NPOS] + list(range(n + 2)):
                    one(op + '_v' if pos is not None else op + '_d', op, n, k, pos, 'v' if pos is not None else 'd', (0, 4, 7) if n + k <= 3 else (0, 7) if n + k <= 6 else (0,))
        # texts that contain the character 0
        for n, k in ((3, 1), (3, 2), (4, 2)) + (((5, 3),) if deep else ()):
            for pos in (0, 1, NPOS):
                one(op + '_v', op, n, k, pos, 'v', (0, 7) if n + k <= 5 else (0,), nul=True)
        one(op + '_p', op, 4, 2, 1, 'p', nul=True)
        one(op + '_c', op, 4, 1, 1, 'c', (0, 7), nul=True)
        one(op + '_w', op, 3, 2, 0, 'w', (0, 8), 16, nul=True)
        for pos in (0, 2):
            one(op + '_p', op, 4, 2, pos, 'p')
            one(op + '_z', op, 4, 2, pos, 'z')
            one(op + '_c', op, 4, 1, pos, 'c', (0, 7))
            one(op + '_w', op, 4, 2, pos, 'w', (0, 15), 16)
        # longer views: a few characters vary
        for n in long_:
            V = {'A': {0, 1, n // 2, n - 2, n - 1}, 'Q': {0, 1, 2}}
            for pos in (None, NPOS, 0, 1, n // 2, n - 2, n - 1, n):
                for k in (1, 2):
                    one(op + '_v' if pos is not None else op + '_d', op, n, k, pos, 'v' if pos is not None else 'd', vary=V)
            one(op + '_v', op, 3, n, 1, 'v', vary={'A': {0, 1, 2}, 'Q': V['A']})
            one(op + '_v', op, n, n, 0, 'v', vary={'A': V['A'], 'Q': {0, n - 1}})
        one(op + '_zd', op, 4, 2, None, 'z')
        one(op + '_cd', op, 4, 1, None, 'c', (0, 7))

    def sign(C, w, key, A, Q):
        eq, lt = order(C, A, Q)
        nz = 1
        for b in w:
            nz = C.AND(nz, b ^ 1)
        c.ob(key + ' is zero for equal texts only', C.same(nz, eq), C.show(nz)[:200], key)
        c.ob(key + ' is negative for smaller texts only', C.same(w[-1], lt), C.show(w[-1])[:200], key)
    for n in (0, 1, 2, 3, 4):
        for k in (0, 1, 2, 3, 4):
            key = 'compare of %d and %d' % (n, k)
            with c.part(key):
                s, (A, Q) = setup(m, n, k)
                s.run('cmp_v', [Ptr('A'), s.const(n, 64), Ptr('Q'), s.const(k, 64)])
                sign(s.c, s.ret, key, A, Q)
                inside(s, key)
            for nm in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
                for form in ('vv', 'vz', 'zv', 'ww') + (('vs', 'sv') if (n, k) in ((2, 2), (3, 2), (2, 3)) else ()):
                    if form != 'vv' and abs(n - k) > 1:
                        continue
                    key = 'operator %s (%s) of %d and %d' % (nm, form, n, k)
                    with c.part(key):
                        s, (A, Q) = setup(m, n, k, (0, 15) if form == 'ww' else (0, 7), form == 'vz', form == 'zv', 16 if form == 'ww' else 8)
                        a, b = [Ptr('A'), s.const(n, 64)], [Ptr('Q'), s.const(k, 64)]
                        if form == 'vz':
                            b = b[:1]
                        if form == 'zv':
                            a = a[:1]
                        if form == 'vs':
                            b = [string(s, 'T', 'Q', k)]
                        if form == 'sv':
                            a = [string(s, 'T', 'A', n)]
                        s.run('%s_%s' % (nm, form), a + b)
                        eq, lt = order(s.c, A, Q)
                        w = {'eq': eq, 'ne': eq ^ 1, 'lt': lt, 'ge': lt ^ 1, 'le': s.c.OR(lt, eq), 'gt': s.c.OR(lt, eq) ^ 1}[nm]
                        c.ob(key, s.c.same(s.ret[0], w), s.c.show(s.ret[0])[:200], key)
                        inside(s, key)
    RELS = ('eq', 'ne', 'lt', 'gt', 'le', 'ge')

    def relation(s, nm, eq, lt):
        return {'eq': eq, 'ne': eq ^ 1, 'lt': lt, 'ge': lt ^ 1, 'le': s.c.OR(lt, eq), 'gt': s.c.OR(lt, eq) ^ 1}[nm]
    for n, k in ((2, 2), (3, 2), (2, 3)):
        for nm in ('cmp',) + RELS:
            for form in ('vv', 'ww', 'vs', 'sv') if nm != 'cmp' else ('v', 'pv', 'pk'):
                key = '%s (%s) of %d and %d with zeros' % (nm, form, n, k)
                with c.part(key):
                    wide = form == 'ww'
                    s, (A, Q) = setup(m, n, k, (0, 8) if wide else (0, 7), cw=16 if wide else 8, nul=True, z=form == 'vs', zp=form == 'sv')
                    a, b = [Ptr('A'), s.const(n, 64)], [Ptr('Q'), s.const(k, 64)]
                    if form == 'vs':
                        b = [string(s, 'T', 'Q', k)]
                    if form == 'sv':
                        a = [string(s, 'T', 'A', n)]
                    if form in ('pv', 'pk'):
                        b += [s.const(0, 64), s.const(n, 64)]
                    s.run('%s_%s' % (nm, form), a + b)
                    if nm == 'cmp':
                        sign(s.c, s.ret, key, A, Q)
                    else:
                        c.ob(key, s.c.same(s.ret[0], relation(s, nm, *order(s.c, A, Q))), s.c.show(s.ret[0])[:200], key)
                    inside(s, key)
    # lengths that differ by more than an int or an unsigned can tell
    for d in (1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 32) - 1):
        for k in (0, 2):
            for swap in (0, 1):
                for nm in ('cmp',) + RELS:
                    key = '%s of views of %s characters' % (nm, ' and '.join(['%d' % k, '%d + %d' % (d, k)][::-1 if swap else 1]))
                    with c.part(key):
                        s, (A, Q) = setup(m, k, k)
                        a = [Ptr('A'), s.const(k + (d if swap else 0), 64), Ptr('Q'), s.const(k + (0 if swap else d), 64)]
                        s.run('cmp_v' if nm == 'cmp' else nm + '_vv', a)
                        eq, lt = order(s.c, A, Q)
                        eq, lt = 0, lt if swap else s.c.OR(lt, eq)
                        if nm == 'cmp':
                            nz = 1
                            for b in s.ret:
                                nz = s.c.AND(nz, b ^ 1)
                            c.ob(key + ' is not zero', nz == 0, s.c.show(nz)[:200], key)
                            c.ob(key + ' is negative for smaller texts only', s.c.same(s.ret[-1], lt), s.c.show(s.ret[-1])[:200], key)
                        else:
                            c.ob(key, s.c.same(s.ret[0], relation(s, nm, eq, lt)), s.c.show(s.ret[0])[:200], key)
                        inside(s, key)
    for n in long_:
        for k in (n, n - 1, n + 1):
            key = 'compare of %d and %d' % (n, k)
            V = {'A': {0, 1, n // 2, n - 2, n - 1}, 'Q': {0, 1, n // 2, n - 2, n - 1, n}}
            with c.part(key):
                s, (A, Q) = setup(m, n, k, (0,), vary=V)
                s.run('cmp_v', [Ptr('A'), s.const(n, 64), Ptr('Q'), s.const(k, 64)])
                sign(s.c, s.ret, key, A, Q)
                inside(s, key)
            for nm in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
                key = 'operator %s (vv) of %d and %d' % (nm, n, k)
                with c.part(key):
                    s, (A, Q) = setup(m, n, k, (0,), vary=V)
                    s.run('%s_vv' % nm, [Ptr('A'), s.const(n, 64), Ptr('Q'), s.const(k, 64)])
                    eq, lt = order(s.c, A, Q)
                    w = {'eq': eq, 'ne': eq ^ 1, 'lt': lt, 'ge': lt ^ 1, 'le': s.c.OR(lt, eq), 'gt': s.c.OR(lt, eq) ^ 1}[nm]
                    c.ob(key, s.c.same(s.ret[0], w), s.c.show(s.ret[0])[:200], key)
                    inside(s, key)
    for a in range(0, 5):
        for b in (0, 1, 2, 9, NPOS):
            for form in ('pv', 'pp', 'pz', 'pk'):
                n, k = 4, 3
                key = 'compare (%s) of part %d,%s' % (form, a, 'npos' if b == NPOS else b)
                with c.part(key):
                    s, (A, Q) = setup(m, n, k, z=form == 'pz')
                    x = [Ptr('A'), s.const(n, 64), Ptr('Q')]
                    if form != 'pz':
                        x.append(s.const(k, 64))
                    x += [s.const(a, 64), s.const(b, 64)]
                    QQ = Q
                    if form == 'pp':
                        x += [s.const(1, 64), s.const(b, 64)]
                        QQ = Q[1:1 + min(b, 2)]
                    s.run('cmp_' + form, x)
                    sign(s.c, s.ret, key, A[a:a + min(b, n - a)], QQ)
                    inside(s, key)
    for a, b, e, f in ((0, 1, 0, 2), (1, 3, 0, 1), (0, 2, 2, 9), (3, 9, 1, NPOS), (1, NPOS, 1, 1), (4, 1, 3, 1), (0, 0, 0, 1), (2, 1, 0, 0), (0, 2, 4, 1), (5, 1, 0, 1)):
        n, k = 4, 3
        key = 'compare of part %s,%s with part %s,%s' % tuple('npos' if x == NPOS else x for x in (a, b, e, f))
        with c.part(key):
            s, (A, Q) = setup(m, n, k)
            mm, _ = s.run('cmp_pp', [Ptr('A'), s.const(n, 64), Ptr('Q'), s.const(k, 64)] + [s.const(x, 64) for x in (a, b, e, f)])
            if a > n or e > k:
                c.ob(key + ' throws', mm is None, 'returns', key)
            else:
                sign(s.c, s.ret, key, A[a:a + min(b, n - a)], Q[e:e + min(f, k - e)])
            inside(s, key)
    for n, k in ((2, 2), (0, 1), (3, 1)):
        key = 'compare with a C string of %d and %d' % (n, k)
        with c.part(key):
            s, (A, Q) = setup(m, n, k, z=True)
            s.run('cmp_z', [Ptr('A'), s.const(n, 64), Ptr('Q')])
            sign(s.c, s.ret, key, A, Q)
            inside(s, key)
    # copy
    for n in [0, 1, 2, 4] + long_:
        for a in (0, 1, 2, 3, 4, 7, NPOS, None):
            for b in (None,) if a is None else (None, ) + tuple(range(n + 2)):
                key = 'copy of %s from %s of %d' % ('default' if a is None else 'npos' if a == NPOS else a, b, n)
                with c.part(key):
                    s, (A,) = setup(m, n, None)
                    want = max(0, min(n - (b or 0), NPOS if a is None else a))
                    s.buf('O', want)
                    x = [Ptr('A'), s.const(n, 64), Ptr('O')] + ([s.const(a, 64)] if a is not None else []) + ([s.const(b, 64)] if b is not None else [])
                    mm, _ = s.run('copy_%d' % (len(x) - 2), x)
                    if b is not None and b > n:
                        c.ob(key + ' throws', mm is None, 'returns', 'basic_string_view::copy')
                        continue
                    ok, d = s.cmp(s.ret, s.const(want, 64)) if s.ret is not None else (False, 'does not return')
                    c.ob(key + ' returns the count', ok, d, 'basic_string_view::copy')
                    if ok:
                        ok, d = s.cmp(s.outbits('O', 0, want), [y for ch in A[(b or 0):(b or 0) + want] for y in ch])
                        c.ob(key, ok, d, 'basic_string_view::copy')
                    inside(s, key)

    def slot(s, o, l, base, off, size, key):
        p = s.it.load(s.out, Ptr(o), ['p'], {})
        c.ob(key + ' starts at the right character', isinstance(p, Ptr) and p.base == base and not p.sym and p.off == off, str(p), key)
        ok, d = s.cmp(s.outbits(l, 0, 8), s.const(size, 64))
        c.ob(key + ' has the right length', ok, d, key)

    def view(fn, n, args, off, size, key, base='A', z=False, throws=False, k=None):
        with c.part(key):
            s, _ = setup(m, n, k, zp=z)
            for o in ('o', 'l', 'o2', 'l2'):
                s.buf(o, 8)
            x = [Ptr('A')] + ([s.const(n, 64)] if not z else []) + [y if isinstance(y, Ptr) else s.const(y, 64) for y in args] + [Ptr('o'), Ptr('l')]
            if k is not None:
                x += [Ptr('o2'), Ptr('l2')]
            mm, _ = s.run(fn, x)
            if throws:
                c.ob(key + ' throws', mm is None, 'returns', key)
                return
            if mm is None:
                c.ob(key, False, 'does not return', key)
                return
            if k is None:
                slot(s, 'o', 'l', base, off, size, key)
            else:
                slot(s, 'o', 'l', 'Q', 0, k, key + ' left')
                slot(s, 'o2', 'l2', 'A', 0, n, key + ' right')
            inside(s, key)
    for n in (0, 1, 4):
        for a in list(range(n + 2)) + [NPOS]:
            for b in (0, 1, 2, 3, 4, 9, NPOS):
                view('substr_2', n, [a, b], a, min(b, max(n - a, 0)), 'substr(%d, %s) of %d' % (a, b if b != NPOS else 'npos', n), throws=a > n)
            view('substr_1', n, [a], a, n - a, 'substr(%d) of %d' % (a, n), throws=a > n)
        view('substr_0', n, [], 0, n, 'substr() of %d' % n)
        for a in range(n + 1):
            view('prefix', n, [a], a, n - a, 'remove_prefix(%d) of %d' % (a, n))
            view('suffix', n, [a], 0, n - a, 'remove_suffix(%d) of %d' % (a, n))
            view('resize', n, [a], 0, a, 'resize(%d) of %d' % (a, n))
    for n in (0, 1, 4):
        view('ctor_z', n, [], 0, n, 'view of a C string of %d' % n, z=True)
        view('ctor_r', n, [], 0, n, 'view of a range of %d' % n)
        view('range', n, [], 0, n, 'begin and end of %d' % n)
        view('crange', n, [], 0, n, 'cbegin and cend of %d' % n)
        view('swp', n, [Ptr('Q'), 2], 0, n, 'swap of %d and 2' % n, k=2)
        view('swp2', n, [Ptr('Q'), 2], 0, n, 'es::swap of %d and 2' % n, k=2)
    with c.part('view of a std::string'):
        s, _ = setup(m, 3, None)
        s.buf('o', 8), s.buf('l', 8)
        s.run('ctor_s', [string(s, 'T', 'A', 3), Ptr('o'), Ptr('l')])
        slot(s, 'o', 'l', 'A', 0, 3, 'view of a std::string')
    with c.part('view of a literal'):
        s = S(m)
        s.buf('o', 8), s.buf('l', 8)
        s.run('ctor_l', [Ptr('o'), Ptr('l')])
        ok, d = s.cmp(s.outbits('l', 0, 8), s.const(5, 64))
        c.ob('MakeStringView excludes the terminator', ok, d, 'MakeStringView')
    for fn, n in (('ctor_lz', 6), ('ctor_lw', 5)):
        with c.part('view of a literal with zeros ' + fn):
            s = S(m)
            s.buf('o', 8), s.buf('l', 8)
            s.run(fn, [Ptr('o'), Ptr('l')])
            ok, d = s.cmp(s.outbits('l', 0, 8), s.const(n, 64))
            c.ob('MakeStringView of a%s literal with zeros inside has all characters' % (' wide' if fn[-1] == 'w' else ''), ok, d, 'MakeStringView')
    for n in (0, 1, 3, 9):
        for fn in ('out', 'chain'):
            key = 'a view of %d characters in a stream (%s)' % (n, fn)
            with c.part(key):
                s, (A,) = setup(m, n, None, range(8))
                put = []

                def write(it, dem, i, args, mem):
                    w = args[-1]
                    if '(char)' in dem or isinstance(args[1], Word):
                        put.append(list(args[1]))
                        return args[0]
                    l = it.c.cval(w) if isinstance(w, Word) else None
                    if l is None:
                        put.append(None)
                    for j in range(l or 0):
                        put.append(list(it.load(mem, Ptr(args[1].base, args[1].off + j, args[1].sym), ['i', 8], i)))
                    return args[0]
                s.it.models += [(re.compile(r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::(write|put)\('), write),
                                (re.compile(r'std::__ostream_insert<'), write), (re.compile(r'std::operator<< ?<'), write)]
                s.buf('S', 512)
                mm, r = s.run(fn, [Ptr('A'), s.const(n, 64), Ptr('S')])
                c.ob(key + ' is written once', mm is not None and len(put) == n and None not in put, '%d characters are written' % len(put), 'operator<<')
                if len(put) == n and None not in put:
                    ok, d = s.cmp([y for ch in put for y in ch], [y for ch in A for y in ch])
                    c.ob(key, ok, d, 'operator<<')
                if fn == 'chain':
                    c.ob(key + ' returns the stream', r == Ptr('S'), str(r), 'operator<<')
                inside(s, key)
    with c.part('empty view'):
        s = S(m)
        s.buf('o', 8), s.buf('l', 8)
        s.run('ctor_0', [Ptr('o'), Ptr('l')])
        ok, d = s.cmp(s.outbits('l', 0, 8), s.const(0, 64))
        c.ob('a default view is empty', ok, d, 'basic_string_view()')
    for n in (1, 3):
        for fn, i, w in [('elem', i, i) for i in range(n)] + [('at', i, i) for i in range(n)] + [('at', n, None), ('at', NPOS, None), ('front', None, 0), ('back', None, n - 1)]:
            key = '%s(%s) of %d' % (fn, i, n)
            with c.part(key):
                s, (A,) = setup(m, n, None, range(8))
                mm, _ = s.run(fn, [Ptr('A'), s.const(n, 64)] + ([s.const(i, 64)] if i is not None else []))
                if w is None:
                    c.ob(key + ' throws', mm is None, 'returns', key)
                else:
                    ok, d = s.cmp(s.ret, A[w]) if mm is not None else (False, 'does not return')
                    c.ob(key, ok, d, key)
                    inside(s, key)
    s = S(m)
    n = s.arg('n', 64)
    s.buf('A')
    for fn in ('size', 'length', 'empty'):
        s.run(fn, [Ptr('A'), n])
        c.ob(fn + ' of any length', *s.cmp(s.ret[:1] if fn == 'empty' else s.ret, [s.c.eq(n, s.const(0, 64))] if fn == 'empty' else n), fn)
    for fn in ('tostr', 'conv'):
        for n in (0, 1, 5):
            key = '%s of %d characters' % (fn, n)
            with c.part(key):
                s, (A,) = setup(m, n, None, range(8))
                s.buf('R', 32)
                s.run(fn, [Ptr('A'), s.const(n, 64), Ptr('R')])
                ok, d = s.cmp(s.outbits('R', 8, 8), s.const(n, 64))
                c.ob(key + ' has the length', ok, d, key)
                p = s.it.load(s.out, Ptr('R'), ['p'], {})
                ok, d = s.cmp(s.outbits(p.base, p.off, n + 1), [y for ch in A for y in ch] + [0] * 8)
                c.ob(key, ok, d, key)
                inside(s, key)
    c.unit('S01 driver (string_view.hpp)', m)


def string(s, name, base, n):
    """a std::string object whose characters are the buffer `base`"""
    s.buf(name, 32)
    for i in range(8):
        s.mem.o[name].cells[i] = ('pf', Ptr(base), i)
    s.setc(name, 8, n, 8)
    s.setc(name, 16, n, 8)
    return Ptr(name)
