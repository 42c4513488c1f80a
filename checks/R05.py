"""Sub classes and member kinds: GetReflectedSubClass yields exactly the nested object."""
import ir
from refl import *
from drv import *

MIN = 700
CL = ['T', 'T2', 'X', 'Big', 'Z', 'N', 'B16']
MORE = '''
struct Leaf { int8 l0; double l1; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, VARNAMES, l0, l1)
struct Unreg { int32 u0; void ReflectorTag(); };
REFLECTOR_CREATE(Unreg, 1, VARNAMES, u0)
struct Mid { int16 m0; Leaf one; Leaf two[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Mid, 1, VARNAMES, m0, one, two)
struct N { int8 pre; Leaf leaf; Leaf many[300]; Mid mid; Mid mids[3]; B16 bit; B64 bits[4]; std::array<Leaf, 2> sa; Unreg un; Unreg uns[2]; };
REFLECTOR_CREATE(N, 1, EXTENDED, (, pre), (A, leaf, "the leaf"), (, many), (, mid), (A, mids, "the mids"), (, bit), (, bits), (, sa), (, un), (, uns))
'''
# member, class, array count (0 = single)
N = [('pre', None, 0), ('leaf', 'Leaf', 0), ('many', 'Leaf', 300), ('mid', 'Mid', 0), ('mids', 'Mid', 3), ('bit', 'B16', 0), ('bits', 'B64', 4), ('sa', 'Leaf', 2),
     ('un', 'Unreg', 0), ('uns', 'Unreg', 2)]
NREG = ['Leaf', 'Mid', 'B16', 'B64', 'Sub', 'E8']


def src():
    t = [PRE, HEAD, MORE, QUIET, layout_src(), '#include <new>']
    t.append('''extern "C" void reg() { RegisterReflectedTypes<Leaf, Mid, B16, B64, Sub, E8> r; (void)r; }
struct ReflectedInstanceFriend : ReflectedInstance { ReflectedInstanceFriend(const ReflectedInstance &i) : ReflectedInstance(i) {} const void *at() const { return constInstance; } const reflectorStatic *cls() const { return rfStatic; } };
static void out(const ReflectedInstance &i, const void **o) { ReflectedInstanceFriend p(i); o[0] = p.at(); o[1] = p.cls(); }
extern "C" void layN(uint64 *o) { ''')
    for k, (n, cl, num) in enumerate(N):
        t.append('o[%d] = offsetof(N, %s);' % (k, n))
    for k, n in enumerate(['N', 'Leaf', 'Mid', 'B16', 'B64', 'Unreg', 'Sub']):
        t.append('o[%d] = sizeof(%s);' % (20 + k, n))
    t.append('o[30] = offsetof(Mid, one); o[31] = offsetof(Mid, two); o[32] = offsetof(Leaf, l1); o[33] = offsetof(Mid, m0); }')
    for cl in sorted(set(CL + ['Leaf', 'Mid', 'Unreg', 'Sub', 'B64'])):
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (cid(cl), cl))
    for cl in CL:
        for nm, ty, w in (('s', 'size_t', 'id'), ('h', 'uint32', 'JenHash(id)')):
            a = dict(n=nm, i=cid(cl), c=cl, t=ty, w=w)
            t.append('''extern "C" void {n}c_{i}(const {c} *t, {t} id, size_t sub, const void **o) {{ ReflectorWrap<const {c}> w(t); const Reflector &r = w; out(r.GetReflectedSubClass({w}, sub), o); }}
extern "C" void {n}m_{i}({c} *t, {t} id, size_t sub, const void **o) {{ ReflectorWrap<{c}> w(t); Reflector &r = w; out(r.GetReflectedSubClass({w}, sub), o); }}
extern "C" void {n}d_{i}({c} *t, {t} id, const void **o) {{ ReflectorWrap<{c}> w(t); Reflector &r = w; out(r.GetReflectedSubClass({w}), o); }}
extern "C" bool {n}a_{i}(const {c} *t, {t} id) {{ ReflectorWrap<const {c}> w(t); return w.IsArray({w}); }}
extern "C" bool {n}s_{i}(const {c} *t, {t} id) {{ ReflectorWrap<const {c}> w(t); return w.IsReflectedSubClass({w}); }}'''.format(**a))
        t.append('extern "C" void q_%s(const %s *t, uint64 *o, es::string_view *n) { ReflectorWrap<const %s> w(t); o[0] = w.GetNumReflectedValues(); o[1] = w.UseNames(); new (n) es::string_view(w.GetClassName()); }' % (cid(cl), cl, cl))
    t.append('''extern "C" int deep(N *t, size_t i, size_t j, int64 v) { ReflectorWrap<N> w(t); auto m = w.GetReflectedSubClass(JenHash("mids"), i); ReflectorPureWrap a(m); Reflector &ra = a;
  auto l = ra.GetReflectedSubClass(2, j); ReflectorPureWrap b(l); return (int)b.SetReflectedValueInt(0, v); }
extern "C" int deepc(const N *t, size_t i, size_t j, double v) { ReflectorWrap<const N> w(t); const Reflector &r = w; auto m = r.GetReflectedSubClass(JenHash("the mids"), i); ReflectorPureWrap a(m); const Reflector &ra = a;
  auto l = ra.GetReflectedSubClass(JenHash("two"), j); ReflectorPureWrap b(l); return (int)b.SetReflectedValueFloat(JenHash("l1"), v); }
struct RB : ReflectorBase<RB> { int32 r0; Leaf r1; };
REFLECTOR_CREATE(RB, 1, VARNAMES, r0, r1)
extern "C" const void *tab_RB() { return GetReflectedClass<RB>(); }
extern "C" void layRB(uint64 *o) { o[0] = offsetof(RB, r0); o[1] = offsetof(RB, r1); o[2] = sizeof(RB); }
extern "C" void mkRB(RB *t) { new (t) RB; }
extern "C" void base(RB *t, int64 v, double d) { Reflector &r = *t; r.SetReflectedValueInt(0, v); auto l = r.GetReflectedSubClass(1); ReflectorPureWrap b(l); b.SetReflectedValueFloat(1, d); }
''')
    return '\n'.join(t)


def run(c):
    c.rule('Points-to and bit-provenance dataflow through GetReflectedSubClass, IsArray and IsReflectedSubClass, per class, member and index: the returned instance is the table of the member\'s class '
           'and exactly the address of the member or element; out of range, unregistered and other members give an empty instance. Values stored through nested instances land in exactly the nested member.')
    c.assumption('tables as decided by R01; std::map as implemented by libstdc++ headers, tree rebalancing modelled')
    m = ir.unit(text=src(), name='R05')
    r = TextRig(m)
    x = r.ctx
    r.prepare(*r.statics())
    tabs = {}
    for cl in sorted(set(CL + ['Leaf', 'Mid', 'Unreg', 'Sub', 'B64'])) + ['RB']:
        s = r.new(constants=True)
        s.run('tab_' + cid(cl))
        r.base = s.out
        tabs[cl] = s.it.ptr(s.ret)
    c.ob('each class has its own table', len({(p.base, p.off) for p in tabs.values()}) == len(tabs), str(tabs), 'GetReflectedClass')
    unreg = r.base
    r.prepare('reg')
    reg = r.base
    lay = layout(r.new)
    s = r.new()
    s.buf('o')
    s.run('layN', [Ptr('o')])
    v = [x.cval(Word(s.outbits('o', 8 * k, 8))) if k < len(N) or 20 <= k < 27 or k >= 30 else None for k in range(34)]
    off = dict(zip([n for n, _, _ in N], v))
    size = dict(zip(['N', 'Leaf', 'Mid', 'B16', 'B64', 'Unreg', 'Sub'], v[20:27]))
    mid_one, mid_two, leaf_l1, mid_m0 = v[30:34]

    def members(cl):
        """(name, offset, kind, class, count or 0)"""
        if cl == 'N':
            return [(n, off[n], k, num) for n, k, num in N]
        if cl in BITS:
            return [(n, 0, None, 0) for n, _ in BITS[cl]]
        return [(nm, lay[cl][nm], th if 'Class' in ty or 'Class' in (sub or '') else None, num if ty == 'Array' else 0) for nm, ty, sub, ct, num, th in CLASSES[cl]]

    def isarray(cl, nm):
        if cl == 'N':
            return [num for n, _, num in N if n == nm][0] > 0
        return cl not in BITS and [ty for n, ty, *_ in CLASSES[cl] if n == nm][0] == 'Array'
    regd = set(NREG)

    def get(how, cl, id, sub=None, base=None):
        r.base = base if base is not None else reg
        s = r.new()
        s.it.record_access = True
        s.buf('t'), s.buf('o')
        a = [Ptr('t'), x.cw(id, 64) if how[0] == 's' else x.cw(id, 32)]
        if sub is not None:
            a.append(sub if not isinstance(sub, int) else x.cw(sub, 64))
        s.run('%s_%s' % (how, cid(cl)), a + [Ptr('o')])
        p = [s.it.ptr(s.it.load(s.out, Ptr('o', 8 * k), ['p'], {})) for k in (0, 1)]
        st = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 't']
        return p, st

    W = 'Reflector::GetReflectedSubClass'

    def yields(key, got, o, cl):
        p, st = got
        c.ob(key + ': address', p[0] == Ptr('t', o), '%s, expected t+%d' % (p[0], o), W)
        c.ob(key + ': class', p[1] == tabs[cl], '%s' % p[1], W)
        c.ob(key + ': writes nothing', not st, str(st[:2]), W)

    def empty(key, got):
        p, st = got
        c.ob(key + ': empty', all(y.base == 'null' for y in p), '%s' % p, W)
        c.ob(key + ': writes nothing', not st, str(st[:2]), W)

    for cl in CL:
        ms = members(cl)
        for k, (nm, o, sc, num) in enumerate(ms):
            with c.part('%s::%s' % (cl, nm)):
                ok = sc is not None and sc in regd
                n = size.get(sc, 0)
                names = [('s', k), ('h', jenkins(nm))]
                if (cl, nm) in (('N', 'leaf'), ('N', 'mids')):
                    names.append(('h', jenkins('the ' + nm)))
                for h, id in names:
                    key = '%s::%s%s' % (cl, nm, ' by name' * (h == 'h'))
                    for how in 'cm':
                        for a in (range(num) if num < 6 else (0, 1, 255, 256, num - 1)) if num else (0,):
                            g = get(h + how, cl, id, a)
                            kk = '%s[%d] (%s)' % (key, a, how)
                            yields(kk, g, o + a * n, sc) if ok else empty(kk, g)
                        if h == 's' or num:
                            past = max(num, 1)
                            for a in (past, past + 1, 255 if past <= 255 else 65536, 65536, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1):
                                empty('%s[%d] (%s)' % (key, a, how), get(h + how, cl, id, a))
                    g = get(h + 'd', cl, id)
                    yields(key, g, o, sc) if ok else empty(key, g)
                    if sc:
                        empty(key + ', class not registered', get(h + 'c', cl, id, 0, base=unreg))
                        empty(key + ', class not registered (m)', get(h + 'm', cl, id, 0, base=unreg))
                    for f, want in (('a', isarray(cl, nm)), ('s', sc is not None)):
                        r.base = reg
                        s = r.new()
                        s.buf('t')
                        s.run('%s%s_%s' % (h, f, cid(cl)), [Ptr('t'), x.cw(id, 64 if h == 's' else 32)])
                        c.ob('%s: %s' % (key, {'a': 'IsArray', 's': 'IsReflectedSubClass'}[f]), x.cval(Word(s.ret)) == int(want), '%s' % x.cval(Word(s.ret)), 'Reflector::IsArray/IsReflectedSubClass')
        with c.part(cl + ' unknown members'):
            for how, ids in (('s', (len(ms), len(ms) + 1, 255, 65536, 1 << 32, (1 << 64) - 1)), ('h', (jenkins('no such name'), jenkins(cl), jenkins(ms[0][0]) ^ 1))):
                for id in ids:
                    for f in 'cm':
                        empty('%s member %s%#x (%s)' % (cl, how, id, f), get(how + f, cl, id, 0))
                    for f in 'as':
                        s = r.new()
                        s.buf('t')
                        s.run('%s%s_%s' % (how, f, cid(cl)), [Ptr('t'), x.cw(id, 64 if how == 's' else 32)])
                        c.ob('%s member %s%#x is nothing (%s)' % (cl, how, id, f), x.cval(Word(s.ret)) == 0, '', 'Reflector::IsArray/IsReflectedSubClass')
        with c.part(cl + ' class'):
            s = r.new()
            s.buf('t'), s.buf('o'), s.buf('n')
            s.run('q_' + cid(cl), [Ptr('t'), Ptr('o'), Ptr('n')])
            c.ob(cl + ': GetNumReflectedValues', x.cval(Word(s.outbits('o', 0, 8))) == len(ms), '', 'Reflector::GetNumReflectedValues')
            if cl != 'Z':
                c.ob(cl + ': UseNames', x.cval(Word(s.outbits('o', 8, 8))) == 1, '', 'Reflector::UseNames')
                p = s.it.ptr(s.it.load(s.out, Ptr('n'), ['p'], {}))
                l = x.cval(Word(s.outbits('n', 8, 8)))
                b = bytes_at(s, s.out, p, l) if l is not None and l < 100 else None
                c.ob(cl + ': GetClassName', b == cl.encode(), repr(b), 'Reflector::GetClassName')
    r.base = reg
    for i in range(3):
        for j in range(2):
            for fn, arg, o, n in (('deep', 64, 0, 1), ('deepc', 64, leaf_l1, 8)):
                with c.part('%s %d %d' % (fn, i, j)):
                    s = r.new()
                    s.it.record_access = True
                    s.buf('t')
                    v = s.arg('value', 64)
                    s.run(fn, [Ptr('t'), x.cw(i, 64), x.cw(j, 64), v])
                    at = off['mids'] + i * size['Mid'] + mid_two + j * size['Leaf'] + o
                    key = 'N::mids[%d].two[%d].%s' % (i, j, 'l0' if o == 0 else 'l1')
                    c.ob(key + ': stored', *s.cmp(s.outbits('t', at, n), v[:8 * n]), W)
                    bad = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 't' and (e.ptr.sym or e.ptr.off < at or e.ptr.off + e.size > at + n)]
                    c.ob(key + ': nothing else', not bad, str([(e.ptr, e.size) for e in bad[:2]]), W)
    with c.part('ReflectorBase'):
        s = r.new()
        s.buf('o')
        s.run('layRB', [Ptr('o')])
        a, b, n = [x.cval(Word(s.outbits('o', 8 * k, 8))) for k in range(3)]
        s = r.new()
        s.buf('t')
        s.run('mkRB', [Ptr('t')])
        s2 = r.new()
        s2.mem = s.out.copy()
        s2.it.record_access = True
        v, d = s2.arg('value', 64), s2.arg('dvalue', 64)
        s2.run('base', [Ptr('t'), v, d])
        c.ob('RB::r0: stored', *s2.cmp(s2.outbits('t', a, 4), v[:32]), W)
        c.ob('RB::r1.l1: stored', *s2.cmp(s2.outbits('t', b + leaf_l1, 8), d), W)
        bad = [e for e in s2.it.events if e.kind == 'store' and e.ptr.base == 't' and (e.ptr.sym or (e.ptr.off, e.size) not in ((a, 4), (b + leaf_l1, 8)))]
        c.ob('RB: nothing else', not bad, str([(e.ptr, e.size) for e in bad[:2]]), W)
    c.unit('R05 driver (reflector.cpp)', m)
