"""Reflection tables: one entry per declared member, with the member's own place, kind,
size, name and hashes; enum tables with the enumerators' own values."""
import ir, refl
from refl import *
from drv import *

MIN = 600
# all ways to write an enumerator
LOCAL = {'EW': [('ew0', 0), ('ew5', 5), ('ew6', 6), ('ew1', 1), ('ew7', 7), ('ew31', 0x1f), ('ew32', 32), ('ewmax', 0xfffffffe)],
         'E1': [('only', 0)], 'ES': [('esA', 9), ('esB', 10)], 'EQ': [('q', 1), ('r', 2), ('s1', 7), ('t', 8), ('a_long_name_with_more_than_thirty_two_characters', 0xabcdef0), ('u', 3), ('V', 0xAB)]}
DECL = '''
REFLECTOR_CREATE(EW, ENUM, 2, CLASS, 32, ew0, ew5=5, ew6, ew1 =1, ew7= 7, ew31=0x1f, ew32, ewmax = 4294967294)
REFLECTOR_CREATE(E1, ENUM, 2, CLASS, 8, only)
REFLECTOR_CREATE(ES, ENUM, 2, CLASS, 16, esA=9,esB)
REFLECTOR_CREATE(EQ, ENUM, 2, CLASS, 32, q=1, r, s1=7,t,   a_long_name_with_more_than_thirty_two_characters   =   0xabcdef0, u=3,V = 0xAB)
'''
ENUMS = dict(refl.ENUMS, **LOCAL)


def src():
    t = [HEAD, DECL, layout_src()]
    for cl in list(CLASSES) + list(BITS):
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (cid(cl), cl))
    t.append('''extern "C" void entry(const reflectorStatic *r, size_t i, uint64 *o) {
  const reflType &t = r->types[i];
  o[0] = (uint64)t.type; o[1] = (uint64)t.subType; o[2] = t.subSize; o[3] = t.ID; o[4] = t.numItems; o[5] = t.offset;
  o[6] = t.valueNameHash.raw(); o[7] = t.typeHash.raw(); }
extern "C" const char *name(const reflectorStatic *r, size_t i) { return r->typeNames ? r->typeNames[i] : nullptr; }
extern "C" const char *alias(const reflectorStatic *r, size_t i) { return r->typeAliases ? r->typeAliases[i] : nullptr; }
extern "C" uint64 aliash(const reflectorStatic *r, size_t i) { return r->typeAliasHashes ? r->typeAliasHashes[i].raw() : 0; }
extern "C" void head(const reflectorStatic *r, uint64 *o) { o[0] = r->nTypes; o[1] = r->classHash.raw(); o[2] = r->typeAliases != nullptr;
  o[3] = r->typeAliasHashes != nullptr; o[4] = r->typeDescs != nullptr; }
extern "C" const char *cname(const reflectorStatic *r) { return r->className; }
extern "C" void desc(const reflectorStatic *r, size_t i, const char **p, uint64 *n) {
  p[0] = r->typeDescs[i].part1.data(); n[0] = r->typeDescs[i].part1.size(); p[1] = r->typeDescs[i].part2.data(); n[1] = r->typeDescs[i].part2.size(); }''')
    t.append('extern "C" void kinds(uint64 *o) { %s }' % ' '.join('o[%d] = (uint64)REFType::%s;' % (k, n) for k, n in enumerate(KINDS)))
    for e, vs in ENUMS.items():
        q = e + '::' if e != 'E32' else ''
        t.append('extern "C" void vals_%s(uint64 *o) { %s }' % (e, ' '.join('o[%d] = (uint64)%s%s;' % (k, q, n) for k, (n, _) in enumerate(vs))))
        t.append('''extern "C" void enum_%s(const char **p, uint64 *n, uint64 *v, uint64 *h) { ReflectedEnum e = GetReflectedEnum<%s>();
  h[0] = e.size(); h[1] = e.hash.raw(); h[2] = e.name.size(); p[0] = e.name.data();
  for (size_t i = 0; i < e.size(); i++) { p[i + 1] = e[i].data(); n[i] = e[i].size(); v[i] = e.values[i]; } }
extern "C" void find_%s(uint64 v, const char **p, uint64 *n) { ReflectedEnum e = GetReflectedEnum<%s>(); auto r = e.find(v); *p = r.data(); *n = r.size(); }''' % (e, e, e, e))
    return '\n'.join(t)


def run(c):
    c.rule('Constant dataflow through the table initialisers: the entry of every member carries the member\'s offsetof/sizeof, its kind, its element '
           'count, the hash of its name and of its type, in declaration order; names, aliases and descriptors are the declared texts; the value table of an enum '
           'holds what the compiler assigned to each enumerator.')
    c.assumption('representative member types stand for the templates; class sizes below 64 KiB, elements below 256 bytes (table format)')
    m = ir.unit(text=src(), name='R01')
    ctx = S(m).c

    def new(mem=None):
        s = S(m, ctx)
        guards(s)
        cstring_models(s)
        parse_models(s)
        if mem is not None:
            s.mem = mem.copy()
        return s

    def ints(s, nm, n):
        return [s.c.cval(Word(s.outbits(nm, 8 * k, 8))) for k in range(n)]
    s = new()
    s.buf('o')
    s.run('kinds', [Ptr('o')])
    K = dict(zip(KINDS, ints(s, 'o', len(KINDS))))
    lay = layout(new)

    def table(cl):
        s = new()
        s.run('tab_' + cid(cl))
        base, tab = s.out, s.ret

        def q(fn, *args):
            s = new(base)
            s.buf('o'), s.buf('p'), s.buf('n')
            s.run(fn, [tab] + list(args))
            return s
        h = ints(q('head', Ptr('o')), 'o', 5)
        s = q('cname')
        c.ob('%s: class name' % cl, cstr(s, s.out, s.ret) == (None if cl in NAMELESS else cl), str(cstr(s, s.out, s.ret)), 'reflectorStatic::className')
        c.ob('%s: class hash' % cl, h[1] == jenkins(cl), '%r' % h[1], 'ReflectorType::Hash')
        return q, h

    def text(q, fn, k):
        s = q(fn, ctx.cw(k, 64))
        return cstr(s, s.out, s.ret) if isinstance(s.ret, Ptr) and s.ret.base != 'null' else None

    for cl, ms in CLASSES.items():
        with c.part(cl):
            q, h = table(cl)
            c.ob('%s: number of members' % cl, h[0] == len(ms), '%r instead of %d' % (h[0], len(ms)), 'ReflectorType::NumTypes')
            for k, (n, ty, sub, ct, num, th) in enumerate(ms):
                e = ints(q('entry', ctx.cw(k, 64), Ptr('o')), 'o', 8)
                if isinstance(th, tuple):
                    th = K[th[1]] | SIZE[th[2]] << 8 | th[3] << 16
                elif th:
                    th = jenkins(th)
                want = [K[ty], K[sub], SIZE[ct] if ct else 0, k, num, lay[cl][n], jenkins(n), th]
                for f, g, w in zip(('type', 'subType', 'subSize', 'ID', 'numItems', 'offset', 'valueNameHash', 'typeHash'), e, want):
                    c.ob('%s::%s %s' % (cl, n, f), g == w, 'is %r, required %r' % (g, w), 'BuildReflType / _getType (datas/internal/reflector_type.hpp)')
                got = text(q, 'name', k)
                c.ob('%s::%s name' % (cl, n), got == (None if cl in NAMELESS else n), 'is %r' % got, 'typeNames')
    EXTRA = {'X': ([None, 'other name', None, 'alias2', None, 'last alias'], [('', ''), ('', ''), ('des part', 'second'), ('only first', ''), ('', ''), ('', '')]),
             'Tm<uint16>': ([None, 'tee one', None], [('', '')] * 3), 'BX32': ([None, 'five bits', None], [('', ''), ('', ''), ('seven', 'bits')])}
    for cl, (al, ds) in EXTRA.items():
        with c.part(cl + ' extras'):
            q, h = table(cl)
            c.ob(cl + ': extended tables exist', h[2:] == [1, 1, 1], str(h), 'reflectorStatic')
            for k, (a, d) in enumerate(zip(al, ds)):
                n = (CLASSES.get(cl) or BITS.get(cl))[k][0]
                got = text(q, 'alias', k)
                c.ob('%s::%s alias' % (cl, n), got == a, 'is %r' % got, '_REFLECTOR_NAMES_EXTENDED')
                s = q('aliash', ctx.cw(k, 64))
                v = s.c.cval(s.ret)
                c.ob('%s::%s alias hash' % (cl, n), v == (jenkins(a) if a else 0), 'is %r' % v, 'typeAliasHashes')
                s = q('desc', ctx.cw(k, 64), Ptr('p'), Ptr('n'))
                ln = ints(s, 'n', 2)
                for j in (0, 1):
                    p = s.it.load(s.out, Ptr('p', 8 * j), ['p'], {})
                    b = bytes_at(s, s.out, p, ln[j]) if ln[j] and isinstance(p, Ptr) and p.base != 'null' else b''
                    c.ob('%s::%s description part %d' % (cl, n, j + 1), ln[j] == len(d[j]) and b == d[j].encode(), 'is %r (%r)' % (b, ln[j]), '_GetReflDescPart')
    for cl in ('T2', 'Z', 'Tm<int64>', 'Tm<float>', 'B16'):
        with c.part(cl + ' extras'):
            q, h = table(cl)
            c.ob(cl + ': no extended tables', h[2:] == [0, 0, 0], str(h), 'reflectorStatic')
    for cl, ms in BITS.items():
        with c.part(cl):
            q, h = table(cl)
            c.ob('%s: number of members' % cl, h[0] == len(ms), '%r' % h[0], 'ReflectorType::NumTypes')
            pos = 0
            for k, (n, w) in enumerate(ms):
                e = ints(q('entry', ctx.cw(k, 64), Ptr('o')), 'o', 8)
                for f, g, x in zip(('type', 'subType', 'size in bits', 'ID', 'position', 'valueNameHash'), [e[0], e[1], e[2], e[3], e[5], e[6]],
                                   [K['BitFieldMember'], K['UnsignedInteger'], w, k, pos, jenkins(n)]):
                    c.ob('%s::%s %s' % (cl, n, f), g == x, 'is %r, required %r' % (g, x), 'BuildBFReflType')
                got = text(q, 'name', k)
                c.ob('%s::%s name' % (cl, n), got == n, 'is %r' % got, 'typeNames')
                pos += w
    for e, vs in ENUMS.items():
        with c.part(e):
            s = new()
            s.buf('o')
            s.run('vals_' + e, [Ptr('o')])
            true = ints(s, 'o', len(vs))
            s = new()
            for b in 'pnvh':
                s.buf(b)
            s.run('enum_' + e, [Ptr(b) for b in 'pnvh'])
            h = ints(s, 'h', 3)
            c.ob('%s: number of enumerators' % e, h[0] == len(vs), '%r' % h[0], '_EnumWrap')
            c.ob('%s: hash' % e, h[1] == jenkins(e), '%r' % h[1], '_EnumWrap::GetHash')

            def txt(k, ln):
                p = s.it.load(s.out, Ptr('p', 8 * k), ['p'], {})
                return bytes_at(s, s.out, p, ln) if isinstance(p, Ptr) and ln is not None else None
            c.ob('%s: name' % e, txt(0, h[2]) == e.encode(), str(txt(0, h[2])), '_EnumWrap::GetClassName')
            ln = ints(s, 'n', len(vs))
            v = ints(s, 'v', len(vs))
            for k, (n, _) in enumerate(vs):
                c.ob('%s::%s name' % (e, n), txt(k + 1, ln[k]) == n.encode(), '%r' % txt(k + 1, ln[k]), '_EnumWrap::GetNames')
                c.ob('%s::%s value' % (e, n), v[k] == true[k], 'table has %r, the compiler %r' % (v[k], true[k]), '_REnumInitializer')
            for k, (n, _) in list(enumerate(vs)) + [(None, (None, None))]:
                s = new()
                s.buf('p'), s.buf('n')
                x = s.arg('value', 64)
                if k is not None:
                    s.run('find_' + e, [s.const(true[k], 64), Ptr('p'), Ptr('n')])
                    ln = ints(s, 'n', 1)[0]
                    p = s.it.load(s.out, Ptr('p'), ['p'], {})
                    b = bytes_at(s, s.out, p, ln) if ln and isinstance(p, Ptr) else b''
                    c.ob('%s: find(%s)' % (e, n), b == n.encode(), '%r' % b, 'ReflectedEnum::find')
                else:
                    s.run('find_' + e, [x, Ptr('p'), Ptr('n')])
                    C = s.c
                    none = 1
                    for t in true:
                        none = C.AND(none, C.eq(x, C.cw(t, 64)) ^ 1)
                    anylen = 0
                    for b in s.outbits('n', 0, 8):
                        anylen = C.OR(anylen, b)
                    c.ob('%s: find() of a value that is no enumerator is empty' % e, C.same(C.AND(anylen, none), 0), '', 'ReflectedEnum::find')
    c.unit('R01 driver (reflector.hpp)', m)
