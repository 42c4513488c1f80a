"""Stored reflection tables: what ReflectorIO saves, it loads."""
import ir
from refl import *
from drv import *

MIN = 1200
ALL = ['T', 'T2', 'X', 'Sub', 'Z', 'Tm<int64>', 'Tm<uint16>', 'B16', 'BX32', 'Big', 'Noalias']
EN = ['E8', 'E16', 'E32', 'E64', 'EF', 'Long']
SETS = {'everything': (ALL, EN), 'reversed': (ALL[::-1], EN[::-1]), 'one described class': (['X'], []), 'one nameless class': (['Z'], []), 'one enum': ([], ['E16']),
        'nameless between described': (['X', 'Z', 'BX32'], ['E8']), 'described between nameless': (['Z', 'X', 'Tm<int64>'], ['EF', 'E8']), 'twice the same': (['X', 'X', 'T'], ['E8', 'E8']), 'nothing': ([], [])}
PTRS = ['cls', 'enu', 'c_alias', 'c_name', 'c_type', 'c_desc', 'e_name', 'e_item'] + ['f_' + f for f in ('types', 'typeNames', 'className', 'typeAliases', 'typeAliasHashes', 'typeDescs')]
FIELDS = ['types', 'typeNames', 'className', 'typeAliases', 'typeAliasHashes', 'typeDescs']


def src():
    t = [PRE, HEAD, '''
struct Noalias { int8 n0; uint64 n1; float n2; };
REFLECTOR_CREATE(Noalias, 1, EXTENDED, (, n0), (, n1), (, n2))
REFLECTOR_CREATE(Long, ENUM, 2, CLASS, 64, an_enumerator_with_a_rather_long_name = 0x8000000000000001, b, c = 5)
''', QUIET, STRINGSTREAM, '#include "datas/reflector_io.cpp"', '#include <new>']
    for cl in ALL:
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<%s>(); }' % (cid(cl), cl))
    for e in EN:
        t.append('extern "C" void enum_%s(ReflectedEnum *o) { new (o) ReflectedEnum(GetReflectedEnum<%s>()); }' % (e, e))
    for k, (cs, es) in enumerate(SETS.values()):
        t.append('extern "C" int save_%d(std::ostream &s, bool sw) { ReflectorIO r; %s %s BinWritterRef w(s); w.SwapEndian(sw); return r.Save(w); }'
                 % (k, ' '.join('r.AddClass<%s>();' % c for c in cs), ' '.join('r.AddEnum<%s>();' % e for e in es)))
    t.append('''extern "C" int load(ReflectorIO *r, std::istream &s, bool sw) { new (r) ReflectorIO; BinReaderRef rd(s); rd.SwapEndian(sw); return r->Load(rd); }
extern "C" size_t nclass(const ReflectorIO *r) { return r->Classes().size(); }
extern "C" size_t nenum(const ReflectorIO *r) { return r->Enums().size(); }
extern "C" const void *cls(const ReflectorIO *r, size_t k) { return r->Classes()[k]; }
extern "C" const void *enu(const ReflectorIO *r, size_t k) { return &r->Enums()[k]; }
extern "C" uint32 c_hash(const reflectorStatic *c) { return c->classHash.raw(); }
extern "C" uint32 c_num(const reflectorStatic *c) { return c->nTypes; }
extern "C" const void *c_alias(const reflectorStatic *c, size_t k) { return c->typeAliases[k]; }
extern "C" const void *c_name(const reflectorStatic *c, size_t k) { return c->typeNames[k]; }
extern "C" uint32 c_ahash(const reflectorStatic *c, size_t k) { return c->typeAliasHashes[k].raw(); }
extern "C" const void *c_type(const reflectorStatic *c, size_t k) { return &c->types[k]; }
extern "C" const void *c_desc(const reflectorStatic *c, size_t k, size_t p, size_t *n) { auto &d = p ? c->typeDescs[k].part2 : c->typeDescs[k].part1; *n = d.size(); return d.data(); }
extern "C" uint32 e_hash(const ReflectedEnum *e) { return e->hash.raw(); }
extern "C" size_t e_num(const ReflectedEnum *e) { return e->size(); }
extern "C" const void *e_name(const ReflectedEnum *e, size_t *n) { *n = e->name.size(); return e->name.data(); }
extern "C" const void *e_item(const ReflectedEnum *e, size_t k, size_t *n, uint64 *v) { auto s = (*e)[k]; *n = s.size(); *v = e->values[k]; return s.data(); }
extern "C" size_t typesize() { return sizeof(reflType); }
extern "C" int set(const reflectorStatic *c, X *x, uint32 h, int64 v, uint64 u, double d) { ReflectedInstance i(c, x); ReflectorPureWrap w(i); Reflector &r = w;
  int a = (int)r.SetReflectedValueInt(JenHash(h), v), b = (int)r.SetReflectedValueUInt(JenHash(h), u), e = (int)r.SetReflectedValueFloat(JenHash(h), d); return a == 0 || b == 0 || e == 0; }
''')
    for f in FIELDS:
        t.append('extern "C" const void *f_%s(const reflectorStatic *c) { return c->%s; }' % (f, f))
    return '\n'.join(t)


def run(c):
    c.rule('Constant and points-to dataflow of ReflectorIO::Save into ReflectorIO::Load over a typed byte stream: every table of the loaded set must have the hashes, entries and texts of the saved one.')
    c.assumption('tables as decided by R01; streams are files: gaps left by seeking read as zero; 64 bit pointers')
    m = ir.unit(text=src(), name='R07')
    r = TextRig(m)
    x = r.ctx
    r.prepare(*r.statics())
    tab, en = {}, {}
    for cl in ALL:
        s = r.new()
        s.run('tab_' + cid(cl))
        r.base = s.out
        tab[cl] = s.it.ptr(s.ret)
    for e in EN:
        s = r.new(constants=True)
        s.buf('enum ' + e)
        s.run('enum_' + e, [Ptr('enum ' + e)])
        r.base = s.out
        en[e] = Ptr('enum ' + e)
    base = r.base

    def ask(mem, fn, *args, out=()):
        s = r.new()
        s.mem = mem.copy()
        for o in out:
            s.buf(o)
        s.run(fn, list(args))
        s.val = s.it.ptr(s.ret) if fn in PTRS else x.cval(Word(s.ret))
        return s
    tsize = ask(base, 'typesize').val

    def string(mem, p, n=None):
        if p.base == 'null':
            return None
        s = r.new()
        s.mem = mem.copy()
        if n is not None:
            return bytes_at(s, s.mem, p, n)
        t = cstr(s, s.mem, p)
        return t

    def table(mem, p):
        """what a table says"""
        d = {'hash': ask(mem, 'c_hash', p).val, 'count': ask(mem, 'c_num', p).val}
        f = {k: ask(mem, 'f_' + k, p).val for k in FIELDS}
        d['className'] = string(mem, f['className'])
        n = d['count']
        if n is None or n > 100:
            return d
        s = r.new()
        s.mem = mem.copy()
        for k in range(n):
            q = ask(mem, 'c_type', p, x.cw(k, 64)).val
            d['entry %d' % k] = bytes_at(s, s.mem, q, tsize)
            for fld, fn in (('typeNames', 'c_name'), ('typeAliases', 'c_alias')):
                d['%s %d' % (fld, k)] = string(mem, ask(mem, fn, p, x.cw(k, 64)).val) if f[fld].base != 'null' else 'no table'
            d['typeAliasHashes %d' % k] = ask(mem, 'c_ahash', p, x.cw(k, 64)).val if f['typeAliasHashes'].base != 'null' else 'no table'
            for part in (0, 1):
                v = 'no table'
                if f['typeDescs'].base != 'null':
                    a = ask(mem, 'c_desc', p, x.cw(k, 64), x.cw(part, 64), Ptr('len'), out=['len'])
                    l = x.cval(Word(a.outbits('len', 0, 8)))
                    v = b'' if l == 0 else string(mem, a.val, l) if l is not None and l < 1000 else 'length %s' % l
                d['typeDescs %d part %d' % (k, part)] = v
        return d

    def enum(mem, p):
        d = {'hash': ask(mem, 'e_hash', p).val, 'count': ask(mem, 'e_num', p).val}
        a = ask(mem, 'e_name', p, Ptr('len'), out=['len'])
        l = x.cval(Word(a.outbits('len', 0, 8)))
        d['name'] = string(mem, a.val, l) if l is not None and l < 1000 else 'length %s' % l
        if d['count'] is None or d['count'] > 100:
            return d
        for k in range(d['count']):
            a = ask(mem, 'e_item', p, x.cw(k, 64), Ptr('len'), Ptr('val'), out=['len', 'val'])
            l = x.cval(Word(a.outbits('len', 0, 8)))
            d['enumerator %d' % k] = string(mem, a.val, l) if l is not None and l < 1000 else 'length %s' % l
            d['value %d' % k] = x.cval(Word(a.outbits('val', 0, 8)))
        return d
    want = {cl: table(base, p) for cl, p in tab.items()}
    wante = {e: enum(base, p) for e, p in en.items()}
    c.ob('the tables are complete', want['X']['typeAliases 1'] == 'other name' and want['X']['typeAliasHashes 1'] == jenkins('other name') and want['X']['typeDescs 2 part 1'] == b'second'
         and wante['EF']['value 1'] == 31 and wante['EF']['name'] == b'EF', '%s %s' % (want['X'], wante['EF']), 'REFLECTOR_CREATE')
    W = 'ReflectorIO::Save/Load (datas/reflector_io.cpp)'
    for k, (key, (cs, es)) in enumerate(SETS.items()):
        with c.part(key):
            r.base = base
            s = r.new()
            s.buf('os')
            w = FileStream(s, only=Ptr('os'))
            s.run('save_%d' % k, [Ptr('os'), x.cw(0, 1)])
            c.ob(key + ': Save succeeds', x.cval(Word(s.ret)) == 0, '', W)
            c.ob(key + ': Save ends at the end', w.pos == w.length(), '%s of %d' % (w.pos, w.length()), W)
            s2 = r.new()
            s2.mem = s.out.copy()
            s2.it.record_access = True
            s2.buf('is'), s2.buf('rio')
            rd = FileStream(s2, only=Ptr('is'))
            rd.link = w
            s2.run('load', [Ptr('rio'), Ptr('is'), x.cw(0, 1)])
            c.ob(key + ': Load succeeds', x.cval(Word(s2.ret)) == 0, '', W)
            mem = s2.out
            c.ob(key + ': number of classes', ask(mem, 'nclass', Ptr('rio')).val == len(cs), '', W)
            c.ob(key + ': number of enums', ask(mem, 'nenum', Ptr('rio')).val == len(es), '', W)
            for j, cl in enumerate(cs):
                with c.part('%s: class %d' % (key, j)):
                    got = table(mem, ask(mem, 'cls', Ptr('rio'), x.cw(j, 64)).val)
                    for f, v in want[cl].items():
                        c.ob('%s: class %d (%s) %s' % (key, j, cl, f), got.get(f) == v, '%r, saved %r' % (got.get(f), v), W)
            for j, e in enumerate(es):
                with c.part('%s: enum %d' % (key, j)):
                    got = enum(mem, ask(mem, 'enu', Ptr('rio'), x.cw(j, 64)).val)
                    for f, v in wante[e].items():
                        c.ob('%s: enum %d (%s) %s' % (key, j, e, f), got.get(f) == v, '%r, saved %r' % (got.get(f), v), W)
            # a loaded table serves like the original
            for j, cl in enumerate(cs):
                if cl != 'X':
                    continue
                for nm in ('plain', 'ali', 'other name', 'alias2', 'none', 'last', 'last alias'):
                    a = r.new()
                    a.mem = mem.copy()
                    a.buf('x')
                    a.it.record_access = True
                    p = ask(mem, 'cls', Ptr('rio'), x.cw(j, 64)).val
                    v = a.arg('value', 64)
                    a.run('set', [p, Ptr('x'), x.cw(jenkins(nm), 32), v, v, v])
                    c.ob('%s: "%s" is set through the loaded class %d' % (key, nm, j), x.cval(Word(a.ret)) == 1, '', W)
            # header
            if cs:
                for what, pos, val, code in (('of another kind', 0, 0x41414141, 1), ('of a newer version', 4, 1001, 2), ('of a much newer version', 4, 0xffffffff, 2)):
                    keep = dict(w.out)
                    for q, b in enumerate(val.to_bytes(4, 'little')):
                        w.out[pos + q] = tuple(x.cw(b, 8))
                    b = r.new()
                    b.buf('is'), b.buf('rio')
                    rd = FileStream(b, only=Ptr('is'))
                    rd.link = w
                    b.run('load', [Ptr('rio'), Ptr('is'), x.cw(0, 1)])
                    c.ob('%s: a file %s is refused' % (key, what), x.cval(Word(b.ret)) == code, 'returns %s' % x.cval(Word(b.ret)), W)
                    c.ob('%s: a file %s adds nothing' % (key, what), ask(b.out, 'nclass', Ptr('rio')).val == 0 and ask(b.out, 'nenum', Ptr('rio')).val == 0, '', W)
                    w.out = keep
    c.unit('R07 driver (reflector_io.cpp)', m)
