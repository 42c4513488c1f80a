"""Binary object storage: what Save writes, Load restores."""
import ir
from refl import *
from drv import *

MIN = 2500
# name: (member declaration, [(offset in member, bytes, signed)] numbers stored with variable length, bytes stored as they are)
INTS = {'i16': ('int16', 2, 1), 'i32': ('int32', 4, 1), 'i64': ('int64', 8, 1), 'u16': ('uint16', 2, 0), 'u32': ('uint32', 4, 0), 'u64': ('uint64', 8, 0),
        'e16': ('E16', 2, 1), 'e32': ('E32', 4, 1), 'e64': ('E64', 8, 1), 'fl16': ('es::Flags<E16, uint16>', 2, 0), 'fl32': ('es::Flags<E8, uint32>', 4, 0),
        'fl64': ('es::Flags<EF, uint64>', 8, 0), 'bf16': ('B16', 2, 0), 'bf64': ('B64', 8, 0)}
RAW = {'b': ('bool', 1), 'i8': ('int8', 1), 'u8': ('uint8', 1), 'f': ('float', 4), 'd': ('double', 8), 'e8': ('E8', 1), 'fl8': ('es::Flags<E8, uint8>', 1),
       'v2': ('Vector2', 8), 'v3': ('Vector', 12), 'v4': ('Vector4', 16), 'v4a': ('Vector4A16', 16), 'vb': ('t_Vector4<int8>', 4), 'vd': ('t_Vector2<double>', 16)}
# arrays and nested: declaration, numbers at (offset, size, signed), raw bytes (offset, size)
NEST = {'ab': ('bool ab[4]', [], [(0, 4)]), 'ai16': ('int16 ai16[3]', [(0, 2, 1), (2, 2, 1), (4, 2, 1)], []), 'au64': ('uint64 au64[2]', [(0, 8, 0), (8, 8, 0)], []),
        'ad': ('double ad[3]', [], [(0, 24)]), 'sa': ('std::array<uint32, 3> sa', [(0, 4, 0), (4, 4, 0), (8, 4, 0)], []),
        'ae': ('E32 ae[2]', [(0, 4, 1), (4, 4, 1)], []), 'afl': ('es::Flags<E8, uint32> afl[2]', [(0, 4, 0), (4, 4, 0)], []), 'av': ('Vector av[2]', [], [(0, 24)]),
        'vs': ('t_Vector2<int16> vs', [(0, 2, 1), (2, 2, 1)], []), 'avs': ('t_Vector4<uint16> avs[2]', [(2 * k, 2, 0) for k in range(8)], []),
        'vq': ('t_Vector<int64> vq', [(0, 8, 1), (8, 8, 1), (16, 8, 1)], []),
        'abf': ('B16 abf[2]', [(0, 2, 0), (2, 2, 0)], []), 'sub': ('Sub sub', [(0, 4, 1)], [(4, 4)]), 'asub': ('Sub asub[3]', [(8 * k, 4, 1) for k in range(3)], [(8 * k + 4, 4) for k in range(3)]),
        'many': ('Sub many[300]', [(8 * k, 4, 1) for k in range(300)], [(8 * k + 4, 4) for k in range(300)]), 'mraw': ('float mraw[300]', [], [(0, 1200)]),
        'mnum': ('uint16 mnum[300]', [(2 * k, 2, 0) for k in range(300)], []), 'mvec': ('t_Vector2<int16> mvec[130]', [(2 * k, 2, 1) for k in range(260)], []),
        'deep': ('Mid deep[2]', [(24 * k + o, n, s) for k in range(2) for o, n, s in ((0, 2, 0), (4, 4, 1), (12, 4, 1))], [(24 * k + o, 4) for k in range(2) for o in (8, 16)] + [(24 * k + 20, 1) for k in range(2)])}


def src():
    t = [PRE, HEAD, '''
struct Mid { uint16 m0; Sub m1[2]; bool m2; void ReflectorTag(); };
REFLECTOR_CREATE(Mid, 1, VARNAMES, m0, m1, m2)
struct Unreg { int32 q; void ReflectorTag(); };
REFLECTOR_CREATE(Unreg, 1, VARNAMES, q)
static_assert(sizeof(Mid) == 24 && sizeof(Sub) == 8, "");
''', QUIET, STRINGSTREAM, '#include "datas/reflector_io.cpp"', '#include <new>']
    t.append('extern "C" void reg() { RegisterReflectedTypes<E8, E16, E32, E64, EF, Sub, Mid, B16, B64> r; (void)r; }')
    decls = [(k, '%s %s' % (v[0], k)) for k, v in list(INTS.items()) + list(RAW.items())] + [(k, v[0]) for k, v in NEST.items()]
    decls += [('str', 'std::string str'), ('astr', 'std::string astr[2]'), ('cs', 'const char *cs'), ('un', 'Unreg un'), ('aun', 'Unreg aun[2]')]
    for k, d in decls:
        t.append('struct K_%s { char lead; %s; char tail; };\nREFLECTOR_CREATE(K_%s, 1, VARNAMES, %s)' % (k, d, k, k))
    t.append('''struct K_all { uint8 a; int32 b; float c; std::string d; Sub e; uint16 f[2]; int64 g; };
REFLECTOR_CREATE(K_all, 1, VARNAMES, a, b, c, d, e, f, g)
struct K_skip { uint8 a[5]; uint8 b[127]; uint8 c[128]; uint8 d[700]; float e; };
REFLECTOR_CREATE(K_skip, 1, VARNAMES, a, b, c, d, e)
extern "C" void off_skip(uint64 *o) { o[0] = offsetof(K_skip, a); o[1] = offsetof(K_skip, b); o[2] = offsetof(K_skip, c); o[3] = offsetof(K_skip, d); o[4] = offsetof(K_skip, e); o[5] = sizeof(K_skip); }
struct K_err { int32 a; Unreg u; int32 b; };
REFLECTOR_CREATE(K_err, 1, VARNAMES, a, u, b)
extern "C" void off_all(uint64 *o) { o[0] = offsetof(K_all, a); o[1] = offsetof(K_all, b); o[2] = offsetof(K_all, c); o[3] = offsetof(K_all, d); o[4] = offsetof(K_all, e); o[5] = offsetof(K_all, f); o[6] = offsetof(K_all, g); o[7] = sizeof(K_all); }
extern "C" void off_err(uint64 *o) { o[0] = offsetof(K_err, a); o[1] = offsetof(K_err, u); o[2] = offsetof(K_err, b); o[3] = sizeof(K_err); }
extern "C" void set_all(K_all *a, const char *p, size_t n) { new (&a->d) std::string(p, n); }
extern "C" void set_str(K_str *a, const char *p, size_t n) { new (&a->str) std::string(p, n); }
extern "C" void set_astr(K_astr *a, const char *p, size_t n) { new (&a->astr[0]) std::string(p + 1, n / 2); new (&a->astr[1]) std::string(p, n); }
''')
    for k in [k for k, _ in decls] + ['all', 'err', 'skip']:
        if k not in ('all', 'err', 'skip'):
            t.append('extern "C" void off_%s(uint64 *o) { o[0] = offsetof(K_%s, %s); o[1] = sizeof(K_%s); }' % (k, k, k, k))
        t.append('extern "C" const void *tab_%s() { return GetReflectedClass<K_%s>(); }' % (k, k))
        t.append('extern "C" int sv_%s(const K_%s *t, std::ostream &s, bool sw) { ReflectorWrap<const K_%s> w(t); BinWritterRef r(s); r.SwapEndian(sw); return ReflectorBinUtil::Save(w, r); }' % (k, k, k))
        t.append('extern "C" int ld_%s(K_%s *t, std::istream &s, bool sw) { ReflectorWrap<K_%s> w(t); BinReaderRef r(s); r.SwapEndian(sw); return ReflectorBinUtil::Load(w, r); }' % (k, k, k))
    return '\n'.join(t)


class Rig:
    def __init__(self, c):
        self.c = c
        self.m = ir.unit(text=src(), name='R06')
        self.r = TextRig(self.m)
        self.x = self.r.ctx
        self.r.prepare(*self.r.statics())
        self.keys = list(INTS) + list(RAW) + list(NEST) + ['str', 'astr', 'cs', 'un', 'aun', 'all', 'err', 'skip']
        self.r.prepare(*['tab_' + k for k in self.keys])
        self.r.prepare('reg')
        self.base = self.r.base
        self.off = {}
        for k in self.keys:
            s = self.r.new()
            s.buf('o')
            s.run('off_' + k, [Ptr('o')])
            self.off[k] = [self.x.cval(Word(s.outbits('o', 8 * j, 8))) for j in range(8 if k == 'all' else 4 if k == 'err' else 6 if k == 'skip' else 2)]

    def new(self, mem=None):
        s = self.r.new()
        if mem is not None:
            s.mem = mem.copy()
        StringStreams(s)
        s.it.record_access = True
        return s

    def number(self, s, off, n, msb, neg):
        """a number whose highest significant bit is msb, of that sign; lower bits unknown"""
        b = s.inbits('a', off, n)
        b = [l ^ neg for l in b[:max(msb, 0)]] + ([1 ^ neg] if msb >= 0 else [neg])
        return Word((b + [neg] * (8 * n))[:8 * n])

    def save(self, k, fill, sw=0):
        s = self.new()
        s.buf('a')
        fill(s)
        s.buf('os')
        w = Stream(s, only=Ptr('os'))
        s.run('sv_' + k, [Ptr('a'), Ptr('os'), self.x.cw(sw, 1)])
        return s, w

    def load(self, k, mem, w, sw=0, fill=None, prefix=''):
        s = self.new(mem)
        s.buf('b')
        if fill:
            fill(s)
        s.buf('is')
        r = Stream(s, only=Ptr('is'))
        r.link = w
        s.run('ld_' + k, [Ptr('b'), Ptr('is'), self.x.cw(sw, 1)])
        st = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 'b']
        return s, r, st

    def within(self, key, st, ranges):
        def ok(e):
            return not e.ptr.sym and isinstance(e.size, int) and any(lo <= e.ptr.off and e.ptr.off + e.size <= hi for lo, hi in ranges)
        # bulk reads of the stream are recorded as one store
        bad = [e for e in st if not ok(e)]
        self.c.ob(key + ': nothing but the members is stored', not bad, str([(e.ptr, e.size) for e in bad[:3]]), ir.loc_str(bad[0].loc) if bad else '')

    def roundtrip(self, key, k, fill, ranges, sw=0, cond=()):
        c, x = self.c, self.x
        s, w = self.save(k, fill, sw)
        c.ob(key + ': Save succeeds', x.cval(Word(s.ret)) == 0, 'returns %s' % x.show(s.ret[0]), 'ReflectorBinUtil::Save')
        c.ob(key + ': written once and in order', not w.condwrites and isinstance(w.pos, int) and sorted(w.out) == list(range(w.pos)), '', 'ReflectorBinUtil::Save')
        h = rev(self.hash(k)) if sw else self.hash(k)
        c.ob(key + ': begins with the class hash', *s.cmp(w.outbits(0, 4), h), 'ReflectorBinUtil::Save')
        s2, r, st = self.load(k, s.out, w, sw)
        c.ob(key + ': Load succeeds', x.cval(Word(s2.ret)) == 0, 'returns %s' % x.show(s2.ret[0]), 'ReflectorBinUtil::Load')
        c.ob(key + ': Load consumes what Save wrote', r.pos == w.pos, 'read %s of %s' % (r.pos, w.pos), 'ReflectorBinUtil::Load')
        for lo, hi in ranges:
            ok, d = s2.cmp(s2.outbits('b', lo, hi - lo), s.outbits('a', lo, hi - lo))
            c.ob('%s: bytes %d-%d restored' % (key, lo, hi), ok, d, 'LoadDataItem (datas/reflector_io.cpp)')
        self.within(key, st, ranges)
        return s, w

    def hash(self, k):
        return self.x.cw(jenkins('K_' + k), 32)


def run(c):
    c.rule('Bit-provenance dataflow of Save into Load over a typed byte stream, per member kind: every byte of the restored member must consist of the bits of the saved one, nothing else may be stored, '
           'and the bytes written must be exactly the bytes consumed. Integers are partitioned by sign and highest significant bit (lower bits unknown), all other values are unknown.')
    c.assumption('tables as decided by R01; streams deliver and accept the requested number of bytes; std::stringstream holds what was written to it')
    r = Rig(c)
    x = r.x
    thorough = c.tier == 'thorough'

    def msbs(n, neg):
        return range(-1, 8 * n - (1 if neg is not None and neg >= 0 else 0)) if thorough or n < 8 else [-1, 0, 5, 6, 7, 12, 13, 14, 20, 27, 31, 32, 34, 41, 48, 54, 55, 56, 61, 62] + ([63] if neg is None else [])
    for k, (ty, n, sg) in INTS.items():
        o = r.off[k][0]
        for neg in (0, 1) if sg else (None,):
            for mb in msbs(n, neg):
                with c.part('%s %s %s' % (k, neg, mb)):
                    for sw in (0, 1) if mb in (-1, 13) else (0,):
                        r.roundtrip('%s %sbit %d%s' % (ty, 'negative ' * (neg or 0), mb, ' swapped' * sw), k, lambda s: s.setw('a', o, r.number(s, o, n, mb, neg or 0)), [(o, o + n)], sw)
    for k, (ty, n) in RAW.items():
        o = r.off[k][0]
        for sw in (0, 1):
            with c.part(k):
                r.roundtrip(ty + ' swapped' * sw, k, lambda s: None, [(o, o + n)], sw)
    for k, (d, nums, raw) in NEST.items():
        o = r.off[k][0]
        for pat in range(3 if len(nums) < 20 else 1):
            with c.part('%s %d' % (k, pat)):
                def fill(s):
                    for j, (at, n, sg) in enumerate(nums):
                        mb = [(3 * j + 2) % (8 * n - 1), (8 * n - 2 - 5 * j) % (8 * n - 1), (7 * j + 6) % (8 * n - 1)][pat]
                        s.setw('a', o + at, r.number(s, o + at, n, mb, (j + pat) % 2 if sg else 0))
                r.roundtrip('%s, pattern %d' % (d, pat), k, fill, [(o + at, o + at + n) for at, n, _ in nums] + [(o + at, o + at + n) for at, n in raw])
    strings(c, r)
    changed(c, r)
    c.unit('R06 driver (reflector_io.cpp, reflector.cpp)', r.m)


def strings(c, r):
    x = r.x
    for k, offs in (('str', [0]), ('astr', [0, 32])):
        o = r.off[k][0]
        for n, sw in ((0, 0), (1, 0), (15, 0), (16, 0), (16, 1), (40, 0), (130, 0), (300, 0)):
            for prior in (0, 3, 20):
                if (n in (15, 130) or k == 'astr') and prior == 20 and n != 40:
                    continue
                with c.part('%s %d %d' % (k, n, prior)):
                    key = '%s of %d characters over %d%s' % (k, n, prior, ' swapped' * sw)
                    s0 = r.new()
                    s0.buf('a'), s0.buf('chars')
                    s0.run('set_' + k, [Ptr('a'), Ptr('chars'), x.cw(n, 64)])
                    s = r.new(s0.out)
                    s.buf('os')
                    w = Stream(s, only=Ptr('os'))
                    s.run('sv_' + k, [Ptr('a'), Ptr('os'), x.cw(sw, 1)])
                    c.ob(key + ': Save succeeds', x.cval(Word(s.ret)) == 0, '', 'ReflectorBinUtil::Save')
                    s1 = r.new(s.out)
                    s1.buf('b'), s1.buf('old')
                    s1.run('set_' + k, [Ptr('b'), Ptr('old'), x.cw(prior, 64)])
                    s2 = r.new(s1.out)
                    s2.buf('is')
                    rd = Stream(s2, only=Ptr('is'))
                    rd.link = w
                    s2.run('ld_' + k, [Ptr('b'), Ptr('is'), x.cw(sw, 1)])
                    c.ob(key + ': Load succeeds', x.cval(Word(s2.ret)) == 0 and rd.pos == w.pos, 'consumed %s of %s' % (rd.pos, w.pos), 'ReflectorBinUtil::Load')
                    for j, so in enumerate(offs):
                        want = n if k == 'str' or j else n // 2
                        l = int_at(s2, s2.out, Ptr('b', o + so), 8, 8)
                        p = ptr_at(s2, s2.out, Ptr('b', o + so), 0)
                        c.ob('%s: length %d' % (key, j), l == want, '%r' % l, 'LoadDataItem (datas/reflector_io.cpp)')
                        if l == want and isinstance(p, Ptr) and not p.sym:
                            src = s.inbits('chars', 0 if k == 'str' or j else 1, want)
                            ok, d = s2.cmp(s2.outbits(p.base, p.off, want), src)
                            c.ob('%s: characters %d' % (key, j), ok, d, 'LoadDataItem (datas/reflector_io.cpp)')


def changed(c, r):
    """streams of another version of the class"""
    x = r.x
    o = dict(zip('abcdefg', r.off['all']))
    n = {'a': 1, 'b': 4, 'c': 4, 'e': 8, 'f': 4, 'g': 8}
    s0 = r.new()
    s0.buf('a'), s0.buf('chars')
    s0.run('set_all', [Ptr('a'), Ptr('chars'), x.cw(5, 64)])
    s0.mem = s0.out
    s1 = r.new(s0.out)
    for at, sz, mb, ng in ((o['b'], 4, 14, 1), (o['e'], 4, 29, 0), (o['f'], 2, 3, 0), (o['f'] + 2, 2, 15, 0), (o['g'], 8, 50, 1)):
        s1.setw('a', at, r.number(s1, at, sz, mb, ng))
    s1.buf('os')
    w = Stream(s1, only=Ptr('os'))
    s1.run('sv_all', [Ptr('a'), Ptr('os'), x.cw(0, 1)])
    c.ob('all kinds: Save succeeds', x.cval(Word(s1.ret)) == 0 and isinstance(w.pos, int), '', 'ReflectorBinUtil::Save')
    hashes = {k: x.cw(jenkins(k), 32) for k in 'abcdefg'}
    at = {}
    for k in 'abcdefg':
        f = [p for p in range(w.pos - 4) if w.outbits(p, 4) == list(hashes[k])]
        c.ob('all kinds: member %s is stored by name' % k, len(f) == 1, '%r' % f, 'SaveClass (datas/reflector_io.cpp)')
        at[k] = f[0]

    def attempt(edit):
        keep = dict(w.out)
        for p, bits in edit:
            for j in range(len(bits) // 8):
                w.out[p + j] = tuple(bits[8 * j:8 * j + 8])
        s3 = r.new(s1.out)
        s3.buf('b'), s3.buf('old')
        s3.run('set_all', [Ptr('b'), Ptr('old'), x.cw(3, 64)])
        s = r.new(s3.out)
        s.buf('is')
        rd = Stream(s, only=Ptr('is'))
        rd.link = w
        s.run('ld_all', [Ptr('b'), Ptr('is'), x.cw(0, 1)])
        w.out = keep
        return s, rd, [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 'b']

    def restored(key, s, names):
        for k in n:
            want = s1.outbits('a', o[k], n[k]) if k in names else s.inbits('b', o[k], n[k])
            ok, d = s.cmp(s.outbits('b', o[k], n[k]), want)
            c.ob('%s: member %s is %s' % (key, k, 'restored' if k in names else 'kept'), ok, d, 'LoadClass (datas/reflector_io.cpp)')
        l = int_at(s, s.out, Ptr('b', o['d']), 8, 8)
        c.ob('%s: member d is %s' % (key, 'restored' if 'd' in names else 'kept'), l == (5 if 'd' in names else 3), '%r' % l, 'LoadClass (datas/reflector_io.cpp)')
    L = 'LoadClass (datas/reflector_io.cpp)'
    with c.part('all kinds'):
        s, rd, st = attempt([])
        c.ob('all kinds: Load succeeds', x.cval(Word(s.ret)) == 0 and rd.pos == w.pos, '%s of %s' % (rd.pos, w.pos), L)
        restored('all kinds', s, 'abcdefg')
    for k in 'abcdefg':
        with c.part('unknown ' + k):
            s, rd, st = attempt([(at[k], x.cw(0x12345, 32))])
            key = 'stream with an unknown member in place of ' + k
            c.ob(key + ' is read to its end', rd.pos == w.pos, '%s of %s' % (rd.pos, w.pos), L)
            restored(key, s, 'abcdefg'.replace(k, ''))
    with c.part('reordered'):
        # members in another order: b and g exchange names, both are signed numbers
        s, rd, st = attempt([(at['b'], hashes['g']), (at['g'], hashes['b'])])
        c.ob('stream with members in another order is read to its end', rd.pos == w.pos, '', L)
        for k in 'acef':
            ok, d = s.cmp(s.outbits('b', o[k], n[k]), s1.outbits('a', o[k], n[k]))
            c.ob('members in another order: member %s is restored' % k, ok, d, L)
        sx = s1.outbits('a', o['b'], 4)
        ok, d = s.cmp(s.outbits('b', o['g'], 8), sx + [sx[-1]] * 32)
        c.ob('members in another order: each is stored under its name', ok, d, L)
    with c.part('other class'):
        s, rd, st = attempt([(0, x.cw(jenkins('K_none'), 32))])
        c.ob('stream of another class is refused', x.cval(Word(s.ret)) not in (0, None), '', 'ReflectorBinUtil::Load')
        c.ob('stream of another class stores nothing', not st, str(st[:2]), 'ReflectorBinUtil::Load')
        c.ob('stream of another class is not consumed', rd.pos == 0, 'position %s' % rd.pos, 'ReflectorBinUtil::Load')
    # chunk size, then the count of members
    p = 4
    while w.out[p][7] == 1:
        p += 1
    p += 1
    c.ob('the member count follows the chunk size', w.outbits(p, 1) == list(x.cw(7, 8)), '', 'SaveClass (datas/reflector_io.cpp)')
    for cnt in (0, 6, 8, 127):
        with c.part('count %d' % cnt):
            s, rd, st = attempt([(p, x.cw(cnt, 8))])
            c.ob('stream with %d members is refused' % cnt, x.cval(Word(s.ret)) not in (0, None), '', L)
            c.ob('stream with %d members stores nothing' % cnt, not st, str(st[:2]), L)
            c.ob('stream with %d members is skipped' % cnt, rd.pos == w.pos, '%s of %s' % (rd.pos, w.pos), L)
    good = True
    for what in ('constant values, ', ''):
        def fill(s):
            for k in range(1024 if what else 0):
                s.setc('a', k, 9 + k * 37 % 113, 1)
        if not good:
            break
        with c.part(what + 'skipped sizes'):
            o = dict(zip('abcde', r.off['skip']))
            n = dict(a=5, b=127, c=128, d=700, e=4)
            s, w = r.save('skip', fill)
            good &= c.ob(what + 'large members are saved', x.cval(Word(s.ret)) == 0, '', 'ReflectorBinUtil::Save')
            p = 4
            while w.out[p][7] == 1:
                p += 1
            p += 2
            for k in 'abcde':
                good &= c.ob(what + 'member %s of %d bytes is stored by name' % (k, n[k]), w.outbits(p, 4) == list(hashes[k]), 'at %d' % p, 'SaveClass (datas/reflector_io.cpp)')
                keep = dict(w.out)
                for j, b in enumerate([0x45, 0x23, 1, 0]):
                    w.out[p + j] = tuple(x.cw(b, 8))
                s2, rd, st = r.load('skip', s.out, w)
                good &= c.ob(what + 'an unknown member of %d bytes is skipped' % n[k], rd.pos == w.pos, '%s of %s' % (rd.pos, w.pos), L)
                for m in 'abcde':
                    want = s2.inbits('b', o[m], n[m]) if m == k else s.outbits('a', o[m], n[m])
                    ok, d = s2.cmp(s2.outbits('b', o[m], n[m]), want)
                    good &= c.ob(what + 'an unknown member of %d bytes: member of %d bytes' % (n[k], n[m]), ok, d, L)
                w.out = keep
                p += 5 if n[k] < 128 else 6 if n[k] < 16384 else 7
                p += n[k]
    for k in ('cs', 'un', 'aun', 'err'):
        with c.part(k + ' not storable'):
            s, w2 = r.save(k, lambda s: s.setw('a', r.off['err'][0], r.number(s, r.off['err'][0], 4, 13, 0)) if k == 'err' else None)
            c.ob('%s cannot be stored: Save reports it' % k, x.cval(Word(s.ret)) not in (0, None), '', 'ReflectorBinUtil::Save')
            null = [e for e in s.it.events if e.kind in ('load', 'store') and (e.ptr.base == 'null')]
            c.ob('%s cannot be stored: no null pointer is followed' % k, not null, '', ir.loc_str(null[0].loc) if null else '')
    # a member that cannot be loaded is reported, the others are loaded
    with c.part('not loadable'):
        a, u, b, size = r.off['err']
        w2 = Stream(r.new(), only=Ptr('none'))
        body = [(3, 1)] + [('h', 'a'), (2, 1), (0x85, 1), (0x01, 1), ('h', 'u'), (2, 1), (1, 1), (0, 1), ('h', 'b'), (1, 1), (9, 1)]
        bits = []
        for v, z in body:
            bits += list(x.cw(jenkins(z), 32)) if v == 'h' else list(x.cw(v, 8 * z))
        whole = list(r.hash('err')) + list(x.cw(len(bits) // 8, 8)) + bits
        for j in range(len(whole) // 8):
            w2.out[j] = tuple(whole[8 * j:8 * j + 8])
        s, rd, st = r.load('err', r.base, w2)
        c.ob('a member of unregistered class is reported', x.cval(Word(s.ret)) not in (0, None), 'returns %s' % x.cval(Word(s.ret)), L)
        null = [e for e in s.it.events if e.kind in ('load', 'store') and (e.ptr.base == 'null')]
        c.ob('a member of unregistered class: no null pointer is followed', not null, '', ir.loc_str(null[0].loc) if null else '')
        c.ob('a member of unregistered class is skipped', rd.pos == len(whole) // 8, '%s' % rd.pos, L)
        c.ob('the member before it is loaded', *s.cmp(s.outbits('b', a, 4), x.cw(133, 32)), L)
        c.ob('the member after it is loaded', *s.cmp(s.outbits('b', b, 4), x.cw(9, 32)), L)
