"""The block cipher and the exclusive-or coder: decoding undoes encoding, and the
cipher is the published one."""
import ir
from drv import *

MIN = 300
MODES = ['ECB', 'CBC', 'PCBC', 'CFB', 'OFB']
SRC = r'''
#include <cstring>
#include <random>
#define private public
#define protected public
#include "datas/encrypt/blowfish2.h"
#undef private
#undef protected
#include "datas/encrypt/blowfish.cpp"
#include "datas/encrypt/xorenc.hpp"
typedef BlowfishEncoder BE;
extern "C" { void probe_enc(uint64 *); void probe_dec(uint64 *); void probe_key(uint64 *, const void *); }
// the block functions as an unknown permutation and its inverse
template<class B> struct Probe : B {
  void EncodeBlock(uint64 &b) const override { probe_enc(&b); }
  void DecodeBlock(uint64 &b) const override { probe_dec(&b); }
};
template<class B> struct KeyProbe : B {
  void EncodeBlock(uint64 &b) const override { probe_key(&b, this); }
  void DecodeBlock(uint64 &b) const override { probe_dec(&b); }
};
struct Tables { uint32 p[18]; uint32 s[1024]; };
static inline uint32 part(uint32 x, int k) { return uint8(x >> (8 * k)); }
template<bool REV> static uint32 mix(const Tables &t, uint32 x) {
  return ((t.s[part(x, REV ? 0 : 3)] + t.s[256 + part(x, REV ? 1 : 2)]) ^ t.s[512 + part(x, REV ? 2 : 1)]) + t.s[768 + part(x, REV ? 3 : 0)];
}
// the published network: left is the lower word of the block
template<bool REV> static void network(const Tables &t, uint32 *d) {
  uint32 l = d[0], r = d[1];
  for (int i = 0; i < 16; i++) {
    l ^= t.p[i];
    r ^= mix<REV>(t, l);
    uint32 x = l; l = r; r = x;
  }
  uint32 x = l; l = r; r = x;
  r ^= t.p[16];
  l ^= t.p[17];
  d[0] = l; d[1] = r;
}
extern "C" {
void ref0(const Tables *t, uint32 *d) { network<false>(*t, d); }
void ref1(const Tables *t, uint32 *d) { network<true>(*t, d); }
uint32 offp() { return offsetof(BE, pboxes); }
uint32 offs() { return offsetof(BE, sboxes); }
void key0(KeyProbe<BE> *m, const char *k, size_t n) { new (m) KeyProbe<BE>; m->BE::SetKey(es::string_view(k, n)); }
void key1(KeyProbe<BlowfishEncoder2> *m, const char *k, size_t n) { new (m) KeyProbe<BlowfishEncoder2>; m->BlowfishEncoder2::SetKey(k, int(n)); }
int state0(BE *m) { new (m) BE; return m->Valid() | (m->mode == BE::ECB) << 1; }
int state1(BE *m, bool e) { new (m) BE; m->Enable(e); return m->Valid(); }
int state2(BE *m) { new (m) BE; m->Enable(false); m->Enable(); return m->Valid(); }
uint64 state3(BE *m, uint64 v) { new (m) BE; m->Vector(v); return m->Vector(); }
void xenc(char *b, size_t n, const char *k, size_t kn) { XOREncoder x; x.SetKey(es::string_view(k, kn)); x.Encode(b, n); }
void xdec(char *b, size_t n, const char *k, size_t kn) { XOREncoder x; x.SetKey(es::string_view(k, kn)); x.Decode(b, n); }
'''
for _k, _t in ((0, 'BE'), (1, 'BlowfishEncoder2')):
    for _d in ('Encode', 'Decode'):
        SRC += 'void %s%d(%s *m, char *b) { new (m) %s; %s *o = m; o->%s(b, 8); }\n' % (_d.lower(), _k, _t, _t, 'IEncryptor', _d)
for _i, _m in enumerate(MODES):
    for _d in ('Encode', 'Decode'):
        SRC += 'void %s_%s(Probe<BE> *m, char *b, size_t n, uint64 v) { new (m) Probe<BE>; m->Mode(BE::%s); m->Vector(v); const IEncryptor *o = m; o->%s(b, n); }\n' % (_d.lower(), _m, _m, _d)
        SRC += 'uint64 vec_%s_%s(Probe<BE> *m, char *b, size_t n, uint64 v) { new (m) Probe<BE>; m->Mode(BE::%s); m->Vector(v); const IEncryptor *o = m; o->%s(b, n); return m->Vector(); }\n' % (_d.lower(), _m, _m, _d)
SRC += '}\n'


def pi_words(n):
    """the first n 32 bit words of the fraction of pi"""
    bits = 32 * n + 64
    one = 1 << bits

    def atan_inv(x):
        t = s = one // x
        k, sg = 3, -1
        while t:
            t //= x * x
            s += sg * (t // k)
            k += 2
            sg = -sg
        return s
    pi = 4 * (4 * atan_inv(5) - atan_inv(239))
    frac = (pi - 3 * one) >> 64
    return [(frac >> (32 * (n - 1 - i))) & 0xffffffff for i in range(n)]


class Permutation:
    """E is an unknown permutation of the 64 bit blocks and D its inverse"""

    def __init__(self, s):
        self.s = s
        A = s.it.models.append
        A((re.compile('^probe_enc$'), self.op('E', 'D')))
        A((re.compile('^probe_dec$'), self.op('D', 'E')))

    def app(self, f, g, w):
        w = Word(w)
        if w[0] > 1:
            k = self.s.c.keys[w[0] >> 1]
            if k[0] == 'a':
                t = self.s.c.terms[k[1]]
                if t[0] == 'op' and t[2] == 'perm' and t[3] == g and Word(self.s.c.op(64, 'perm', g, t[4])) == w:
                    return Word(t[4])
        return self.s.c.op(64, 'perm', f, w)

    def op(self, f, g):
        def h(it, dem, i, args, mem):
            p = it.ptr(args[0])
            w = it.load(mem, p, ['i', 64], i)
            it.store(mem, p, ['i', 64], self.app(f, g, w), i)
            return None
        return h


def chain(s, P, mode, data, v, dec):
    """the published modes over 64 bit blocks"""
    c = s.c

    def x(a, b):
        return Word(c.XOR(i, j) for i, j in zip(a, b))
    out = []
    for b in data:
        if mode == 'ECB':
            o = P.app('D', 'E', b) if dec else P.app('E', 'D', b)
        elif mode in ('CBC', 'PCBC'):
            o = x(P.app('D', 'E', b), v) if dec else P.app('E', 'D', x(b, v))
            v = x(b, o) if mode == 'PCBC' else b if dec else o
        elif mode == 'CFB':
            o = x(P.app('E', 'D', v), b)
            v = b if dec else o
        else:
            v = P.app('E', 'D', v)
            o = x(v, b)
        out.append(Word(o))
    return out


def run(c):
    c.rule('Value-numbering dataflow over clang IR: (1) with the block functions as an unknown permutation and its inverse, every mode must compute the published '
           'chaining and decoding its output must give the input terms back; (2) the block functions over unknown tables must be the terms of the published network, '
           'and inverse to each other; (3) the key schedule is observed at each of its block encryptions: the tables must be those of the definition at that point.')
    c.assumption('the key is not empty')
    m = ir.unit(text=SRC, name='E01')
    sizes = [0, 7, 8, 15, 16, 24, 29, 40, 264] if c.tier == 'quick' else list(range(0, 33)) + [40, 47, 48, 80, 95, 264, 1029, 4104]
    sizes += ir.around(m, (1, 2, 3, 4, 7, 8, 15, 16, 18, 256, 1022), 41, 4200, (0, 9), (1, 8))
    for mode in MODES:
        for n in sizes:
            with c.part('%s %d' % (mode, n)):
                what = '%s of %d bytes' % (mode, n)
                ctx = None
                res = {}
                for d in ('encode', 'decode'):
                    s = S(m, ctx)
                    P = Permutation(s)
                    s.it.record_access = True
                    s.buf('M')
                    s.buf('B', n)
                    data = [Word(s.inbits('B', 8 * i, 8)) for i in range(n // 8)]
                    tail = s.inbits('B', n // 8 * 8, n % 8)
                    v = s.arg('v', 64)
                    s.run('%s_%s' % (d, mode), [Ptr('M'), Ptr('B'), s.const(n, 64), v])
                    want = chain(s, P, mode, data, v, d == 'decode')
                    ok, det = s.cmp(s.outbits('B', 0, n), [b for w in want for b in w] + tail)
                    c.ob('%s %s is the published chaining' % (d, what), ok, det[:300], 'BlowfishEncoder::%s%s' % (d.title(), mode))
                    over = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'B' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
                    c.ob('%s %s stays inside' % (d, what), not over, 'access beyond the buffer at ' + (ir.loc_str(over[0].loc) if over else ''), 'BlowfishEncoder::%s%s' % (d.title(), mode))
                    # undo
                    s2 = S(m, s.c)
                    P = Permutation(s2)
                    s2.mem = s.out.copy()
                    o = 'decode' if d == 'encode' else 'encode'
                    s2.run('vec_%s_%s' % (o, mode), [Ptr('M'), Ptr('B'), s2.const(n, 64), v])
                    ok, det = s2.cmp(s2.outbits('B', 0, n), [b for w in data for b in w] + tail)
                    c.ob('%s undoes %s of %s' % (o, d, what), ok, det[:300], 'BlowfishEncoder::%s%s' % (o.title(), mode))
                    c.ob('%s keeps the start vector of %s' % (o, what), s2.cmp(s2.ret, v)[0], 'the vector changes', 'BlowfishEncoder::%s%s' % (o.title(), mode))
    # the block functions
    s = S(m)
    s.run('offp')
    offp = s.c.cval(s.ret)
    s = S(m)
    s.run('offs')
    offs = s.c.cval(s.ret)
    for k, cls in ((0, 'BlowfishEncoder'), (1, 'BlowfishEncoder2')):
        with c.part(cls + ' block'):
            s = S(m)
            s.buf('M')
            s.buf('B', 8)
            s.run('encode%d' % k, [Ptr('M'), Ptr('B')])
            got = s.outbits('B', 0, 8)
            r = S(m, s.c)
            r.buf('M')
            r.buf('B', 8)
            # the reference over the same tables
            if offs != offp + 72:
                raise ir.AnalysisBroken('layout of the tables')
            r.run('ref%d' % k, [Ptr('M', offp), Ptr('B')])
            ok, d = s.cmp(got, r.outbits('B', 0, 8))
            c.ob(cls + ' encrypts a block with the published network', ok, d[:300], cls + '::EncodeBlock')
            for a, b in (('encode', 'decode'), ('decode', 'encode')):
                s = S(m)
                s.buf('M')
                s.buf('B', 8)
                want = s.inbits('B', 0, 8)
                s.run('%s%d' % (a, k), [Ptr('M'), Ptr('B')])
                s2 = S(m, s.c)
                s2.mem = s.out.copy()
                s2.run('%s%d' % (b, k), [Ptr('M'), Ptr('B')])
                ok, d = s2.cmp(s2.outbits('B', 0, 8), want)
                c.ob('%s: %s undoes %s of a block' % (cls, b, a), ok, d[:300], cls + '::%sBlock' % b.title())
    with c.part('state'):
        for fn, what, args, want in (('state0', 'a new encoder is not enabled and uses ECB', lambda s: [], lambda s: s.const(2, 32)), ('state1', 'an encoder is valid exactly when enabled', lambda s: [s.arg('e', 1)], lambda s: Word(list(s.arg('e', 1)) + [0] * 31)),
                                     ('state2', 'Enable enables by default', lambda s: [], lambda s: s.const(1, 32)), ('state3', 'the vector is the one given', lambda s: [s.arg('v', 64)], lambda s: s.arg('v', 64))):
            s = S(m)
            s.buf('M')
            s.run(fn, [Ptr('M')] + args(s))
            ok, det = s.cmp(s.ret, want(s))
            c.ob(what, ok and s.out is not None, det, 'BlowfishEncoder')
    # key schedule
    PI = pi_words(18 + 1024)
    for k, cls in ((0, 'BlowfishEncoder'), (1, 'BlowfishEncoder2')):
        for n in ((1, 3, 8, 11, 56) if c.tier == 'quick' else list(range(1, 57)) + [72, 80]):
            with c.part('%s key %d' % (cls, n)):
                s = S(m)
                s.buf('M')
                s.buf('K', n)
                s.it.record_access = True
                C = s.c
                kb = [s.inbits('K', i, 1) for i in range(n)]
                P = []
                for i in range(18):
                    e = []
                    for j in (range(3, -1, -1) if k == 0 else range(4)):
                        e += kb[(4 * i + j) % n]
                    P.append(Word(C.XOR(x, y) for x, y in zip(e, C.cw(PI[i], 32))))
                T = P + [C.cw(x, 32) for x in PI[18:]]
                st = {'n': 0, 'bad': None, 'last': C.cw(0, 64)}

                def key(it, dem, i, args, mem):
                    p, t = it.ptr(args[0]), it.ptr(args[1])
                    x = it.load(mem, p, ['i', 64], i)
                    q = st['n']
                    if it.cond:
                        raise ir.AnalysisBroken('conditional key schedule')
                    if not st['bad'] and x != st['last']:
                        st['bad'] = 'block encryption %d is fed another block than the one before gave' % q
                    o = it.obj(mem, t.base)
                    # the whole table at the start and the end of each table, else the words around the progress
                    near = range(1042) if q in (0, 1, 9, 10, 100, 500, 520) else range(max(0, 2 * q - 6), min(1042, 2 * q + 6))
                    for w in near:
                        off = t.off + (offp + 4 * w if w < 18 else offs + 4 * (w - 18))
                        if not st['bad'] and it.get(o, off, ['i', 32], t.base) != T[w]:
                            st['bad'] = 'at block encryption %d word %d of the tables is not the defined one' % (q, w)
                    y = C.inp('key%d' % q, 64)
                    it.store(mem, p, ['i', 64], y, i)
                    st['last'] = y
                    if 2 * q < 1042:
                        T[2 * q] = Word(y[:32])
                        T[2 * q + 1] = Word(y[32:])
                    st['n'] += 1
                    return None
                s.it.models.append((re.compile('^probe_key$'), key))
                s.run('key%d' % k, [Ptr('M'), Ptr('K'), s.const(n, 64)])
                what = '%s key of %d bytes' % (cls, n)
                c.ob(what + ': tables at every step', st['n'] == 521 and not st['bad'], st['bad'] or '%d block encryptions instead of 521' % st['n'], cls + '::SetKey')
                got = s.outbits('M', offp, 72) + s.outbits('M', offs, 4096)
                ok, d = s.cmp(got, [b for w in T for b in w])
                c.ob(what + ': final tables', ok, d[:300], cls + '::SetKey')
                over = [e for e in s.it.events if e.kind == 'load' and e.ptr.base == 'K' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
                c.ob(what + ': reads only the key', not over, '', cls + '::SetKey')
    for n, kn in ((0, 3), (1, 3), (5, 1), (7, 3), (8, 4), (9, 8), (4, 11)):
        with c.part('xor %d %d' % (n, kn)):
            for d in ('xenc', 'xdec'):
                s = S(m)
                s.buf('B', n)
                s.buf('K', kn)
                s.it.record_access = True
                s.run(d, [Ptr('B'), s.const(n, 64), Ptr('K'), s.const(kn, 64)])
                want = []
                for i in range(n):
                    want += [s.c.XOR(x, y) for x, y in zip(s.inbits('B', i, 1), s.inbits('K', i % kn, 1))]
                ok, det = s.cmp(s.outbits('B', 0, n), want)
                over = [e for e in s.it.events if e.kind in ('load', 'store') and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > {'B': n, 'K': kn}.get(e.ptr.base, 1 << 30))]
                c.ob('%s of %d bytes with a key of %d' % ({'xenc': 'Encode', 'xdec': 'Decode'}[d], n, kn), ok and not over, det[:200], 'XOREncoder')
    c.unit('E01 driver (encrypt/)', m)
