"""Packed formats: every component of every format combination."""
import re
from fractions import Fraction
import ir
from drv import *
from falg import FAlg

FMT = {'R32G32B32A32': (32, 32, 32, 32), 'R32G32B32': (32, 32, 32), 'R16G16B16A16': (16, 16, 16, 16), 'R32G32': (32, 32), 'R16G16B16': (16, 16, 16),
       'R32': (32,), 'R16G16': (16, 16), 'R10G10B10A2': (10, 10, 10, 2), 'R11G11B10': (11, 11, 10), 'R8G8B8A8': (8, 8, 8, 8), 'R24G8': (24, 8),
       'R8G8B8': (8, 8, 8), 'R8G8': (8, 8), 'R16': (16,), 'R5G6B5': (5, 6, 5), 'R5G5B5A1': (5, 5, 5, 1), 'R8': (8,)}
FLOATS = ['R32G32B32A32', 'R32G32B32', 'R32G32', 'R32', 'R16G16B16A16', 'R16G16B16', 'R16G16', 'R16', 'R11G11B10']
COMBOS = [(t, f) for f in FMT for t in ('INT', 'UINT', 'NORM', 'UNORM')] + [('FLOAT', f) for f in FLOATS] + [('UFLOAT', 'R11G11B10')]
SAMPLE = [('UINT', 'R8G8B8'), ('INT', 'R16G16'), ('FLOAT', 'R32G32B32'), ('UNORM', 'R5G6B5'), ('NORM', 'R8')]
# what is decided for every combination: packed elements, their exact stride, and strides that are too short
EVERY = ('size', 'exact', 'short')
MIN = 1200


def out(t):
    return 'IVector4A16' if t in ('INT', 'UINT') else 'Vector4A16'


def src():
    t = ['#include "uni/uni_format.cpp"']

    def d(fn, sig, body):
        t.append('extern "C" %s(%s) { %s }' % (fn, sig, body))
    for ty, f in COMBOS:
        mk = 'auto p = MakePair<FormatType::%s, DataType::%s>(); ' % (ty, f)
        o, bad = out(ty), 'Vector4A16' if out(ty)[0] == 'I' else 'IVector4A16'
        d('void get_%s_%s' % (ty, f), 'const char *in, %s *o, const char *before' % o, mk + 'FormatCodec &c = p.second; { %s tmp; c.GetValue(tmp, before); } c.GetValue(*o, in);' % o)
        d('void bad_%s_%s' % (ty, f), 'const char *in, %s *o' % bad, mk + 'FormatCodec &c = p.second; c.GetValue(*o, in);')
        d('void bads_%s_%s' % (ty, f), 'const char *in, std::vector<%s> *o' % bad, mk + 'FormatCodec &c = p.second; c.Sample(*o, in, 1);')
        d('void key_%s_%s' % (ty, f), 'FormatDescr *o', mk + '*o = p.first;')
    for ty, f in COMBOS:
        sz = sum(FMT[f]) // 8
        for nm, n, cnt, st in (('cnt', 0, 3, 0), ('size', 2, 0, 0), ('stride', 0, 3, sz + 3), ('exact', 0, 2, sz), ('shrink', 3, 1, 0), ('short', 2, 0, sz - 1 or None)):
            if st is not None and ((ty, f) in SAMPLE or nm in EVERY):
                d('void smp_%s_%s_%s' % (nm, ty, f), 'const char *in, %s *o, size_t *sz' % out(ty),
                  'FormatCodec &c = *new _FormatCodecImpl_t<FormatType::%s, DataType::%s>(); std::vector<%s> v(%d); c.Sample(v, in, %d, %d); '
                  '*sz = v.size(); for (int i = 0; i < %d; i++) o[i] = v[i];' % (ty, f, out(ty), n, cnt, st, cnt or n))
    d('bool fd_eq', 'const FormatDescr *a, const FormatDescr *b', 'return *a == *b;')
    d('bool fd_lt', 'const FormatDescr *a, const FormatDescr *b', 'return *a < *b;')
    d('uint32 fd_hash', 'const FormatDescr *a', 'return std::hash<FormatDescr>()(*a);')
    d('void half4', 'const IVector4A16 *a, Vector4A16 *o', '*o = esFloat<10, 5, true>::ToVector4(*a);')
    d('void half1', 'const uint32 *a, float *o', '*o = esFloat<10, 5, true>::ToFloat(*a);')
    d('void sf4', 'const IVector4A16 *a, Vector4A16 *o', '*o = esFloat<5, 5, true>::ToVector4(*a);')
    d('void uf4', 'const IVector4A16 *a, Vector4A16 *o', '*o = esFloat<6, 5, false>::ToVector4(*a);')
    return '\n'.join(t)


def close(fa, got, want):
    """equal up to float rounding of the scale"""
    g = fa.poly(Word(got))
    if set(g) == set(want) and all(abs(g[k] - want[k]) <= abs(want[k]) / (1 << 20) for k in want):
        return True, ''
    return False, 'is %s, required %s' % (fa.show(g)[:160], fa.show(want)[:160])


def run(c):
    c.rule('Bit-provenance dataflow through the codec each registry entry holds: integer lanes must be the declared bit range (zero or sign extended), '
           'normalised lanes the real-number value of that range over its full scale, float lanes the decoded code (see F01); lanes the format '
           'lacks are 0 and nothing outside the element is read.')
    # no guards around function local constants: the first call initialises them, so
    # every codec is called on some other element first
    m = ir.unit(text=src(), name='U01', flags=['-fno-threadsafe-statics'])

    def comps(s, f):
        bits = s.inbits('A', 0, sum(FMT[f]) // 8)
        r, p = [], 0
        for w in FMT[f]:
            r.append(list(bits[p:p + w]))
            p += w
        return r

    def value(s, fa, ty, f):
        """per lane: ('bits', word) or ('poly', polynomial)"""
        r = []
        cs = comps(s, f)
        wide = max(FMT[f])
        for w in cs:
            n = len(w)
            if ty == 'UINT':
                r.append(('bits', w + [0] * (32 - n)))
            elif ty == 'INT':
                r.append(('bits', w + [w[-1]] * (32 - n)))
            elif ty == 'UNORM':
                if n == 32:
                    r.append(('poly', fa.bitsum(w[1:], scale=Fraction(1, 2 ** 31 - 1))))
                elif f == 'R5G5B5A1' and n == 1 or f in ('R10G10B10A2', 'R24G8'):
                    r.append(('poly', fa.bitsum(w, scale=Fraction(1, 2 ** n - 1))))
                else:
                    r.append(('poly', fa.bitsum(w, scale=Fraction(2 ** (wide - n), 2 ** wide - 1))))
            elif ty == 'NORM':
                if n == 1:
                    r.append(('poly', fa.bitsum(w, -1)))
                elif f in ('R10G10B10A2', 'R24G8', 'R5G5B5A1'):
                    r.append(('poly', fa.bitsum(w, -1, Fraction(1, 2 ** (n - 1) - 1))))
                else:
                    r.append(('poly', fa.bitsum(w, -1, Fraction(2 ** (wide - n), 2 ** (wide - 1) - 1))))
        while len(r) < 4:
            r.append(('bits', [0] * 32))
        return r

    for ty, f in COMBOS:
        nm = '%s %s' % (ty, f)
        n = sum(FMT[f]) // 8
        with c.part(nm):
            s = S(m)
            s.buf('A', n)
            s.buf('O')
            s.it.record_access = True
            s.it.globals_initial = True
            s.run('get_%s_%s' % (ty, f), [Ptr('A'), Ptr('O'), s.buf('before')])
            over = [e for e in s.it.events if e.kind == 'load' and e.ptr.base == 'A' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > n)]
            c.ob(nm + ' reads only its %d bytes' % n, not over,
                 'reads bytes %s at %s' % (['%d..%d' % (e.ptr.off, e.ptr.off + e.size) for e in over[:2]], ir.loc_str(over[0].loc) if over else ''), nm)
            fa = FAlg(s.c)
            fa.bits = True
            lanes = [Word(s.outbits('O', 4 * i, 4)) for i in range(4)]
            if ty in ('FLOAT', 'UFLOAT'):
                if FMT[f][0] == 32:
                    want = [Word(w) for w in comps(s, f)] + [s.c.cw(0, 32)] * (4 - len(FMT[f]))
                else:
                    want = []
                    cs = comps(s, f)
                    if f == 'R11G11B10':
                        cs[2] = [0] + cs[2]
                    t = S(m, s.c)
                    t.buf('A'), t.buf('O')
                    for i in range(4):
                        t.setw('A', 4 * i, Word(((cs[i] if i < len(cs) else []) + [0] * 32)[:32]))
                    fn = {'R16': 'half1'}.get(f, 'half4') if f != 'R11G11B10' else {'FLOAT': 'sf4', 'UFLOAT': 'uf4'}[ty]
                    t.run(fn, [Ptr('A'), Ptr('O')])
                    k = 1 if fn == 'half1' else 4
                    want = [Word(t.outbits('O', 4 * i, 4)) for i in range(k)] + [s.c.cw(0, 32)] * (4 - k)
                for i in range(4):
                    if i >= len(FMT[f]):
                        ok, d = fa.eq(lanes[i], {})
                    else:
                        ok, d = s.cmp(lanes[i], want[i])
                    c.ob('%s lane %d' % (nm, i), ok, d, nm)
            else:
                for i, (k, v) in enumerate(value(s, fa, ty, f)):
                    if k == 'bits' and out(ty)[0] == 'I':
                        ok, d = s.cmp(lanes[i], v)
                    else:
                        ok, d = close(fa, lanes[i], v if k == 'poly' else {})
                    if not ok and ty == 'NORM' and i == 2 and f in ('R11G11B10', 'R5G6B5'):
                        # B extracted with the width of G
                        q = [s.inbits('A', 0, 4)[k] for k in (range(21, 32) if f[1] == '1' else range(10, 16))]
                        if close(fa, lanes[i], fa.bitsum(q, -1, Fraction(1, 2 ** (len(q) - 1) - 1)))[0]:
                            nm2 = '%s lane 2 contains the highest bit of G' % nm
                            c.ob(nm2, False, d, nm)
                            continue
                    c.ob('%s lane %d' % (nm, i), ok, d, nm)
            for fn, what in (('bad', 'GetValue'), ('bads', 'Sample')):
                s = S(m)
                s.buf('A'), s.buf('O')
                r = s.run('%s_%s_%s' % (fn, ty, f), [Ptr('A'), Ptr('O')])
                c.ob('%s %s of the other kind throws' % (nm, what), r[0] is None, 'returns normally', nm)
            s = S(m)
            s.buf('O')
            s.run('key_%s_%s' % (ty, f), [Ptr('O')])
            e1 = dict(m.enum('FormatType') or m.enum('uni::FormatType') or [])
            e2 = dict(m.enum('DataType') or m.enum('uni::DataType') or [])
            ok, d = s.cmp(s.outbits('O', 0, 4), list(s.c.cw(e1[ty], 16)) + list(s.c.cw(e2[f], 16)))
            c.ob(nm + ' registry key', ok, d, 'MakePair')
    c.unit('U01 driver (uni_format.cpp)', m)
    for ty, f in COMBOS:
        sz = sum(FMT[f]) // 8
        for nm, n, st in (('cnt', 3, sz), ('size', 2, sz), ('stride', 3, sz + 3), ('exact', 2, sz), ('shrink', 1, sz), ('short', 0, 0)):
            fn = 'smp_%s_%s_%s' % (nm, ty, f)
            if fn not in m.funcs:
                continue
            key = 'Sample %s %s (%s)' % (ty, f, nm)
            with c.part(key):
                s = S(m)
                s.it.globals_initial = True
                s.buf('A'), s.buf('O'), s.buf('Z')
                r = s.run(fn, [Ptr('A'), Ptr('O'), Ptr('Z')])
                if nm == 'short':
                    c.ob(key + ' throws', r[0] is None, 'a stride below the element size is accepted', '_fmtSampler')
                    continue
                ok, d = s.cmp(s.outbits('Z', 0, 8), s.c.cw(n, 64))
                c.ob(key + ' count', ok, d, '_fmtSampler')
                for k in range(n):
                    t = S(m, s.c)
                    t.it.globals_initial = True
                    t.buf('A'), t.buf('O')
                    for b in range(sz):
                        t.setw('A', b, Word(s.inbits('A', k * st + b, 1)))
                    t.run('get_%s_%s' % (ty, f), [Ptr('A'), Ptr('O'), t.buf('before')])
                    ok, d = s.cmp(s.outbits('O', 16 * k, 16), t.outbits('O', 0, 16))
                    c.ob('%s element %d' % (key, k), ok, d, '_fmtSampler')
    # lookup keys
    with c.part('FormatDescr'):
        s = S(m)
        s.buf('A'), s.buf('B')
        s.run('fd_eq', [Ptr('A'), Ptr('B')])
        c.ob('FormatDescr == compares both fields', s.c.same(s.ret[0], s.c.eq(Word(s.inbits('A', 0, 4)), Word(s.inbits('B', 0, 4)))), '', 'FormatDescr::operator==')
        s = S(m)
        s.buf('A'), s.buf('B')
        s.run('fd_lt', [Ptr('A'), Ptr('B')])
        A, B = (Word(s.inbits(x, 0, 4)) for x in 'AB')
        c.ob('FormatDescr < is a strict order over both fields', s.c.same(s.ret[0], s.c.ult(A, B)) or s.c.same(s.ret[0], s.c.ult(B, A)), s.c.show(s.ret[0])[:200],
             'FormatDescr::operator<')
        s = S(m)
        s.buf('A')
        s.run('fd_hash', [Ptr('A')])
        sup = set()
        for l in s.ret:
            sup |= s.c.support(l)
        own = {l >> 1 for l in s.inbits('A', 0, 4)}
        c.ob('the hash of a FormatDescr only depends on its fields', sup <= own, '', 'std::hash<FormatDescr>')
    # the table itself: which codecs it is built from, before any inlining
    with c.part('registry'):
        raw = ir.unit(text='#include "uni/uni_format.cpp"\n', name='U01raw', passes=None)
        have = set()
        for f in raw.funcs.values():
            for i in f.instrs():
                if i['op'] in ('call', 'invoke') and i.get('fn') in raw.funcs:
                    g = raw.funcs[i['fn']].dem
                    k = re.search(r'MakePair<\(uni::FormatType\)(\d+), \(uni::DataType\)(\d+)>', g)
                    if k:
                        have.add((int(k.group(1)), int(k.group(2))))
        e1, e2 = {v: k for k, v in e1.items()}, {v: k for k, v in e2.items()}
        have = {(e1.get(a), e2.get(b)) for a, b in have}
        for ty, f in COMBOS:
            c.ob('registry holds %s %s' % (ty, f), (ty, f) in have, 'the combination is documented as supported but not registered', 'registry')
        c.ob('registry holds nothing else', have <= set(COMBOS), str(sorted(have - set(COMBOS)))[:200], 'registry')
        get = [g for g in raw.funcs.values() if re.search(r'^uni::FormatCodec::Get\(', g.dem) and not g.decl]
        ok = len(get) == 1 and any(i['op'] in ('call', 'invoke') and re.search(r'unordered_map<uni::FormatDescr.*>::(at|find)\(', raw.funcs[i['fn']].dem if i.get('fn') in raw.funcs else '')
                                   for i in get[0].instrs())
        c.ob('FormatCodec::Get looks the combination up', ok, 'no lookup of the table', 'FormatCodec::Get')
        c.unit('uni_format.cpp', raw)
