"""DDS headers: layout, format numbers, conversions and mip sizes."""
import ir
from drv import *
from tab import Tab, np
from refl import guards

MIN = 1000
FIELDS = [('magic', 0, 4), ('size', 4, 4), ('flags', 8, 4), ('height', 12, 4), ('width', 16, 4), ('pitchOrLinearSize', 20, 4), ('depth', 24, 4), ('mipMapCount', 28, 4),
          ('pfSize', 76, 4), ('pfFlags', 80, 4), ('fourCC', 84, 4), ('bpp', 88, 4), ('RBitMask', 92, 4), ('GBitMask', 96, 4), ('BBitMask', 100, 4), ('ABitMask', 104, 4),
          ('caps00', 108, 4), ('caps01', 112, 4), ('caps02', 116, 4), ('caps03', 120, 4), ('reserved01', 124, 4), ('dxgiFormat', 128, 4), ('dimension', 132, 4),
          ('miscFlag', 136, 4), ('arraySize', 140, 4), ('alphaMode', 144, 4)]
OFF = {n: o for n, o, _ in FIELDS}


def _formats():
    """the published numbering and the bits of a pixel (None: not stated here), by name"""
    out = {}
    seq = '''R32G32B32A32_TYPELESS:128 R32G32B32A32_FLOAT:128 R32G32B32A32_UINT:128 R32G32B32A32_SINT:128 R32G32B32_TYPELESS:96 R32G32B32_FLOAT:96 R32G32B32_UINT:96 R32G32B32_SINT:96
R16G16B16A16_TYPELESS:64 R16G16B16A16_FLOAT:64 R16G16B16A16_UNORM:64 R16G16B16A16_UINT:64 R16G16B16A16_SNORM:64 R16G16B16A16_SINT:64 R32G32_TYPELESS:64 R32G32_FLOAT:64 R32G32_UINT:64 R32G32_SINT:64
R32G8X24_TYPELESS:64 D32_FLOAT_S8X24_UINT:64 R32_FLOAT_X8X24_TYPELESS:64 X32_TYPELESS_G8X24_UINT:64 R10G10B10A2_TYPELESS:32 R10G10B10A2_UNORM:32 R10G10B10A2_UINT:32 R11G11B10_FLOAT:32
R8G8B8A8_TYPELESS:32 R8G8B8A8_UNORM:32 R8G8B8A8_UNORM_SRGB:32 R8G8B8A8_UINT:32 R8G8B8A8_SNORM:32 R8G8B8A8_SINT:32 R16G16_TYPELESS:32 R16G16_FLOAT:32 R16G16_UNORM:32 R16G16_UINT:32 R16G16_SNORM:32 R16G16_SINT:32
R32_TYPELESS:32 D32_FLOAT:32 R32_FLOAT:32 R32_UINT:32 R32_SINT:32 R24G8_TYPELESS:32 D24_UNORM_S8_UINT:32 R24_UNORM_X8_TYPELESS:32 X24_TYPELESS_G8_UINT:32 R8G8_TYPELESS:16 R8G8_UNORM:16 R8G8_UINT:16 R8G8_SNORM:16 R8G8_SINT:16
R16_TYPELESS:16 R16_FLOAT:16 D16_UNORM:16 R16_UNORM:16 R16_UINT:16 R16_SNORM:16 R16_SINT:16 R8_TYPELESS:8 R8_UNORM:8 R8_UINT:8 R8_SNORM:8 R8_SINT:8 A8_UNORM:8 R1_UNORM:1 R9G9B9E5_SHAREDEXP:32 R8G8_B8G8_UNORM:? G8R8_G8B8_UNORM:?
BC1_TYPELESS:4 BC1_UNORM:4 BC1_UNORM_SRGB:4 BC2_TYPELESS:8 BC2_UNORM:8 BC2_UNORM_SRGB:8 BC3_TYPELESS:8 BC3_UNORM:8 BC3_UNORM_SRGB:8 BC4_TYPELESS:4 BC4_UNORM:4 BC4_SNORM:4 BC5_TYPELESS:8 BC5_UNORM:8 BC5_SNORM:8
B5G6R5_UNORM:16 B5G5R5A1_UNORM:16 B8G8R8A8_UNORM:32 B8G8R8X8_UNORM:32 R10G10B10_XR_BIAS_A2_UNORM:32 B8G8R8A8_TYPELESS:32 B8G8R8A8_UNORM_SRGB:32 B8G8R8X8_TYPELESS:32 B8G8R8X8_UNORM_SRGB:32
BC6H_TYPELESS:8 BC6H_UF16:8 BC6H_SF16:8 BC7_TYPELESS:8 BC7_UNORM:8 BC7_UNORM_SRGB:8 AYUV:? Y410:? Y416:? NV12:? P010:? P016:? 420_OPAQUE:? YUY2:? Y210:? Y216:? NV11:? AI44:? IA44:? P8:? A8P8:? B4G4R4A4_UNORM:16'''.split()
    for i, x in enumerate(seq):
        n, b = x.split(':')
        out[n] = (i + 1, None if b == '?' else int(b))
    out['UNKNOWN'] = (0, 0)
    for n, v in (('P208', 130), ('V208', 131), ('V408', 132)):
        out[n] = (v, None)
    return out


FMT = _formats()
# published pixel formats: (flags, fourCC, RGB bits, masks)
ALPHAPIXELS, ALPHA, FOURCC, RGB, LUM = 1, 2, 4, 0x40, 0x20000


def cc(s):
    return sum(ord(x) << (8 * i) for i, x in enumerate(s))


# (name, pixel format or fourCC, DXGI format, alpha mode of the conversion, converts back to this one: 0 no, 1 yes, 2 only when forced)
LEGACY = [(n, (FOURCC, cc(n) if isinstance(n, str) else n, b, 0, 0, 0, 0), d, a, k) for n, b, d, a, k in (
    ('DXT1', 4, 'BC1_UNORM', None, 1), ('DXT2', 8, 'BC2_UNORM', 2, 1), ('DXT3', 8, 'BC2_UNORM', None, 1), ('DXT4', 8, 'BC3_UNORM', 2, 1), ('DXT5', 8, 'BC3_UNORM', None, 1),
    ('BC4U', 4, 'BC4_UNORM', None, 1), ('ATI1', 4, 'BC4_UNORM', None, 0), ('BC4S', 4, 'BC4_SNORM', None, 1), ('BC5U', 8, 'BC5_UNORM', None, 0), ('ATI2', 8, 'BC5_UNORM', None, 1),
    ('BC5S', 8, 'BC5_SNORM', None, 1), ('RGBG', 32, 'R8G8_B8G8_UNORM', None, 1), ('GRGB', 32, 'G8R8_G8B8_UNORM', None, 1), ('YUY2', 32, 'YUY2', None, 1),
    (36, 64, 'R16G16B16A16_UNORM', None, 1), (110, 64, 'R16G16B16A16_SNORM', None, 1), (111, 16, 'R16_FLOAT', None, 1), (112, 32, 'R16G16_FLOAT', None, 1),
    (113, 64, 'R16G16B16A16_FLOAT', None, 1), (114, 32, 'R32_FLOAT', None, 1), (115, 64, 'R32G32_FLOAT', None, 1), (116, 128, 'R32G32B32A32_FLOAT', None, 1))] + [
    ('R5G6B5', (RGB, 0, 16, 0xf800, 0x7e0, 0x1f, 0), 'B5G6R5_UNORM', None, 1), ('A1R5G5B5', (RGB | ALPHAPIXELS, 0, 16, 0x7c00, 0x3e0, 0x1f, 0x8000), 'B5G5R5A1_UNORM', None, 1),
    ('G16R16', (RGB, 0, 32, 0xffff, 0xffff0000, 0, 0), 'R16G16_UNORM', None, 1), ('A8', (ALPHA, 0, 8, 0, 0, 0, 0xff), 'A8_UNORM', None, 1),
    ('A8L8', (LUM | ALPHAPIXELS, 0, 16, 0xff, 0, 0, 0xff00), 'R8G8_UNORM', None, 2), ('L16', (LUM, 0, 16, 0xffff, 0, 0, 0), 'R16_UNORM', None, 2), ('L8', (LUM, 0, 8, 0xff, 0, 0, 0), 'R8_UNORM', None, 2)]
# formats whose conversion is not stated here, or that have none
OTHER = [('A2B10G10R10', (RGB | ALPHAPIXELS, 0, 32, 0x3ff, 0xffc00, 0x3ff00000, 0xc0000000)), ('A8R8G8B8', (RGB | ALPHAPIXELS, 0, 32, 0xff0000, 0xff00, 0xff, 0xff000000)),
         ('A4R4G4B4', (RGB | ALPHAPIXELS, 0, 16, 0xf00, 0xf0, 0xf, 0xf000)), ('X8R8G8B8', (RGB, 0, 32, 0xff0000, 0xff00, 0xff, 0)), ('R8G8B8', (RGB, 0, 24, 0xff0000, 0xff00, 0xff, 0)),
         ('UYVY', (FOURCC, cc('UYVY'), 32, 0, 0, 0, 0)), ('DX10', (FOURCC, cc('DX10'), 0, 0, 0, 0, 0))]
PF = ('pfFlags', 'fourCC', 'bpp', 'RBitMask', 'GBitMask', 'BBitMask', 'ABitMask')
DX10 = (FOURCC, cc('DX10'), 0, 0, 0, 0, 0)
RES = {0: 'success', 1: 'no equivalent'}


def src():
    t = ['#include "formats/DDS.hpp"', '#include <new>', 'extern "C" {']
    for n, _, _ in FIELDS:
        t.append('const void *at_%s(const DDS *d) { return &d->%s; }' % (n, n))
    t.append('''
unsigned long bytes() { return sizeof(DDS); }
int legacy() { return DDS::LEGACY_SIZE; } int dds() { return DDS::DDS_SIZE; }
unsigned long mbytes() { return sizeof(DDS::Mips); } unsigned maxmips() { return DDS::Mips::maxMips; }
const void *msizes(const DDS::Mips *m) { return m->sizes; } const void *moffs(const DDS::Mips *m) { return m->offsets; }
void make(DDS *d) { new (d) DDS; }
void mips(DDS *d, int n) { d->NumMipmaps(n); }
void bpp(DDS *d) { d->ComputeBPP(); }
int from(DDS *d) { return d->FromLegacy(); }
int to(DDS *d) { return d->ToLegacy(); }
int force(DDS *d) { return d->ToLegacy(true); }
unsigned size(const DDS *d, DDS::Mips *m) { return d->ComputeBufferSize(*m); }
bool bc(DXGI_FORMAT f) { return IsBC(f); }
bool eq(const DDS_PixelFormat *a, const DDS_PixelFormat *b) { return *a == *b; }
void dx10(DDS_HeaderDX10 *d, DXGI_FORMAT f) { new (d) DDS_HeaderDX10(f); }
''')
    for n in FMT:
        t.append('unsigned fmt_%s() { return DXGI_FORMAT_%s; }' % (n, n))
    for n, p, _, _, _ in LEGACY:
        if isinstance(n, str):
            t.append('void pf_%s(DDS *d) { *d = DDSFormat_%s; }' % (n, {'RGBG': 'R8G8_B8G8', 'GRGB': 'G8R8_G8B8'}.get(n, n)))
    for n, _ in OTHER:
        t.append('void pf_%s(DDS *d) { *d = DDSFormat_%s; }' % (n, n))
    t.append('}')
    return '\n'.join(t)


def run(c):
    mod = ir.unit(text=src(), name='D01')
    c.rule('The layout is read off member addresses; conversions are evaluated on headers with unknown other fields for every published format and compared field by field; '
           'mip sizes are extracted as terms over unknown width and height and tabulated over sizes.')
    c.assumption('sizes of packed and planar video formats and of one bit formats are not stated; DDS_PixelFormat channel orders of 8 bit RGBA formats are not stated')
    seen = set()

    def fresh(tag, pf=None, **kw):
        s = S(mod)
        guards(s)
        s.it.record_access = True
        s.buf('H', 148)
        if pf is not None:
            for f, v in zip(PF, pf):
                s.setc('H', OFF[f], v, 4)
        for k, v in kw.items():
            s.setc('H', OFF[k], v, 4)
        return s

    def inits(s):
        return [list(s.it.cell(s.it.obj(s.mem, 'H'), o, 'H')) for o in range(148)]

    def fields(s, tag, before, changes, where, skip=()):
        """every field as before except for the changes (name -> value); bytes"""
        seen.update(s.it.visited)
        bad = next((e for e in s.it.events if e.kind in ('load', 'store') and (e.ptr.base == 'H' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > 148))), None)
        want = [list(x) for x in before]
        for k, v in changes.items():
            w = s.c.cw(v & 0xffffffff, 32) if isinstance(v, int) else v
            for i in range(4):
                want[OFF[k] + i] = list(w[8 * i:8 * i + 8])
        d = ''
        for o in range(148):
            if any(OFF[k] <= o < OFF[k] + 4 for k in skip):
                continue
            ok, m = s.cmp(s.outbits('H', o, 1), want[o])
            if not ok:
                f = [n for n, a, l in FIELDS if a <= o < a + l] or ['byte %d' % o]
                v = s.c.cval(Word(s.outbits('H', o // 4 * 4, 4)))
                d = 'field %s is %s: %s' % (f[0], hex(v) if v is not None else 'changed', m)
                break
        c.ob(tag, not d and not bad, d or (bad and 'access outside of the header at ' + loc_str(bad.loc)), where)

    with c.part('layout'):
        s = fresh('')
        for n, o, _ in FIELDS:
            p = s.run('at_' + n, [Ptr('H')])[1]
            c.ob('%s is at offset %d' % (n, o), p == Ptr('H', o), 'it is at %s' % p, 'DDS')
        for f, v in (('bytes', 148), ('legacy', 128), ('dds', 148)):
            r = s.c.cval(s.run(f)[1])
            c.ob('size %s is %d' % (f, v), r == v, 'it is %s' % r, 'DDS')
        for n, (v, _) in FMT.items():
            r = s.c.cval(s.run('fmt_' + n)[1])
            c.ob('DXGI_FORMAT_%s is %d' % (n, v), r == v, 'it is %s' % r, 'DXGI_FORMAT')
            r = s.c.cval(s.run('bc', [s.const(v, 32)])[1])
            c.ob('IsBC(%s)' % n, r == int(n[:2] == 'BC'), 'is %s' % r, 'IsBC')
        r = s.c.cval(s.run('bc', [s.const(777, 32)])[1])
        c.ob('IsBC of an unknown format', r == 0, 'is %s' % r, 'IsBC')
    with c.part('new header'):
        s = fresh('')
        b = inits(s)
        s.mem.o['H'].default = 'undef:H'
        s.run('make', [Ptr('H')])
        z = {n: 0 for n, _, _ in FIELDS if n not in ('height', 'width')}
        z.update(magic=cc('DDS '), size=124, flags=0x1007, pfSize=32, caps00=0x1000, dimension=3, arraySize=1, depth=1)
        for o in range(32, 76):
            b[o] = [0] * 8
        fields(s, 'a new header is a plain 2D texture', b, z, 'DDS', skip=('height', 'width'))
    with c.part('dx10 header'):
        s = fresh('')
        s.run('dx10', [Ptr('H', 128), s.arg('f', 32)])
        fields(s, 'a new DX10 header is a 2D texture of the given format', inits(s), dict(dxgiFormat=s.arg('f', 32), dimension=3, miscFlag=0, arraySize=1, alphaMode=0), 'DDS_HeaderDX10')
    with c.part('NumMipmaps'):
        s = fresh('')
        b = inits(s)
        n = s.arg('n', 32)
        s.run('mips', [Ptr('H'), n])
        more = s.it.icmp('sgt', n, s.const(1, 32))

        def setbits(f, bits):
            w = [l for i in range(4) for l in b[OFF[f] + i]]
            for k in bits:
                w[k] = more
            return Word(w)
        fields(s, 'NumMipmaps sets count, flag and caps', b, dict(mipMapCount=n, flags=setbits('flags', [17]), caps00=setbits('caps00', [3, 22])), 'DDS::NumMipmaps')
    with c.part('pixel formats'):
        for n, p in [x[:2] for x in LEGACY] + OTHER:
            if isinstance(n, str):
                s = fresh('')
                b = inits(s)
                s.run('pf_' + n, [Ptr('H')])
                fields(s, 'DDSFormat_%s' % n, b, dict(zip(PF, p), pfSize=32), 'DDSFormat_%s' % n)
        s = S(mod)
        s.buf('A', 32)
        s.buf('B', 32)
        r = s.run('eq', [Ptr('A'), Ptr('B')])[1]
        want = s.c.eq(Word(s.inbits('A', 4, 28)), Word(s.inbits('B', 4, 28)))
        ok, d = s.cmp([r[0]], [want])
        c.ob('pixel formats are equal when all fields are', ok, d, 'DDS_PixelFormat::operator==')
    with c.part('FromLegacy'):
        for n, p, d, a, k in LEGACY:
            for bpp in {p[2], 0} if p[0] == FOURCC else {p[2]}:
                s = fresh('', p[:2] + (bpp,) + p[3:])
                b = inits(s)
                r = s.c.cval(s.run('from', [Ptr('H')])[1])
                ch = dict(zip(PF, DX10), pfSize=32, dxgiFormat=FMT[d][0])
                if a is not None:
                    ch['alphaMode'] = a
                c.ob('FromLegacy of %s with %d bits succeeds' % (n, bpp), r == 0, 'it returns %s' % r, 'DDS::FromLegacy')
                fields(s, 'FromLegacy of %s with %d bits gives %s' % (n, bpp, d), b, ch, 'DDS::FromLegacy')
        for n, p in (('an unknown fourCC', (FOURCC, cc('WXYZ'), 8, 0, 0, 0, 0)), ('DX10', DX10), ('unknown masks', (RGB, 0, 32, 1, 2, 4, 8)), ('R5G6B5 with other flags', (LUM, 0, 16, 0xf800, 0x7e0, 0x1f, 0)),
                     ('A8 with 16 bits', (ALPHA, 0, 16, 0, 0, 0, 0xff))):
            s = fresh('', p)
            b = inits(s)
            r = s.c.cval(s.run('from', [Ptr('H')])[1])
            c.ob('FromLegacy of %s fails' % n, r not in (0, None), 'it returns %s' % r, 'DDS::FromLegacy')
            fields(s, 'FromLegacy of %s changes nothing' % n, b, {}, 'DDS::FromLegacy')
        s = fresh('', OTHER[0][1])
        b = inits(s)
        r = s.c.cval(s.run('from', [Ptr('H')])[1])
        c.ob('FromLegacy of A2B10G10R10 succeeds', r == 0, 'it returns %s' % r, 'DDS::FromLegacy')
        fields(s, 'FromLegacy of A2B10G10R10 gives R10G10B10A2_UNORM', b, dict(zip(PF, DX10), pfSize=32, dxgiFormat=FMT['R10G10B10A2_UNORM'][0]), 'DDS::FromLegacy')
    with c.part('ToLegacy'):
        back = {}
        for n, p, d, a, k in LEGACY:
            if k:
                back[(d, a)] = (n, p, k)
        for d, (v, _) in list(FMT.items()) + [(None, (500, 0))]:
            for a in (None, 2):
                for f in ('to', 'force'):
                    e = back.get((d, a)) or back.get((d, None))
                    s = fresh('', dxgiFormat=v, alphaMode=2 if a else 0)
                    b = inits(s)
                    r = s.c.cval(s.run(f, [Ptr('H')])[1])
                    tag = '%s of %s%s' % ('forced ToLegacy' if f == 'force' else 'ToLegacy', d or 'an unknown format', ', premultiplied' if a else '')
                    if e and (e[2] == 1 or f == 'force'):
                        c.ob(tag + ' succeeds', r == 0, 'it returns %s' % r, 'DDS::ToLegacy')
                        fields(s, '%s gives %s' % (tag, e[0]), b, dict(zip(PF, e[1]), pfSize=32), 'DDS::ToLegacy')
                        continue
                    if d is None or (e and f == 'to'):
                        c.ob(tag + ' fails', r not in (0, None), 'it returns %s' % r, 'DDS::ToLegacy')
                    if r:
                        fields(s, tag + ' fails and changes nothing', b, {}, 'DDS::ToLegacy')
                    elif r == 0:
                        # some pixel format: converting it back must give the format (forced: maybe a relative) again
                        s2 = fresh('')
                        s2.mem = s.out.copy()
                        s2.it = s.it
                        s2.c = s.c
                        r2 = s.c.cval(s2.run('from', [Ptr('H')])[1])
                        got = s.c.cval(Word(s2.outbits('H', 128, 4)))
                        if f == 'to':
                            c.ob(tag + ' is undone by FromLegacy', r2 == 0 and got == v, 'it gives format %s (result %s)' % (got, r2), 'DDS::ToLegacy')
                        else:
                            rel = [x for x, (y, _) in FMT.items() if y == got]
                            c.ob(tag + ' is undone by FromLegacy up to the kind of number', r2 == 0 and rel and d.replace('_SRGB', '').replace('D16', 'R16') == rel[0],
                                 'it gives %s (result %s)' % (rel or got, r2), 'DDS::ToLegacy')
                    else:
                        c.ob(tag + ' has a result', False, 'it returns %s' % r, 'DDS::ToLegacy')
    with c.part('ComputeBPP'):
        for n, (v, bits) in list(FMT.items()) + [('beyond the last', (133, 0)), ('0xffffffff', (0xffffffff, 0)), ('0x10000', (0x10000, 0))]:
            s = fresh('', DX10, dxgiFormat=v)
            b = inits(s)
            s.run('bpp', [Ptr('H')])
            t = 'ComputeBPP of format %s' % n
            if bits is None:
                fields(s, t, b, {}, 'DDS::ComputeBPP', skip=('bpp',))
            else:
                fields(s, t, b, dict(bpp=bits), 'DDS::ComputeBPP')
            glob = [e for e in s.it.events if e.kind == 'load' and isinstance(e.ptr.base, tuple) and e.ptr.base[0] == 'g' and 'bpps' in str(e.ptr.base)]
            n2 = [e for e in glob if e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > (mod.globals[e.ptr.base[1]].get('size') or 0)]
            c.ob(t + ': table access', not n2, n2 and 'the table is read at %d' % n2[0].ptr.off, 'DDS::ComputeBPP')
        for n, p, d, a, k in LEGACY:
            if p[0] == FOURCC:
                s = fresh('', p[:2] + (0,) + p[3:])
                b = inits(s)
                s.run('bpp', [Ptr('H')])
                fields(s, 'ComputeBPP of %s' % n, b, dict(bpp=p[2]), 'DDS::ComputeBPP')
        s = fresh('', dxgiFormat=71)
        b = inits(s)
        s.setc('H', OFF['bpp'], 24, 4)
        b = inits(s)
        s.run('bpp', [Ptr('H')])
        fields(s, 'ComputeBPP keeps a known value', b, {}, 'DDS::ComputeBPP')
    with c.part('ComputeBufferSize'):
        s = S(mod)
        mb, mm = s.c.cval(s.run('mbytes')[1]), s.c.cval(s.run('maxmips')[1])
        s.buf('M', mb)
        so, oo = s.run('msizes', [Ptr('M')])[1].off, s.run('moffs', [Ptr('M')])[1].off
        side = np.array([1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 31, 64, 100, 255, 256, 1000, 1024, 2048, 4095, 4096, 8192, 16384])
        ws, hs = [x.ravel() for x in np.meshgrid(side, side)]
        cases = [(n, 'd', v, bits) for n, (v, bits) in FMT.items() if bits and bits > 1] + [(n, 'f', p, p[2]) for n, p, d, a, k in LEGACY if n not in ('RGBG', 'GRGB', 'YUY2')]
        if c.tier == 'quick':
            cases = [x for x in cases if x[1] == 'f' or x[0][:2] == 'BC' or x[0] in ('R32G32B32A32_FLOAT', 'R32G32B32_UINT', 'R16G16B16A16_SINT', 'R8G8B8A8_UNORM', 'R8G8_SNORM', 'R8_UNORM', 'B5G6R5_UNORM')]
        for n, kind, v, bits in cases:
            for mips in (0, 1, 3, 15, 16, 1000) if n in ('BC1_UNORM', 'R8G8B8A8_UNORM') else (4,):
                if kind == 'd':
                    s = fresh('', DX10, dxgiFormat=v, mipMapCount=mips)
                    s.setc('H', OFF['bpp'], bits, 4)
                else:
                    s = fresh('', v, dxgiFormat=0, mipMapCount=mips)
                    s.setc('H', OFF['bpp'], bits, 4)
                s.buf('M', mb)
                b = inits(s)
                r = s.run('size', [Ptr('H'), Ptr('M')])[1]
                tag = 'ComputeBufferSize of %s with %d mip levels' % (n, mips)
                fields(s, tag + ' keeps the header', b, {}, 'DDS::ComputeBufferSize')
                bad = next((e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 'M' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > mb)), None)
                c.ob(tag + ' stays inside of the tables', bad is None, bad and 'access at %d of %d bytes, %s' % (bad.ptr.off, mb, loc_str(bad.loc)), 'DDS::ComputeBufferSize')
                if bad is not None or mips > mm:
                    continue
                t = Tab(s.c, len(ws))
                t.setbits(s.inbits('H', OFF['width'], 4), ws)
                t.setbits(s.inbits('H', OFF['height'], 4), hs)
                isbc = n[:2] == 'BC' if kind == 'd' else n in ('DXT1', 'DXT2', 'DXT3', 'DXT4', 'DXT5', 'BC4U', 'BC4S', 'BC5U', 'BC5S', 'ATI1', 'ATI2')
                full = np.zeros(len(ws), object)
                msg = ''
                valid = None
                for m in range(max(1, mips)):
                    # levels below one by one pixel do not exist
                    w, h = np.maximum(1, ws >> m), np.maximum(1, hs >> m)
                    if isbc:
                        w, h = (w + 3) // 4 * 4, (h + 3) // 4 * 4
                    want = ((w.astype(object) * h * bits) + 7) // 8
                    got, off = t.word(Word(s.outbits('M', so + 4 * m, 4))), t.word(Word(s.outbits('M', oo + 4 * m, 4)))
                    valid = ((np.maximum(ws, hs) >> m) > 0) & ((full + want) < 1 << 32) & (True if valid is None else valid)
                    for x, y, what in ((got, want, 'size'), (off, full, 'offset')):
                        bb = np.nonzero(valid & (x.astype(object) != y))[0]
                        if len(bb) and not msg:
                            msg = 'level %d of a %dx%d texture has %s %d instead of %d' % (m, ws[bb[0]], hs[bb[0]], what, x[bb[0]], y[bb[0]])
                    full = full + want
                total = t.word(r)
                bb = np.nonzero(valid & (total.astype(object) != full))[0]
                if len(bb) and not msg:
                    msg = 'the total of a %dx%d texture is %d instead of %d' % (ws[bb[0]], hs[bb[0]], total[bb[0]], full[bb[0]])
                c.ob(tag, not msg, msg, 'DDS::ComputeBufferSize')
        s = fresh('', DX10, dxgiFormat=71)
        s.buf('M', mb)
        b = inits(s)
        r = s.c.cval(s.run('size', [Ptr('H'), Ptr('M')])[1])
        c.ob('ComputeBufferSize without bits per pixel is 0', r == 0, 'it is %s' % r, 'DDS::ComputeBufferSize')
    c.unit('D01', mod, seen)
