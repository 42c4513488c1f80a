"""Sound file headers: RIFF WAVE chunks, FWSE, MSF, VAG and XVAG."""
import ir
from drv import *
from tab import Tab, np

MIN = 130


def cc(s):
    return sum(ord(x) << (8 * i) for i, x in enumerate(s))


RATES = np.array([0, 1, 8000, 11025, 22050, 32000, 44100, 48000, 96000, 192000, 0xffffffff] + [1 << k for k in range(32)] + [(1 << k) - 3 for k in range(2, 33)] + list(range(1, 1 << 24, 65537)))

LAYOUT = {
    'RIFFHeader': (12, 'id:0 chunkSize:4 type:8'),
    'WAVEGenericHeader': (8, 'id:0 chunkSize:4'),
    'WAVE_fmt': (24, 'id:0 chunkSize:4 format:8 channels:10 sampleRate:12 sampleCount:16 interleave:20 bitsPerSample:22'),
    'WAVE_fmt_MSADPCM': (28, 'id:0 format:8 bitsPerSample:22 extendedDataSize:24 extendedData:26'),
    'WAVE_data': (8, 'id:0 chunkSize:4'),
    'WAVE_fact': (12, 'id:0 chunkSize:4 uncompressedSize:8'),
    'WAVE_smpl': (44, 'id:0 chunkSize:4 manufacturer:8 product:12 samplePeriod:16 MIDIUnityNote:20 MIDIPitchFraction:24 SMPTEFormat:28 SMPTEOffset:32 numSampleLoops:36 sampleLoopsSize:40'),
    'WAVE_smpl::SampleLoop': (24, 'id:0 type:4 start:8 end:12 fraction:16 playCount:20'),
    'FWSE': (0x400, 'id:0 version:4 fileSize:8 bufferOffset:12 numChannels:16 numSamples:20 sampleRate:24 sampleDepth:28'),
    'MSF': (0x40, 'id:0 codec:4 numChannels:8 dataSize:12 sampleRate:16 flags:20 loopStart:24 loopDuration:28'),
    'VAG': (0x40, 'id:0 version:4 dataSize:12 sampleRate:16'),
    'XVAGChunk': (8, 'id:0 size:4'),
    'XVAGHeader': (32, 'id:0 size:4 numBlocks:8 flags:9'),
    'XVAGfmat': (36, 'id:0 size:4 numChannels:8 format:12 numSamples:16 numSamples2:20 interleave:24 sampleRate:28 bufferSize:32'),
}
CONST = {'RIFFHeader::ID': cc('RIFF'), 'WAVE_fmt::ID': cc('fmt '), 'WAVE_data::ID': cc('data'), 'WAVE_fact::ID': cc('fact'), 'WAVE_smpl::ID': cc('smpl'), 'FWSE::ID': cc('FWSE'),
         'VAGID': cc('VAGp'), 'XVAGID': cc('XVAG'), 'XVAGFMAT': cc('fmat'),
         'WAVE_FORMAT::UNKNOWN': 0, 'WAVE_FORMAT::PCM': 1, 'WAVE_FORMAT::MS_ADPCM': 2, 'WAVE_FORMAT::ALAW': 6, 'WAVE_FORMAT::MULAW': 7, 'WAVE_FORMAT::IMA_ADPCM': 0x11, 'WAVE_FORMAT::GSM610': 0x31,
         'WAVE_FORMAT::MPEG': 0x50, 'WAVE_smpl::SampleLoop::TYPE_LOOP_FORWARD': 0, 'WAVE_smpl::SampleLoop::TYPE_LOOP_ALTERNATE': 1, 'WAVE_smpl::SampleLoop::TYPE_LOOP_BACKWARD': 2,
         'MSF::PCM16BE': 0, 'MSF::PCM16LE': 1, 'MSF::PCM32F': 2, 'MSF::PSX_ADPCM': 3, 'MSF::AT3L': 4, 'MSF::AT3M': 5, 'MSF::AT3H': 6, 'MSF::LAME': 7,
         'XVAGFormat::PS_ADPCM': 6, 'XVAGFormat::PS_ADPCM_EX': 7, 'XVAGFormat::MPEG': 8, 'XVAGFormat::AT9': 9}
BITS = {'UNKNOWN': 0, 'PCM': 16, 'MS_ADPCM': 4, 'ALAW': 8, 'MULAW': 8, 'IMA_ADPCM': 4, 'GSM610': 0, 'MPEG': 0}


def src():
    t = ['#include <new>'] + ['#include "formats/%s.hpp"' % x for x in ('WAVE', 'FWSE', 'MSF', 'VAG', 'XVAG')] + ['extern "C" {']
    for i, (n, (_, f)) in enumerate(LAYOUT.items()):
        t.append('unsigned long sz_%d() { return sizeof(%s); }' % (i, n))
        for x in f.split():
            x = x.split(':')[0]
            t.append('const void *at_%d_%s(const %s *d) { return &d->%s; } unsigned long w_%d_%s(const %s *d) { return sizeof(d->%s); }' % (i, x, n, x, i, x, n, x))
    for i, n in enumerate(CONST):
        t.append('unsigned long k_%d() { return (unsigned long)%s; }' % (i, n))
    t.append('''
void riff(RIFFHeader *r, uint32 n) { new (r) RIFFHeader(n); }
void gen(WAVEGenericHeader *r, uint32 id, uint32 n) { new (r) WAVEGenericHeader(id, n); }
void gen0(WAVEGenericHeader *r, uint32 id) { new (r) WAVEGenericHeader(id); }
void *next(WAVEGenericHeader *r) { return r->Next(); }
void *riffnext(RIFFHeader *r) { return r->Next(); }
void fmt(WAVE_fmt *f, uint16 t) { new (f) WAVE_fmt(WAVE_FORMAT(t)); }
void calc(WAVE_fmt *f) { f->CalcData(); }
void data(WAVE_data *d, uint32 n) { new (d) WAVE_data(n); }
char *getdata(WAVE_data *d) { return d->GetData(); }
void *loops(WAVE_smpl *s) { return s->GetSampleLoops(); }
bool valid(WAVEGenericHeader *h) { return IsValidWaveChunk(*h); }
}''')
    return '\n'.join(t)


def run(c):
    c.rule('Member addresses, constants and every byte written by the constructors are read off the compiled code, with unknown arguments, and compared with the published layouts.')
    c.assumption('chunks with odd sizes (followed by a padding byte) are not considered by Next')
    mod = ir.unit(text=src(), name='D02')
    seen = set()

    def S0():
        s = S(mod)
        s.it.record_access = True
        s.buf('H', 256)
        return s

    def same(s, tag, want, where, n=256):
        """want: {(offset, size): value or word}; everything else as before"""
        seen.update(s.it.visited)
        w = s.inbits('H', 0, n)
        for (o, k), v in want.items():
            v = s.c.cw(v & ((1 << 8 * k) - 1), 8 * k) if isinstance(v, int) else v
            w[8 * o:8 * (o + k)] = list(v)
        ok, d = s.cmp(s.outbits('H', 0, n), w)
        c.ob(tag, ok, d, where)

    s = S0()
    for i, (n, (size, f)) in enumerate(LAYOUT.items()):
        with c.part(n):
            r = s.c.cval(s.run('sz_%d' % i)[1])
            c.ob('%s has %d bytes' % (n, size), r == size, 'it has %s' % r, n)
            for x in f.split():
                x, o = x.split(':')
                p = s.run('at_%d_%s' % (i, x), [Ptr('H')])[1]
                c.ob('%s::%s is at %s' % (n, x, o), p == Ptr('H', int(o)), 'it is at %s' % p, n)
    with c.part('constants'):
        for i, (n, v) in enumerate(CONST.items()):
            r = s.c.cval(s.run('k_%d' % i)[1])
            c.ob('%s is %#x' % (n, v), r == v, 'it is %s' % r, n)
    with c.part('RIFF'):
        s = S0()
        n = s.arg('n', 32)
        s.run('riff', [Ptr('H'), n])
        same(s, 'RIFFHeader of a file size', {(0, 4): cc('RIFF'), (4, 4): s.c.sub(n, s.c.cw(8, 32)), (8, 4): cc('WAVE')}, 'RIFFHeader')
        s = S0()
        s.run('gen', [Ptr('H'), s.arg('id', 32), s.arg('n', 32)])
        same(s, 'WAVEGenericHeader keeps id and size', {(0, 4): s.arg('id', 32), (4, 4): s.arg('n', 32)}, 'WAVEGenericHeader')
        s = S0()
        s.run('gen0', [Ptr('H'), s.arg('id', 32)])
        same(s, 'WAVEGenericHeader is empty by default', {(0, 4): s.arg('id', 32), (4, 4): 0}, 'WAVEGenericHeader')
        s = S0()
        s.run('data', [Ptr('H'), s.arg('n', 32)])
        same(s, 'WAVE_data of a size', {(0, 4): cc('data'), (4, 4): s.arg('n', 32)}, 'WAVE_data')
        r = s.run('getdata', [Ptr('H')])[1]
        c.ob('data follows its header', r == Ptr('H', 8), 'it is at %s' % r, 'WAVE_data::GetData')
        r = s.run('loops', [Ptr('H')])[1]
        c.ob('loops follow the sampler chunk', r == Ptr('H', 44), 'they are at %s' % r, 'WAVE_smpl::GetSampleLoops')
        for f in ('next', 'riffnext'):
            for v in (0, 2, 16, 100, 0x7ffffffe, 0x80000000, 0xfffffffe):
                s = S0()
                s.setc('H', 4, v, 4)
                r = s.run(f, [Ptr('H')])[1]
                c.ob('the chunk after one of %#x bytes (%s)' % (v, f), r == Ptr('H', 8 + v), 'it is at %s instead of %d' % (r, 8 + v), 'WAVEGenericHeader::Next')
        s = S0()
        r = s.run('next', [Ptr('H')])[1]
        k = s.it.p2i(r) if isinstance(r, Ptr) else r
        ok, d = s.cmp(list(k), list(s.c.add(s.it.p2i(Ptr('H', 8)), Word(s.inbits('H', 4, 4) + [0] * 32))))
        c.ob('the next chunk follows header and content', ok, d, 'WAVEGenericHeader::Next')
    with c.part('fmt'):
        for n, b in list(BITS.items()) + [('0x1234', 0), ('0xfffe', 0)]:
            v = CONST.get('WAVE_FORMAT::' + n)
            v = int(n, 16) if v is None else v
            s = S0()
            s.run('fmt', [Ptr('H'), s.const(v, 16)])
            same(s, 'WAVE_fmt of format ' + n, {(0, 4): cc('fmt '), (4, 4): 16, (8, 2): v, (10, 2): 1, (12, 4): 0, (16, 4): 0, (20, 2): 0, (22, 2): b}, 'WAVE_fmt::WAVE_fmt')
        for ch in (0, 1, 2, 6, 65535):
            for bits in (0, 8, 16, 24, 32, 64):
                if ch * bits // 8 > 0xffff:
                    continue
                s = S0()
                s.setc('H', 10, ch, 2)
                s.setc('H', 22, bits, 2)
                s.run('calc', [Ptr('H')])
                tag = 'CalcData of %d channels with %d bits' % (ch, bits)
                same(s, tag + ' fills in two fields', {(10, 2): ch, (22, 2): bits, (16, 4): Word(s.outbits('H', 16, 4)), (20, 2): ch * bits // 8}, 'WAVE_fmt::CalcData')
                t = Tab(s.c, len(RATES))
                t.setbits(s.inbits('H', 12, 4), RATES)
                got = t.word(Word(s.outbits('H', 16, 4)))
                want = RATES.astype(object) * (ch * bits // 8) % (1 << 32)
                bb = np.nonzero(got.astype(object) != want)[0]
                c.ob(tag, not len(bb), len(bb) and 'with sample rate %d, the byte rate is %d instead of %d' % (RATES[bb[0]], got[bb[0]], want[bb[0]]), 'WAVE_fmt::CalcData')
    with c.part('chunks'):
        s = S0()
        r = s.run('valid', [Ptr('H')])[1]
        w = Word(s.inbits('H', 0, 4))
        want = 0
        for x in ('fmt ', 'data', 'fact', 'smpl'):
            want = s.c.OR(want, s.c.eq(w, s.c.cw(cc(x), 32)))
        ok, d = s.cmp(list(r), [want] + [0] * (len(r) - 1))
        if not ok:
            # a switch may also be decided through other comparisons: compare on all ids one bit away from the known ones
            ok, d = True, ''
            for x in ('fmt ', 'data', 'fact', 'smpl', 'RIFF', 'LIST', 'cue ', 'FMT ', '\0\0\0\0'):
                for k in range(-1, 32):
                    v = cc(x) ^ (1 << k if k >= 0 else 0)
                    s2 = S0()
                    s2.setc('H', 0, v, 4)
                    g = s2.c.cval(s2.run('valid', [Ptr('H')])[1])
                    if g != int(v in (cc('fmt '), cc('data'), cc('fact'), cc('smpl'))):
                        ok, d = False, 'id %#x is %s' % (v, g)
        c.ob('exactly fmt, data, fact and smpl chunks are valid', ok, d, 'IsValidWaveChunk')
        same(s, 'IsValidWaveChunk changes nothing', {}, 'IsValidWaveChunk')
        seen.update(s.it.visited)
    c.unit('D02', mod, seen)
