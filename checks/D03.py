"""ZIP headers: every field at its published place in the stream, in both directions."""
import ir
from drv import *

MIN = 110


def cc(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


# (field, offset in the stream, bytes)
H = {
    'ZIPLocalFile': (30, 'id:0:4 extractVersion:4:2 flags:6:2 compression:8:2 lastModFileTime:10:2 lastModFileDate:12:2 crc:14:4 compressedSize:18:4 uncompressedSize:22:4 fileNameSize:26:2 extraFieldSize:28:2'),
    'ZIPFile': (46, 'id:0:4 madeBy:4:2 extractVersion:6:2 flags:8:2 compression:10:2 lastModFileTime:12:2 lastModFileDate:14:2 crc:16:4 compressedSize:20:4 uncompressedSize:24:4 '
                    'fileNameSize:28:2 extraFieldSize:30:2 fileCommentSize:32:2 diskNumberStart:34:2 internalFileAttrs:36:2 externalFileAttrs:38:4 localHeaderOffset:42:4'),
    'ZIPSignature': (6, 'id:0:4 dataSize:4:2'),
    'ZIPExtraData': (8, 'id:0:4 dataSize:4:4'),
    'ZIPCentralDir': (22, 'id:0:4 diskNumber:4:2 startDiskNumber:6:2 numDiskEntries:8:2 numDirEntries:10:2 dirSize:12:4 dirOffset:16:4 commentSize:20:2'),
    'ZIP64CentralDir': (56, 'id:0:4 dirRecord:4:8 madeBy:12:2 extractVersion:14:2 diskNumber:16:4 startDiskNumber:20:4 numDiskEntries:24:8 numDirEntries:32:8 dirSize:40:8 dirOffset:48:8'),
    'ZIP64CentralDirLocator': (20, 'id:0:4 diskNumber:4:4 centralDirOffset:8:8 numDisks:16:4'),
}
CONST = {'ZIPLocalFile::ID': b'PK\3\4', 'ZIPFile::ID': b'PK\1\2', 'ZIPSignature::ID': b'PK\5\5', 'ZIPExtraData::ID': b'PK\6\x08', 'ZIPCentralDir::ID': b'PK\5\6', 'ZIP64CentralDir::ID': b'PK\6\6',
         'ZIP64CentralDirLocator::ID': b'PK\6\7'}
METHODS = dict(Store=0, Shrunk=1, Reduce1=2, Reduce2=3, Reduce3=4, Reduce4=5, Implode=6, Tokenize=7, Deflate=8, Deflate64=9, BZIP2=12, LZMA=14, CMPSC=16, TERSE=18, IBM_LZ77=19, JPEG=96, WavPack=97, PPMd=98, AEx=99)
FLAGS = dict(Encrypted=0, CFlag0=1, CFlag1=2, DataDescriptor=3, EnhancedDeflate=4, PatchedData=5, StronkEncryption=6, StringsInUTF8=11, StronkEncryptSpecific=13)


def fields(n):
    return [(f.split(':')[0], int(f.split(':')[1]), int(f.split(':')[2])) for f in H[n][1].split()]


def src():
    t = ['#include "formats/ZIP_istream.inl"', '#include "formats/ZIP_ostream.inl"', 'extern "C" {']
    for n in H:
        t.append('void r_%s(std::istream &s, %s *o) { BinReaderRef r(s); r.Read(*o); }' % (n, n))
        t.append('void w_%s(std::ostream &s, const %s *o) { BinWritterRef w(s); w.Write(*o); }' % (n, n))
        for f, _, _ in fields(n):
            t.append('const void *at_%s_%s(const %s *o) { return &o->%s; } unsigned long sz_%s_%s(const %s *o) { return sizeof(o->%s); }' % (n, f, n, f, n, f, n, f))
        t.append('unsigned long sz_%s() { return sizeof(%s); }' % (n, n))
    for i, n in enumerate(CONST):
        t.append('uint32 k_%d() { return %s; }' % (i, n))
    for n in METHODS:
        t.append('uint32 m_%s() { return uint32(ZIPCompressionMethod::%s); }' % (n, n))
    for n in FLAGS:
        t.append('bool f_%s(const ZIPLocalFile *f) { return f->flags[ZIPLocalFlag::%s]; }' % (n, n))
    t.append('}')
    return '\n'.join(t)


def run(c):
    c.rule('Headers are read from a stream of unknown bytes and written to a recording stream; every field must consist of exactly the stream bytes at its published offset and back, and the stream must advance by exactly the header size.')
    c.assumption('std::istream::read delivers and std::ostream::write accepts the given bytes; a little endian machine')
    mod = ir.unit(text=src(), name='D03')
    seen = set()
    pos = {}
    s = S(mod)
    s.buf('O')
    with c.part('constants'):
        for i, (n, v) in enumerate(CONST.items()):
            r = s.c.cval(s.run('k_%d' % i)[1])
            c.ob('%s is %r' % (n, v), r == cc(v), 'it is %s' % r, n)
        for n, v in METHODS.items():
            r = s.c.cval(s.run('m_' + n)[1])
            c.ob('compression method %s is %d' % (n, v), r == v, 'it is %s' % r, 'ZIPCompressionMethod')
        for n, v in FLAGS.items():
            p = s.run('at_ZIPLocalFile_flags', [Ptr('O')])[1].off
            r = s.run('f_' + n, [Ptr('O')])[1]
            ok, d = s.cmp([r[0]], [s.inbits('O', p, 2)[v]])
            c.ob('flag %s is bit %d' % (n, v), ok, d, 'ZIPLocalFlag')
    for n, (size, _) in H.items():
        with c.part(n):
            osz = s.c.cval(s.run('sz_' + n)[1])
            pos[n] = {f: s.run('at_%s_%s' % (n, f), [Ptr('O')])[1].off for f, _, _ in fields(n)}
            for f, o, k in fields(n):
                r = s.c.cval(s.run('sz_%s_%s' % (n, f), [Ptr('O')])[1])
                c.ob('%s::%s has %d bytes' % (n, f, k), r == k, 'it has %s' % r, n)
            # reading
            s1 = S(mod)
            s1.it.record_access = True
            st = Stream(s1)
            s1.buf('O')
            s1.run('r_' + n, [s1.buf('strm'), Ptr('O')])
            seen.update(s1.it.visited)
            for f, o, k in fields(n):
                ok, d = s1.cmp(s1.outbits('O', pos[n][f], k), s1.inbits('S', o, k))
                c.ob('reading %s::%s takes bytes %d..%d' % (n, f, o, o + k - 1), ok, d, n + '::Read')
            c.ob('reading %s takes %d bytes' % (n, size), st.pos == size, 'the stream advanced by %s' % st.pos, n + '::Read')
            bad = next((e for e in s1.it.events if e.kind == 'store' and e.ptr.base == 'O' and (e.ptr.sym or e.ptr.off < 0 or e.ptr.off + e.size > osz)), None)
            c.ob('reading %s stays inside of it' % n, bad is None, bad and 'store at ' + loc_str(bad.loc), n + '::Read')
            # writing
            s2 = S(mod)
            st = Stream(s2)
            s2.buf('O')
            s2.run('w_' + n, [s2.buf('strm'), Ptr('O')])
            seen.update(s2.it.visited)
            for f, o, k in fields(n):
                ok, d = s2.cmp(st.outbits(o, k), s2.inbits('O', pos[n][f], k))
                c.ob('writing %s::%s gives bytes %d..%d' % (n, f, o, o + k - 1), ok, d, n + '::Write')
            c.ob('writing %s gives %d bytes' % (n, size), st.pos == size and set(st.out) == set(range(size)) and not st.condwrites, 'the stream advanced by %s' % st.pos, n + '::Write')
            ok, d = s2.cmp(s2.outbits('O', 0, osz), s2.inbits('O', 0, osz))
            c.ob('writing %s keeps it' % n, ok, d, n + '::Write')
    c.unit('D03', mod, seen)
