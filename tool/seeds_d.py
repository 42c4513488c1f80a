from seed import mk
H='#include "formats/DDS.hpp"\n'
mk('dds_dxt4','D01',[('formats/DDS.hpp','''    case CompileFourCC("DXT4"):
      dxgiFormat = DXGI_FORMAT_BC3_UNORM;
      alphaMode = AlphaMode_Premultiplied;
''','''    case CompileFourCC("DXT4"):
      dxgiFormat = DXGI_FORMAT_BC3_UNORM;
''')],H+'int main() { DDS d; d = DDSFormat_DXT4; d.FromLegacy(); d.ToLegacy(); return d.fourCC != DDSFormat_DXT4.fourCC; }','a DXT4 texture','converting forth and back turns it into DXT5')
mk('dds_bpps','D01',[('formats/DDS.hpp','8,  8,  8,  16, 16, 32, 32, 32,','8,  8,  8,  16, 16, 32, 32, 24,')],H+'int main() { DDS d; d = DDSFormat_DX10; d.dxgiFormat = DXGI_FORMAT_R10G10B10_XR_BIAS_A2_UNORM; d.ComputeBPP(); return d.bpp != 32; }','format R10G10B10_XR_BIAS_A2_UNORM','24 bits per pixel')
mk('dds_mips','D01',[('formats/DDS.hpp','''    caps00.Set(Caps00Flags_MipMaps, usesMips);
    flags.Set(Flags_MipMaps, usesMips);''','''    caps00.Set(Caps00Flags_MipMaps, usesMips);
    flags += usesMips ? Flags_MipMaps : Flags_Caps;''')],H+'int main() { DDS d; d.NumMipmaps(4); d.NumMipmaps(1); return d.flags[DDS::Flags_MipMaps]; }','mips removed again','the header still announces them')
mk('dds_offsets','D01',[('formats/DDS.hpp','''      dOut.offsets[m] = fullBuffer;
''','''      dOut.offsets[m] = m < 2 ? fullBuffer : dOut.offsets[m - 1] + dOut.sizes[m - 2] / 4;
''')],H+'int main() { DDS d; d = DDSFormat_DXT1; d.width = d.height = 4; d.mipMapCount = 3; DDS::Mips m; d.ComputeBufferSize(m); return m.offsets[2] != 16; }','small levels','levels overlap')
mk('dds_masks','D01',[('formats/DDS.hpp','''           GBitMask == input.GBitMask && BBitMask == input.BBitMask &&
           ABitMask == input.ABitMask;''','''           GBitMask == input.GBitMask && BBitMask == input.BBitMask;''')],H+'int main() { DDS_PixelFormat p = DDSFormat_A8L8; p.ABitMask = 0xf0; return p == DDSFormat_A8L8; }','formats that differ in alpha only','they compare equal')
mk('dds_force','D01',[('formats/DDS.hpp','''      case DXGI_FORMAT_BC2_UNORM_SRGB:
        operator=(DDSFormat_DXT3);''','''      case DXGI_FORMAT_BC2_UNORM_SRGB:
        operator=(DDSFormat_DXT5);''')],H+'int main() { DDS d; d.dxgiFormat = DXGI_FORMAT_BC2_UNORM_SRGB; d.ToLegacy(true); return d.fourCC != CompileFourCC("DXT3"); }','forced conversion of BC2 SRGB','the texture is announced as DXT5')
W='#include "formats/WAVE.hpp"\n'
mk('wave_fact','D02',[('formats/WAVE.hpp','''  case WAVE_fact::ID:
  case WAVE_smpl::ID:''','''  case RIFFHeader::ID:
  case WAVE_smpl::ID:''')],W+'int main() { WAVEGenericHeader h(WAVE_fact::ID); return !IsValidWaveChunk(h); }','a fact chunk','it is rejected, a nested RIFF accepted')
mk('wave_24','D02',[('formats/WAVE.hpp','interleave = channels * (bitsPerSample / 8);','interleave = (channels * bitsPerSample >> 4) * 2;')],W+'int main() { WAVE_fmt f(WAVE_FORMAT::PCM); f.bitsPerSample = 24; f.channels = 1; f.CalcData(); return f.interleave != 3; }','odd block sizes','the block size is rounded down to even')
mk('wave_mulaw','D02',[('formats/WAVE.hpp','''    case WAVE_FORMAT::IMA_ADPCM:
      bitsPerSample = 4;
      break;
    case WAVE_FORMAT::ALAW:
''','''    case WAVE_FORMAT::IMA_ADPCM:
    case WAVE_FORMAT::ALAW:
      bitsPerSample = 4;
      break;
''')],W+'int main() { return WAVE_fmt(WAVE_FORMAT::ALAW).bitsPerSample != 8; }','A-law data','4 bits per sample are announced')
mk('wave_loop','D02',[('formats/WAVE.hpp','''    enum Type {
''','''    enum Type : uint64 {
''')],W+'int main() { WAVE_smpl::SampleLoop l; return (char *)&l.start - (char *)&l != 8 || sizeof(l) != 24; }','sample loops','loop positions are read from other offsets')
Z='#include "datas/zip_vfs.hpp"\n#include "formats/ZIP_ostream.inl"\n'
ZH='''static void loc(std::ostream &s, std::string n, std::string d, std::string x, int flags = 0, int method = 0) { ZIPLocalFile h{}; h.id = ZIPLocalFile::ID; if (flags & 1) h.flags += ZIPLocalFlag::Encrypted; h.compression = ZIPCompressionMethod(method);
 h.compressedSize = h.uncompressedSize = d.size(); h.fileNameSize = n.size(); h.extraFieldSize = x.size(); BinWritterRef w(s); h.Write(w); s << n << x << d; }
static void cen(std::ostream &s, std::string n, std::string c) { ZIPFile h{}; h.id = ZIPFile::ID; h.fileNameSize = n.size(); h.fileCommentSize = c.size(); BinWritterRef w(s); h.Write(w); s << n << c; }
static std::string rd(ZIPVFSFile f, int n) { std::string r; BinReaderRef b(f); b.ReadContainer(r, n); return r; }
'''
mk('zip_comment','Z01',[('datas/zip_vfs.hpp','rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);','rd.Skip(hdr.fileNameSize + hdr.extraFieldSize);')],Z+ZH+'int main() { std::stringstream s; loc(s, "a", "12345", ""); cen(s, "a", "comment"); try { ZIPVFS v(s); return v.size() != 1; } catch (...) { return 1; } }','a commented file','the archive is rejected')
mk('zip_extra','Z01',[('datas/zip_vfs.hpp','''        rd.Skip(hdr.extraFieldSize);
        emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
''','''        emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
        rd.Skip(hdr.extraFieldSize);
''')],Z+ZH+'int main() { std::stringstream s; loc(s, "a", "12345", "xy"); ZIPVFS v(s); return rd(v.Get("a"), 5) != "12345"; }','a file with an extra field','Get delivers the extra field')
mk('zip_lock','Z01',[('datas/zip_vfs.hpp','''    std::lock_guard<std::mutex> guard(rdMutex);
    rd.Seek(value.first);
''','''    rd.Seek(value.first);
    std::lock_guard<std::mutex> guard(rdMutex);
''')],'#include <mutex>\nstatic int held = 0, bad = 0;\nstruct M { void lock() { held++; } void unlock() { held--; } };\n#define mutex recursive_mutex\nnamespace std { template <> struct lock_guard<recursive_mutex> { lock_guard(recursive_mutex &) { held++; } ~lock_guard() { held--; } }; }\n'+Z+ZH+'''struct B : std::stringbuf { bool armed = false; B(std::string s) : std::stringbuf(s) {} pos_type seekpos(pos_type p, std::ios_base::openmode m) override { if (armed && !held) bad = 1; return std::stringbuf::seekpos(p, m); } pos_type seekoff(off_type p, std::ios_base::seekdir d, std::ios_base::openmode m) override { if (armed && !held) bad = 1; return std::stringbuf::seekoff(p, d, m); } };
int main() { std::stringstream s; loc(s, "a", "12345", ""); B b(s.str()); std::istream i(&b); ZIPVFS v(i); b.armed = true; rd(v.Get("a"), 5); return bad; }''','two threads that get files at the same time','one seeks between seek and read of the other')
mk('zip_strong','Z01',[('datas/zip_vfs.hpp','hdr.flags[ZIPLocalFlag::Encrypted]','hdr.flags[ZIPLocalFlag::StronkEncryption]')],Z+ZH+'int main() { std::stringstream s; loc(s, "a", "12345", "", 1); try { ZIPVFS v(s); } catch (...) { return 0; } return 1; }','an encrypted file','its encrypted bytes are delivered')
mk('zip_method','Z01',[('datas/zip_vfs.hpp','hdr.compression != ZIPCompressionMethod::Store','hdr.compression >= ZIPCompressionMethod::Implode')],Z+ZH+'int main() { std::stringstream s; loc(s, "a", "12345", "", 0, 2); try { ZIPVFS v(s); } catch (...) { return 0; } return 1; }','old compression methods','compressed bytes are delivered')
mk('zip64_write','D03',[('formats/ZIP_ostream.inl','getBlockSize(ZIP64CentralDir, numDiskEntries, dirOffset)','getBlockSize(ZIP64CentralDir, numDiskEntries, dirSize)')],Z+'int main() { std::stringstream s; ZIP64CentralDir d{}; BinWritterRef w(s); d.Write(w); return s.str().size() != 56; }','writing a ZIP64 directory','the offset is missing')
mk('zip_cen_read','D03',[('formats/ZIP_istream.inl','''                getBlockSize(ZIPFile, id, internalFileAttrs));
  rd.ReadBuffer(reinterpret_cast<char *>(&externalFileAttrs), 8);''','''                getBlockSize(ZIPFile, id, internalFileAttrs));
  rd.Read(externalFileAttrs);
  rd.Read(externalFileAttrs);''')],Z+'int main() { std::stringstream s; ZIPFile d{}; d.localHeaderOffset = 77; BinWritterRef w(s); d.Write(w); ZIPFile e{}; e.Read(BinReaderRef(s)); return e.localHeaderOffset != 77; }','a file that is not the first of the archive','its offset is lost')
