from seed import mk
B='#include "datas/encrypt/blowfish.cpp"\n#include <cstring>\n'
0 and mk('bf_pcbc_dec','E01',[('datas/encrypt/blowfish.cpp','''    lastVector = block;
    DecodeBlock(block);
    block ^= currentVector;
    currentVector = block ^ lastVector;
''','''    lastVector = block;
    DecodeBlock(block);
    block ^= currentVector;
    currentVector = b ? lastVector : block ^ lastVector;
''')],B+'''int main() { BlowfishEncoder e; e.SetKey("secret"); e.Mode(BlowfishEncoder::PCBC); e.Vector(0x123456789abcdefull);
char a[40], b[40]; for (int i = 0; i < 40; i++) a[i] = b[i] = i * 7; e.Encode(b, 40); e.Decode(b, 40); return memcmp(a, b, 40) != 0; }''','PCBC mode and at least three blocks','the third block is not restored')
mk('bf_sbox','E01',[('datas/encrypt/blowfish.cpp','0x0e12b4c2, 0x02e1329e','0x0e12b4c2, 0x02e1239e')],B+'''int main() { BlowfishEncoder e; e.SetKey("abcdefghijklmnopqrstuvwxyz"); uint32 d[2] = {0x424c4f57, 0x46495348}; e.Encode((char *)d, 8); return d[0] != 0x324ed0fe || d[1] != 0xf413a203; }''','one word of the initial tables','all ciphertexts differ from the published cipher while decoding still undoes encoding') if 0 else None
mk('xor_phase','E01',[('datas/encrypt/xorenc.hpp','key[ii % key.size()]','key[(ii & 0xfff) % key.size()]')],'#include "datas/supercore.hpp"\n#include "datas/encrypt/xorenc.hpp"\n#include <vector>\nint main() { std::vector<char> v(5000, 0); XOREncoder x; x.SetKey("abc"); x.Encode(v.data(), v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i] != "abc"[i % 3]) return 1; return 0; }','a buffer of more than 4096 bytes','the key starts over at byte 4096') if 0 else None
0 and mk('trim_all','S02',[('datas/supercore.hpp','''  while (!input.empty() && (input.back() == ' ' || input.back() == '\\t' ||
                            (inclNewLine && input.back() == '\\n')))''','''  while (!input.empty() && (input.back() == ' ' || input.back() == (inclNewLine ? '\\n' : '\\t')))''')],'#include <utility>\n#include "datas/supercore.hpp"\n#include "datas/string_view.hpp"\nint main() { return es::SkipEndWhitespace(es::string_view("a\\t\\n", 3), true).size() != 1 || es::SkipEndWhitespace(es::string_view("a\\t \\t", 4)).size() != 1; }','a tab before a new line at the end, new lines included','tabs are kept')
0 and mk('hexlut','S02',[('datas/supercore.hpp',r'\x9.......\xa\xb\xc\xd',r'\x9.......\xa\xb\xd\xc')],'#include <utility>\n#include "datas/supercore.hpp"\nint main() { for (int i = 0; i < 6; i++) if (atohLUT["ABCDEF"[i]] != 10 + i || atohLUT["abcdef"[i]] != 10 + i) return 1; return 0; }','the digits C and D in capitals','their values are exchanged')
F='#include <stdexcept>\n#include "datas/fileinfo.hpp"\n'
0 and mk('fi_backslash','N01',[('datas/fileinfo.hpp','''    endFolder = fullPath.find_last_of('/');''','''    endFolder = input.find_last_of('/');''')],F+'int main() { AFileInfo f("a\\\\b/c\\\\d.e"); return !(f.GetFolder() == "a/b/c/") || !(f.GetFilename() == "d"); }','a path whose last separator is a backslash','the folder ends too early')
0 and mk('fi_explode','N01',[('datas/fileinfo.hpp','''    if (lastOffset != pathEnd)
      resVal.emplace_back(lastOffset);''','''    if (lastOffset + 1 < pathEnd)
      resVal.emplace_back(lastOffset);''')],F+'int main() { AFileInfo f("a/b"); return f.Explode().size() != 2; }','a last component of one character','it is dropped')
D='#include <stdexcept>\n#include "datas/directory_scanner.hpp"\n#include <cstdlib>\n#include <fstream>\n#include <sys/stat.h>\n'
0 and mk('scan_filter_dir','N02',[('datas/directory_scanner.cpp','''    if (cFile->d_type == DT_DIR) {
      Scan(subFile);
    } else if''','''    if (cFile->d_type == DT_DIR && *cFile->d_name != '.') {
      Scan(subFile);
    } else if''')],D+'int main() { mkdir("r", 0700); mkdir("r/.h", 0700); std::ofstream("r/.h/f.txt") << 1; DirectoryScanner d; d.Scan("r"); return d.Files().size() != 1 || d.Files()[0] != "r/.h/f.txt"; }','a folder whose name starts with a dot','it is listed as a file and its files are missing','/repo/datas/directory_scanner.cpp')
mk('scan_leak','N02',[('datas/directory_scanner.cpp','''  while ((cFile = readdir(cDir)) != nullptr) {''','''  if (!(cFile = readdir(cDir)))
    return;
  for (; cFile; cFile = readdir(cDir)) {
    if (cFile->d_type == DT_UNKNOWN)
      return;
''')],D+'int main() { return 0; }','x','x') if 0 else None
mk('mkdirs_known','N02',[('datas/stat.hpp','''        tree.emplace(cfle.begin(), it);
''','''        if (!tree.emplace(cfle.begin(), it).second)
          break;
''')],'#include <stdexcept>\n#include "datas/stat.hpp"\n#include <vector>\nint main() { std::vector<std::string> f{"a/f", "a/b/f"}; es::mkdir("o"); mkdirs("o/", f, [](const std::string &s) { return s; }); return FileType("o/a") != Directory || FileType("o/a/b") != Directory; }','a folder below one that an earlier file already needed','it is not created','/repo/datas/stat.cpp')
