from seed import mk
BL = '#include "datas/encrypt/blowfish.cpp"\n#include <cstring>\n'
N = 'datas/internal/bincore_navi.hpp'
BR = '#include "datas/binreader_stream.hpp"\n#include "datas/binwritter_stream.hpp"\n#include <sstream>\n#include <string>\n#include <vector>\n'
mk('bf_keyend', 'E01', [('datas/encrypt/blowfish.cpp', 'void BlowfishEncoder::SetKey(es::string_view key) {\n', 'void BlowfishEncoder::SetKey(es::string_view key) {\n  if (key.size() > 56 && !key.back()) {\n    key.remove_suffix(1);\n  }\n\n')],
   BL + 'int main() { char k[60]; for (int i = 0; i < 60; i++) k[i] = i + 1; k[59] = 0; char a[8] = {1, 2}, b[8] = {1, 2}; BlowfishEncoder e; e.SetKey(es::string_view(k, 60)); e.Encode(a, 8); e.SetKey(es::string_view(k, 59)); e.Encode(b, 8); return !memcmp(a, b, 8); }\n', 'a key of more than 56 bytes that ends in zero', 'its last byte does not take part') if 0 else None
mk('xor_wide', 'E01', [('datas/encrypt/xorenc.hpp', '    for (size_t ii = 0; ii < size; ii++)\n', '    for (uint32 ii = 0; ii < static_cast<int>(size); ii++)\n')],
   '', '', '') if 0 else None
mk('bf_ofb', 'E01', [('datas/encrypt/blowfish.cpp', '''    uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
    EncodeBlock(currentVector);
    block ^= currentVector;
''', '''    uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
    if (block || !b) {
      EncodeBlock(currentVector);
    }
    block ^= currentVector;
''')], BL + 'int main() { BlowfishEncoder e; e.SetKey("abc"); e.Mode(BlowfishEncoder::OFB); e.Vector(77); char a[24] = {5}; a[16] = 9; char b[24] = {6}; b[8] = 3; b[16] = 9; e.Encode(a, 24); e.Encode(b, 24); return memcmp(a + 16, b + 16, 8) != 0; }\n', 'OFB mode and a later block of zeros', 'the key stream depends on the text') if 0 else None
mk('navi_cur', 'B04', [(N, "position + localPos : position, vay", "position + localPos : position & 0xffffffff, vay")] if 0 else [(N, '''    this->Seek(savepos);
    return curSize;''', '''    _Traits::Seek(savepos);
    return curSize;''')], BR + 'int main() { std::stringstream s("abcdefghij"); BinReaderRef r(s); r.SetRelativeOrigin(3); r.Seek(2); r.GetSize(); return r.Tell() != 2; }\n', 'a relative origin', 'asking for the size moves the position')
mk('bfld_mirror', 'B06', [('datas/bitfield.hpp', '    value |= (input << item.position) & mask;', '    value |= (item.size > 15 ? input << item.position : (input & 0x7fff) << item.position) & mask;')], '', '', '') if 0 else None
mk('trim_sv', 'S02', [('datas/supercore.hpp', '''  input = SkipStartWhitespace(input);
  return SkipEndWhitespace(input);''', '''  input = SkipEndWhitespace(input);
  return input.size() > 1 ? SkipStartWhitespace(input) : input;''')] if 0 else [('datas/supercore.hpp', '''  while (!input.empty() && (input.back() == ' ' || input.back() == '\\t' ||
                            (inclNewLine && input.back() == '\\n')))
    input.remove_suffix(1);''', '''  while (input.size() > 1 && (input.back() == ' ' || input.back() == '\\t' ||
                              (inclNewLine && input.back() == '\\n')))
    input.remove_suffix(1);''')], '#include <utility>\n#include "datas/supercore.hpp"\n#include "datas/string_view.hpp"\nint main() { return es::SkipEndWhitespace(es::string_view("  ", 2)).size() != 0; }\n', 'a text of nothing but whitespace', 'one character is left')
mk('fourcc_hi', 'S02', [('datas/supercore.hpp', '    const uint32 tmp = static_cast<uint8>(input[i]);\n', '    const uint32 tmp = i < 3 ? static_cast<uint8>(input[i]) : input[i] & 0x7f;\n')], '#include <utility>\n#include "datas/supercore.hpp"\nint main() { return CompileFourCC("AB\\xc3\\xd4") != 0xd4c34241; }\n', 'a last character above 127', 'its high bit is lost')
mk('pad_zero', 'S02', [('datas/supercore.hpp', '  const size_t result = value & mask;\n\n  return !result ? 0 : (alignment - result);', '  const uint32 result = value & mask;\n\n  return !result ? 0 : (alignment - result);')], '#include <utility>\n#include "datas/supercore.hpp"\nint main() { return GetPadding(0x100000001ull, 0x400000000ull) != 0x2ffffffffull; }\n', 'alignments above 4 GiB', 'the padding does not reach the boundary')
mk('x8_mask', 'D01', [('formats/DDS.hpp', None, None)], '', '', '') if 0 else None
