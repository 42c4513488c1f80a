from seed import mk
BR = '#include "datas/binreader.hpp"\n#include "datas/binwritter.hpp"\n#include <cstdlib>\n#include <fstream>\n#include <string>\n#include <unistd.h>\nstruct Dir { char d[32] = "/tmp/demoXXXXXX"; Dir() { mkdtemp(d); } ~Dir() { unlink((std::string(d) + "/f").c_str()); rmdir(d); } std::string f() { return std::string(d) + "/f"; } };\n'
mk('file_bad', 'B09', [('datas/internal/bincore_file.hpp', '''    FileStream.open(_fileName, MODE);
#endif

    return !FileStream.fail();
  }
public:''', '''    FileStream.open(_fileName, MODE);
#endif

    return !FileStream.bad();
  }
public:''')], BR + 'int main() { Dir d; try { BinReader r(d.f() + "none"); } catch (const std::exception &) { return 0; } return 1; }\n', 'a std::string name of a file that does not exist', 'the reader claims to be open')
mk('sv_fnot', 'S01', [('datas/string_view.hpp', 'size_type find_first_not_of( char_type c, size_type pos = 0 ) const;', 'size_type find_first_not_of( char_type c, size_type pos = 1 ) const;')],
   '#include "datas/string_view.hpp"\nint main() { return es::string_view("xaaa").find_first_not_of(\'a\') != 0; }\n', 'the other character is the first', 'it is not found')
mk('sv_chunk', 'S01', [('datas/internal/string_view.inl', '''    const int compare = Traits::compare(m_str,v.m_str,rlen);
''', '''    const int compare = Traits::compare(m_str,v.m_str,rlen > 32 ? rlen & ~size_type(7) : rlen);
''')], '#include "datas/string_view.hpp"\nint main() { std::string a(37, \'a\'), b(37, \'a\'); b[36] = \'b\'; return es::string_view(a) == es::string_view(b); }\n', 'texts of more than 32 characters that differ in the last ones', 'they compare equal')
mk('jen_long', 'H01', [('datas/jenkinshash3.hpp', '  for (size_t k = 0; k < std::max(input.size(), size_t(12)) - 12; k += 12) {', '  for (uint8 k = 0; k < std::max(input.size(), size_t(12)) - 12 && k < 252; k += 12) {')],
   '#include "datas/jenkinshash3.hpp"\n#include <string>\nint main() { std::string a(300, \'a\'), b(300, \'a\'); b[270] = \'b\'; return JenkinsHash3_(a) == JenkinsHash3_(b); }\n', 'more than 264 bytes', 'bytes in the middle do not count')
mk('s3_long', 'S03', [('datas/unicode.hpp', None, None)], '', '', '') if 0 else None
mk('flags_conv', 'C02', [('datas/flags.hpp', '  constexpr explicit operator ValueType() const noexcept { return value; }', '  constexpr operator ValueType() const noexcept { return value; }')],
   '#include "datas/flags.hpp"\n#include <type_traits>\nenum class E : uint8 { A, B };\nint main() { return std::is_convertible<es::Flags<E>, int>::value; }\n', 'a use of flags where a number is wanted', 'flags turn into numbers and take part in arithmetic silently')
mk('bf_boxes', 'E01', [('datas/encrypt/blowfish.cpp', None, None)], '', '', '') if 0 else None
