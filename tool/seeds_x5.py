from seed import mk
SV = 'datas/internal/string_view.inl'
HD = '#include <cstring>\n#include <sstream>\n#include <stdexcept>\n#include "datas/string_view.hpp"\n'
mk('sv_lenint', 'S01', [(SV, '(compare ? compare : (m_size < v.m_size ? -1 : (m_size > v.m_size ? 1 : 0)))', '(compare ? compare : static_cast<int>(m_size - v.m_size))')],
   HD + 'int main() { const char *p = "ab"; es::string_view a(p, 2), b(p, (size_t(1) << 32) + 2); return a.compare(b) >= 0 || a == b || !(a < b); }\n',
   'views whose lengths differ by a multiple of 4 GiB, the shorter a prefix of the longer', 'they compare equal')
mk('sv_part2', 'S01', [(SV, 'return substr(pos1,count1).compare( v.substr(pos2,count2) );', 'return substr(pos1,count1).compare( v.substr(pos2,count1) );')],
   HD + 'int main() { es::string_view a("abcd"), b("xab"); return a.compare(0, 2, b, 1, 1) <= 0; }\n',
   'parts of both texts with different counts', 'the wrong part is compared')
mk('sv_streamz', 'S01', [(SV, 'o.write(str.data(),str.size());', 'o.write(str.data(),std::min(str.size(), Traits::length(str.data())));')],
   HD + 'int main() { char t[] = "a\\0b"; std::stringstream s; s << es::string_view(t, 3); return s.str() != std::string(t, 3); }\n',
   'a view with a character 0 inside', 'the rest is not written')
