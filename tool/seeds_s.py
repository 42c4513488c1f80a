from seed import mk
H='#include <cstdint>\n#include <stdexcept>\n#include "datas/string_view.hpp"\nusing es::string_view;\n'
mk('sv_compare_prefix','S01',[('datas/internal/string_view.inl','(compare ? compare : (m_size < v.m_size ? -1 : (m_size > v.m_size ? 1 : 0)))','(compare ? compare : (m_size < v.m_size ? -1 : (m_size > v.m_size && v.m_size ? 1 : 0)))')],H+'int main() { return string_view("abc", 3) == string_view() || !(string_view() < string_view("a", 1)) || string_view("a", 1).compare("") <= 0; }','a comparison with an empty view on the right','every text equals the empty view')
mk('sv_last_of_default','S01',[('datas/internal/string_view.inl','''  template<typename CharT, typename Traits>
  inline typename basic_string_view<CharT,Traits>::size_type
    basic_string_view<CharT,Traits>::find_last_of( const char_type* s, size_type pos,
                                                   size_type count )
    const
  {
    return find_last_of( basic_string_view<CharT,Traits>(s, count), pos );''','''  template<typename CharT, typename Traits>
  inline typename basic_string_view<CharT,Traits>::size_type
    basic_string_view<CharT,Traits>::find_last_of( const char_type* s, size_type pos,
                                                   size_type count )
    const
  {
    return find_last_of( basic_string_view<CharT,Traits>(s), pos < m_size ? pos : count );''')],H+'int main() { string_view v("a/b\\\\c", 5); return v.find_last_of("\\\\/", string_view::npos, 2) != 3 || v.find_last_of("/\\\\", 4, 1) != 1; }','the overload with a pointer and a character count','the count is ignored')
