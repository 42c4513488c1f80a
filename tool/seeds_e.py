from seed import mk
X = 'datas/except.hpp'
mk('ex_sign', 'E02', [(X, '(unsigned char)rMagic[c]', 'rMagic[c]')], '#include "datas/except.hpp"\nint main() { return std::string(es::InvalidHeaderError(uint32_t(0x80414243)).what()) != "Invalid format: 0x43 0x42 0x41 0x80 "; }', 'a magic with a byte above 0x7f', 'the bytes are shown with their sign and cut off')
mk('ex_view', 'E02', [(X, '''"Couldn't open file: " + fileName.to_string()''', '''std::string("Couldn't open file: ") + fileName.data()''')], '#include "datas/except.hpp"\nint main() { std::string s("folder/name"); return std::string(es::FileNotFoundError(es::string_view(s.data(), 6)).what()) != "Couldn\'t open file: folder"; }', 'a file name that is part of a longer text', 'the message contains what follows the name')
mk('ex_size', 'E02', [(X, 'InvalidHeaderError(T magic, size_t size = sizeof(T))', 'InvalidHeaderError(T magic, size_t size = sizeof(uint32_t))')], '#include "datas/except.hpp"\nint main() { uint64_t m; memcpy(&m, "ABCDEFGH", 8); return std::string(es::InvalidHeaderError(m).what()) != "Invalid format: ABCDEFGH"; }', 'a magic of 8 bytes', 'only its first half is named')
U = 'datas/unicode.hpp'
mk('u_embedded', 'S03', [(U, '''    std::wstring_convert<std::codecvt_utf8<_ES_UTF32>, _ES_UTF32> converter;
    const _ES_UTF32 *first = reinterpret_cast<const _ES_UTF32 *>(&*input.begin());
    const _ES_UTF32 *last = reinterpret_cast<const _ES_UTF32 *>(&*std::prev(input.end()));
    return converter.to_bytes(first, ++last);
''', '    return Cvt(input.c_str());\n')], '#include "datas/unicode.hpp"\nint main() { return es::ToUTF8(std::u32string(U"a\\0b", 3)) != std::string("a\\0b", 3); }', 'a text with a zero character', 'the rest of the text is lost')
mk('u_ucs2', 'S03', [(U, '''    const es::basic_string_view<_Ty> sw(input);
    std::wstring_convert<std::codecvt_utf8_utf16<_ES_UTF16>, _ES_UTF16> converter;''', '''    const es::basic_string_view<_Ty> sw(input);
    std::wstring_convert<std::codecvt_utf8<_ES_UTF16>, _ES_UTF16> converter;''')], '#include "datas/unicode.hpp"\nint main() { try { return es::ToUTF8(u"a\\U0001f600") != "a\\xf0\\x9f\\x98\\x80"; } catch (const std::exception &) { return 1; } }', 'a character beyond the basic plane', 'surrogates are not converted')
L = 'uni/list_vector.hpp'
Q = '#include <string>\n#include <stdexcept>\n#include "uni/list_vector.hpp"\n#include <cstdio>\n#include <unistd.h>\nstruct I : uni::Base { virtual int id() const { return 1; } };\nstatic int gone;\nstruct C : I { ~C() { gone++; } operator uni::Element<const I>() const { return {static_cast<const I *>(this), false}; } };\n'
mk('ul_own', 'U02', [(L, 'return {storage.at(id).get(), false};', 'return const_type(storage.at(id).get());')], Q + 'int main() { uni::PolyVectorList<I, C> *l = new uni::PolyVectorList<I, C>; l->storage.emplace_back(new C); { auto e = l->At(0); } _exit(gone != 0); }', 'an item of a list of pointers', 'the item is deleted with the element, and again with the list')
mk('ul_at', 'U02', [(L, '  const_type At(size_t id) const override { return storage.at(id); }', '  const_type At(size_t id) const override { return storage[id]; }')], Q + 'int main() { uni::VectorList<I, C> l; l.storage.reserve(4); l.storage.resize(2); try { l.At(2); } catch (const std::out_of_range &) { return 0; } return 1; }', 'an index beyond the list', 'nothing is thrown, the reference is dangling')
mk('ul_post', 'U02', [('uni/virtual_iterator.hpp', '    VirtualIterator retval = *this;\n    ++(*this);\n    return retval;', '    return VirtualIterator(tClass, ++iterPos);')], Q + 'int main() { uni::VectorList<I, C> l; l.storage.resize(3); auto i = l.begin(); return (*i++).get() != &l.storage[0]; }', 'the value of a postfix increment', 'it is the next item')
mk('um_madd', 'U02', [('uni/internal/model.inl', 'd = udata.max + d * udata.min;', 'd = udata.min + d * udata.max;')], r'''
#include "datas/matrix44.hpp"
#include "uni/model.hpp"
struct D : uni::PrimitiveDescriptor {
  const char *RawBuffer() const override { return nullptr; } size_t Stride() const override { return 0; } size_t Offset() const override { return 0; } size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Undefined; } uni::FormatDescr Type() const override { return {}; } uni::BBOX UnpackData() const override { return {Vector4A16(2, 2, 2, 2), Vector4A16(5, 5, 5, 5)}; } UnpackDataType_e UnpackDataType() const override { return UnpackDataType_e::Madd; }
  uni::FormatCodec &Codec() const override { return *(uni::FormatCodec *)nullptr; } };
int main() { D d; uni::FormatCodec::fvec f(1, Vector4A16(3, 3, 3, 3)); d.Resample(f); return f[0].X != 11.f; }
''', 'unpack data of type Madd', 'scale and offset are swapped')
mk('us_type', 'U02', [('uni/internal/skeleton.inl', 'TMTYPE_MATRIX>(this', 'TMTYPE_RTS>(this')], r'''
#include "uni/skeleton.hpp"
#include "datas/matrix44.hpp"
struct B : uni::Bone { uni::TransformType TMType() const override { return uni::TMTYPE_MATRIX; } const Bone *Parent() const override { return nullptr; } size_t Index() const override { return 0; } std::string Name() const override { return {}; } };
int main() { B b; esMatrix44 m; try { static_cast<uni::Bone &>(b).GetTM(m); } catch (const std::logic_error &) { return 0; } catch (const std::exception &) { return 1; } return 2; }
''', 'a bone with matrices that does not override GetTM', 'the call is reported as unsupported', '/repo/datas/matrix44.cpp')
