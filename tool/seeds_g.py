from seed import mk
G = 'datas/settings_manager.hpp'
X = 'datas/reflector_xml.cpp'
P = 'datas/pugiex.hpp'
R = '/repo/datas/reflector.cpp /repo/datas/master_printer.cpp'
RX = R + ' /repo/datas/reflector_xml.cpp -lpugixml'
T = r'''
enum class E8 : uint8 { ea, eb, ec = 7, ed };
'''
GH = r"""#include "datas/bitfield.hpp"
#include "datas/settings_manager.hpp"
#include <sstream>
#include <fstream>
#include <cstdio>
#include <dirent.h>
REFLECTOR_CREATE(E8, ENUM, 2, CLASS, 8, ea, eb, ec = 7, ed)
using bf0 = BitMemberDecl<0, 3>; using bf1 = BitMemberDecl<1, 5>;
using Bits = BitFieldType<uint16, bf0, bf1>;
REFLECTOR_CREATE(Bits, BITFIELD, 1, VARNAMES, bf0, bf1)
struct Leaf { int32 l0; float l1; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, EXTENDED, (A, l0, "an alias"), (D, l1, "the leaf"))
"""
mk('g_bits', 'G01', [(G, '''           (fl.subType == REFType::Class ||
            fl.subType == REFType::BitFieldClass))) {''', '''           fl.subType == REFType::Class)) {''')], GH + r'''
struct S : SettingsManager<S> { int32 a; Bits b[3]; };
REFLECTOR_CREATE(S, 1, VARNAMES, a, b)
int main() { RegisterReflectedTypes<Bits> r; S s; std::stringstream o; s.GetHelp(o); return o.str().find("bf1") == std::string::npos; }
''', 'an array of bit fields', 'the members of its items are not described', R)
mk('g_level', 'G01', [(G, '''    auto fillIndent = [&](size_t mod = 0) -> std::ostream & {
      for (size_t i = 0; i < level + mod; i++) {''', '''    auto fillIndent = [&](size_t mod = 0) -> std::ostream & {
      const size_t count = level > 2 ? 2 + mod : level + mod;
      for (size_t i = 0; i < count; i++) {''')], GH + r'''
struct Mid { Leaf leaf; void ReflectorTag(); };
REFLECTOR_CREATE(Mid, 1, VARNAMES, leaf)
struct S : SettingsManager<S> { int32 a; Mid m; };
REFLECTOR_CREATE(S, 1, VARNAMES, a, m)
int main() { RegisterReflectedTypes<Leaf, Mid> r; S s; std::stringstream o; s.GetHelp(o); return o.str().find("\n\t\t\tl0\n") == std::string::npos; }
''', 'a class within a class', 'its members are shown like those of the outer class', R)
mk('g_alias', 'G01', [(G, '    prSettings.aliasName = true;\n', '    prSettings.formatValue = true;\n')], GH + r'''
struct S : SettingsManager<S> { int32 a; };
REFLECTOR_CREATE(S, 1, EXTENDED, (A, a, "long-name"))
int main() { S s; s.a = 4; s.CreateLog("log"); DIR *d = opendir("."); std::string all; while (auto e = readdir(d)) if (!strncmp(e->d_name, "log", 3)) { std::ifstream f(e->d_name); all.assign(std::istreambuf_iterator<char>(f), {}); std::remove(e->d_name); } return all.find("long-name: 4") == std::string::npos; }
''', 'a setting with an alias', 'the log does not show the name that the user knows', R)
mk('g_once', 'G01', [(G, '    for (size_t t = 0; t < numSettings; t++) {', '    for (size_t t = 0; t + 1 < numSettings; t++) {')], GH + r'''
struct S : SettingsManager<S> { int32 a; int32 b; };
REFLECTOR_CREATE(S, 1, VARNAMES, a, b)
int main() { S s; s.a = 4; s.b = 5; s.CreateLog("log"); DIR *d = opendir("."); std::string all; while (auto e = readdir(d)) if (!strncmp(e->d_name, "log", 3)) { std::ifstream f(e->d_name); all.assign(std::istreambuf_iterator<char>(f), {}); std::remove(e->d_name); } return all.find("b: 5") == std::string::npos; }
''', 'the last setting', 'it is missing from the log', R)
XH = r'''#include "datas/reflector.hpp"
#include "datas/reflector_xml.hpp"
#include <pugixml.hpp>
#include <cstring>
REFLECTOR_CREATE(E8, ENUM, 2, CLASS, 8, ea, eb, ec = 7, ed)
struct Leaf { int32 l0; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, VARNAMES, l0)
'''
mk('xm_hash', 'X01', [(X, '''    const auto cHash = cType.valueNameHash.raw();
    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));''', '''    const auto cHash = cType.valueNameHash.raw();
    varName.resize(snprintf(&varName[0], 10, "h:%X", cHash));''')], XH + r'''
struct S { int32 first; int32 second; int32 c, d, e, f; };
REFLECTOR_CREATE(S, 0, first, second, c, d, e, f)
int main() { S a{1, 2, 3, 4, 5, 6}, b{}; ReflectorWrap<S> x(a), y(b); pugi::xml_document d; ReflectorXMLUtil::Save(x, d, true); ReflectorXMLUtil::Load(y, d, true); return memcmp(&a, &b, sizeof a) != 0; }
''', 'a class without names, a member whose hash has 8 digits', 'the last digit is lost, the member is not loaded', RX)
mk('xm_null', 'X01', [(X, '''        cpString = "NULL";''', '''        return;''')], XH + r'''
struct S { es::Flags<E8, uint16> f; };
REFLECTOR_CREATE(S, 1, VARNAMES, f)
int main() { RegisterReflectedTypes<E8> r; S a{}, b{}; b.f += E8::eb; ReflectorWrap<S> x(a), y(b); pugi::xml_document d; ReflectorXMLUtil::SaveV2(x, d, true); ReflectorXMLUtil::LoadV2(y, d, true); return b.f[E8::eb]; }
''', 'flags that are all off, loaded into an object where some are on', 'they stay on', RX)
mk('xm_empty', 'X01', [(X, '''  if (thisNode.empty()) {
    return thisNode;
  }

''', '''  if (thisNode.empty()) {
    thisNode = node;
  }

''')], XH + r'''
struct S { int32 a; };
REFLECTOR_CREATE(S, 1, VARNAMES, a)
int main() { S b{7}; ReflectorWrap<S> y(b); pugi::xml_document d; d.load_string("<Other><a>3</a></Other>"); ReflectorXMLUtil::Load(y, d.first_child(), true); return b.a != 7; }
''', 'a document without an element of the class', 'values of another element are loaded', RX)
mk('xm_stack', 'X01', [(X, '''          auto index = atoll(itemName.data() + 2);''', '''          static int64 index;
          if (itemName[0] == 'i') {
            index = atoll(itemName.data() + 2);
          }''')], XH + r'''
struct S { Leaf l[3]; };
REFLECTOR_CREATE(S, 1, VARNAMES, l)
int main() { RegisterReflectedTypes<Leaf> r; S b{}; ReflectorWrap<S> y(b); pugi::xml_document d; d.load_string("<S><l><i:1><l0>3</l0></i:1><x:2><l0>4</l0></x:2></l></S>"); ReflectorXMLUtil::Load(y, d, true); return b.l[1].l0 != 3; }
''', 'an array with an item of another name', 'the item is loaded into the one before it', RX)
PH = r'''#include "datas/pugiex.hpp"
#include <fstream>
static std::string put(const char *t) { std::string n(DEMO_TMP "/f.xml"); std::ofstream(n) << t; return n; }
'''
PX = R + ' -lpugixml'
mk('p_fail', 'X02', [(P, '''  if (!doc.save_file(fileName_.data(), indent, static_cast<uint32>(format),
                     static_cast<pugi::xml_encoding>(encoding))) {
    throw''', '''  if (!doc.save_file(fileName_.data(), indent, static_cast<uint32>(format),
                     static_cast<pugi::xml_encoding>(encoding)) && doc.empty()) {
    throw''')], PH + 'int main() { pugi::xml_document d; d.append_child("a"); try { XMLToFile(DEMO_TMP "/no/such/folder.xml", d); } catch (const es::FileInvalidAccessError &) { return 0; } return 1; }', 'a file that cannot be written', 'nobody is told', PX)
mk('p_enc', 'X02', [(P, '''  if (!doc.save_file(fileName_.data(), indent, static_cast<uint32>(format),
                     static_cast<pugi::xml_encoding>(encoding))) {''', '''  if (!doc.save_file(fileName_.data(), indent, static_cast<uint32>(format))) {''')], PH + 'int main() { pugi::xml_document d; d.append_child("a"); XMLToFile(DEMO_TMP "/a.xml", d, XMLFormatFlags(XMLFormatFlag::NoDeclaration, XMLFormatFlag::Raw), "", XMLEncoding::UTF16_LE); std::ifstream f(DEMO_TMP "/a.xml"); std::string s(std::istreambuf_iterator<char>(f), {}); return s.size() < 4 || s[1] != 0; }', 'an encoding', 'files are always written in UTF8', PX)
mk('p_partial', 'X02', [(P, '''  if (!result) {
    if (static_cast<XMLError>(result.status) == status_file_not_found) {''', '''  if (!result && !doc.document_element()) {
    if (static_cast<XMLError>(result.status) == status_file_not_found) {''')], PH + 'int main() { auto n = put("<a><b></a>"); try { XMLFromFile(n); } catch (const std::exception &) { return 0; } return 1; }', 'a broken document whose beginning is valid', 'the part before the error is returned as if it were all', PX)
mk('p_order', 'X02', [(P, '''  // Write every attribute on a new line with appropriate indentation. [Off]
  IndentAttributes,
''', ''), (P, '''  NoEmptyElementTaggs,
''', '''  NoEmptyElementTaggs,
  // Write every attribute on a new line with appropriate indentation. [Off]
  IndentAttributes,
''')], PH + 'int main() { pugi::xml_document d; d.append_child("a"); XMLToFile(DEMO_TMP "/a.xml", d, XMLFormatFlags(XMLFormatFlag::NoDeclaration, XMLFormatFlag::NoEmptyElementTaggs), "", XMLEncoding::UTF8); std::ifstream f(DEMO_TMP "/a.xml"); std::string s(std::istreambuf_iterator<char>(f), {}); return s.find("</a>") == std::string::npos; }', 'the flag NoEmptyElementTaggs', 'it means something else', PX)
mk('p_find', 'X02', [(P, 'if (childName.empty() || item.name() == childName) {', 'if (childName.empty() || es::string_view(item.name()).find(childName) == 0) {')], PH + 'int main() { pugi::xml_document d; d.append_child("a"); d.append_child("ab"); return XMLCollectChildren(d, "a").size() != 1; }', 'names that begin with another name', 'their elements are collected too', PX)
mk('p_status', 'X02', [(P, '''    // Error reading from file/stream
    status_io_error,
''', '''    // Error reading from file/stream
    status_io_error = 3,
''')], PH + 'int main() { auto n = put("<!-- nothing -->"); try { XMLFromFile(n); } catch (const es::InvalidHeaderError &) { return 0; } catch (const std::exception &e) { } return 1; }', 'a document without elements', 'the status is not recognized', PX)
