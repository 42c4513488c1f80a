from seed import *
H = 'MAXex/hk_preset.hpp'
D = '''#include <cstdio>
#include <cstring>
#include <string>
#include "datas/supercore.hpp"
struct Matrix3 { float r[4][3]; const float *operator[](int i) const { return r[i]; } };
namespace pugi { typedef char char_t; struct xml_attribute { bool set_value(const char *); }; struct xml_node { xml_attribute append_attribute(const char *); xml_node append_child(const char *); void append_buffer(const void *, size_t); }; }
#include "MAXex/hk_preset.hpp"
std::string out;
bool pugi::xml_attribute::set_value(const char *s) { out += std::string("=") + s; return true; }
pugi::xml_attribute pugi::xml_node::append_attribute(const char *s) { out += std::string("@") + s; return {}; }
pugi::xml_node pugi::xml_node::append_child(const char *s) { out += std::string("<") + s; return {}; }
void pugi::xml_node::append_buffer(const void *s, size_t n) { out += ":" + std::string((const char *)s, n); }
struct Settings { float objectScale; Matrix3 corMat; };
'''
mk('w_sign', 'W01', [(H, '        if (value[r][e] < 0.0f) {', '        if (value[r][e] <= -1.0f) {')],
   D + 'int main() { Matrix3 m = {{{0, -0.5f, 0}, {0.5f, 0, 0}, {0, 0, 0.5f}}}; return GetCorrectionMatrix(m) != "-YXZ"; }\n', 'axes shorter than 1', 'the sign of a negative axis is lost')
mk('w_zero', 'W01', [(H, '      if (value[r][e] != 0.0f) {\n        if (value[r][e] < 0.0f) {', '      if (value[r][e] != 0.0f || std::signbit(value[r][e])) {\n        if (std::signbit(value[r][e])) {'), (H, '#include <list>', '#include <cmath>\n#include <list>')],
   D + 'int main() { Matrix3 m = {{{-0.f, 1, 0}, {1, 0, -0.f}, {0, 0, 1}}}; return GetCorrectionMatrix(m) != "YXZ"; }\n', 'entries of negative zero', 'they are taken for negative axes')
mk('w_scale', 'W01', [(H, '"%.6g", cls.objectScale', '"%.5f", cls.objectScale')],
   D + 'int main() { Settings s = {1e-7f, {}}; SaveHKPreset(s, "n", {}, {}); return out.find("1e-07") == std::string::npos; }\n', 'a small scale', 'it is saved as zero')
mk('w_ext', 'W01', [(H, '  for (auto &e : extensions) {\n    exts.append_child(e.data());', '  for (auto &e : extensions) {\n    if (&e != &extensions.front() && e == extensions.front()) {\n      continue;\n    }\n    exts.append_child(e.data());')],
   D + 'int main() { Settings s = {1, {}}; SaveHKPreset(s, "n", {"a", "b", "a"}, {}); return out.find("<a<b<a") == std::string::npos; }\n', 'an extension that is listed again', 'it is left out')
