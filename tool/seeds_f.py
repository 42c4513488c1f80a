from seed import mk
F='datas/float.hpp'; U='uni/internal/format_full.hpp'
H='#include "datas/float.hpp"\n#include <cmath>\n#include <cstring>\nstatic float fb(uint32 i) { float f; memcpy(&f, &i, 4); return f; }\n'
mk('float_neg_zero','F01',[(F,'if (_sign && cvted & 0x80000000) {','if (_sign && input < 0) {')],H+'int main() { return float16::FromFloat(fb(0x80000000)) != 0x8000 || float16::FromFloat(fb(0xffc00000)) >> 15 != 1; }','a negative zero or NaN','encoding drops the sign of -0')
mk('float_vec_denorm_exp','F01',[(F,'_mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));\n','_mm_cmpeq_epi32((value & (EXPONENT_MASK | SIGN_MASK))._data, IVector4A16()._data));\n')],H+'int main() { Vector4A16 r = float16::ToVector4(IVector4A16(0x8001, 1, 0x8000, 0)); return !(r.X == -r.Y && r.Y > 0 && r.Y < 1e-6f && r.Z == 0 && std::signbit(r.Z)); }','negative denormals in the vector decoder','negative denormals decode as normals')
HU='#include "uni/format.hpp"\n#include <cmath>\nusing namespace uni;\n'
X='/repo/uni/uni_format.cpp'
mk('fmt_sample_shrink','U01',[(U,'  if (count) {\n    out.resize','  if (count > out.size()) {\n    out.resize')],HU+'int main() { FormatCodec::ivec v(3); unsigned char d[4] = {1,2,3,4}; FormatCodec::Get({FormatType::UINT, DataType::R8}).Sample(v, (const char*)d, 1); return v.size() != 1; }','sampling fewer elements than the vector already holds','a smaller count does not shrink the output and input is over-read',X)
mk('fmt_descr_eq','U01',[('uni/format.hpp','''    return reinterpret_cast<const uint32 &>(input) ==
           reinterpret_cast<const uint32 &>(*this);''','''    return reinterpret_cast<const uint16 &>(input) ==
           reinterpret_cast<const uint16 &>(*this);''')],HU+'int main() { FormatDescr a{FormatType::INT, DataType::R8}, b{FormatType::INT, DataType::R16}; return a == b; }','descriptors that differ in the layout only','descriptor equality ignores the data layout',X)
