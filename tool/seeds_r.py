from seed import mk
H='''#include <limits>
#include <cstring>
#include "datas/flags.hpp"
#include "datas/bitfield.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector.cpp"
#include "datas/master_printer.cpp"
'''
R='datas/internal/reflector_type.hpp'
mk('r_items8','R01',[(R,'static constexpr REFType SUBTYPE = _getType<C>::TYPE;\n  static constexpr uint16 NUMITEMS = _Size;','static constexpr REFType SUBTYPE = _getType<C>::TYPE;\n  static constexpr uint16 NUMITEMS = _Size & 0xff ? _Size & 0xff : _Size;')],
 H+'''struct A { int a[300]; int b; };
REFLECTOR_CREATE(A, 1, VARNAMES, a, b)
int main() { A x{}; ReflectorWrap<A> w(x); return w.SetReflectedValueInt((size_t)0, 5, 280) != Reflector::ErrorType::None || x.a[280] != 5; }''',
 'an array member with more than 255 elements','elements beyond the count modulo 256 are unreachable by reflection')
mk('r_offset15','R01',[(R,'static_cast<decltype(reflType::offset)>(offset),','static_cast<decltype(reflType::offset)>(offset & 0x7fff),')],
 H+'''struct A { uint8 pad[40000]; int b; };
REFLECTOR_CREATE(A, 1, VARNAMES, pad, b)
int main() { static A x{}; ReflectorWrap<A> w(x); return w.SetReflectedValueInt((size_t)1, 5) != Reflector::ErrorType::None || x.b != 5; }''',
 'a member located 32 KiB or more into its class','the wrong place of the object is addressed')
mk('r_uint8idx','R02',[('datas/reflector.cpp','''  if (cType != REFType::UnsignedInteger)
    return Reflector::ErrorType::InvalidDestination;

  memcpy(thisAddr, &value, reflValue.subSize);''','''  if (cType != REFType::UnsignedInteger)
    return Reflector::ErrorType::InvalidDestination;

  if (reflValue.subSize == 4)
    reinterpret_cast<int64 &>(*thisAddr) = value;
  else
    memcpy(thisAddr, &value, reflValue.subSize);''')],
 H+'''struct A { uint32 a; uint32 b; };
REFLECTOR_CREATE(A, 1, VARNAMES, a, b)
int main() { A x{1, 2}; ReflectorWrap<A> w(x); w.SetReflectedValueUInt((size_t)0, 5); return x.a != 5 || x.b != 2; }''',
 'a 32 bit member followed by another member','the member after it is overwritten')
mk('r_floatrange','R02',[('datas/reflector.cpp','''  case 4:
    reinterpret_cast<float &>(*thisAddr) = static_cast<float>(value);
    return Reflector::ErrorType::None;
  case 8:
    reinterpret_cast<double &>(*thisAddr) = value;''','''  case 4:
    reinterpret_cast<float &>(*thisAddr) = static_cast<float>(value);
    return Reflector::ErrorType::None;
  case 8:
    if (subID)
      thisAddr -= subID * (reflValue.subSize - sizeof(float));
    reinterpret_cast<double &>(*thisAddr) = value;''')],
 H+'''struct A { double a[3]; };
REFLECTOR_CREATE(A, 1, VARNAMES, a)
int main() { A x{}; x.a[0] = 1; ReflectorWrap<A> w(x); w.SetReflectedValueFloat((size_t)0, 5, 1); return x.a[1] != 5 || x.a[0] != 1; }''',
 'a double array element other than the first','the value lands between two elements')
C='datas/reflector.cpp'
mk('r_flag32','R03',[(C,'fallbackValue |= 1ULL << cValue;','fallbackValue |= static_cast<uint64>(1U << (cValue % 32)) << (cValue / 32 * 32 % 32);')],
 H+'''REFLECTOR_CREATE(EF, ENUM, 2, CLASS, 8, fa, fb = 40)
struct A { es::Flags<EF, uint64> a; };
REFLECTOR_CREATE(A, 1, VARNAMES, a)
int main() { RegisterReflectedTypes<EF> r; A x{}; ReflectorWrap<A> w(x); w.SetReflectedValue((size_t)0, "fa | fb"); return !(x.a[EF::fb] && x.a[EF::fa] && !x.a[(EF)8]); }''',
 'a flag with an index of 32 or more set by its name','another flag is set')
mk('r_vecelem','R03',[(C,'thisAddr += dec.size * element;\n    type.type = dec.type;','thisAddr += (dec.size > 4 ? 4 : dec.size) * element;\n    type.type = dec.type;')],
 H+'''struct A { t_Vector2<double> a[2]; };
REFLECTOR_CREATE(A, 1, VARNAMES, a)
int main() { A x{}; ReflectorWrap<A> w(x); w.SetReflectedValue((size_t)0, "2.5", 1, 1); return x.a[1].Y != 2.5 || x.a[1].X != 0; }''',
 'an element of a vector of 64 bit numbers','the number lands between two elements')
mk('r_bitget','R04',[(C,'''    bfMember.size = type.subSize;
    bfMember.position = type.offset;
    auto mask = bfMember.GetMask<uint64>();
    output =''','''    bfMember.size = type.subSize > 31 ? 31 : type.subSize;
    bfMember.position = type.offset;
    auto mask = bfMember.GetMask<uint64>();
    output =''')],
 H+'''using m0 = BitMemberDecl<0, 5>; using m1 = BitMemberDecl<1, 32>;
using A = BitFieldType<uint64, m0, m1>;
REFLECTOR_CREATE(A, BITFIELD, 1, VARNAMES, m0, m1)
int main() { A x{}; x.Set<m1>(3000000000); ReflectorWrap<A> w(x); return w.GetReflectedValue((size_t)1) != "3000000000"; }''',
 'a bit field member of 32 or more bits with its highest bit set','the highest bit is printed as zero')
mk('r_vecget','R04',[(C,'''    return GetReflectedPrimitive(objAddr + reflValue.subSize * subID +''','''    return GetReflectedPrimitive(objAddr + static_cast<uint8>(reflValue.subSize * subID) +''')],
 H+'''struct A { Vector4A16 a[20]; };
REFLECTOR_CREATE(A, 1, VARNAMES, a)
int main() { A x{}; x.a[17].Y = 4; ReflectorWrap<A> w(x); return w.GetReflectedValue((size_t)0, 17, 1) != "4"; }''',
 'a component of an array element 256 bytes or more into the array','another element is printed')
mk('r_subidx','R05',[(C,'''ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {
  if (id >= GetNumReflectedValues())
    return {};
''','''ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {
  if (id >= GetNumReflectedValues())
    return {};

  subID = static_cast<uint16>(subID);
''')],
 H+'''struct S { int a; void ReflectorTag(); };
REFLECTOR_CREATE(S, 1, VARNAMES, a)
struct A { S s[3]; };
REFLECTOR_CREATE(A, 1, VARNAMES, s)
int main() { RegisterReflectedTypes<S> r; A x{}; ReflectorWrap<A> w(x); Reflector &rf = w;
  auto i = rf.GetReflectedSubClass((size_t)0, 65537); void *p[2]; memcpy(p, &i, 16); return p[0] || p[1]; }''',
 'an element index of 65536 or more','an element past the end yields another element instead of nothing')
mk('r_issub','R05',[('datas/internal/reflector.inl','''         (IsArray(fl.ID) && (fl.subType == REFType::Class ||
                             fl.subType == REFType::BitFieldClass));''','''         (IsArray(fl.ID) && fl.subType == REFType::Class);''')],
 H+'''using m0 = BitMemberDecl<0, 5>; using m1 = BitMemberDecl<1, 3>;
using B = BitFieldType<uint8, m0, m1>;
REFLECTOR_CREATE(B, BITFIELD, 1, VARNAMES, m0, m1)
struct A { B s[3]; };
REFLECTOR_CREATE(A, 1, VARNAMES, s)
int main() { A x{}; ReflectorWrap<A> w(x); return !w.IsReflectedSubClass((size_t)0); }''',
 'an array of bit fields','it is not reported as sub class, though it is one')
I='datas/reflector_io.cpp'
HI=H.replace('#include "datas/master_printer.cpp"','''#include <sstream>
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/reflector_io.cpp"
#include "datas/master_printer.cpp"''')
mk('rio_vecsub','R06',[(I,'''      subType.subType = dec.type;
      subType.numItems = dec.numItems;
      subType.subSize = dec.size;
    }

    for (uint32 i = 0; i < type.numItems; i++) {
      if (subType.type != REFType::Vector)
        subType.numItems = static_cast<uint16>(i);

      if (LoadDataItem(''','''      subType.subType = dec.type;
      subType.numItems = dec.numItems & 3 ? dec.numItems : 4;
      subType.subSize = dec.size & 4 ? 4 : dec.size;
    }

    for (uint32 i = 0; i < type.numItems; i++) {
      if (subType.type != REFType::Vector)
        subType.numItems = static_cast<uint8>(i);

      if (LoadDataItem(''')],
 HI+'''struct S { int a; void ReflectorTag(); };
REFLECTOR_CREATE(S, 1, VARNAMES, a)
struct A { S s[300]; };
REFLECTOR_CREATE(A, 1, VARNAMES, s)
int main() { RegisterReflectedTypes<S> r; A x{}, y{}; x.s[270].a = 5; ReflectorWrap<A> w(x), v(y); std::stringstream s; ReflectorBinUtil::Save(w, BinWritterRef(s)); ReflectorBinUtil::Load(v, BinReaderRef(s)); return y.s[270].a != 5; }''',
 'an array of more than 256 sub classes','elements from 256 on are loaded over the first ones')
mk('rio_skipchunk','R06',[(I,'''    if (!cType) {
      rd.Pop();
      rd.Skip(valueChunkSize);
      continue;
    }''','''    if (!cType) {
      rd.Skip(static_cast<uint8>(valueChunkSize));
      continue;
    }''')],
 HI+'''struct A { char t[4]; int8 big[300]; int b; };
namespace x { struct B { char t[4]; int8 other[300]; int b; }; }
REFLECTOR_CREATE(A, 1, VARNAMES, big, b)
REFLECTOR_CREATE(x::B, 1, VARNAMES, other, b)
int main() { x::B x{}; A y{}; x.b = 77; ReflectorWrap<x::B> w(x); ReflectorWrap<A> v(y); std::stringstream s; ReflectorBinUtil::Save(w, BinWritterRef(s));
 uint32 h = JenHash("A").raw(); std::string t = s.str(); memcpy(&t[0], &h, 4); std::stringstream u(t); ReflectorBinUtil::Load(v, BinReaderRef(u)); return y.b != 77; }''',
 'a stored member of 256 bytes or more that the class does not have','the rest of the stream is read from the wrong place')
mk('rio_ver','R07',[(I,'''  if (hdr.version > hdr.VERSION)''','''  if (static_cast<int32>(hdr.version - hdr.VERSION) > 0)''')],
 HI+'''int main() { ReflectorIO r; std::string b("RFDB"); uint32 h[7]{0xf0000000}; b.append((char*)h, 28); std::stringstream s(b); return r.Load(BinReaderRef(s)) != 2; }''',
 'a file of a version above 2^31','it is accepted and read as the current version')
mk('rio_enumval','R07',[(I,'''      wr.Write(e.values[v]);''','''      wr.Write(e.values[v] & ~(1ULL << 63));''')],
 HI+'''#include <fstream>
REFLECTOR_CREATE(EV, ENUM, 2, CLASS, 64, fa, fb = 0x8000000000000001)
int main() { { std::fstream f("t.io", std::ios::out | std::ios::binary); ReflectorIO r; r.AddEnum<EV>(); r.Save(BinWritterRef(f)); }
 std::ifstream f("t.io", std::ios::binary); ReflectorIO r; r.Load(BinReaderRef(f)); return r.Enums().size() != 1 || r.Enums()[0].values[1] != 0x8000000000000001; }''',
 'an enumerator of 2^63 or more','its value is another one after loading')
