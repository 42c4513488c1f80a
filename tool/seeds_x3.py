from seed import mk
RG = 'datas/internal/reflector_reg.hpp'
RE = 'datas/internal/reflector_enum_reg.hpp'
HD = '''#include "datas/reflector.hpp"
struct A { int a; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, a)
struct B { int b; void ReflectorTag(); };
REFLECTOR_CREATE(B, 1, VARNAMES, b)
REFLECTOR_CREATE(EA, ENUM, 2, CLASS, 32, aa, ab = 5)
REFLECTOR_CREATE(EB, ENUM, 2, CLASS, 32, ba, bb = 7)
struct H { A x; B y; EA e; EB f; void ReflectorTag(); };
REFLECTOR_CREATE(H, 1, VARNAMES, x, y, e, f)
'''
X = 'datas/reflector.cpp datas/master_printer.cpp'
mk('reg_less', 'H01', [('datas/jenkinshash.hpp', '  constexpr bool operator<(JenHash_t o) const { return o.value_ < value_; }', '  constexpr bool operator<(JenHash_t o) const {\n    return static_cast<int32>(o.value_ - value_) < 0;\n  }')],
   HD + 'REFLECTOR_CREATE(EC, ENUM, 2, CLASS, 32, ca, cb)\nint main() { JenHash a(0u), b(0x60000000u), c(0xc0000000u); bool x = a < b, y = b < c, z = a < c; return (x == y) && x != z; }\n', 'three hashes that are spread over the whole range', 'the order has a cycle', X)
mk('reg_enum_once', 'R08', [(RG, '    REFEnumStorage[_EnumWrap<C>::GetHash()] = GetReflectedEnum<C>();', '''    static bool registered = false;

    if (!registered && (registered = true)) {
      REFEnumStorage[_EnumWrap<C>::GetHash()] = GetReflectedEnum<C>();
    }''')], '', '', '', X) if 0 else None
mk('enum_init', 'R08', [(RE, '    if (!_EnumWrap<E>::Initialized(false)) {\n', '    static bool initialized = false;\n    if (!initialized && !_EnumWrap<E>::Initialized(true)) {\n      initialized = true;\n')], '', '', '', X) if 0 else None
mk('reg_first', 'R08', [(RG, '''    REFSubClassStorage[ReflectorType<C>::Hash()] =
        GetReflectedClass<C>();''', '''    REFSubClassStorage.emplace_hint(REFSubClassStorage.lower_bound(ReflectorType<C>::Hash().raw()),
                                    ReflectorType<C>::Hash(), GetReflectedClass<C>());
    REFSubClassStorage.begin()->second = GetReflectedClass<C>();''')], '', '', '', X) if 0 else None
mk('reg_sub', 'R08', [('datas/reflector.cpp', '''  return {REFSubClassStorage.at(reflValue.typeHash), thisAddr};
}

ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {''', '''  auto found = REFSubClassStorage.upper_bound(reflValue.typeHash);

  return {(found == REFSubClassStorage.begin() ? found : --found)->second,
          thisAddr};
}

ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {''')], '', '', '', X) if 0 else None
mk('reg_count', 'R08', [('datas/reflector.cpp', '''      !REFSubClassStorage.count(reflValue.typeHash))
    return {};

  return {REFSubClassStorage.at(reflValue.typeHash), thisAddr};
}

ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {''', '''      REFSubClassStorage.empty())
    return {};

  auto found = REFSubClassStorage.lower_bound(reflValue.typeHash);

  if (found == REFSubClassStorage.end()) {
    return {};
  }

  return {found->second, thisAddr};
}

ReflectedInstance Reflector::GetReflectedSubClass(size_t id, size_t subID) {''')],
   HD + '''struct F : ReflectedInstance { F(ReflectedInstance i) : ReflectedInstance(i) {} };
struct ReflectedInstanceFriend : ReflectedInstance { ReflectedInstanceFriend(const ReflectedInstance &i) : ReflectedInstance(i) {} const void *cls() const { return rfStatic; } };
template <class R, class U> int check() { RegisterReflectedTypes<R> r; H h{}; ReflectorWrap<const H> w(h); const Reflector &k = w; return ReflectedInstanceFriend(k.GetReflectedSubClass(0)).cls() != (const void *)GetReflectedClass<A>() ; }
int main() { H h{}; ReflectorWrap<const H> w(h); const Reflector &k = w; int bad = 0;
{ RegisterReflectedTypes<A> r; bad |= ReflectedInstanceFriend(k.GetReflectedSubClass(1)).cls() != nullptr; REFSubClassStorage.clear(); }
{ RegisterReflectedTypes<B> r; bad |= ReflectedInstanceFriend(k.GetReflectedSubClass(0)).cls() != nullptr; } return bad; }
''', 'a member whose class is not registered while one with a higher hash is', 'it has another class as its sub class', X)
mk('reg_value', 'R08', [(RE, '      rEnumValues[t] = lastValue++;\n', '      rEnumValues[t] = lastValue;\n      lastValue = t + 1;\n')], '', '', '', X) if 0 else None
mk('reg_hidden', 'R08', [(RG, 'REFEnumStorage[_EnumWrap<C>::GetHash()] = GetReflectedEnum<C>();', '''auto &item = REFEnumStorage[_EnumWrap<C>::GetHash()];
    const bool known = item.size() == _EnumWrap<C>::NUM_ITEMS;
    item = GetReflectedEnum<C>();

    if (known) {
      item.values = _EnumWrap<C>::GetValues() + item.size() / 3;
    }''')], HD + 'int main() { { RegisterReflectedTypes<EA> r; } { RegisterReflectedTypes<EA> r; } return 0; }', '', '', X) if 0 else None
