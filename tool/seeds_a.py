from seed import mk
mk('jen_signed','H01',[('datas/jenkinshash.hpp','const T cChar = static_cast<uint8>(c);','const T cChar = static_cast<T>(c);')],'#include "datas/jenkinshash.hpp"\nint main() { return JenHash(es::string_view("\\xc3\\xa9", 2)) != 0xdead && JenHashCannon(es::string_view("\\xff", 1)).raw() == JenHashCannon(es::string_view("\\x7f", 1)).raw() + 0 ? 1 : [] { unsigned long long r = 0; unsigned char d[2] = {0xc3, 0xa9}; for (auto c : d) { r += c; r += r << 10; r ^= r >> 6; r = (unsigned)r; } r += r << 3; r ^= r >> 11; r += r << 15; return (unsigned)r != JenHash(es::string_view("\\xc3\\xa9", 2)).raw(); }(); }','names with non ASCII bytes','bytes above 127 are sign extended')
mk('jen3_tail','H01',[('datas/jenkinshash3.hpp','''    lastTrip.b = JenMutateKey_(input, input.size() - lastKeys);
    lastKeys -= 4;
    lastTrip.c''','''    lastTrip.b = JenMutateKey_(input, input.size() - lastKeys + 4);
    lastKeys -= 4;
    lastTrip.c''')],'#include <algorithm>\n#include "datas/jenkinshash3.hpp"\nint main() { return JenHash3(es::string_view("abcdefghijkl")) == JenHash3(es::string_view("abcdEFGHijkl")); }','names of 9 to 12 characters past the last block','the middle word of the last block is hashed wrong') if 0 else None
mk('jen3_hi_byte','H01',[('datas/jenkinshash3.hpp','uint32 ck2 = offset >= input.size() ? 0 : static_cast<uint8>(input[offset++]);','uint32 ck2 = offset >= input.size() ? 0 : input[offset++];')],'#include <algorithm>\n#include "datas/jenkinshash3.hpp"\nint main() { return JenHash3(es::string_view("ab\\xe0z")) == JenHash3(es::string_view("ab\\xe0y")) || JenHash3(es::string_view("ab\\xe0" "1")) == JenHash3(es::string_view("ab\\xe0" "2")); }','names with a non ASCII third byte','characters after it are lost')
P='#include "datas/pointer.hpp"\nnamespace es { thread_local std::vector<void *> usedPts; }\n'
mk('ptr_unsigned','P01',[('datas/pointer.hpp','''  int32 varPtr;

public:
  operator C *() {
    return varPtr ?''','''  uint32 varPtr;

public:
  operator C *() {
    return varPtr ?''')],P+'int main() { int d[4]; auto *p = (es::PointerX86<int>*)(d + 3); *p = d; return (int*)*p != d; }','a target in front of the pointer','backward distances are zero extended')
mk('ptr_null_unregistered','P01',[('datas/pointer.hpp','''    usedPts.push_back(&varPtr);

    if (!pointer) {
      return false;
    }

    rawPtr''','''    if (!pointer) {
      return false;
    }

    usedPts.push_back(&varPtr);
    rawPtr''')],P+'int main() { union { esPointerX64<int> p; int *r; } u; u.r = nullptr; char b[64]; u.p.Fixup(b); u.r = (int*)b; if (u.p.Fixup(b)) return 1; return u.r != (int*)b; }','a null slot that is assigned after its fixup and fixed up again','a real address is rebased')
mk('alloc_leak','A01',[('datas/allocator_hybrid.hpp','    if (buffer == ptr) {','    if (ptr >= buffer) {')],'''#include "datas/allocator_hybrid.hpp"
#include <vector>
#include <cstdlib>
#include <new>
static int live; void *operator new(size_t n) { live++; return malloc(n); } void operator delete(void *p) noexcept { if (p) live--; free(p); } void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); }
int main() { { std::vector<char, es::allocator_hybrid<char>> v; v.resize(50); v.resize(500); } return live != 0; }''','a container that owns its storage','own storage is never freed')
mk('deleter_c_always','A01',[('datas/deleter_hybrid.hpp','''    if (canDelete)
      free(ptr);''','''    if (canDelete || !ptr)
      free(ptr);
    else
      free(nullptr), const_cast<bool &>(canDelete) = true;''')],'#include "datas/deleter_hybrid.hpp"\n#include <cstdlib>\nstatic int n; void *last; extern "C" void __libc_free(void *); extern "C" void free(void *p) noexcept { if (p && p == last) n++; }\nint main() { last = malloc(8); es::deleter_hybrid_c d(false); d(last); d(last); return n; }','a non-owning deleter used twice','the second use releases') 
