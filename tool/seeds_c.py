from seed import mk
D2 = '''
#include "%s"
int main() { return 0; }
'''
mk('c_inline', 'C01', [('formats/addr_ps3.hpp', 'inline size_t MortonAddr', 'size_t MortonAddr')], '#include "formats/addr_ps3.hpp"\nint main() { return 0; }', 'two sources that include the header', 'the program does not link', '"$d/other.cpp"')
mk('c_guard', 'C01', [('uni/rts.hpp', '#pragma once\n', '')], '#include "uni/motion.hpp"\n#include "uni/rts.hpp"\n#include "uni/rts.hpp"\nint main() { uni::RTSValue v; return 0; }', 'a header included by two ways', 'the type is defined twice')
mk('c_alone', 'C01', [('uni/list_vector.hpp', '#include "list.hpp"\n', '')], '#include "uni/list_vector.hpp"\nint main() { return sizeof(uni::VectorList<int, int> *) == 1; }', 'the header before every other', 'it does not compile')
mk('c_undef', 'C01', [('datas/encrypt/blowfish.cpp', 'void BlowfishEncoder2::SetKey(', 'inline void BlowfishEncoder2::SetKey(')], '#include "datas/encrypt/blowfish2.h"\nint main() { BlowfishEncoder2 e; e.SetKey("abc", 3); return 0; }', 'a use of the function from another source', 'it is not defined there', '/repo/datas/encrypt/blowfish.cpp')
import glob, os
open('../seeded/c_inline/other.cpp', 'w').write('#include "formats/addr_ps3.hpp"\n')
for f in ('inline', 'guard', 'alone', 'undef'):
    f = '../seeded/c_%s/demo.sh' % f
    t = open(f).read().replace('|| exit 3', '|| exit 1')
    open(f, 'w').write(t)
