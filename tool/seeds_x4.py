from seed import mk
NS = 'MAXex/NodeSuffix.h'
HD = '''#include <cstdio>
#include <string>
#define ES_FORCEINLINE inline
#define ES_INLINE inline
#include "datas/supercore.hpp"
#include "datas/tchar.hpp"
#include "MAXex/NodeSuffix.h"
'''
mk('suf_color', 'W03', [(NS, '''		if (!color)
			push_back(0);

		push_back(-2);
		color = true;''', '''		if (!color)
			push_back(0);

		push_back(-2);
		color = !color;''')], HD + 'int main() { INodeSuffixer s; s.AddColor(); s.AddFullColor(); s.AddColor(); return s.Generate() != "[U-20]"; }\n', 'colors, full colors and colors again', 'channel 0 is listed twice')
mk('suf_sort', 'W03', [(NS, '			std::sort(begin(), end());\n', '			std::sort(begin(), end(), [](int a, int b) { return ToTSTRING(a) < ToTSTRING(b); });\n')],
   HD + 'int main() { INodeSuffixer s; s.AddChannel(10); s.AddChannel(9); return s.Generate() != "[U910]"; }\n', 'channels of ten and more', 'they are listed before lower ones')
