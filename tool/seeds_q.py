from seed import *
M = 'datas/macroLoop.hpp'
HEAD = '#include "datas/macroLoop.hpp"\n#include <cstdio>\n'
L = lambda n: ', '.join(str(k * 3 + 1) for k in range(n))
mk('l_for', 'L01', [(M, '#define _StaticFor_ADD57(eval, first,...) eval(first) VA_NARGS_EVAL(_StaticFor_ADD56(eval, __VA_ARGS__))', '#define _StaticFor_ADD57(eval, first,...) eval(first) VA_NARGS_EVAL(_StaticFor_ADD55(eval, __VA_ARGS__))')],
   HEAD + '#define EV(x) x,\nstatic const int a[] = {StaticFor(EV, %s)};\nint main() { return sizeof(a) / sizeof(int) != 60; }\n' % L(60), '57 arguments and more', 'the last one is left out')
mk('l_id', 'L01', [(M, '#define _StaticForArgID_ADD48(eval, classname, _id, first,...) eval(classname, _id, first) VA_NARGS_EVAL(_StaticForArgID_ADD47(eval, classname, VA_NARGS_EVAL(_id + 1), __VA_ARGS__))',
                      '#define _StaticForArgID_ADD48(eval, classname, _id, first,...) eval(classname, _id, first) VA_NARGS_EVAL(_StaticForArgID_ADD47(eval, classname, VA_NARGS_EVAL(_id), __VA_ARGS__))')],
   HEAD + '#define EV(c, i, x) i,\nstatic const int a[] = {StaticForArgID(EV, int, %s)};\nint main() { for (int k = 0; k < 48; k++) if (a[k] != k) return 1; return 0; }\n' % L(48), '48 members and more', 'two members have the same index, and the following are one too low')
S = 'datas/vectors_stream.hpp'
VH = '#include "datas/vectors_stream.hpp"\n#include <sstream>\nint main() { std::stringstream s; '
mk('v_prec', 'V03', [(S, 'return strm << v.X << " " << v.Y << " " << v.Z;', 'return strm << static_cast<float>(v.X) << " " << static_cast<float>(v.Y) << " "\n              << static_cast<float>(v.Z);')],
   VH + 's << t_Vector<int>(1, 2, 33554433); return s.str() != "1 2 33554433"; }\n', 'integers beyond 2^24', 'another number is printed')
mk('v_w', 'V03', [(S, 'return strm << v.X << " " << v.Y << " " << v.Z << " " << v.W;', 'strm << v.X << " " << v.Y << " " << v.Z;\n  if (!(v.W == 1)) {\n    strm << " " << v.W;\n  }\n  return strm;')],
   VH + 's << Vector4(1, 2, 3, 1) << ";"; return s.str() != "1 2 3 1;"; }\n', 'a fourth component of 1', 'it is not printed')
mk('v_sep', 'V03', [(S, 'return strm << v.X << " " << v.Y;', "return strm << v.X + ' ' + v.Y;")],
   VH + 's << UCVector2(\'a\', \'b\'); return s.str() != "a b"; }\n', 'a vector of characters', 'a sum is printed')
U = 'datas/unit_testing.hpp'
UH = '#include "datas/unit_testing.hpp"\n#include "datas/master_printer.hpp"\n#include <stdexcept>\n#include <string>\n'
PR = '/repo/datas/master_printer.cpp'
mk('q_sum', 'Q01', [(U, '_tstVal += _tstValLoc;', '_tstVal = _tstValLoc;')],
   UH + 'int good() { return 0; } int bad() { return 1; }\nint main() { int r = 0; TEST_CASES(r, TEST_FUNC(bad), TEST_FUNC(good)); return r != 1; }\n', 'a case that passes after one that fails', 'the failure is forgotten', PR)
mk('q_throw', 'Q01', [(U, '''    } catch (what &) {                                                         \\
      thrown = true;                                                           \\
    } catch (...) {                                                            \\
      printerror("Unhandled exception " << __FILE__ << '(' << __LINE__         \\
                                        << "): Expected " << #what);           \\
      return 1;                                                                \\
''', '''    } catch (const std::exception &) {                                         \\
      thrown = true;                                                           \\
    } catch (...) {                                                            \\
      printerror("Unhandled exception " << __FILE__ << '(' << __LINE__         \\
                                        << "): Expected " << #what);           \\
      return 1;                                                                \\
''')],
   UH + 'int test() { TEST_THROW(std::out_of_range, throw std::runtime_error("other");) return 0; }\nint main() { return test() != 1; }\n', 'another exception than the expected one', 'the test passes', PR)
mk('q_line', 'Q01', [(U, '''"): " << aName << op                             \\
'''.replace(' '*29 + '\\', ''), '''"): " << bName << op
''')] if 0 else [(U, '<< "): " << aName << op\n', '<< "): " << bName << op\n')],
   UH + '''std::string out; 
void add(const char *m) { out += m; }
int test() { int first = 1, second = 2; TEST_EQUAL(first, second) return 0; }
int main() { printer.AddPrinterFunction(add); test(); return out.find("first != second") == std::string::npos; }
''', 'a check that fails', 'the message names the same operand twice', PR)
