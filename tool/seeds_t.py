from seed import mk
Q='#include "datas/multi_thread.hpp"\n#include <atomic>\n#include <cstdlib>\n#include <unistd.h>\n'
mk('mt_min','T01',[('datas/multi_thread.hpp','const size_t numThreads = std::min(numHWThreads, numTasks);','const size_t numThreads = std::max(size_t(1), std::min(numHWThreads, numTasks));')],Q+'int main() { std::atomic<int> n{0}; RunThreadedQueue(0, [&](size_t) { n++; }); return n != 0; }','an empty queue','a task runs that does not exist')
mk('mt_uint8','T01',[('datas/multi_thread.hpp','  size_t curTask = 0;\n','  uint8_t curTask = 0;\n')],Q+'int main() { alarm(5); std::atomic<int> n{0}; RunThreadedQueue(300, [&](size_t) { if (++n > 300) _exit(1); }); return n != 300; }','more than 255 tasks','the first tasks run again and again')
P = 'datas/master_printer.cpp'
H = r'''
#include "datas/master_printer.hpp"
#include <string>
#include <thread>
#include <cstdio>
static std::string A, B;
static void fa(const char *c) { A += c; }
static void fb(const char *c) { B += c; }
'''
SRCS = P
mk('mp_static', 'T02', [('datas/master_printer.hpp', 'thread_local static class', 'static class')], H + r'''
int main() { printer.AddPrinterFunction(fa, false); printer << "one "; std::thread t([] { printline("other"); }); t.join(); printline("two");
  if (A != "other\none two\n") { printf("%s", A.c_str()); return 1; } }
''', 'a thread that prints while another one collects a message', 'messages of several threads mix, and the streams race', SRCS)
mk('mp_longcut', 'T02', [(P, 'static_cast<size_t>(_masterstream.tellp()) + 1;', 'static_cast<size_t>(_masterstream.tellp()) + 1 > 4096 ? 4096 : static_cast<size_t>(_masterstream.tellp()) + 1;')], H + r'''
int main() { printer.AddPrinterFunction(fa, false); std::string s(6000, 'x'); printline(s.c_str()); printline("y"); return A != s + "\ny\n"; }
''', 'a message longer than 4 KiB', 'the end of the message is lost', SRCS)
mk('mp_dup', 'T02', [(P, '    if (c.func == func)', '    if (c.func == func && c.useColor == useColor)')], H + r'''
int main() { printer.AddPrinterFunction(fa, false); printer.AddPrinterFunction(fb); printer.AddPrinterFunction(fa, true); printline("y"); return A != "y\n" || B != "y\n"; }
''', 'a function added twice with different color settings', 'it gets every message twice', SRCS)
mk('mp_type', 'T02', [(P, '    if (fc.useColor && cType != MPType::MSG)\n      RestoreConsoleTextColor();\n  }\n\n  cType = MPType::MSG;\n', '    if (fc.useColor && cType != MPType::MSG)\n      RestoreConsoleTextColor();\n\n    cType = MPType::MSG;\n  }\n')], H + r'''
int main() { printer.AddPrinterFunction(fa, false); printer.AddPrinterFunction(fb, false); printwarning("y"); return A != "WARNING: y\n" || B != "WARNING: y\n"; }
''', 'two functions and a warning', 'only the first function gets the prefix', SRCS)
