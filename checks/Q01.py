"""Test macros: they pass exactly when the expectation holds, for operands of any form, and tell which failed."""
import ir
from refl import *
from drv import *
from textstream import Text, RIGTEXT

MIN = 200
OPS = {'TEST_EQUAL': '==', 'TEST_NOT_EQUAL': '!=', 'TEST_GT': '>', 'TEST_LT': '<', 'TEST_GT_EQ': '>=', 'TEST_LE_EQ': '<='}
TYPES = {'int32': 32, 'uint32': 32, 'int64': 64, 'uint8': 8, 'int16': 16, 'float': 'f32', 'double': 'f64'}
ONE = {'TEST_CHECK': '', 'TEST_NOT_CHECK': '!'}
PREDS = {'equal': 'a == b', 'or': 'a || b', 'and': 'a && b', 'choice': 'a ? b : c', 'bits': 'a & b', 'assigned': 'a = b', 'negated': '!a', 'plain': 'a', 'comma': '(a, b)', 'less': 'a < b'}
PAIRS = {'and': ('a & 3', 'b & 3'), 'or': ('a | b', 'b | c'), 'choice': ('a ? b : c', 'b'), 'second choice': ('a', 'b ? a : c'), 'compared': ('a < b', 'b < c'), 'sum': ('a + b', 'b - c'), 'shift': ('a << 1', 'b << 1'),
         'equal': ('a == b', 'b == c'), 'xor': ('a ^ b', 'c ^ a'), 'logic': ('a && b', 'b || c')}
THROWS = [('nothing', '', 1), ('that type', 'throw E1();', 0), ('a derived type', 'throw E2();', 0), ('another exception', 'throw E3();', 1), ('a number', 'throw 1;', 1), ('that type, then more', 'throw E1(); other();', 0),
          ('that type after more', 'other(); throw E1();', 0)]
SRC = PRE + RIGTEXT + r'''
#include <iosfwd>
#define stringstream RigText
#include "datas/supercore.hpp"
#include "datas/macroLoop.hpp"
#include "datas/master_printer.hpp"
#undef __clang__
#undef __GNUC__
#define __GNUC__ 9
#include "datas/unit_testing.hpp"
#undef stringstream
struct E1 { virtual ~E1() {} }; struct E2 : E1 {}; struct E3 { virtual ~E3() {} };
extern "C" { void said(const char *, int, int); int ev(int); int fa(int); int fb(); int fc(int, int); void other(); }
MasterPrinterThread::MasterPrinterThread() {}
void MasterPrinterThread::operator>>(int e) { { std::string t = _masterstream.str(); said(t.c_str(), e, int(cType)); } _masterstream.str(std::string()); cType = MPType::MSG; }
#define T(n, ...) int n { __VA_ARGS__ return 0; }
extern "C" {
'''
FNS = []        # (key, function, reference)


def fn(key, name, args, body, ref):
    global SRC
    SRC += 'T(q_%s(%s), %s)\nbool r_%s(%s) { return !(%s); }\n' % (name, args, body, name, args, ref)
    FNS.append((key, name, args, body))


for m, op in OPS.items():
    for t in TYPES:
        fn('%s of %s' % (m, t), '%s_%s' % (m, t), '%s a, %s b' % (t, t), '%s(a, b)' % m, 'a %s b' % op)
    for k, (x, y) in PAIRS.items():
        fn('%s of operands: %s' % (m, k), '%s_%s' % (m, k.replace(' ', '_')), 'int a, int b, int c', '%s(%s, %s)' % (m, x, y), '(%s) %s (%s)' % (x, op, y))
for m, op in ONE.items():
    for k, x in PREDS.items():
        fn('%s of a condition: %s' % (m, k), '%s_%s' % (m, k), 'int a, int b, int c', '%s(%s)' % (m, x), '%s(%s)' % (op, x))
LINES = {}
for m in OPS:
    SRC += 'T(ev_%s(), %s(ev(1), ev(2)))\n' % (m, m)
    SRC += 'T(msg_%s(int first, int second), %s(first, second))\n' % (m, m)
for m in ONE:
    SRC += 'T(ev_%s(), %s(ev(1)))\n' % (m, m)
    SRC += 'T(msg_%s(int first), %s(first))\n' % (m, m)
for k, (_, code, _) in enumerate(THROWS):
    SRC += 'T(throw_%d(), TEST_THROW(E1, %s))\n' % (k, code)
SRC += r'''
int cases(int r, int x, int y, int z) { TEST_CASES(r, TEST_FUNC(fa, x), TEST_FUNC(fb), TEST_FUNC(fc, y, z)); return r; }
int mixed(int r) { TEST_CASES(int q, TEST_FUNC(fb)); return q; }
}
'''
SIGN = {'TEST_EQUAL': (3, 4), 'TEST_NOT_EQUAL': (3, 3), 'TEST_GT': (3, 3), 'TEST_LT': (3, 3), 'TEST_GT_EQ': (3, 4), 'TEST_LE_EQ': (4, 3)}


def run(c):
    c.rule('Each macro is compiled with operands of many types and forms; the returned value as a function of all operands is compared with the negated expectation written with parentheses; evaluations, exceptions, '
           'counts and messages are followed as calls.')
    at = 'datas/unit_testing.hpp'
    mod = ir.unit(text=SRC, name='Q01', flags=['-fno-access-control'])
    seen = set()

    def rig(messages=True):
        s = S(mod)
        s.it.exceptions = True
        s.it.globals_initial = True
        s.it.record_access = True
        cstring_models(s)
        s.said = []
        A = lambda r, h: s.it.models.append((re.compile(r), h))
        A(r'^__cxa_(thread_)?atexit$', lambda it, dem, i, args, mem: s.const(0, 32))
        A(r'^std::ios_base::Init::', lambda it, dem, i, args, mem: None)
        A(r'^other$', lambda it, dem, i, args, mem: (None, mem))
        if messages:
            s.text = Text(s)

            def said(it, dem, i, args, mem):
                if it.cond:
                    raise prov.Unsupported('a message under an unknown condition')
                s.said.append((cstr(s, mem, it.ptr(args[0]), 4000), it.c.cval(args[1]), it.c.cval(args[2])))

            def number(it, dem, i, args, mem):
                q, x, v = s.text.get(it, mem, args[0], i)
                n = it.c.cval(args[1])
                if q is None or n is None:
                    return NotImplemented
                if n >> (len(args[1]) - 1) and 'unsigned' not in dem:
                    n -= 1 << len(args[1])
                s.text.add(it, mem, q, x, v, [tuple(s.c.cw(b, 8)) for b in b'%d' % n])
                return args[0]
            A(r'^said$', said)
            A(r'^std::(ostream|basic_ostream<.*>)::(operator<<\((int|long|unsigned int|unsigned long|short|unsigned short)\)|_M_insert<(long|unsigned long|long long|unsigned long long)>)', number)
            for n in mod.ctors():
                s.run(n, [])
                s.mem = s.out.copy()
        return s
    for key, name, args, body in FNS:
        with c.part(key):
            s = rig(False)
            # what is printed does not matter here
            s.it.models.insert(0, (re.compile(r'MasterPrinterThread|std::|PrintCheckFailed'), lambda it, dem, i, args, mem: (it.opaque(i['t'], 'out', it.freshname('o')) if i['t'][0] in 'ip' else None, mem)))
            a = [s.arg(x.split()[1], TYPES[x.split()[0]]) if isinstance(TYPES.get(x.split()[0], 32), int) else s.c.inp(x.split()[1], int(TYPES[x.split()[0]][1:])) for x in (y.strip().replace('int ', 'int32 ') if y.strip().startswith('int ') else y.strip() for y in args.split(','))]
            m, r = s.run('q_' + name, a)
            seen.update(s.it.visited)
            m2, w = s.run('r_' + name, a)
            # 0 or 1
            ok = m is not None and m2 is not None and not s.it.thrown
            if ok:
                fail = 0
                for b in r:
                    fail = s.c.OR(fail, b)
                ok = s.cmp([fail], [w[0]])[0]
            c.ob(key, ok, '%s fails in other cases than when it does not hold' % body, at)
    for m in list(OPS) + list(ONE):
        one = m in ONE
        with c.part(m + ' evaluation'):
            s = rig(False)
            s.it.models.insert(0, (re.compile(r'MasterPrinterThread|std::|PrintCheckFailed'), lambda it, dem, i, args, mem: (it.opaque(i['t'], 'out', it.freshname('o')) if i['t'][0] in 'ip' else None, mem)))
            calls = []

            def ev(it, dem, i, args, mem):
                calls.append((it.c.cval(args[0]), tuple(it.cond)))
                return it.c.inp('ev%d' % (it.c.cval(args[0])), 32), mem
            s.it.models.append((re.compile(r'^ev$'), ev))
            mm, r = s.run('ev_' + m, [])
            for k in (1,) if one else (1, 2):
                at_pass = [cd for n, cd in calls if n == k and not cd]
                c.ob('%s evaluates operand %d once if it passes' % (m, k), len(at_pass) == 1, '%d times' % len(at_pass), at)
        for good in (1, 0):
            with c.part('%s message %d' % (m, good)):
                s = rig()
                a, b = SIGN.get(m, (0, 0))
                if one:
                    a = 1 if (m == 'TEST_CHECK') == bool(good) else 0
                elif good:
                    a, b = {'TEST_EQUAL': (3, 3), 'TEST_NOT_EQUAL': (3, 4), 'TEST_GT': (4, 3), 'TEST_LT': (3, 4), 'TEST_GT_EQ': (3, 3), 'TEST_LE_EQ': (3, 3)}[m]
                mm, r = s.run('msg_' + m, [s.const(a, 32)] + ([] if one else [s.const(b, 32)]))
                seen.update(s.it.visited)
                if good:
                    c.ob('%s that holds: returns nothing and says nothing' % m, mm is not None and s.said == [], '%s' % s.said, at)
                    continue
                c.ob('%s that does not hold: says so once' % m, mm is not None and len(s.said) == 1, '%d messages' % len(s.said), at)
                if len(s.said) == 1:
                    t, end, kind = s.said[0]
                    c.ob('%s that does not hold: is an error on a line of its own' % m, end == 1 and kind == 2, '%s, %s' % (end, kind), at)
                    f = mod_line('msg_' + m)
                    c.ob('%s that does not hold: tells where' % m, bool(t) and f in t, '%r' % t, at)
                    if not one:
                        c.ob('%s that does not hold: tells the values' % m, bool(re.search(r'\b%d\W+%d\b' % (a, b), (t or '').split('second')[-1])), '%r' % t, at)
                    c.ob('%s that does not hold: tells what' % m, bool(t) and bool(re.search('first' if one else r'first\W+second', t)), '%r' % t, at)
    for k, (what, code, want) in enumerate(THROWS):
        key = 'TEST_THROW of ' + what
        with c.part(key):
            s = rig()
            mm, r = s.run('throw_%d' % k, [])
            seen.update(s.it.visited)
            v = s.c.cval(r) if mm is not None else None
            c.ob(key, v is not None and (v != 0) == bool(want) and not s.it.thrown, 'returns %s' % v, at)
            c.ob(key + ': %s' % ('one error' if want else 'no message'), [x[2] for x in s.said] == [2] * want, '%s' % s.said, at)
    for vals in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 0, 3)]:
        key = 'cases that return %s' % (vals,)
        with c.part(key):
            s = rig()
            calls = []

            def case(it, dem, i, args, mem):
                if it.cond:
                    raise prov.Unsupported('a case under an unknown condition')
                calls.append((dem, args))
                return it.c.cw(vals['abc'.index(dem[1])], 32), mem
            s.it.models.append((re.compile(r'^f[abc]$'), case))
            x = [s.arg('a%d' % n, 32) for n in range(3)]
            mm, r = s.run('cases', [s.const(77, 32)] + x)
            seen.update(s.it.visited)
            c.ob(key + ': their sum is the result', mm is not None and s.c.cval(r) == sum(vals), '%s' % (r and s.c.cval(r)), at)
            c.ob(key + ': run once, in order, with their arguments', calls == [('fa', [x[0]]), ('fb', []), ('fc', x[1:])], '%s' % [d for d, _ in calls], at)
            err = [t for t, _, kd in s.said if kd == 2]
            want = ['f' + n for n, v in zip('abc', vals) if v]
            c.ob(key + ': each failed one is named', len(err) == len(want) and all(w in t for w, t in zip(want, err)), '%s' % err, at)
            if max(vals) < 2:
                end = [t for t, _, kd in s.said if kd == 0]
                c.ob(key + ': numbers are told', len(end) == 2 and re.findall(r'\d+', end[0]) == ['3'] and re.findall(r'\d+', end[1]) == [str(3 - sum(vals)), '3'], '%s' % end, at)
    c.unit('test macros', mod, seen)


def mod_line(fn):
    """what tells the place of a macro: its line"""
    for n, l in enumerate(SRC.split('\n')):
        if l.startswith('T(%s(' % fn):
            return '%d' % (n + 1)
