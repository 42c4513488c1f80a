"""Settings: help and log name every setting of every class, with descriptions, values and nested classes."""
import ir
from refl import *
from drv import *
from textstream import Text, RIGTEXT

MIN = 40
LOG = {'L0': [('a', None, 's', 4), ('b', None, 'u', 1), ('f', None, 'f', 4)],
       'L1': [('a', None, 's', 2), ('ali', 'other name', 'u', 4), ('des', None, 'f', 8), ('yes', 'alias2', 'bool', 1), ('e', None, 'E8', 1)], 'L2': [('only', None, 'u', 8)]}
LOGS = list(LOG)
# class -> (members: (name, alias, description, kind, of))
CLASSES_ = {
    'H0': [('a', None, None, None, None), ('second', None, None, None, None)],
    'H1': [('plain', None, None, None, None), ('ali', 'other name', None, None, None), ('des', None, 'described', None, None), ('both', 'alias2', 'only first', None, None), ('none', None, None, None, None)],
    'H2': [('e', None, None, 'enum', 'E8'), ('h1', None, None, 'class', 'H1n'), ('after', None, None, None, None)],
    'H3': [('arr', None, 'an array', 'class', 'H1n'), ('deep', None, None, 'class', 'Mid'), ('e', 'enum alias', 'an enum', 'enum', 'E16'), ('std', None, None, 'class', 'H0n'), ('bits', None, None, 'class', 'B16'),
           ('v', None, 'a vector', None, None), ('t', None, None, None, None), ('ai', None, None, None, None), ('bitsa', None, None, 'class', 'B16')],
    'H4': [],
    'H1n': [('x', None, 'the x', None, None), ('y', 'why', None, None, None)],
    'H0n': [('n0', None, None, None, None)],
    'Mid': [('m0', None, 'mid', None, None), ('leaf', None, 'inner class', 'class', 'H0n'), ('me', None, None, 'enum', 'E8')],
    'B16': [('bf0', None, None, None, None), ('bf1', None, None, None, None), ('bf2', None, None, None, None), ('bf3', None, None, None, None)],
}
ENUMS_ = {'E8': ['e8a', 'e8b', 'e8c', 'e8d'], 'E16': ['e16a', 'e16b']}
HELP = ['H0', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6', 'H7']
CLASSES_['H6'] = [('', None, None, None, None), ('', None, None, 'class', 'Z0'), ('', None, None, 'enum', 'E8')]
CLASSES_['Z0'] = [('', None, None, None, None)]
CLASSES_['H7'] = [('first', None, None, None, None), ('z', None, 'without names', 'class', 'Z0'), ('last', None, None, None, None)]
CLASSES_['H5'] = CLASSES_['H1'][:3]
SRC = PRE + HEAD + QUIET + RIGTEXT + r'''
#include <ctime>
#include <chrono>
#include <fstream>
#include <iostream>
#include <locale>
#include <thread>
#define ofstream RigText
#include "datas/settings_manager.hpp"
#undef ofstream
struct H1n { int32 x; float y; void ReflectorTag(); };
REFLECTOR_CREATE(H1n, 1, EXTENDED, (D, x, "the x"), (A, y, "why"))
struct H0n { uint16 n0; void ReflectorTag(); };
REFLECTOR_CREATE(H0n, 1, VARNAMES, n0)
struct Mid { int8 m0; H0n leaf; E8 me; void ReflectorTag(); };
REFLECTOR_CREATE(Mid, 1, EXTENDED, (D, m0, "mid"), (D, leaf, "inner class"), (, me))
struct H0 : SettingsManager<H0> { int32 a; bool second; };
REFLECTOR_CREATE(H0, 1, VARNAMES, a, second)
struct H1 : SettingsManager<H1> { int16 plain; uint32 ali; float des; double both; int32 none; };
REFLECTOR_CREATE(H1, 1, EXTENDED, (, plain), (A, ali, "other name"), (D, des, "described%and more"), (AD, both, "alias2", "only first"), (N, none))
struct H2 : SettingsManager<H2> { E8 e; H1n h1; int8 after; };
REFLECTOR_CREATE(H2, 1, VARNAMES, e, h1, after)
struct H3 : SettingsManager<H3> { H1n arr[3]; Mid deep; E16 e; std::array<H0n, 2> std; B16 bits; Vector v; std::string t; int32 ai[3]; B16 bitsa[2]; };
REFLECTOR_CREATE(H3, 1, EXTENDED, (D, arr, "an array"), (, deep), (AD, e, "enum alias", "an enum"), (, std), (, bits), (D, v, "a vector"), (, t), (, ai), (, bitsa))
struct H5 : SettingsManager<H5> { int16 plain; uint32 ali; float des; };
REFLECTOR_CREATE(H5, 1, EXTENDED, (, plain), (A, ali, "other name"), (D, des, "described%and more"))
struct Z0 { int32 z; void ReflectorTag(); };
REFLECTOR_CREATE(Z0, 0, z)
struct H6 : SettingsManager<H6> { int16 a; Z0 b; E8 c; };
REFLECTOR_CREATE(H6, 0, a, b, c)
struct H7 : SettingsManager<H7> { int16 first; Z0 z; int8 last; };
REFLECTOR_CREATE(H7, 1, EXTENDED, (, first), (D, z, "without names"), (, last))
struct L0 : SettingsManager<L0> { int32 a; uint8 b; float f; };
REFLECTOR_CREATE(L0, 1, VARNAMES, a, b, f)
struct L1 : SettingsManager<L1> { int16 a; uint32 ali; double des; bool yes; E8 e; };
REFLECTOR_CREATE(L1, 1, EXTENDED, (, a), (A, ali, "other name"), (D, des, "described"), (AD, yes, "alias2", "only"), (, e))
struct L2 : SettingsManager<L2> { uint64 only; };
REFLECTOR_CREATE(L2, 1, VARNAMES, only)
extern "C" {
void reg() { RegisterReflectedTypes<E8, E16, E32, E64, EF, H1n, H0n, Mid, B16, Z0> r; (void)r; }
void done(std::ostream *);
''' + ''.join('void help_%s(%s *s) { std::RigText o; s->GetHelp(o); done(&o); }\n' % (h, h) for h in HELP if h != 'H4') + ''.join(
    '''void log_%(n)s(%(n)s *s, const char *name) { s->CreateLog(name); }
void out_%(n)s(const char *t) { %(n)s::printf(t); }
void lay_%(n)s(uint64 *o) { %(b)s }
void *mk_%(n)s(void *p) { return new (p) %(n)s; }
''' % dict(n=n, b=' '.join('o[%d] = offsetof(%s, %s);' % (k, n, m) for k, m in enumerate(ms))) for n, ms in (('L0', ['a', 'b', 'f']), ('L1', ['a', 'ali', 'des', 'yes', 'e']), ('L2', ['only']))) + '}\n'


def helptext(cl, level=1):
    r = ''
    for n, a, d, k, of in CLASSES_[cl]:
        r += '\t' * level + n + '\n'
        if d:
            r += '\t' * (level + 1) + d + '\n'
        if k == 'class':
            r += helptext(of, level + 1)
        if k == 'enum':
            r += '\t' * (level + 1) + 'Values: ' + ''.join(e + ', ' for e in ENUMS_[of]) + '\n'
    return r


class Rig:
    def __init__(self, c):
        self.c = c
        self.m = ir.unit(text=SRC, name='G01')
        self.r = TextRig(self.m)
        self.r.prepare(*[n for n in self.m.ctors() if n not in self.r.statics()])
        self.r.prepare(*self.r.statics())
        self.unreg = self.r.base
        self.r.prepare('reg')
        self.reg = self.r.base

    def new(self):
        self.r.base = self.reg
        s = self.r.new()
        s.it.record_access = True
        print_models(s)
        t = s.text = Text(s)
        s.done = None

        def done(it, dem, i, args, mem):
            s.done = list(t.live[t.base(it, it.ptr(args[0]))]['b'])
        A = lambda r, h: s.it.models.append((re.compile(r), h))
        A(r'^done$', done)
        s.opened, s.added, s.times = [], [], []

        def opened(it, dem, i, args, mem):
            p = it.ptr(args[1])
            n = it.c.cval(it.load(mem, Ptr(p.base, p.off + 8), ['i', 64], i))
            s.opened.append((t.base(it, it.ptr(args[0])), show(s, t.chars(it, mem, it.ptr(it.load(mem, p, ['p'], i)), n, i)), it.c.cval(args[2])))

        def strftime(it, dem, i, args, mem):
            p = it.ptr(args[0])
            f = cstr(s, mem, it.ptr(args[2]))
            room = it.c.cval(args[1])
            s.times.append((f, room, it.obj(mem, p.base).size, it.ptr(args[3])))
            v = '_NAME' if f.startswith('_') else '<TIME>'
            it.access('store', p, room, i, mem)
            o = mem.w(p.base)
            for k, b in enumerate(v.encode() + b'\0'):
                o.cells[p.off + k] = tuple(it.c.cw(b, 8))
            return it.c.cw(len(v), 64)

        def number(it, dem, i, args, mem):
            q, x, v = t.get(it, mem, args[0], i)
            t.add(it, mem, q, x, v, [tuple(it.c.cw(b, 8)) for b in b'<N>'])
            return args[0]
        A(r'^std::RigText::open\(', opened)
        A(r'^localtime$', lambda it, dem, i, args, mem: s.buf('tm', 56) if 'tm' not in mem.o else Ptr('tm'))
        A(r'^std::chrono::', lambda it, dem, i, args, mem: s.c.inp('now', 64))
        A(r'^std::thread::hardware_concurrency', lambda it, dem, i, args, mem: s.c.inp('threads', 32))
        A(r'^__cxa_(thread_)?atexit$', lambda it, dem, i, args, mem: s.const(0, 32))
        A(r'^strftime$', strftime)
        A(r'std::ostream::(operator<<\((unsigned|int|long)|_M_insert<(unsigned )?(long|int)>)', number)
        A(r'AddPrinterFunction', lambda it, dem, i, args, mem: s.added.append(args[1:]))
        return s


def show(s, cells):
    v = [s.c.cval(Word(b)) for b in cells]
    return ''.join('?' if x is None else chr(x) for x in v)


def diff(got, want):
    if got is None:
        return 'no text at all'
    for k, (a, b) in enumerate(zip(got.split('\n'), want.split('\n'))):
        if a != b:
            return 'line %d is %r, required %r' % (k + 1, a, b)
    return 'has %d lines, required %d' % (got.count('\n'), want.count('\n'))


def run(c):
    c.rule('Constant dataflow of GetHelp and CreateLog into a modelled text stream, for classes with every kind of member: the text must be that of the declaration.')
    c.assumption('reflection tables as decided by R01; the text of values as decided by R04; the clock, strftime and the file are opaque')
    g = Rig(c)
    seen = set()
    for h in HELP:
        if h == 'H4':
            continue
        with c.part('help of %s' % h):
            s = g.new()
            s.buf('s')
            s.run('help_' + h, [Ptr('s')])
            seen |= s.it.visited
            want = (h + ' ' if h != 'H6' else '') + 'settings.\n' + helptext(h)
            got = show(s, s.done) if s.done is not None else None
            c.ob('help of %s is that of its members' % h, got == want, diff(got, want), 'GetHelp (datas/settings_manager.hpp)')
            bad = [e for e in s.it.events if e.kind in ('load', 'store') and e.ptr.base == 's']
            c.ob('help of %s does not depend on the values' % h, not bad, '%s' % bad[:2], ir.loc_str(bad[0].loc) if bad else '')
    for n in LOGS:
        with c.part('log of %s' % n):
            s = g.new()
            s.buf('l', 16)
            s.run('lay_' + n, [s.buf('o')])
            off = [s.c.cval(Word(s.outbits('o', 8 * k, 8))) for k in range(len(LOG[n]))]
            s = g.new()
            s.buf('s')
            s.run('mk_' + n, [Ptr('s')])
            seen |= s.it.visited
            s0, s = s, g.new()
            s.mem = s0.out.copy()
            s.mem.own.add('s')
            want = 'Current time: <TIME>\nNumber of concurrent threads: <N>\nConfiguration:\n'
            vals = []
            for (m, alias, kind, size), o in zip(LOG[n], off):
                want += '\t' + (alias or m) + ': '
                if kind == 'bool':
                    s.setc('s', o, 1, 1)
                    want += 'true\n'
                elif kind == 'E8':
                    s.setc('s', o, 7, 1)
                    want += 'e8c\n'
                else:
                    b = list(s.c.inp('value of ' + m, 8 * size))
                    s.setw('s', o, b)
                    k = ('s', Word(b + [b[-1]] * (64 - len(b)))) if kind == 's' else ('u', Word(b + [0] * (64 - len(b)))) if kind == 'u' else ('g', '6', s.c.op(64, 'fpext', Word(b))) if size == 4 else ('g', '13', Word(b))
                    vals.append(k)
                    want += '<%d>\n' % (len(vals) - 1)
            want += '\n'
            text(s, 'name', 'dir/the log\0')
            s.run('log_' + n, [Ptr('s'), Ptr('name')])
            seen |= s.it.visited
            st = s.text.live.get(s.opened[0][0]) if s.opened else None
            at = 'CreateLog (datas/settings_manager.hpp)'
            if not c.ob('log of %s is opened once' % n, len(s.opened) == 1 and st is not None, 'opened: %s' % [o[1:] for o in s.opened], at):
                continue
            c.ob('log of %s: name of the file' % n, s.opened[0][1] == 'dir/the log_NAME.txt', 'is %r' % s.opened[0][1], at)
            c.ob('log of %s: written, not read' % n, s.opened[0][2] & 16 and not s.opened[0][2] & 8, 'open mode %r' % s.opened[0][2], at)
            c.ob('log of %s: formatted time fits' % n, all(r is not None and r <= z for _, r, z, _ in s.times), '%s' % s.times, at)
            c.ob('log of %s: file name without separators' % n, s.times and not re.search('%[cDxrRTX]|[/:]', s.times[0][0]), '%s' % s.times, at)
            cells = []
            for k, p in enumerate(re.split('<([0-9]+)>', want)):
                cells += [tuple(b) for b in tokenbytes(s.c, vals[int(p)])] if k % 2 else [tuple(s.c.cw(b, 8)) for b in p.encode()]
            got = st['b']
            ok = len(got) == len(cells) and all(s.c.same(x, y) for g_, w in zip(got, cells) for x, y in zip(g_, w))
            c.ob('log of %s names every setting with its value' % n, ok, 'is %r, required %r' % (show(s, got), want), at)
            bad = [e for e in s.it.events if e.kind == 'store' and e.ptr.base == 's']
            c.ob('log of %s leaves the settings' % n, not bad, '%s' % bad[:2], ir.loc_str(bad[0].loc) if bad else '')
            fn = s.it.ptr(s.added[0][0]) if len(s.added) == 1 else None
            ok = fn is not None and isinstance(fn.base, tuple) and fn.base[0] == 'fn'
            if c.ob('log of %s: one printer function is added' % n, ok, '%s' % s.added, at):
                c.ob('log of %s: messages without colors' % n, s.c.cval(s.added[0][1][:1]) == 0, 'added as a colored one', at)
                s.mem = s.out.copy()
                text(s, 'msg', 'a message\n\0')
                s.run(fn.base[1], [Ptr('msg')])
                seen |= s.it.visited
                c.ob('log of %s: messages are appended' % n, show(s, s.text.live[s.opened[0][0]]['b'][len(cells):]) == 'a message\n', 'log is %r' % show(s, s.text.live[s.opened[0][0]]['b']), 'printf (datas/settings_manager.hpp)')
    c.unit('settings', g.m, seen)
