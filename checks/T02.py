"""The printer: shared state is only used under one lock, every message reaches every printer function exactly once and in full."""
import ir
from drv import *
from refl import PRE
from textstream import Text

MIN = 150
SRC = PRE + r'''
#include <iostream>
#include <sstream>
#include <string>
namespace std { struct RigText : iostream { RigText(); explicit RigText(ios_base::openmode); explicit RigText(const std::string &, ios_base::openmode = ios_base::in | ios_base::out); ~RigText();
 std::string str() const; void str(const std::string &); }; }
#define stringstream RigText
#define ostringstream RigText
#include "datas/master_printer.cpp"
#undef stringstream
#undef ostringstream
extern "C" {
void f0(const char *); void f1(const char *); void f2(const char *); void f3(const char *); void f4(const char *);
void add(int n, bool color) { MasterPrinterThread::print_func f[]{f0, f1, f2, f3, f4}; printer.AddPrinterFunction(f[n], color); }
void add1(int n) { MasterPrinterThread::print_func f[]{f0, f1, f2, f3, f4}; printer.AddPrinterFunction(f[n]); }
void threadid(bool y) { printer.PrintThreadID(y); }
void line(const char *s) { printline(s) }
void warning(const char *s) { printwarning(s) }
void error(const char *s) { printerror(s) }
void info(const char *s) { printer << MPType::INF << s >> 1; }
void parts(const char *s, char c, const char *t) { printline(s << c << t) }
void open0(const char *s) { printer << s >> 0; }
void put(const char *s) { printer << s; }
void puterr(const char *s) { printer << MPType::ERR << s; }
void putnull() { printer << static_cast<const char *>(nullptr); }
void flush() { printer.FlushAll(); }
void color(int r, int g, int b) { SetConsoleTextColor(r, g, b); }
void nocolor() { RestoreConsoleTextColor(); }
}
'''


TID = b'<ID>'
SGR = re.compile(rb'\x1b\[[0-9;<>A-Z]*m')


class Run:
    def __init__(self, mod):
        s = self.s = S(mod)
        s.it.exceptions = True
        s.it.globals_initial = True
        s.it.record_access = True
        cstring_models(s)
        self.text = Text(s)
        self.calls = []
        self.raises = None
        self.locks = []         # (kind, mutex)
        self.held = []
        self.sets = []          # locks held at accesses of shared data
        self.bad = []
        self.mutable = {n for n, g in mod.globals.items() if not g.get('tls') and not g['const']}
        A = lambda r, h: s.it.models.append((re.compile(r), h))
        A(r'^pthread_(mutex|rwlock)_\w+$', self.lock)
        A(r'^f[0-4]$', self.printed)
        A(r'^malloc$', self.malloc)
        A(r'^(free|realloc)$', lambda it, dem, i, args, mem: None if dem == 'free' else NotImplemented)
        A(r'^v?sn?printf$', self.format)
        A(r'^pthread_self$', lambda it, dem, i, args, mem: s.c.inp('thread', 64))
        A(r'^__cxa_(thread_)?atexit$', lambda it, dem, i, args, mem: s.const(0, 32))
        self.s.buf('T')
        A(r'^std::ios_base::Init::', lambda it, dem, i, args, mem: None)
        for n in mod.ctors():
            s.run(n, [])
            s.mem = s.out.copy()

    def ev(self, kind, x):
        self.s.it.events.append(prov.Event(kind=kind, x=x, cond=tuple(self.s.it.cond), loc=None))

    def lock(self, it, dem, i, args, mem):
        p = it.ptr(args[0])
        if it.cond:
            raise prov.Unsupported('lock under an unknown condition')
        if re.search('unlock$', dem):
            self.ev('unlock', p)
        elif re.search('(lock|trylock|timedlock)$', dem):
            if re.search(r'(try|timed|clock)\w*lock$', dem):
                # somebody else has it at first
                self.tries = getattr(self, 'tries', 0) + 1
                if self.tries <= 2:
                    return it.c.cw(16, 32)
            self.ev('lock', (p, self.recursive(it, mem, p), 'rdlock' in dem))
        else:
            return NotImplemented
        return it.c.cw(0, 32)

    def recursive(self, it, mem, p):
        return it.c.cval(it.load(mem, Ptr(p.base, p.off + 16), ['i', 32], {})) == 1      # PTHREAD_MUTEX_RECURSIVE_NP

    def malloc(self, it, dem, i, args, mem):
        n = it.c.cval(args[0])
        if n is None:
            raise prov.Unsupported('memory of unknown size')
        d = Ptr(it.freshheap('mal', mem))
        mem.o[d.base] = Obj('undef:%s' % (d.base,), n)
        mem.own.add(d.base)
        return d

    def format(self, it, dem, i, args, mem):
        sized = 'sn' in dem
        f = it.ptr(args[2 if sized else 1])
        va = list(args[3 if sized else 2:])
        if dem.startswith('v'):
            raise prov.Unsupported(dem)
        t = bytes(self.word(it, x) for x in self.text.chars(it, mem, f, None, i))
        out = b''
        for k, m in enumerate(re.split(rb'(%[0-9.#lhzjx-]*[diuxXpsc%])', t)):
            if k % 2 == 0:
                out += m
            elif m == b'%%':
                out += b'%'
            elif m[-1:] in b'sc':
                raise prov.Unsupported('text in a format')
            else:
                a = va.pop(0)
                v = it.c.cval(a) if isinstance(a, Word) else None
                if v is None:
                    b = a if isinstance(a, Word) else []
                    out += TID if b and self.s.c.same(b[0], self.s.c.inp('thread', 64)[0]) else b'<V>'
                else:
                    if m[-1:] in b'di' and v >> (len(a) - 1):
                        v -= 1 << len(a)
                    out += (re.sub(rb'[lhzj]', b'', m)).decode().replace('i', 'd').replace('u', 'd').__mod__(v).encode()
        p = it.ptr(args[0])
        n = it.c.cval(args[1]) if sized else None
        w = out if n is None else out[:max(0, n - 1)]
        if n != 0:
            it.access('store', p, len(w) + 1, i, mem)
            it.obj(mem, p.base)
            o = mem.w(p.base)
            for k, b in enumerate(w + b'\0'):
                o.cells[p.off + k] = tuple(self.s.c.cw(b, 8))
        return it.c.cw(len(out), 32)

    def word(self, it, cell):
        v = it.c.cval(Word(cell)) if cell[0] != 'pf' else None
        return v

    def printed(self, it, dem, i, args, mem):
        p = it.ptr(args[0])
        if it.cond:
            raise prov.Unsupported('printer function called under an unknown condition')
        o = it.obj(mem, p.base)
        t, k = [], 0
        while True:
            if o.size is not None and p.off + k >= o.size:
                t.append('END')
                break
            cell = it.cell(o, p.off + k, p.base)
            if all(b == 0 for b in cell):
                break
            v = self.word(it, cell)
            t.append(v if v is not None else tuple(cell))
            k += 1
            if k > 100000:
                raise prov.Unsupported('text of unknown length')
        self.calls.append((int(dem[1]), t))
        self.ev('print', None)
        if self.raises == int(dem[1]):
            return it.throw(mem, '_ZTISt13runtime_error')

    def __call__(self, f, *args):
        """run; then the locks at every access of shared memory"""
        s = self.s
        it = s.it
        self.calls = []
        before = set()
        for b in s.mem.o:
            if isinstance(b, tuple) and b[0] == 'g':
                continue
            before.add(b)
        it.events.clear()
        m, r = s.run(f, list(args))
        held = []
        self.bad = []
        printing = 0
        gaps = 0
        for e in it.events:
            if e.kind == 'lock':
                p, rec, shared = e.x
                if p in held and not rec:
                    self.bad.append('a mutex that is not recursive is locked twice')
                held.append(p)
            elif e.kind == 'unlock':
                if e.x not in held:
                    self.bad.append('unlocks what is not locked')
                else:
                    held.remove(e.x)
                if not held and printing:
                    gaps += 1
            elif e.kind == 'print':
                if gaps:
                    self.bad.append('the lock is released between two outputs of one message')
                    gaps = 0
                printing = 1
                self.sets.append((set(held), f, 'call of a printer function'))
            elif e.kind in ('load', 'store', 'memcpy', 'memset') and getattr(e, 'ptr', None) is not None:
                b = e.ptr.base
                if isinstance(b, tuple) and b[0] == 'g' and b[1] in self.mutable and b[1] not in ('__dso_handle',) and not b[1].startswith(('_ZGV', '_ZTH', '__tls')):
                    if any(b == l.base and 0 <= e.ptr.off - l.off < 40 for l in self.mutexes(it)):
                        continue
                    self.sets.append((set(held), f, 'access of %s at %s' % (b[1], loc_str(e.loc))))
                elif b in before and (not isinstance(b, tuple) or b[0] != 'vt') and self.heap(b):
                    self.sets.append((set(held), f, 'access of shared memory at %s' % loc_str(e.loc)))
        if held:
            self.bad.append('the lock is kept')
        if m is not None:
            s.mem = s.out.copy()
        elif it.thrown:
            s.mem = it.thrown[0][1].copy()
        return m

    def heap(self, b):
        return isinstance(b, tuple) and b[0] == 'heap'

    def mutexes(self, it):
        return {e.x[0] for e in it.events if e.kind == 'lock'} | {e.x for e in it.events if e.kind == 'unlock'}


def join(calls, fn):
    """all text a function got, as (bytes without escapes, bytes)"""
    out = []
    for n, t in calls:
        if n == fn:
            out += t
    return out


def run(c):
    c.rule('Every load and store of a mutable global that is not thread local and of memory that outlives the call must happen with one common mutex held (lockset); locks are balanced on every path, also when a printer function throws; '
           'the texts passed to the opaque printer functions are compared with the message.')
    c.assumption('std::stringstream is modelled as bytes with two positions and state bits, printf by its conversions; no printer function calls the printer; destruction at the end of the program is not considered')
    mod = ir.unit(text=SRC, name='T02', flags=['-fno-threadsafe-statics'])
    seen = set()
    sets = []

    def session(funcs=(), tid=False):
        r = Run(mod)
        for f, col in funcs:
            r('add', r.s.const(f, 32), r.s.const(col, 1))
        if tid:
            r('threadid', r.s.const(1, 1))
        return r

    def msg(r, t, b='T'):
        r.s.buf(b)
        for k, x in enumerate(t + b'\0'):
            r.s.setc(b, k, x, 1)
        return Ptr(b)

    def done(r, tag):
        sets.extend((tag,) + x for x in r.sets)
        r.sets = []
        seen.update(r.s.it.visited)
        c.ob(tag + ': locks are balanced', not r.bad, '; '.join(sorted(set(r.bad))), 'datas/master_printer.cpp')

    def check(r, tag, funcs, text, prefix=b'', tid=False, colored=False):
        """every function got prefix and text once"""
        for f in range(5):
            got = join(r.calls, f)
            col = dict(funcs).get(f)
            raw = bytes(x if isinstance(x, int) else 0xff for x in got) if 'END' not in got and None not in got else None
            want = b'' if col is None else (b'Thread[0x' + TID + b'] ' if tid else b'') + prefix + text
            if raw is None:
                c.ob('%s: text for function %d' % (tag, f), False, 'the text has no end', 'MasterPrinterThread::FlushAll')
                continue
            esc = SGR.findall(raw)
            c.ob('%s: text for function %d' % (tag, f), SGR.sub(b'', raw) == want, '%r instead of %r' % (raw, want), 'MasterPrinterThread::FlushAll')
            if not col:
                c.ob('%s: function %d gets no colors' % (tag, f), not esc, esc, 'MasterPrinterThread::FlushAll')
            else:
                c.ob('%s: colors of function %d are reset' % (tag, f), not esc or esc[-1] in (b'\x1b[0m', b'\x1b[m'), esc, 'RestoreConsoleTextColor')
                if colored:
                    at = raw.find(text)
                    c.ob('%s: message of function %d is colored' % (tag, f), bool([e for e in SGR.findall(raw[:at]) if b'38;' in e]) and SGR.findall(raw[:at])[-1:] != [b'\x1b[0m'], raw, 'SetConsoleTextColor')
        order = list(dict.fromkeys(n for n, t in r.calls if SGR.sub(b'', bytes(x if isinstance(x, int) else 0 for x in t))))
        c.ob(tag + ': functions are called in the order they were added', order == [f for f, _ in funcs] or not text and not order, 'order %s' % order, 'MasterPrinterThread::FlushAll')

    SETS = [(), ((0, 0),), ((0, 1),), ((0, 1), (1, 0)), ((1, 0), (0, 1)), ((2, 1), (0, 1), (1, 1)), ((4, 0), (3, 1), (2, 0), (1, 1), (0, 0))]
    LONG = bytes(65 + k % 26 for k in range(70000))
    for funcs in SETS:
        ft = ','.join('%d%s' % (f, 'c' if x else '') for f, x in funcs) or 'none'
        for tid in (False, True):
            for kind, prefix in (('line', b''), ('warning', b'WARNING: '), ('error', b'ERROR: '), ('info', b'')):
                tag = '%s to %s%s' % (kind, ft, ' with thread' if tid else '')
                with c.part(tag):
                    r = session(funcs, tid)
                    r(kind, msg(r, b'first text'))
                    check(r, tag, funcs, b'first text\n', prefix, tid, kind in ('warning', 'error'))
                    done(r, tag)
                    # the next message has no prefix and nothing of the first one
                    r('line', msg(r, b'next'))
                    check(r, tag + ', next line', funcs, b'next\n', b'', tid)
                    c.ob(tag + ', next line: no colors', not any(SGR.search(bytes(x if isinstance(x, int) else 0 for x in t)) for _, t in r.calls), 'the type is kept', 'MasterPrinterThread::FlushAll')
                    done(r, tag + ', next line')
    one = ((0, 0), (1, 1))
    for n in (0, 1, 14, 15, 16, 2040, 2046, 2047, 2048, 2049, 2500, 4200) + (() if c.tier == 'quick' else (8200, 17000, 33000, 66000)):
        tag = 'message of %d characters' % n
        with c.part(tag):
            r = session(one)
            for k, t in enumerate((LONG[:n], b'short', LONG[:n][::-1], b'', b'abc')):
                r('line', msg(r, t))
                check(r, '%s, %d' % (tag, k), one, t + b'\n')
                done(r, '%s, %d' % (tag, k))
            r('open0', msg(r, b'no line end'))
            check(r, tag + ', without line end', one, b'no line end')
            r('put', msg(r, LONG[:n]))
            c.ob(tag + ': nothing is printed before the flush', not r.calls, 'output', 'MasterPrinterThread')
            r('put', msg(r, b'xyz'))
            r('flush')
            check(r, tag + ', flushed', one, LONG[:n] + b'xyz')
            done(r, tag + ', flushed')
            r('flush')
            check(r, tag + ', flushed again', one, b'')
            done(r, tag + ', flushed again')
            r('puterr', msg(r, b'e'))
            r('flush')
            check(r, tag + ', flushed error', one, b'e', b'ERROR: ')
    with c.part('parts'):
        r = session(one)
        ch = Word([1] + list(r.s.arg('ch', 7)))      # not 0
        r('parts', msg(r, b'a='), ch, msg(r, b'; more text than before', 'T2'))
        for f in (0, 1):
            got = join(r.calls, f)
            want = list(b'a=') + [tuple(ch)] + list(b'; more text than before\n')
            c.ob('parts: text for function %d' % f, len(got) == len(want) and all((x == y) if isinstance(y, int) else (not isinstance(x, (int, str)) and all(r.s.c.same(p, q) for p, q in zip(x, y))) for x, y in zip(got, want)),
                 'differs: %s' % (got,), 'MasterPrinterThread::operator<<')
        done(r, 'parts')
    with c.part('failed output'):
        r = session(one)
        r('putnull')
        r('flush')
        r('line', msg(r, b'after'))
        check(r, 'line after a failed output', one, b'after\n')
        done(r, 'failed output')
    with c.part('functions added twice'):
        r = session(((0, 1), (1, 0), (0, 1), (1, 1), (0, 0)))
        r('error', msg(r, b'text'))
        check(r, 'functions added twice', ((0, 1), (1, 0)), b'text\n', b'ERROR: ', colored=True)
        done(r, 'functions added twice')
        r('add1', r.s.const(3, 32))
        r('add1', r.s.const(3, 32))
        r('error', msg(r, b'text'))
        check(r, 'default of a function', ((0, 1), (1, 0), (3, 1)), b'text\n', b'ERROR: ', colored=True)
        done(r, 'default of a function')
    with c.part('colors'):
        r = session(((0, 1), (1, 0), (2, 1)))
        for rgb in ((255, 0, 0), (0, 255, 0), (1, 2, 3), (0, 0, 0), (255, 255, 255)):
            r('color', *(r.s.const(x, 32) for x in rgb))
            want = b'\x1b[38;2;%d;%d;%dm' % rgb
            for f in range(3):
                got = bytes(x if isinstance(x, int) else 0xff for x in join(r.calls, f))
                c.ob('color %s: function %d' % (rgb, f), got == (b'' if f == 1 else want), got, 'SetConsoleTextColor')
            done(r, 'color %s' % (rgb,))
        r('nocolor')
        for f in range(3):
            got = bytes(x if isinstance(x, int) else 0xff for x in join(r.calls, f))
            c.ob('restored color: function %d' % f, got == (b'' if f == 1 else b'\x1b[0m'), got, 'RestoreConsoleTextColor')
        done(r, 'restored color')
    with c.part('printer functions that throw'):
        for k in (0, 1, 2):
            for kind in ('line', 'error'):
                r = session(((0, 1), (1, 0), (2, 1)), True)
                r.raises = k
                m = r(kind, msg(r, b'text'))
                tag = '%s, function %d throws' % (kind, k)
                c.ob(tag + ': the exception arrives', m is None and [x[2] for x in r.s.it.thrown] == ['_ZTISt13runtime_error'], 'gives %s' % [x[2] for x in r.s.it.thrown], 'MasterPrinterThread::FlushAll')
                done(r, tag)
    with c.part('lockset'):
        r = session()
        for x in (1, 0):
            r('threadid', r.s.const(x, 1))
            done(r, 'thread ids')
        for f, x in one:
            r('add', r.s.const(f, 32), r.s.const(x, 1))
            done(r, 'adding a function')
        locks = None
        for tag, held, f, what in sets:
            if held:
                locks = held if locks is None else locks & held
        for tag, held, f, what in sets:
            ok = bool(locks) and bool(held & locks)
            if not ok or len(held):
                key = 'lockset: %s: %s' % (f, what)
                if key not in done.__dict__:
                    done.__dict__[key] = ok
                    c.ob(key, ok, 'without the lock' if not held else 'under different locks', 'datas/master_printer.cpp')
    c.unit('T02', mod, seen)
