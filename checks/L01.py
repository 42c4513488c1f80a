"""Macro loops: every argument, once, in order, with its index; counts are right."""
import os, re, subprocess
import ir
from drv import *
from refl import *

MIN = 1900
MOST = 89       # arguments that are supported
SOME = [1, 2, 3, 10, 45, 85, 86, 87, 88, 89]
WHOLE = [1, 2, 45, 86, 87, 88, 89]
SHAPES = {'names': lambda k: 'arg%d' % k, 'groups': lambda k: '(first%d, second%d)' % (k, k), 'calls': lambda k: 'CALL(p%d, (q%d, r%d))' % (k, k, k), 'expressions': lambda k: 'a%d + b[%d]' % (k, k)}
COMPILERS = {'clang': [ir.CLANGXX, '--gcc-install-dir=' + ir.GCC], 'gcc': ['g++-9']}


def norm(t):
    return re.sub(r'(?<=\W) | (?=\W)', '', ' '.join(t.split()))


def split(t):
    """parts of a list between commas that are not in parentheses"""
    r, d = [''], 0
    for ch in t:
        d += (ch in '([') - (ch in ')]')
        if ch == ',' and d == 0:
            r.append('')
        else:
            r[-1] += ch
    return [norm(x.strip()) for x in r]


def calls(t, name):
    """arguments of a sequence of name(...) and of nothing else"""
    r = []
    t = t.strip()
    while t:
        m = re.match(re.escape(name) + r'\s*\(', t)
        if not m:
            return r + [['unexpected: ' + t[:60]]]
        d, k = 1, m.end()
        while k < len(t) and d:
            d += (t[k] == '(') - (t[k] == ')')
            k += 1
        r.append(split(t[m.end():k - 1]))
        t = t[k:].strip()
    return r


def index(t):
    if not re.match(r'^[0-9+() ]+$', t):
        return None
    try:
        return eval(t, {'__builtins__': {}})
    except Exception:
        return None


def run(c):
    c.rule('The preprocessor expands VA_NARGS, StaticFor and StaticForArgID for every number of arguments and shape of argument; the expansion must be the sequence of evaluations, in order, with every index; enumerations and classes '
           'with every number of members are compiled and the counts, names and values read from their constants.')
    at = 'datas/macroLoop.hpp'
    d = ir.tmpdir()
    lines = ['#include "datas/macroLoop.hpp"', '#define DOUBLE(x) TWICE(x, x)', '#define TRIPLE(c, i, x) THRICE(c, x, i)']
    want = {}
    for shape, f in SHAPES.items():
        for n in range(1, MOST + 1):
            if c.tier == 'quick' and shape != 'names' and n not in SOME:
                continue
            a = [f(k) for k in range(n)]
            x = ', '.join(a)
            for key, code in [('count', 'VA_NARGS(%s)' % x), ('loop', 'StaticFor(OF, %s)' % x), ('loop of a macro', 'StaticFor(DOUBLE, %s)' % x), ('indexed loop', 'StaticForArgID(AT, cls, %s)' % x),
                              ('indexed loop of a macro', 'StaticForArgID(TRIPLE, cls, %s)' % x)]:
                lines.append('@@%d %s' % (len(want), code))
                want[len(want)] = (key, shape, n, [norm(y) for y in a])
    src = os.path.join(d, 'L01.cpp')
    open(src, 'w').write('\n'.join(lines) + '\n')
    ps = {cn: subprocess.Popen(cc + ['-std=c++14', '-E', '-P', '-w', '-I' + ir.REPO, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for cn, cc in COMPILERS.items()}
    outs = {cn: p.communicate() for cn, p in ps.items()}
    for cn, (stdout, stderr) in outs.items():
        if ps[cn].returncode:
            raise ir.AnalysisBroken('preprocessor: ' + stderr[-500:])
        got = {}
        for t in stdout.split('@@')[1:]:
            k, _, t = t.partition(' ')
            got[int(k)] = t.strip()
        for k, (key, shape, n, a) in want.items():
            t = got.get(k, '')
            if key == 'count':
                ok, det = index(t) == n, t
            elif key.startswith('loop'):
                x = calls(t, 'TWICE' if 'macro' in key else 'OF')
                ok, det = x == [[y] * (2 if 'macro' in key else 1) for y in a], '%d evaluations' % len(x)
            else:
                x = calls(t, 'THRICE' if 'macro' in key else 'AT')
                if 'macro' in key:
                    x = [[y[0], y[2], y[1]] if len(y) == 3 else y for y in x]
                ids = [index(y[1]) if len(y) == 3 else None for y in x]
                ok = ids == list(range(n)) and [(y[0], y[2]) for y in x] == [('cls', y) for y in a]
                det = '%d evaluations, indices %s' % (len(x), [(u, v) for u, v in zip(ids, range(n)) if u != v][:4])
            c.ob('%s, %s over %d %s' % (cn, key, n, shape), ok, det, at)
    base = None
    for n in WHOLE:
        key = 'reflected class and enumeration of %d members' % n
        mem = ['mem%d' % k for k in range(n)]
        text = PRE + '#include "datas/reflector.hpp"\n#include "datas/master_printer.hpp"\nstruct Big { %s };\n' % ' '.join('int %s[%d];' % (x, k % 3 + 1) for k, x in enumerate(mem))
        text += 'REFLECTOR_CREATE(Big, 1, VARNAMES, %s)\nREFLECTOR_CREATE(Num, ENUM, 1, CLASS, %s)\n' % (', '.join(mem), ', '.join('Val%d%s' % (k, ' = %d' % (3 * k + 1) if k % 2 else '') for k in range(n)))
        text += """extern "C" { void member(unsigned, const char *, unsigned, unsigned); void value(unsigned, const char *, size_t, uint64);
unsigned members() { auto c = GetReflectedClass<Big>(); for (unsigned k = 0; k < %d; k++) member(k, c->typeNames[k], c->types[k].ID, c->types[k].offset); return c->nTypes; }
size_t values() { auto e = GetReflectedEnum<Num>(); unsigned k = 0; for (auto &x : e) { value(k, x.data(), x.size(), e.values[k]); k++; } return e.size(); } }
""" % n
        with c.part(key):
            try:
                mod = ir.unit(text=text, name='L01_%d' % n, flags=['-fno-access-control'])
            except ir.CompileError as e:
                if base is None:
                    raise
                m = re.search(r'error: .*', e.stderr)
                c.ob(key, False, 'does not compile: ' + (m.group(0) if m else ''), at)
                continue
            base = base or mod
            s = S(mod, budget=20000000)
            s.it.globals_initial = True
            cstring_models(s)
            guards(s)

            parse_models(s)
            log = []

            def note(it, dem, i, args, mem):
                log.append([it.c.cval(args[0]), cstr(s, mem, it.ptr(args[1]))] + [it.c.cval(x) for x in args[2:]])
                return None, mem
            s.it.models.append((re.compile('^(member|value)$'), note))
            m, r = s.run('members', [])
            c.ob(key + ': number of members', s.c.cval(r) == n, s.c.cval(r), at)
            off = [sum(4 * (j % 3 + 1) for j in range(k)) for k in range(n)]
            for k in range(n):
                x = log[k] if k < len(log) else None
                c.ob('%s: member %d' % (key, k), x == [k, mem[k], k, off[k]], x, at)
            del log[:]
            s.mem = s.out.copy()
            m, r = s.run('values', [])
            c.ob(key + ': number of values', s.c.cval(r) == n == len(log), s.c.cval(r), at)
            last = 0
            for k, x in enumerate(log):
                w = 3 * k + 1 if k % 2 else last
                last = w + 1
                c.ob('%s: value %d' % (key, k), x[0] == k and (x[1] or '')[:x[2]] == 'Val%d' % k and x[3] == w, x, at)
            c.unit('%d members' % n, mod, s.it.visited)
