"""Every public header can be used on its own and together with all others: compile
witnesses, plus the symbols that headers and sources define."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import ir, decls

MIN = 300
GPP = 'g++-9'
PY2 = os.path.join(os.path.dirname(os.path.abspath(ir.__file__)), 'py2')
CFG = [  # name, quick?, compiler, flags
    ('gcc c++14', 1, 'g', ['-std=c++14']),
    ('gcc c++17', 0, 'g', ['-std=c++17']),
    ('gcc c++14 wide characters', 1, 'g', ['-std=c++14', '-DUNICODE', '-D_UNICODE']),
    ('gcc c++14 without rtti', 0, 'g', ['-std=c++14', '-fno-rtti']),
    ('clang c++14', 1, 'c', ['-std=c++14']),
    ('clang c++17 without rtti', 1, 'c', ['-std=c++17', '-fno-rtti']),
    ('clang c++17 wide characters', 0, 'c', ['-std=c++17', '-DUNICODE', '-D_UNICODE']),
]
PROBE = '''
namespace verif_probe { struct A { char c; double d; short s; long l; }; struct B { char c; short s; char e; int i; };
static_assert(sizeof(A) == 32 && alignof(A) == 8 && sizeof(B) == 12 && alignof(B) == 4, "packing is left changed"); }
'''
# a tag that is only named in unevaluated operands
TAGS = {'_ZN7Endian_7DefinedEv'}


def command(kind, flags, path, out=None):
    base = ['-msse4', '-w', '-I' + ir.REPO, '-I' + PY2, '-x', 'c++']
    if kind == 'g':
        return [GPP] + flags + base + ['-fsyntax-only', path]
    return [ir.CLANGXX, '--gcc-install-dir=' + ir.GCC] + flags + base + (['-O0', '-c', '-emit-llvm', path, '-o', out] if out else ['-fsyntax-only', path])


def compile(job):
    kind, flags, path, out = job
    r = subprocess.run(command(kind, flags, path, out), capture_output=True, text=True, timeout=300)
    msg = [l for l in r.stderr.split('\n') if 'error' in l]
    if r.returncode and not msg:
        raise ir.AnalysisBroken('compiler: ' + r.stderr[-300:])
    return r.returncode == 0, (msg or [''])[0]


def symbols(bc):
    """{name: type} of what an object defines"""
    r = subprocess.run([ir.LLVM + '/bin/llvm-nm', '--defined-only', bc], capture_output=True, text=True)
    if r.returncode:
        raise ir.AnalysisBroken('llvm-nm: ' + r.stderr[-300:])
    return {l.split()[2]: l.split()[1] for l in r.stdout.split('\n') if len(l.split()) == 3}


def demangle(n):
    return subprocess.run([ir.LLVM + '/bin/llvm-cxxfilt', n], capture_output=True, text=True).stdout.strip()


def files():
    hs, cs, inl = [], [], []
    for top in ('datas', 'formats', 'uni'):
        for d, ds, fs in os.walk(os.path.join(ir.REPO, top)):
            ds[:] = sorted(x for x in ds if x != 'internal')
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), ir.REPO)
                if f.endswith(('.hpp', '.h')) and '_win' not in f:
                    hs.append(p)
                elif f.endswith('.cpp'):
                    cs.append(p)
                elif f.endswith('.inl') and top == 'formats':
                    inl.append(p)
    return hs, cs, inl


def run(c):
    c.rule('Compile witnesses: every public header is type-checked as the only (and twice included) content of a source, and all headers together in both orders, with the compilers and '
           'modes the library is made for; behind it the layout of probe structures must be the default one. Symbol tables of the compiled units: headers define nothing that may be '
           'defined once only, sources nothing twice, and every accessible function that a header declares is defined by a header or a source.')
    c.assumption('headers for Windows and 3ds Max are not analysed (their platform headers are not there), those for Python with declarations of Python 2.7 in lib/py2; headers in internal folders are not for direct use')
    hs, cs, inl = files()
    tmp = ir.tmpdir()
    jobs, keys, objs = [], [], {}

    def add(key, what, cfg, text):
        p = os.path.join(tmp, 'c01_%d.cpp' % len(jobs))
        with open(p, 'w') as f:
            f.write(text)
        out = None
        if cfg[0] == 'clang c++14':
            out = objs[key] = p + '.bc'
        jobs.append((cfg[2], cfg[3], p, out))
        keys.append((key, '%s with %s' % (what, cfg[0])))
    for cfg in CFG:
        if not cfg[1] and c.tier == 'quick':
            continue
        for h in hs:
            add(h, h + ' is usable alone and twice', cfg, '#include "%s"\n#include "%s"\n%s' % (h, h, PROBE))
        for f in cs + inl:
            add(f, f + ' compiles', cfg, '#include "%s"\n%s' % (f, PROBE))
        fw = ''.join('#include "%s"\n' % h for h in hs)
        bw = ''.join('#include "%s"\n' % h for h in reversed(hs))
        add('all', 'all headers in order', cfg, fw + PROBE)
        add('all reversed', 'all headers in reverse order', cfg, bw + PROBE)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile, jobs))
    good = {}
    for (key, what), (ok, msg) in zip(keys, res):
        c.ob(what, ok, msg, key)
        good[key] = good.get(key, True) and ok
    with c.part('definitions'):
        own = {}
        for h in hs + inl + ['all']:
            if good[h]:
                bad = sorted(n for n, t in symbols(objs[h]).items() if t in 'TDBRC')
                c.ob('%s defines nothing that may be defined once only' % h, not bad, ', '.join(demangle(b) for b in bad[:5]), h)
        defs = set()
        for f in cs:
            if good[f]:
                sy = symbols(objs[f])
                defs |= set(sy)
                for n, t in sy.items():
                    if t in 'TDBRC':
                        own.setdefault(n, []).append(f)
        for n, fs in sorted(own.items()):
            c.ob('%s is defined once' % demangle(n), len(fs) == 1, 'in ' + ', '.join(fs), fs[0])
        if all(good.values()):
            def parse(name, hs):
                p = os.path.join(tmp, name + '.cpp')
                with open(p, 'w') as f:
                    f.write(''.join('#include "%s"\n' % h for h in hs))
                return decls.functions(p, ir.base_flags() + ['-w', '-I' + PY2, '-resource-dir', ir.LLVM + '/lib/clang/18'])
            for n, f in enumerate(inl):
                defs |= {x[2] for x in parse('c01_inl%d' % n, [f]) if x[5]}
            fns = parse('c01_all', hs)
            for kind, name, mangled, f, line, defined, access in fns:
                if access == 3 or mangled in TAGS:
                    continue
                c.ob('%s %s is defined' % (kind, mangled), defined or mangled in defs, '%s %s is declared in %s:%d and defined nowhere' % (kind, name, f, line), f)
                c.funcs.add(name)
    c.units += ['%d headers' % len(hs), '%d sources' % len(cs), '%d included definitions' % len(inl), '%d compile witnesses' % len(jobs)]
