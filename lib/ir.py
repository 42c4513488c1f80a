"""Front end shared by every check: compiles /repo sources (through small driver
units in /verif/drivers that only instantiate and name things) to LLVM IR with the
flags of the repository's own build, normalises the IR with LLVM passes and loads
it as Python objects.  Nothing of /repo is executed."""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PRECORE_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
GCC = '/usr/lib/gcc/x86_64-linux-gnu/9'
CLANGXX = LLVM + '/bin/clang++'
OPT = LLVM + '/bin/opt'


class AnalysisBroken(Exception):
    """The analysis could not be carried out (no verdict)."""


class NoReturn(Exception):
    """The analysed code throws, aborts or loops on every path although its result is required."""


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='precore-sa-')
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def tool():
    """irdump, built on demand from /verif/tool."""
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, 'build'), tmpdir()):
        exe = os.path.join(d, 'irdump-' + h)
        if os.path.exists(exe):
            return exe
    d = os.path.join(VERIF, 'build')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tmpdir()
    exe = os.path.join(d, 'irdump-' + h)
    part = '%s.%d' % (exe, os.getpid())
    cmd = [CLANGXX, '-I' + LLVM + '/include', '-std=c++17', '-fno-exceptions', '-O1', '-w',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           src, '-o', part, '-L' + LLVM + '/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build irdump: ' + r.stderr[-2000:])
    os.replace(part, exe)
    return exe


def base_flags():
    return ['--gcc-install-dir=' + GCC, '-std=c++14', '-msse4', '-Wno-invalid-offsetof',
            '-fvisibility=hidden', '-I' + REPO]


O2 = 'default<O2>'
# Structure-preserving normalisation, for rules over control flow.
LIGHT = 'cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)'


def compile_src(src, name='unit', flags=(), passes=O2, optflags=(), debug=True, text=None):
    d = tmpdir()
    if text is not None:
        src = os.path.join(d, name + '.cpp')
        open(src, 'w').write(text)
    bc = os.path.join(d, name + '.bc')
    cmd = [CLANGXX] + base_flags() + ['-O1', '-Xclang', '-disable-llvm-passes', '-w',
                                      '-fno-strict-aliasing', '-emit-llvm', '-c', src, '-o', bc]
    if debug:
        cmd += ['-g']
    cmd += list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError('%s does not compile:\n%s' % (src, r.stderr[-6000:]), r.stderr)
    if passes:
        bc2 = os.path.join(d, name + '.opt.bc')
        cmd = [OPT, '-passes=' + passes, '-vectorize-loops=false', '-vectorize-slp=false', bc, '-o', bc2] + list(optflags)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt failed: ' + r.stderr[-3000:])
        bc = bc2
    return bc


class CompileError(AnalysisBroken):
    def __init__(self, msg, stderr=''):
        super().__init__(msg)
        self.stderr = stderr


def load(bc):
    out = bc + '.json'
    r = subprocess.run([tool(), bc, out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('irdump failed: ' + r.stderr[-2000:])
    with open(out) as f:
        return Module(json.load(f))


INLINE_ALL = ['-inline-threshold=1000000', '-inlinehint-threshold=1000000', '-inlinecold-threshold=1000000',
              '-unroll-threshold=100000', '-unroll-max-upperbound=128', '-unroll-full-max-count=4096',
              '-unroll-partial-threshold=0', '-unroll-runtime=false', '-unroll-allow-partial=false',
              '-inline-cold-callsite-threshold=1000000']


def unit(src=None, name='unit', text=None, flags=(), passes=O2, optflags=None, inline=True, debug=True):
    of = list(optflags or [])
    if inline:
        of += INLINE_ALL
    return load(compile_src(src, name, flags, passes, of, debug, text))


class Func:
    def __init__(self, name, d, mod):
        self.name = name
        self.d = d
        self.mod = mod
        self.dem = d['dem']
        self.decl = d['decl']
        self.args = d['args']
        self.blocks = d['blocks']
        self._def = None

    @property
    def defs(self):
        if self._def is None:
            self._def = {}
            for bi, b in enumerate(self.blocks):
                for k, i in enumerate(b):
                    self._def[i['i']] = i
                    i['bb'] = bi
                    i['k'] = k
        return self._def

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def succs(self, b):
        t = self.blocks[b][-1]
        return term_succs(t)

    def preds(self):
        p = [[] for _ in self.blocks]
        for b in range(len(self.blocks)):
            for s in set(self.succs(b)):
                p[s].append(b)
        return p


def term_succs(t):
    if t['op'] == 'switch':
        return [t['default']] + [c[1] for c in t['cases']]
    return list(t.get('succ', []))


class Module:
    def __init__(self, d):
        self.d = d
        self.globals = d['globals']
        self.funcs = {n: Func(n, f, self) for n, f in d['functions'].items()}
        self.enums = d['enums']
        self.records = d['records']

    def find(self, rx, defined=True):
        r = re.compile(rx)
        return [f for f in self.funcs.values() if (not defined or not f.decl) and r.search(f.dem)]

    def ctors(self):
        """functions that construct the globals, in order"""
        g = self.globals.get('llvm.global_ctors')
        if not g or g.get('init', ['zero'])[0] != 'agg':
            return []
        r = []
        for e in g['init'][2]:
            f = [x for x in e[2] if x[0] == 'fn']
            r.append((int(e[2][0][2]), f[0][1]))
        return [n for _, n in sorted(r, key=lambda x: x[0])]

    def enum(self, name):
        for e in self.enums:
            if e['name'] == name:
                return [(n, int(v)) for n, v in e['e']]
        return None


def loc_str(i):
    l = i.get('loc') or []
    if not l:
        return '?'
    return '%s:%d' % (l[0][0].replace(REPO + '/', ''), l[0][1])


def limits(mod, lo, hi):
    """numbers the code of the repository compares with, takes remainders of or masks with:
    sizes around them deserve a case of their own"""
    out = set()
    for f in mod.funcs.values():
        if f.decl:
            continue
        for i in f.instrs():
            op = i['op']
            if op not in ('icmp', 'urem', 'srem', 'and', 'switch') and not (op == 'call' and re.match(r'llvm\.[us](min|max)\.', str(i.get('fn')))):
                continue
            l = i.get('loc')
            if not l or not l[0][0].startswith(REPO + '/'):
                continue
            for a in list(i.get('a') or []) + [['ci', 64, x[0]] for x in i.get('cases') or []]:
                if isinstance(a, list) and a and a[0] == 'ci':
                    v = int(a[2])
                    if v >> 62:
                        continue
                    if op == 'and':
                        if v & (v + 1):
                            continue
                        v += 1
                    out.add(v)
    return sorted(v for v in out if lo <= v <= hi)


def around(mod, known, lo, hi, plus=(0, 1), scales=(1,)):
    """sizes from lo to hi next to numbers the code compares with; those of the reference
    tree (known) are covered by the sizes a check has anyway"""
    out = set()
    for v in limits(mod, 1, hi):
        if v not in known:
            out.update(k * v + d for k in scales for d in plus if lo <= k * v + d <= hi)
    return sorted(out)
