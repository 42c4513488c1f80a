"""Havok presets: name, scale, axes and extensions are what the settings say."""
import itertools, os, struct
import ir
from refl import *
from drv import *

MIN = 180
INL = os.path.join(os.path.dirname(os.path.abspath(ir.__file__)), 'pugimodel.inl')
NAMES = {'none': [], 'one': ['first'], 'many': ['b', 'a', 'havok', 'a', 'a', 'long extension name of an exporter', 'b', 'B', 'long extension name of an exporter']}
SRC = PRE + r'''
#include <cstdio>
#include <cstring>
#include <string>
#include "datas/supercore.hpp"
#include "%s"
#include <list>
void std::__detail::_List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
struct Matrix3 { struct Row { float v[4]; float operator[](int i) const { return v[i]; } float &operator[](int i) { return v[i]; } } r[4]; const Row &operator[](int i) const { return r[i]; } Row &operator[](int i) { return r[i]; } };
#include "MAXex/hk_preset.hpp"
struct Settings { float objectScale; Matrix3 corMat; };
static Settings settings(const float *m, float scale) { Settings s = {}; s.objectScale = scale; for (int k = 0; k < 9; k++) s.corMat[k / 3][k %% 3] = m[k]; return s; }
extern "C" {
void element(int, const char *); void attribute(const char *, const char *); void text(const char *);
void said(const char *, size_t);
void axes(const float *m) { auto s = settings(m, 1); auto t = GetCorrectionMatrix(s.corMat); said(t.data(), t.size()); }
}
static void show(pugi::xml_node n, int level) {
  for (auto a = n.first_attribute(); a; a = a.next_attribute()) attribute(a.name(), a.value());
  for (auto c = n.first_child(); c; c = c.next_sibling()) { if (c.type() == pugi::node_element) element(level, c.name()); else text(c.value()); show(c, level + 1); }
}
extern "C" {
''' % INL + ''.join('''void save_%s(const float *m, float scale, const char *name, bool before) { auto s = settings(m, scale); std::list<std::string> e; for (const char *x : {%s""}) if (*x) e.push_back(x);
  pugi::xml_node n(pugi::model::add(pugi::model::node(pugi::node_document), pugi::node_element)); if (before) n.append_child("Before"); SaveHKPreset(s, name, e, n); show(n, 0); }
''' % (k, ''.join('"%s", ' % x for x in v)) for k, v in NAMES.items()) + '}\n'


def run(c):
    c.rule('The texts of axes are computed for every matrix whose rows are axes, and compared with the letters of their columns and signs; the tree that is saved is walked by the driver and read as a sequence of names and texts.')
    at = 'MAXex/hk_preset.hpp'
    mod = ir.unit(text=SRC, name='W01')
    seen = set()

    def rig():
        s = S(mod, budget=20000000)
        s.it.globals_initial = True
        cstring_models(s)
        print_models(s)
        s.it.fcmp_bits = True
        s.log = []

        def note(it, dem, i, args, mem):
            if it.cond:
                raise prov.Unsupported('output under an unknown condition')
            v = []
            for a in args:
                p = a if isinstance(a, Ptr) else None
                if p is None:
                    v.append(it.c.cval(a))
                    continue
                n = it.c.cval(args[1]) if dem == 'said' else None
                try:
                    v.append(cstr(s, mem, p, 4000) if n is None else bytes(it.c.cval(Word(b)) for b in [it.cell(it.obj(mem, p.base), p.off + k, p.base) for k in range(n)]).decode())
                except Exception:
                    v.append(None)
                if v[-1] is None:
                    v[-1] = [tuple(it.cell(it.obj(mem, p.base), p.off + k, p.base)) for k in range(4)]
            s.log.append((dem,) + tuple(v))
            return None, mem
        s.it.models.insert(0, (re.compile('^(said|element|attribute|text)$'), note))
        return s

    def fill(s, m):
        for k, v in enumerate(m):
            s.setc('M', 4 * k, struct.unpack('<I', struct.pack('<f', v))[0], 4)
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            for size, zero in ((1.0, 0.0), (0.25, -0.0), (100.0, 0.0)):
                m = [zero] * 9
                for r in range(3):
                    m[3 * r + p[r]] = sg[r] * size
                want = ''.join(('-' if sg[r] < 0 else '') + 'XYZ'[p[r]] for r in range(3))
                key = 'axes %s of size %s' % (want, size)
                with c.part(key):
                    s = rig()
                    s.buf('M', 36)
                    fill(s, m)
                    s.run('axes', [Ptr('M')])
                    seen.update(s.it.visited)
                    c.ob(key, [x[1] for x in s.log] == [want], '%s' % [x[1] for x in s.log], at)
    for k, names in NAMES.items():
        for before in (0, 1):
            for name in ('preset', '', 'a & b <c> "d"'):
                key = 'preset %r with %s extensions%s' % (name, k, ', after another element' if before else '')
                with c.part(key):
                    s = rig()
                    s.buf('M', 36)
                    fill(s, [0, 1, 0, -1, 0, 0, 0, 0, 1])
                    s.buf('N', len(name) + 1)
                    for j, ch in enumerate(name.encode() + b'\0'):
                        s.setc('N', j, ch, 1)
                    sc = s.c.inp('scale', 32)
                    s.run('save_' + k, [Ptr('M'), sc, Ptr('N'), s.const(before, 1)])
                    seen.update(s.it.visited)
                    log = s.log
                    want = ([('element', 0, 'Before')] if before else []) + [('element', 0, 'HavokPreset'), ('attribute', 'name', name), ('element', 1, 'scale'), ('text', None), ('element', 1, 'matrix'), ('text', 'Y-XZ'),
                                                                       ('element', 1, 'extensions')] + [('element', 2, x) for x in names]
                    got = [('text', None) if x[0] == 'text' and not isinstance(x[1], str) else x for x in log]
                    if not c.ob(key + ': elements and texts', got == want, '%s' % (got,), at):
                        continue
                    t = [x[1] for x in log if x[0] == 'text'][0]
                    w = [tokenbytes(s.c, ('g', p, Word(s.c.op(64, 'fpext', sc)))) for p in ('6', '7', '8', '9')]
                    c.ob(key + ': the scale', any([tuple(b) for b in v] == t[:3] for v in w), 'another text than that of the scale', at)
    c.unit('Havok presets', mod, seen)
