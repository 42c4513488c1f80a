"""Python bindings: uni objects, enumerations and vectors in Python have the values of their C++ counterparts, and references are owned and released once."""
import contextlib, os
import ir
from refl import *
from drv import *

MIN = 2300
LIB = os.path.dirname(os.path.abspath(ir.__file__))
FLAGS = ['-I' + LIB + '/py2']
TYPES = ['uni::Bone', 'uni::BoneList', 'uni::Motion', 'uni::MotionList', 'uni::MotionTrack', 'uni::MotionTrackList', 'uni::Skeleton', 'uni::SkeletonList', 'uniBoneTMType', 'uniMotionTrackType', 'uniMotionType']
ENUMS_ = {'uniBoneTMType': ['TMTYPE_RTS', 'TMTYPE_MATRIX'], 'uniMotionType': ['Absolute', 'Relative', 'Additive', 'Delta'], 'uniMotionTrackType': ['Position', 'Rotation', 'Scale', 'Matrix', 'PositionRotationScale', 'SingleFloat']}
SCOPE = {'uniBoneTMType': 'uni', 'uniMotionType': 'uni::Motion', 'uniMotionTrackType': 'uni::MotionTrack'}
SRC = PRE + '#include "%s/pymodel.inl"\n' % LIB + r'''
#include <stdexcept>
#include <vector>
#include <new>
#include <string>
#include "datas/vectors_simd.hpp"
#include "datas/matrix44.hpp"
#include "uni/rts.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "datas/reflector.hpp"
#include "datas/python/reflected_enum.hpp"
#include "uni/python/pymotion.inl"
#include "uni/python/pyskeleton.inl"
REFLECTOR_CREATE(E8, ENUM, 2, CLASS, 8, e8a, e8b, e8c = 7, e8d)
extern "C" { int same(size_t); void when(float); void rated(unsigned); }
struct In { uint32 rate; float duration; uint32 type; uint32 spare; size_t index; Vector4A16 v[4]; float f; };
struct M : uni::Motion { std::string n; const In *in; const uni::List<uni::MotionTrack> *l; bool own; ~M() { gone(this); }
  std::string Name() const override { return n; } void FrameRate(uint32 f) const override { rated(f); } uint32 FrameRate() const override { return in->rate; } float Duration() const override { return in->duration; }
  uni::MotionTracksConst Tracks() const override { return {l, own}; } MotionType_e MotionType() const override { return MotionType_e(in->type); } };
struct T : uni::MotionTrack { const In *in; int type; ~T() { gone(this); } TrackType_e TrackType() const override { return TrackType_e(type); } size_t BoneIndex() const override { return in->index; }
  void GetValue(uni::RTSValue &o, float t) const override { when(t); o.translation = in->v[0]; o.rotation = in->v[1]; o.scale = in->v[2]; }
  void GetValue(esMatrix44 &o, float t) const override { when(t); o.r1() = in->v[0]; o.r2() = in->v[1]; o.r3() = in->v[2]; o.r4() = in->v[3]; }
  void GetValue(Vector4A16 &o, float t) const override { when(t); o = in->v[0]; } void GetValue(float &o, float t) const override { when(t); o = in->f; } };
struct B : uni::Bone { std::string n; const In *in; int type; const Bone *parent = nullptr; ~B() { gone(this); } uni::TransformType TMType() const override { return uni::TransformType(type); }
  void GetTM(uni::RTSValue &o) const override { o.translation = in->v[0]; o.rotation = in->v[1]; o.scale = in->v[2]; } void GetTM(esMatrix44 &o) const override { o.r1() = in->v[0]; o.r2() = in->v[1]; o.r3() = in->v[2]; o.r4() = in->v[3]; }
  const Bone *Parent() const override { return parent; } size_t Index() const override { return in->index; } std::string Name() const override { return n; } };
struct K : uni::Skeleton { std::string n; const uni::List<uni::Bone> *l; bool own; ~K() { gone(this); } std::string Name() const override { return n; } uni::SkeletonBonesConst Bones() const override { return {l, own}; } };
template <class I> struct L : uni::List<I> { const I *items[4]; size_t n; bool own; ~L() { gone(this); } size_t Size() const override { return n; } typename uni::List<I>::const_type At(size_t i) const override { asked(i); if (i >= n) throw std::out_of_range("At"); return {items[i], own}; } };
template <class I> static L<I> *list(const I **v, size_t n, bool own) { auto l = new L<I>; for (size_t i = 0; i < n; i++) l->items[i] = v[i]; l->n = n; l->own = own; return l; }
typedef uni::Motion UM; typedef uni::MotionTrack UT; typedef uni::Bone UB; typedef uni::Skeleton US;
extern "C" {
void init(PyObject *m) { UniPy::Skeleton::InitType(m); UniPy::Motion::InitType(m); }
UM *mk_M(const In *in, const char *p, size_t n, const void *l, bool own) { auto m = new M; m->in = in; m->n.assign(p, n); m->l = (const uni::List<UT> *)l; m->own = own; return m; }
UT *mk_T(const In *in, int type) { auto m = new T; m->in = in; m->type = type; return m; }
UB *mk_B(const In *in, const char *p, size_t n, int type, const UB *parent) { auto m = new B; m->in = in; m->n.assign(p, n); m->type = type; m->parent = parent; return m; }
US *mk_K(const char *p, size_t n, const void *l, bool own) { auto m = new K; m->n.assign(p, n); m->l = (const uni::List<UB> *)l; m->own = own; return m; }
const void *list_M(const UM **v, size_t n, bool own) { return static_cast<const uni::List<UM> *>(list(v, n, own)); }
const void *list_T(const UT **v, size_t n, bool own) { return static_cast<const uni::List<UT> *>(list(v, n, own)); }
const void *list_B(const UB **v, size_t n, bool own) { return static_cast<const uni::List<UB> *>(list(v, n, own)); }
const void *list_K(const US **v, size_t n, bool own) { return static_cast<const uni::List<US> *>(list(v, n, own)); }
PyObject *py_M(const UM *m, bool own) { return (PyObject *)UniPy::Motion::Create(uni::Element<const UM>(m, own)); }
PyObject *py_K(const US *m, bool own) { return (PyObject *)UniPy::Skeleton::Create(uni::Element<const US>(m, own)); }
PyObject *py_list_M(const void *l, bool own) { return UniPy::Motion::Create(uni::MotionsConst((const uni::List<UM> *)l, own)); }
PyObject *py_list_K(const void *l, bool own) { return UniPy::Skeleton::Create(uni::SkeletonsConst((const uni::List<US> *)l, own)); }
PyTypeObject *type_M() { return UniPy::Motion::GetType(); }
PyTypeObject *type_K() { return UniPy::Skeleton::GetType(); }
PyTypeObject *type_LM() { return UniPy::Motion::GetListType(); }
PyTypeObject *type_LK() { return UniPy::Skeleton::GetListType(); }
double dbl(const float *f) { return *f; }
float flt(const double *f) { return float(*f); }
PyObject *v2(const Vector2 *v) { return Py_BuildValue(*v); }
PyObject *v3(const Vector *v) { return Py_BuildValue(*v); }
PyObject *v4(const Vector4 *v) { return Py_BuildValue(*v); }
PyObject *va(const Vector4A16 *v) { return Py_BuildValue(*v); }
PyObject *rts(const uni::RTSValue *v) { return Py_BuildValue(*v); }
PyObject *mtx(const Vector4A16 *v) { esMatrix44 m; m.r1() = v[0]; m.r2() = v[1]; m.r3() = v[2]; m.r4() = v[3]; return Py_BuildValue(m); }
bool py_isready(PyTypeObject *t) { return t->tp_alloc && t->tp_free && t->tp_dealloc; }
typedef ReflectedEnumPy<E8> RE;
void addenum(PyObject *m) { PyAddType<RE>(m); }
void addtype(PyObject *m, PyTypeObject *t) { PyAddType(m, t); }
''' + ''.join('int en_%s_%s() { return %s::%s; }\n' % (k, n, SCOPE[k], n) for k, ns in ENUMS_.items() for n in ns) + r'''
static_assert(sizeof(PyGetSet) == sizeof(PyGetSetDef) && offsetof(PyGetSet, get) == offsetof(PyGetSetDef, get) && offsetof(PyGetSet, set) == offsetof(PyGetSetDef, set), "");
}
'''


class Py:
    """a Python process: objects live in the memory of the analysed program"""
    mod = base = None
    unsafe = []

    def __init__(self, start=True):
        s = self.s = S(self.mod)
        guards(s)
        s.it.exceptions = True
        s.it.globals_initial = True
        s.it.record_access = True
        cstring_models(s)
        if start and Py.base is not None:
            s.mem = Py.base.copy()
        number_models(s, [], constants=True)
        self.events, self.types, self.unready = [], {}, 0
        self.sizes, self.dead = {}, set()
        A = lambda r, h: s.it.models.append((re.compile(r), h))

        def rec(it, dem, i, args, mem):
            if it.cond:
                raise prov.Unsupported('%s under an unknown condition %s' % (dem, it.cond))
            self.events.append((dem, args[0] if isinstance(args[0], Word) else it.ptr(args[0])))

        def add(it, dem, i, args, mem):
            if it.cond:
                raise prov.Unsupported('a type is added under an unknown condition')
            self.types[cstr(s, mem, it.ptr(args[1]))] = it.ptr(args[2])
            self.events.append((dem, it.ptr(args[2])))
            return s.c.cw(0, 32)

        def build(it, dem, i, args, mem):
            f = cstr(s, mem, it.ptr(args[0]))
            v = list(args[1:])
            cur = [mem]

            def do(fn, *a):
                r = it.call(self.mod.funcs[fn], list(a), cur[0].copy())
                cur[0] = r[0]
                return r[1]

            def seq(j):
                out = []
                while j < len(f) and f[j] != ')':
                    ch = f[j]
                    j += 1
                    if ch == '(':
                        x, j = seq(j)
                        t = do('py_tuple', s.c.cw(len(x), 64))
                        for k, y in enumerate(x):
                            do('py_set', t, s.c.cw(k, 64), y)
                        out.append(t)
                        j += 1
                    elif ch in 'fd':
                        out.append(do('PyFloat_FromDouble', v.pop(0)))
                    elif ch == 'O':
                        o = v.pop(0)
                        do('Py_IncRef', o)
                        out.append(o)
                    elif ch == 'N':
                        out.append(v.pop(0))
                    elif ch in 'iIlknb':
                        raise prov.Unsupported('format %r' % f)
                    elif ch not in ' ,':
                        raise prov.Unsupported('format %r' % f)
                return out, j
            x, _ = seq(0)
            if len(x) != 1:
                t = do('py_tuple', s.c.cw(len(x), 64))
                for k, y in enumerate(x):
                    do('py_set', t, s.c.cw(k, 64), y)
                x = [t]
            return x[0], cur[0]

        def parse(it, dem, i, args, mem):
            f = cstr(s, mem, it.ptr(args[1])).split(':')[0].split(';')[0]
            t = it.ptr(args[0])
            n = s.c.cval(it.load(mem, Ptr(t.base, t.off + 16), ['i', 64], i))
            data = it.ptr(it.load(mem, Ptr(t.base, t.off + 24), ['p'], i))
            want = re.findall(r'O!|O', f)
            if ''.join(want) != f:
                raise prov.Unsupported('format %r' % f)
            cur = mem.copy()

            def fail():
                r = it.call(self.mod.funcs['PyErr_SetNone'], [it.load(cur, Ptr(('g', 'PyExc_TypeError')), ['p'], i)], cur)
                return s.c.cw(0, 32), r[0]
            if n != len(want):
                return fail()
            k = 2
            for j, w in enumerate(want):
                o = it.ptr(it.load(cur, Ptr(data.base, data.off + 8 * j), ['p'], i))
                if w == 'O!':
                    ty = it.ptr(args[k])
                    k += 1
                    if it.ptr(it.load(cur, Ptr(o.base, o.off + 8), ['p'], i)) != ty:
                        return fail()
                it.store(cur, it.ptr(args[k]), ['p'], o, i)
                k += 1
            return s.c.cw(1, 32), cur
        A(r'^(made|freed|gone|asked|when|rated)$', rec)
        A(r'^PyModule_AddObject$', add)
        A(r'^Py_BuildValue$', build)
        A(r'^PyArg_ParseTuple$', parse)
        A(r'^py_unready$', lambda it, dem, i, args, mem: s.c.cw(self.unready, 32))

    def call(self, fn, *args):
        s = self.s
        a = [s.const(*x) if type(x) is tuple else x for x in args]
        try:
            m, r = s.run(fn, a)
        finally:
            self.safety()
        self.threw = [t for _, _, t in s.it.thrown]
        del s.it.thrown[:]
        if m is not None:
            s.mem = s.out.copy()
        Py.seen.update(s.it.visited)
        return r

    def safety(self):
        """accesses outside of allocations and of freed ones"""
        for e in self.s.it.events:
            if e.kind == 'new':
                self.sizes[e.obj] = self.s.c.cval(e.size)
            elif e.kind == 'call' and e.dem and e.dem.startswith('operator delete'):
                p = self.s.it.ptr(e.args[0])
                if p.base in self.sizes:
                    if p.base in self.dead or p.off:
                        Py.unsafe.append('freed twice at %s' % loc_str(e.loc))
                    self.dead.add(p.base)
            elif e.kind in ('load', 'store') and e.ptr.base in self.sizes:
                n = self.sizes[e.ptr.base]
                if e.ptr.base in self.dead:
                    Py.unsafe.append('%s of freed memory at %s' % (e.kind, loc_str(e.loc)))
                elif n is not None and not e.ptr.sym and isinstance(e.size, int) and (e.ptr.off < 0 or e.ptr.off + e.size > n):
                    Py.unsafe.append('%s of byte %d of an object of %d at %s' % (e.kind, e.ptr.off + e.size - 1, n, loc_str(e.loc)))
        del self.s.it.events[:]

    def ptr(self, r):
        return self.s.it.ptr(r)

    def val(self, r):
        return self.s.c.cval(r)

    def ld(self, p, off, w=64):
        return self.s.it.load(self.s.mem, Ptr(p.base, p.off + off), ['p'] if w == 'p' else ['i', w], {})

    def dump(self, p):
        """the value of an object"""
        if p.base == ('g', '_Py_NoneStruct'):
            return 'None'
        ty = self.ld(p, 8, 'p')
        if ty is None or not isinstance(ty, Ptr):
            raise prov.Unsupported('an object without type')
        k = {('g', 'Py%s_Type' % n): n for n in ('Int', 'Long', 'Float', 'String', 'Tuple', 'List')}.get(ty.base, ty)
        if k in ('Int', 'Long', 'Float'):
            return ('Int' if k == 'Long' else k, tuple(self.ld(p, 32)))
        if k in ('String', 'Tuple', 'List'):
            n = self.val(self.ld(p, 16))
            d = self.ld(p, 24, 'p')
            if n is None:
                return (k, ('a length that depends on contents',))
            if k == 'String':
                return (k, tuple(tuple(self.ld(d, j, 8)) for j in range(n)))
            return (k, tuple(self.dump(x) if x.base != 'null' else None for x in (self.ld(d, 8 * j, 'p') for j in range(n))))
        return ('object', k)

    def refs(self, p):
        return self.val(self.ld(p, 0))

    def error(self):
        return self.ptr(self.call('do_error'))

    def log(self, kind):
        return [x for k, x in self.events if k == kind]


def run(c):
    @contextlib.contextmanager
    def part(key):
        with c.part(key):
            Py.unsafe = []
            try:
                yield
            finally:
                c.ob('%s: accesses live objects only' % key, not Py.unsafe, '; '.join(Py.unsafe[:2]), key)
    c.rule('The type objects that InitType registers are used as an interpreter would: getters, setters, methods, subscripts and iterators of every type run on C++ objects with unknown values; values, '
           'reference counts, allocations and destructions are tracked through memory.')
    c.assumption('Python 2.7, modelled by lib/pymodel.inl; C++ objects that follow the uni interfaces and do not throw')
    Py.mod = ir.unit(text=SRC, name='Y01', flags=FLAGS)
    Py.seen = set()
    Py.base = None
    p = Py()
    for n in Py.mod.ctors():
        p.call(n)
    Py.base = p.s.mem
    bare = p.s.mem
    at = 'InitType (uni/python)'
    with part('types'):
        p = Py()
        p.s.buf('module')
        p.call('init', Ptr('module'))
        TY = p.types
        c.ob('all types are added by their names', sorted(TY) == sorted(TYPES), '%s' % sorted(set(TY) ^ set(TYPES)), at)
        for n, t in TY.items():
            c.ob('%s is named so' % n, cstr(p.s, p.s.mem, p.ld(t, 24, 'p')) == n, '', at)
            c.ob('%s is ready' % n, p.val(p.call('py_isready', t)) == 1, '', at)
            c.ob('%s: the module owns a reference' % n, p.refs(t) == 2, '%s references' % p.refs(t), 'PyAddType (datas/pythonex.hpp)')
        Py.base = p.s.mem
        q = Py(False)
        q.s.mem = bare.copy()
        q.unready = -1
        q.s.buf('module')
        q.call('init', Ptr('module'))
        q.call('addtype', Ptr('module'), TY['uni::Bone'])
        c.ob('types that are not ready are not added', not q.types, '%s' % sorted(q.types), 'PyAddType (datas/pythonex.hpp)')
        q = Py()
        q.s.buf('module')
        q.call('addtype', Ptr('module'), TY['uni::Bone'])
        c.ob('a type given by pointer is added', q.types == {'uni::Bone': TY['uni::Bone']} and q.refs(TY['uni::Bone']) == 3, '%s' % q.types, 'PyAddType (datas/pythonex.hpp)')
        for f, n in (('type_M', 'uni::Motion'), ('type_K', 'uni::Skeleton'), ('type_LM', 'uni::MotionList'), ('type_LK', 'uni::SkeletonList')):
            c.ob('the type %s is available' % n, q.ptr(q.call(f)) == TY[n], '', 'GetType (uni/python)')
    if Py.base is bare:
        return

    def dbl(q, ptr):
        return ('Float', tuple(q.call('dbl', ptr)))

    def vec(q, off, n=4):
        return ('Tuple', tuple(dbl(q, Ptr('in', off + 4 * j)) for j in range(n)))

    def name(q, tag, n):
        q.s.buf(tag, n + 1)
        return Ptr(tag)

    def string(q, tag, n):
        return ('String', tuple(tuple(q.s.inbits(tag, j, 1)) for j in range(n)))

    def integer(bits, w=64):
        bits = list(bits)
        return ('Int', tuple(bits + [0] * (64 - len(bits))))

    def no_error(q, key, at):
        c.ob(key + ': no error', not q.threw and q.error().base == 'null', '%s' % (q.threw or 'an error is set'), at)

    def failed(q, key, r, at, err=None):
        """a failed request: null, an error, and no exception"""
        ok = not q.threw and q.s.mem is not None and (q.ptr(r).base == 'null' if r is not None else False)
        e = q.error() if not q.threw else None
        c.ob(key, ok and e.base != 'null', 'throws %s' % q.threw if q.threw else 'returns %s, error %s' % (r, e), at)
        if err and not q.threw:
            c.ob(key + ' is %s' % err, e == q.ld(Ptr(('g', 'PyExc_' + err)), 0, 'p'), '%s' % e, at)

    def attr(q, key, o, n, want, at):
        """an attribute: a new reference to the value"""
        before = q.refs(o)
        nones = q.refs(Ptr(('g', '_Py_NoneStruct')))
        made = len(q.log('made'))
        q.s.buf('attr:' + n, len(n) + 1)
        r = q.call('do_attr', o, text(q.s, 'a:' + n, n + '\0'))
        if not c.ob(key + ': returns', r is not None and not q.threw and q.ptr(r).base != 'null', 'throws %s' % q.threw, at):
            return None
        r = q.ptr(r)
        no_error(q, key, at)
        d = q.dump(r)
        c.ob(key, same(q, d, want), '%s' % (d if isinstance(d, str) else d[0],), at)
        c.ob(key + ': the object itself is not referenced', q.refs(o) == before or d == want == ('object', o), '', at)
        if d == 'None':
            c.ob(key + ': a new reference', q.refs(r) == nones + 1, '%s' % (q.refs(r) - nones), at)
        else:
            c.ob(key + ': a new reference', q.refs(r) == 1 and r in q.log('made')[made:], '%s' % q.refs(r), at)
        return r

    def same(q, a, b):
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0]:
            if a[0] in ('Int', 'Float'):
                return q.s.cmp(list(a[1]), list(b[1]))[0]
            if a[0] == 'String':
                return len(a[1]) == len(b[1]) and all(q.s.cmp(list(x), list(y))[0] for x, y in zip(a[1], b[1]))
            if a[0] in ('Tuple', 'List'):
                return len(a[1]) == len(b[1]) and all(same(q, x, y) for x, y in zip(a[1], b[1]))
        return False

    def drop(q, key, o, at, gone=()):
        n = len(q.log('gone'))
        f = len(q.log('freed'))
        q.call('do_drop', o)
        c.ob(key + ': is freed', q.log('freed')[f:].count(o) == 1 and not q.threw, '%s' % q.log('freed')[f:], at)
        g = q.log('gone')[n:]
        c.ob(key + ': %s' % ('what it owns is deleted' if gone else 'nothing else is deleted'), sorted(map(repr, g)) == sorted(map(repr, gone)), '%s' % g, at)

    def ends(q, key, at):
        m, f = map(sorted, (map(repr, q.log('made')), map(repr, q.log('freed'))))
        c.ob(key + ': every object is freed once', m == f, '%d of %d' % (len(f), len(m)), at)
    NAMES = (0, 5, 20) if c.tier == 'quick' else (0, 1, 5, 15, 16, 20, 40)
    # skeletons, motions
    for n in NAMES:
        for own in (0, 1):
            key = 'motion with %d characters, %s' % (n, 'owned' if own else 'not owned')
            at = 'Motion (uni/python/pymotion.inl)'
            with part(key):
                q = Py()
                q.s.buf('in')
                tr = q.ptr(q.call('list_T', Ptr('null'), (0, 64), (0, 1)))
                m = q.ptr(q.call('mk_M', Ptr('in'), name(q, 'nm', n), (n, 64), tr, (own, 1)))
                o = q.ptr(q.call('py_M', m, (own, 1)))
                c.ob(key + ': a new object', q.dump(o) == ('object', TY['uni::Motion']) and q.refs(o) == 1, '%s' % (q.dump(o),), at)
                for a, w in (('name', string(q, 'nm', n)), ('duration', dbl(q, Ptr('in', 4))), ('framerate', integer(q.s.inbits('in', 0, 4))), ('motion_type', integer(q.s.inbits('in', 8, 4)))):
                    x = attr(q, '%s: %s' % (key, a), o, a, w, at)
                    if x is not None:
                        drop(q, '%s: %s' % (key, a), x, at)
                x = attr(q, key + ': tracks', o, 'tracks', ('object', TY['uni::MotionTrackList']), at)
                if x is not None:
                    drop(q, key + ': tracks', x, at, [tr] if own else [])
                drop(q, key, o, at, [m] if own else [])
                ends(q, key, at)
            key = 'skeleton with %d characters, %s' % (n, 'owned' if own else 'not owned')
            at = 'Skeleton (uni/python/pyskeleton.inl)'
            with part(key):
                q = Py()
                q.s.buf('in')
                tr = q.ptr(q.call('list_B', Ptr('null'), (0, 64), (0, 1)))
                m = q.ptr(q.call('mk_K', name(q, 'nm', n), (n, 64), tr, (own, 1)))
                o = q.ptr(q.call('py_K', m, (own, 1)))
                c.ob(key + ': a new object', q.dump(o) == ('object', TY['uni::Skeleton']) and q.refs(o) == 1, '%s' % (q.dump(o),), at)
                x = attr(q, key + ': name', o, 'name', string(q, 'nm', n), at)
                if x is not None:
                    drop(q, key + ': name', x, at)
                x = attr(q, key + ': bones', o, 'bones', ('object', TY['uni::BoneList']), at)
                if x is not None:
                    drop(q, key + ': bones', x, at, [tr] if own else [])
                drop(q, key, o, at, [m] if own else [])
                ends(q, key, at)
    at = 'Motion::SetFrameRate (uni/python/pymotion.inl)'
    for what in ('number', 'float', 'nothing'):
        key = 'frame rate set to a ' + what
        with part(key):
            q = Py()
            q.s.buf('in')
            m = q.ptr(q.call('mk_M', Ptr('in'), name(q, 'nm', 3), (3, 64), Ptr('null'), (0, 1)))
            o = q.ptr(q.call('py_M', m, (1, 1)))
            v = Ptr('null')
            if what == 'number':
                v = q.ptr(q.call('PyInt_FromLong', q.s.arg('rate', 64)))
            elif what == 'float':
                v = q.ptr(q.call('PyFloat_FromDouble', q.s.c.inp('dbl', 64)))
            r = q.call('do_setattr', o, text(q.s, 'a', 'framerate\0'), v)
            c.ob(key + ': no exception', not q.threw, '%s' % q.threw, at)
            if q.threw:
                continue
            e = q.error()
            rated = q.log('rated')
            if what == 'number':
                c.ob(key, q.val(r) == 0 and e.base == 'null' and len(rated) == 1 and q.s.cmp(list(rated[0]), list(q.s.arg('rate', 64))[:32])[0], '%s' % rated, at)
            else:
                c.ob(key + ' fails', q.val(r) not in (0, None) and e.base != 'null', 'returns %s, error %s' % (q.val(r), e), at)
                c.ob(key + ' changes nothing', not rated, '%s' % rated, at)
            if v.base != 'null':
                c.ob(key + ': the value is not kept', q.refs(v) == 1, '', at)
    # lists
    for k, f, item, at in (('M', 'MotionList', 'Motion', 'List'), ('K', 'SkeletonList', 'Skeleton', 'List'), ('T', 'MotionTrackList', 'MotionTrack', 'List'), ('B', 'BoneList', 'Bone', 'List')):
        at = 'List (uni/python/pylist.hpp)'
        for n in (0, 1, 3):
            for own in (0, 1):
                key = '%s of %d %s items' % (f, n, 'owned' if own else 'not owned')

                def make(q, own=own, n=n, k=k):
                    q.s.buf('in')
                    q.s.buf('items', 32)
                    its = []
                    for j in range(n):
                        nm = [name(q, 'nm%d' % j, 4), (4, 64)]
                        its.append(q.ptr({'M': lambda: q.call('mk_M', Ptr('in'), *nm, Ptr('null'), (0, 1)), 'K': lambda: q.call('mk_K', *nm, Ptr('null'), (0, 1)), 'T': lambda: q.call('mk_T', Ptr('in'), (0, 32)),
                                          'B': lambda: q.call('mk_B', Ptr('in'), *nm, (0, 32), Ptr('null'))}[k]()))
                        q.s.it.store(q.s.mem, Ptr('items', 8 * j), ['p'], its[-1], {})
                    l = q.ptr(q.call('list_' + k, Ptr('items'), (n, 64), (own, 1)))
                    if k in 'MK':
                        return its, l, q.ptr(q.call('py_list_' + k, l, (own, 1))), None, own
                    m = q.ptr(q.call('mk_M', Ptr('in'), Ptr('items'), (0, 64), l, (own, 1)) if k == 'T' else q.call('mk_K', Ptr('items'), (0, 64), l, (own, 1)))
                    o = q.ptr(q.call('py_M' if k == 'T' else 'py_K', m, (0, 1)))
                    r = q.ptr(q.call('do_attr', o, text(q.s, 'a', ('tracks' if k == 'T' else 'bones') + '\0')))
                    return its, l, r, o, own

                def isitem(q, key, x, it):
                    """an object of the item"""
                    x = q.ptr(x)
                    if not c.ob(key + ': returns', not q.threw and x.base != 'null', '%s' % q.threw, at):
                        return False
                    c.ob(key + ': its type', q.dump(x) == ('object', TY['uni::' + item]), '%s' % (q.dump(x),), at)
                    c.ob(key + ': a new reference', q.refs(x) == 1, '%s' % q.refs(x), at)
                    drop(q, key, x, at, [it] if own else [])
                    return True
                with part(key):
                    q = Py()
                    its, l, o, holder, _ = make(q)
                    c.ob(key + ': a new object', q.dump(o) == ('object', TY['uni::' + f]) and q.refs(o) == 1, '%s' % (q.dump(o),), at)
                    r = q.call('do_len', o)
                    c.ob(key + ': length', q.val(r) == n, '%s' % q.val(r), at)
                    for j in range(n):
                        i = q.ptr(q.call('PyInt_FromLong', (j, 64)))
                        x = q.call('do_item', o, i)
                        no_error(q, '%s: item %d' % (key, j), at)
                        isitem(q, '%s: item %d' % (key, j), x, its[j])
                        c.ob('%s: item %d: the index is not kept' % (key, j), q.refs(i) == 1, '', at)
                        q.call('do_drop', i)
                    c.ob(key + ': the list is not referenced', q.refs(o) == 1, '%s' % q.refs(o), at)
                    drop(q, key, o, at, [l] if own else [])
                    if holder:
                        q.call('do_drop', holder)
                    ends(q, key, at)
                for j in (n, n + 1, -1, 1 << 32, -(1 << 63)):
                    with part('%s: no item %d' % (key, j)):
                        q = Py()
                        its, l, o, holder, _ = make(q)
                        i = q.ptr(q.call('PyInt_FromLong', (j & (1 << 64) - 1, 64)))
                        failed(q, '%s: no item %d' % (key, j), q.call('do_item', o, i), at, 'IndexError')
                        if not q.threw:
                            q.call('do_drop', i)
                            q.call('do_drop', o)
                            if holder:
                                q.call('do_drop', holder)
                            ends(q, '%s: no item %d' % (key, j), at)
                with part(key + ': no index'):
                    q = Py()
                    its, l, o, holder, _ = make(q)
                    failed(q, key + ': no index', q.call('do_item', o, q.ptr(q.call('PyList_New', (0, 64)))), at)
                for times in (1, 2):
                    if own and times == 2:
                        continue
                    kk = '%s, iterated %s' % (key, 'twice' if times == 2 else 'once')
                    with part(kk):
                        q = Py()
                        its, l, o, holder, _ = make(q)
                        for t in range(times):
                            x = q.ptr(q.call('do_iter', o))
                            if x == o:
                                c.ob('%s: the iterator is a new reference (%d)' % (kk, t), q.refs(o) == 2, '%s references' % q.refs(o), at)
                            else:
                                c.ob('%s: the iterator is a new reference (%d)' % (kk, t), x.base != 'null' and q.refs(x) == 1, '', at)
                            for j in range(n):
                                isitem(q, '%s: item %d (%d)' % (kk, j, t), q.call('do_next', x), its[j])
                            r = q.call('do_next', x)
                            c.ob('%s: ends (%d)' % (kk, t), not q.threw and q.ptr(r).base == 'null', '%s' % q.threw, at)
                            e = q.error()
                            c.ob('%s: ends without an error (%d)' % (kk, t), e.base == 'null' or e == q.ld(Ptr(('g', 'PyExc_StopIteration')), 0, 'p'), '%s' % e, at)
                            q.call('do_drop', x)
                        c.ob('%s: the list is not referenced' % kk, q.refs(o) == 1, '%s references' % q.refs(o), at)
                        drop(q, kk, o, at, [l] if own else [])
                        if holder:
                            q.call('do_drop', holder)
                        ends(q, kk, at)
    # tracks
    num = {}
    for k, ns in ENUMS_.items():
        for n in ns:
            with part('%s.%s' % (k, n)):
                num[n] = p.val(p.call('en_%s_%s' % (k, n)))
    at = 'MotionTrack (uni/python/pymotion.inl)'

    def track(q, t):
        q.s.buf('in')
        q.s.buf('items', 32)
        tr = q.ptr(q.call('mk_T', Ptr('in'), (t, 32)))
        q.s.it.store(q.s.mem, Ptr('items'), ['p'], tr, {})
        l = q.ptr(q.call('list_T', Ptr('items'), (1, 64), (0, 1)))
        m = q.ptr(q.call('mk_M', Ptr('in'), Ptr('items'), (0, 64), l, (0, 1)))
        mo = q.ptr(q.call('py_M', m, (0, 1)))
        lo = q.ptr(q.call('do_attr', mo, text(q.s, 'a', 'tracks\0')))
        i = q.ptr(q.call('PyInt_FromLong', (0, 64)))
        o = q.ptr(q.call('do_item', lo, i))
        for x in (i, lo, mo):
            q.call('do_drop', x)
        return o
    want = {'Position': lambda q: vec(q, 24 + 8), 'PositionRotationScale': lambda q: ('Tuple', tuple(vec(q, 32 + 16 * j) for j in range(3))), 'Matrix': lambda q: ('Tuple', tuple(vec(q, 32 + 16 * j) for j in range(4))),
            'SingleFloat': lambda q: dbl(q, Ptr('in', 96))}
    want['Rotation'] = want['Scale'] = want['Position']
    for t in ENUMS_['uniMotionTrackType'] + ['unknown']:
        v = num.get(t, 77)
        key = 'track of type ' + t
        with part(key):
            q = Py()
            o = track(q, v)
            for a, w in (('track_type', integer([v >> b & 1 for b in range(32)])), ('bone_index', integer(q.s.inbits('in', 16, 8)))):
                x = attr(q, '%s: %s' % (key, a), o, a, w, at)
                if x is not None:
                    drop(q, '%s: %s' % (key, a), x, at)
            drop(q, key, o, at)
            ends(q, key, at)
        for n in (0, 1, 3, (3, 1), (1, 2)) if c.tier == 'quick' else (0, 1, 2, 3, 5, 9, (3, 1), (1, 2), (2, 0, 2)):
            kk = '%s, %s times' % (key, n)
            with part(kk):
                q = Py()
                o = track(q, v)
                if isinstance(n, tuple):        # not for the first time
                    for m in n[:-1]:
                        a = q.ptr(q.call('py_tuple', (1, 64)))
                        l = q.ptr(q.call('PyList_New', (m, 64)))
                        for j in range(m):
                            q.call('py_set', l, (j, 64), q.ptr(q.call('PyFloat_FromDouble', (0, 64))))
                        q.call('py_set', a, (0, 64), l)
                        q.call('do_drop', q.ptr(q.call('do_call', o, text(q.s, 'gv', 'get_values\0'), a)))
                        q.call('do_drop', a)
                    n = n[-1]
                    q.events = [e for e in q.events if e[0] != 'when']
                l = q.ptr(q.call('PyList_New', (n, 64)))
                q.s.buf('t', 8 * n + 8)
                for j in range(n):
                    q.call('py_set', l, (j, 64), q.ptr(q.call('PyFloat_FromDouble', Word(q.s.inbits('t', 8 * j, 8)))))
                a = q.ptr(q.call('py_tuple', (1, 64)))
                q.call('py_set', a, (0, 64), l)
                nones = q.refs(Ptr(('g', '_Py_NoneStruct')))
                r = q.call('do_call', o, text(q.s, 'gv', 'get_values\0'), a)
                if not c.ob(kk + ': returns', r is not None and not q.threw and q.ptr(r).base != 'null', '%s' % q.threw, at):
                    continue
                no_error(q, kk, at)
                r = q.ptr(r)
                d = q.dump(r)
                if t == 'unknown':
                    c.ob(kk + ': None', d == 'None', '%s' % (d,), at)
                    c.ob(kk + ': a new reference', q.refs(r) == nones + 1, '%s' % (q.refs(r) - nones), at)
                else:
                    w = ('List', tuple([want[t](q)] * n))
                    c.ob(kk + ': the values', same(q, d, w), '%s' % (d if isinstance(d, str) else d[0]), at)
                    c.ob(kk + ': a new reference', q.refs(r) == 1, '%s' % q.refs(r), at)
                    ts = q.log('when')
                    c.ob(kk + ': at these times', len(ts) == n and all(q.s.cmp(list(ts[j]), list(q.call('flt', Ptr('t', 8 * j))))[0] for j in range(n)), '%d times' % len(ts), at)
                    drop(q, kk, r, at)
                c.ob(kk + ': arguments are not kept', q.refs(a) == 1 and q.refs(l) == 1, '', at)
                q.call('do_drop', a)
                q.call('do_drop', o)
                ends(q, kk, at)
    for what in ('no list', 'no arguments', 'no number'):
        with part('values: ' + what):
            q = Py()
            o = track(q, num['Position'])
            a = q.ptr(q.call('py_tuple', (0 if what == 'no arguments' else 1, 64)))
            if what == 'no list':
                q.call('py_set', a, (0, 64), q.ptr(q.call('PyInt_FromLong', (0, 64))))
            if what == 'no number':
                l = q.ptr(q.call('PyList_New', (2, 64)))
                q.call('py_set', l, (0, 64), q.ptr(q.call('PyFloat_FromDouble', (0, 64))))
                q.call('py_set', l, (1, 64), q.ptr(q.call('PyList_New', (0, 64))))
                q.call('py_set', a, (0, 64), l)
            failed(q, 'values of a track: ' + what, q.call('do_call', o, text(q.s, 'gv', 'get_values\0'), a), at)
            q.call('do_drop', a)
            q.call('do_drop', o)
            ends(q, 'values of a track: ' + what, at)
    # bones
    at = 'Bone (uni/python/pyskeleton.inl)'

    def bones(q, types, parents, idx=None, names=None):
        its = []
        q.s.buf('items', 32)
        for j, (t, pa) in enumerate(zip(types, parents)):
            b = 'in' if j == 0 else 'in%d' % j
            q.s.buf(b)
            if idx and idx[j] is not None:
                q.s.it.store(q.s.mem, Ptr(b, 16), ['i', 64], q.s.c.cw(idx[j], 64), {})
            n = 3 + j
            nm = name(q, 'nm%d' % j, n)
            if names:
                n = len(names[j])
                nm = text(q.s, 'name%d' % j, names[j] + '\0')
            its.append(q.ptr(q.call('mk_B', Ptr(b), nm, (n, 64), (t, 32), its[pa] if pa is not None else Ptr('null'))))
            q.s.it.store(q.s.mem, Ptr('items', 8 * j), ['p'], its[-1], {})
        l = q.ptr(q.call('list_B', Ptr('items'), (len(its), 64), (0, 1)))
        k = q.ptr(q.call('mk_K', Ptr('items'), (0, 64), l, (0, 1)))
        ko = q.ptr(q.call('py_K', k, (0, 1)))
        lo = q.ptr(q.call('do_attr', ko, text(q.s, 'a', 'bones\0')))
        os = []
        for j in range(len(its)):
            i = q.ptr(q.call('PyInt_FromLong', (j, 64)))
            os.append(q.ptr(q.call('do_item', lo, i)))
            q.call('do_drop', i)
        q.call('do_drop', lo)
        q.call('do_drop', ko)
        return its, os
    tm = {'TMTYPE_RTS': want['PositionRotationScale'], 'TMTYPE_MATRIX': want['Matrix'], 'unknown': lambda q: 'None'}
    for t in tm:
        v = num.get(t, 77)
        key = 'bone of type ' + t
        with part(key):
            q = Py()
            its, (o,) = bones(q, [v], [None])
            for a, w in (('tm_type', integer([v >> b & 1 for b in range(32)])), ('index', integer(q.s.inbits('in', 16, 8))), ('name', string(q, 'nm0', 3)), ('transform', tm[t](q)), ('parent', 'None')):
                x = attr(q, '%s: %s' % (key, a), o, a, w, at)
                if x is not None and w != 'None':
                    drop(q, '%s: %s' % (key, a), x, at)
            drop(q, key, o, at)
            ends(q, key, at)
    with part('parent'):
        q = Py()
        its, os = bones(q, [0, 0, 0, 1], [None, 0, 0, 2])
        y = attr(q, 'parent with a parent', os[3], 'parent', ('object', TY['uni::Bone']), at)
        x = attr(q, 'parent of a parent', y, 'parent', ('object', TY['uni::Bone']), at)
        z = attr(q, 'name of a parent of a parent', x, 'name', string(q, 'nm0', 3), at)
        for o, k in ((x, 'parent of a parent'), (y, 'parent with a parent'), (z, 'name of a parent of a parent')):
            drop(q, k, o, at)
        x = attr(q, 'parent of a bone', os[2], 'parent', ('object', TY['uni::Bone']), at)
        y = attr(q, 'index of a parent', x, 'index', integer(q.s.inbits('in', 16, 8)), at)
        z = attr(q, 'name of a parent', x, 'name', string(q, 'nm0', 3), at)
        drop(q, 'index of a parent', y, at)
        drop(q, 'name of a parent', z, at)
        drop(q, 'a parent', x, at)
        for o in os:
            drop(q, 'bone %d' % os.index(o), o, at)
        ends(q, 'parent of a bone', at)
    with part('compare'):
        q = Py()
        its, os = bones(q, [0, 0, 0, 0], [None, 0, 0, 0], [7, 7, 8, 7], ['one', 'one', 'one', 'two'])
        for i in range(4):
            for j in range(4):
                r = q.val(q.call('do_compare', os[i], os[j]))
                eq = i == j or {i, j} == {0, 1}
                c.ob('bones %d and %d are %s' % (i, j, 'equal' if eq else 'different'), r is not None and (r == 0) == eq, '%s' % r, at)
        c.ob('comparing keeps nothing', all(q.refs(o) == 1 for o in os), '', at)
    # enumerations
    p = Py()
    for ty in list(ENUMS_) + ['E8']:
        at = 'Enum (uni/python/pyenum.hpp)' if ty != 'E8' else 'ReflectedEnumPy (datas/python/reflected_enum.hpp)'
        ns = ENUMS_.get(ty, ['e8a', 'e8b', 'e8c', 'e8d'])

        def inst(q, ty=ty):
            t = TY.get(ty)
            if ty == 'E8':
                q.s.buf('module')
                q.call('addenum', Ptr('module'))
                t = q.types['E8']
            return q.ptr(q.call('do_new', t))
        with part(ty):
            q = Py()
            o = inst(q)
            c.ob(ty + ': a new object', q.refs(o) == 1, '%s' % q.refs(o), at)
            c.ob(ty + ': length', q.val(q.call('do_len', o)) == len(ns), '', at)
            for j, n in enumerate(ns):
                i = q.ptr(q.call('PyInt_FromLong', (j, 64)))
                x = q.ptr(q.call('do_item', o, i))
                c.ob('%s: name %d' % (ty, j), not q.threw and same(q, q.dump(x), ('String', tuple(tuple(q.s.c.cw(ord(ch), 8)) for ch in n))) and q.refs(x) == 1, '', at)
                q.call('do_drop', i)
                q.call('do_drop', x)
                v = num.get(n, {'e8a': 0, 'e8b': 1, 'e8c': 7, 'e8d': 8}.get(n))
                x = attr(q, '%s.%s' % (ty, n), o, n, integer([v >> b & 1 for b in range(64)]), at)
                q.call('do_drop', x)
            drop(q, ty, o, at)
            ends(q, ty, at)
        for j in (len(ns), len(ns) + 1, -1, 1 << 32, -(1 << 63)):
            with part('%s: no name %d' % (ty, j)):
                q = Py()
                o = inst(q)
                failed(q, '%s: no name %d' % (ty, j), q.call('do_item', o, q.ptr(q.call('PyInt_FromLong', (j & (1 << 64) - 1, 64)))), at, 'IndexError')
        for n in ('', 'Positio', 'Positions', 'e8', 'tmtype_rts'):
            with part('%s: no member %r' % (ty, n)):
                q = Py()
                o = inst(q)
                r = q.call('do_attr', o, text(q.s, 'nn', n + '\0'))
                c.ob('%s: no member %r' % (ty, n), not q.threw and q.ptr(r).base == 'null', '%s' % q.threw, at)
    # values
    for f, n, size in (('v2', 2, 8), ('v3', 3, 12), ('v4', 4, 16), ('va', 4, 16), ('rts', (3, 4), 48), ('mtx', (4, 4), 64)):
        at = 'Py_BuildValue (datas/python, uni/python)'
        with part('value ' + f):
            q = Py()
            q.s.buf('in')
            r = q.ptr(q.call(f, Ptr('in')))
            w = vec(q, 0, n) if not isinstance(n, tuple) else ('Tuple', tuple(vec(q, 16 * j) for j in range(n[0])))
            c.ob('value %s: its components' % f, same(q, q.dump(r), w), '%s' % (q.dump(r),), at)
            c.ob('value %s: a new reference' % f, q.refs(r) == 1, '', at)
            drop(q, 'value ' + f, r, at)
            ends(q, 'value ' + f, at)
    c.unit('python bindings', Py.mod, Py.seen)
