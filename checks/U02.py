"""Uni interfaces: lists deliver their items by reference and in order, Resample follows the unpack type, missing overrides throw."""
import ir
from drv import *
from falg import FAlg
from refl import PRE

MIN = 150
SRC = PRE + r'''
#include <stdexcept>
#include <string>
#include "datas/matrix44.hpp"
#include "uni/list_vector.hpp"
#include "uni/rts.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include <new>
#include <type_traits>
extern "C" { void item(const void *p, int v); void gone(const void *p); void done(); void asked(size_t); int special(int); }
struct I : uni::Base { virtual int id() const = 0; };
struct C : I { int v; C(int x) : v(x) {} C(const C &) = default; ~C() { gone(this); } int id() const override { return v; } operator uni::Element<const I>() const { return {static_cast<const I *>(this), false}; } };
struct P : I { int v; P(int x) : v(x) {} P(const P &) = delete; ~P() { gone(this); } int id() const override { return v; } };
typedef uni::VectorList<I, C> VL;
typedef uni::PolyVectorList<I, I> PL;
typedef uni::PolyVectorList<I, P> PP;
typedef uni::VectorList<int, int, uni::Vector> NL;
struct Own : uni::List<I> { std::vector<P *> s; size_t Size() const override { return s.size(); } uni::List<I>::const_type At(size_t i) const override { asked(i); return {s.at(i), false}; } };
struct Num : uni::Vector<int> { size_t n; Num(size_t k) : n(k) {} size_t Size() const override { return n; } const int At(size_t i) const override { asked(i); return int(i) * 3; } };
static void fill(VL &l, const int *v, size_t n) { l.storage.reserve(n + 3); for (size_t i = 0; i < n; i++) l.storage.emplace_back(v[i]); }
static void fill(PL &l, const int *v, size_t n) { for (size_t i = 0; i < n; i++) l.storage.emplace_back(new P(v[i])); }
static void fill(PP &l, const int *v, size_t n) { for (size_t i = 0; i < n; i++) l.storage.emplace_back(new P(v[i])); }
static void fill(NL &l, const int *v, size_t n) { l.storage.reserve(n + 2); l.storage.assign(v, v + n); }
static void fill(Own &l, const int *v, size_t n) { for (size_t i = 0; i < n; i++) l.s.push_back(new P(v[i])); }
template <class T> static void show(const uni::Element<T> &e) { item(e.get(), e->id()); }
static void show(int e) { item(nullptr, e); }
static void at(const C &e) { item(&e, e.v); }
static void at(const std::unique_ptr<I> &e) { item(e.get(), e->id()); }
static void at(const std::unique_ptr<P> &e) { item(e.get(), e->v); }
static void at(const int &e) { item(nullptr, e); }
template <class L> void stored(L &l) { for (auto &e : l.storage) at(e); }
void stored(Own &l) { for (auto e : l.s) item(e, e->v); }
#define LISTS(X) X(VL) X(PL) X(PP) X(NL) X(Own)
#define LIST(L) extern "C" { \
void stored_##L(const int *v, size_t n) { L l; fill(l, v, n); stored(l); done(); } \
void range_##L(const int *v, size_t n) { L l; fill(l, v, n); for (auto &&e : l) show(e); done(); } \
void base_##L(const int *v, size_t n) { L l; fill(l, v, n); const BASE_##L &b = l; for (auto &&e : b) show(e); done(); } \
void post_##L(const int *v, size_t n) { L l; fill(l, v, n); const BASE_##L &b = l; auto i = b.begin(); while (i != b.end()) { auto j = i++; show(*j); } done(); } \
void index_##L(const int *v, size_t n) { L l; fill(l, v, n); for (size_t i = 0; i < n; i++) show(l[i]); done(); } \
void bindex_##L(const int *v, size_t n) { L l; fill(l, v, n); const BASE_##L &b = l; for (size_t i = 0; i < n; i++) show(b[i]); done(); } \
void at_##L(const int *v, size_t n) { L l; fill(l, v, n); const BASE_##L &b = l; for (size_t i = 0; i < n; i++) show(b.At(i)); done(); } \
size_t size_##L(const int *v, size_t n) { L l; fill(l, v, n); const BASE_##L &b = l; return b.Size() == l.Size() ? b.Size() : size_t(-1); } \
void out_##L(const int *v, size_t n, size_t i) { L l; fill(l, v, n); show(l.At(i)); } \
void bout_##L(const int *v, size_t n, size_t i) { L l; fill(l, v, n); const BASE_##L &b = l; show(b[i]); } }
#define BASE_VL uni::List<I>
#define BASE_PL uni::List<I>
#define BASE_PP uni::List<I>
#define BASE_NL uni::Vector<int>
#define BASE_Own uni::List<I>
LISTS(LIST)
extern "C" {
bool same_end(size_t n, size_t i) { Num l(n); auto a = l.begin(); (void)i; auto e = l.end(); return (a == e) == !n && (a != e) == !!n; }
void num(size_t n) { Num l(n); for (auto e : l) show(e); }
void proxy(size_t n) { Num l(n); uni::VirtualIteratorProxy<uni::Vector<int>, &uni::Vector<int>::Size, const int, &uni::Vector<int>::At> p(&l); for (auto e : p) show(e); }
}
struct D : uni::PrimitiveDescriptor {
  UnpackDataType_e t; const uni::BBOX *b; uni::FormatDescr f;
  const char *RawBuffer() const override { return nullptr; } size_t Stride() const override { return 0; } size_t Offset() const override { return 0; } size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Undefined; } uni::FormatDescr Type() const override { return f; } uni::BBOX UnpackData() const override { return *b; } UnpackDataType_e UnpackDataType() const override { return t; }
};
extern "C" {
void resample(int t, const uni::BBOX *b, Vector4A16 *v, size_t n) { D d; d.t = uni::PrimitiveDescriptor::UnpackDataType_e(t); d.b = b; uni::FormatCodec::fvec f(v, v + n); d.Resample(f); for (size_t i = 0; i < n; i++) v[i] = f[i]; item(nullptr, int(f.size())); }
void *codec(uni::FormatDescr f) { D d; d.f = f; const uni::PrimitiveDescriptor &p = d; return &p.Codec(); }
void rts(uni::RTSValue *o) { new (o) uni::RTSValue; }
void rts3(uni::RTSValue *o, const Vector4A16 *p) { new (o) uni::RTSValue(p[0], p[1], p[2]); }
bool rts_eq(const uni::RTSValue *a, const uni::RTSValue *b) { return *a == *b; }
bool rts_ne(const uni::RTSValue *a, const uni::RTSValue *b) { return *a != *b; }
bool rts_and(const uni::RTSValue *a, const uni::RTSValue *b) { return a->translation == b->translation && a->rotation == b->rotation && a->scale == b->scale; }
}
struct B0 : uni::Bone { uni::TransformType t; uni::TransformType TMType() const override { return t; } const Bone *Parent() const override { return nullptr; } size_t Index() const override { return 0; } std::string Name() const override { return {}; } };
struct S0 : uni::Skin { uni::TransformType t; size_t NumNodes() const override { return 0; } uni::TransformType TMType() const override { return t; } size_t NodeIndex(size_t) const override { return 0; } };
struct T0 : uni::MotionTrack { TrackType_e t; TrackType_e TrackType() const override { return t; } size_t BoneIndex() const override { return 0; } };
struct M0 : uni::Motion { std::string Name() const override { return {}; } uint32 FrameRate() const override { return 0; } float Duration() const override { return 0; } uni::MotionTracksConst Tracks() const override { return {nullptr, false}; } MotionType_e MotionType() const override { return Absolute; } };
extern "C" {
void bone_rts(int t, uni::RTSValue *o) { B0 b; b.t = uni::TransformType(t); const uni::Bone &r = b; r.GetTM(*o); }
void bone_mtx(int t, esMatrix44 *o) { B0 b; b.t = uni::TransformType(t); const uni::Bone &r = b; r.GetTM(*o); }
void skin_rts(int t, uni::RTSValue *o) { S0 b; b.t = uni::TransformType(t); const uni::Skin &r = b; r.GetTM(*o, 1); }
void skin_mtx(int t, esMatrix44 *o) { S0 b; b.t = uni::TransformType(t); const uni::Skin &r = b; r.GetTM(*o, 1); }
void track_rts(int t, uni::RTSValue *o) { T0 b; b.t = uni::MotionTrack::TrackType_e(t); const uni::MotionTrack &r = b; r.GetValue(*o, 1); }
void track_mtx(int t, esMatrix44 *o) { T0 b; b.t = uni::MotionTrack::TrackType_e(t); const uni::MotionTrack &r = b; r.GetValue(*o, 1); }
void track_vec(int t, Vector4A16 *o) { T0 b; b.t = uni::MotionTrack::TrackType_e(t); const uni::MotionTrack &r = b; r.GetValue(*o, 1); }
void track_flt(int t, float *o) { T0 b; b.t = uni::MotionTrack::TrackType_e(t); const uni::MotionTrack &r = b; r.GetValue(*o, 1); }
void framerate(int t, float *) { M0 b; const uni::Motion &r = b; r.FrameRate(uint32(t)); }
bool modify_is_runtime() { return std::is_convertible<uni::ModifyError *, std::runtime_error *>::value; }
int tt(int i) { const uni::MotionTrack::TrackType_e v[]{uni::MotionTrack::Position, uni::MotionTrack::Rotation, uni::MotionTrack::Scale, uni::MotionTrack::Matrix, uni::MotionTrack::PositionRotationScale, uni::MotionTrack::SingleFloat}; return v[i]; }
int tm(int i) { return i ? uni::TMTYPE_MATRIX : uni::TMTYPE_RTS; }
int ut(int i) { typedef uni::PrimitiveDescriptor::UnpackDataType_e E; const E v[]{E::None, E::Add, E::Mul, E::Madd}; return int(v[i]); }
}
'''


def run(c):
    c.rule('Lists of every kind run with unknown items: each way to iterate must deliver the addresses and values of the stored items in order and delete none of them; Resample is compared as polynomials over the components; '
           'every default implementation must throw the documented kind of exception.')
    c.assumption('lists of constant lengths; FormatCodec::Get is opaque here')
    mod = ir.unit(text=SRC, name='U02')
    seen = set()

    def sess():
        s = S(mod)
        s.it.exceptions = True
        s.it.globals_initial = True
        cstring_models(s)
        s.log = []
        A = lambda r, h: s.it.models.append((re.compile(r), h))

        def rec(it, dem, i, args, mem):
            if it.cond:
                raise prov.Unsupported('%s under an unknown condition' % dem)
            s.log.append((dem,) + tuple(it.ptr(a) if not isinstance(a, Word) else a for a in args))
        A(r'^(item|gone|done|asked)$', rec)
        return s

    NS = (0, 1, 2, 3, 5) if c.tier == 'quick' else (0, 1, 2, 3, 4, 5, 8, 13, 33)
    NS += tuple(n for n in ir.around(mod, {5, 15}, 4, 130)[:4] if n not in NS)
    for L in ('VL', 'PL', 'PP', 'NL', 'Own'):
        where = {'VL': 'VectorList', 'NL': 'VectorList', 'PL': 'PolyVectorList', 'PP': 'PolyVectorList', 'Own': 'List'}[L]
        for n in NS:
            for how in ('stored', 'range', 'base', 'post', 'index', 'bindex', 'at'):
                key = '%s of %d, %s' % (L, n, how)
                with c.part(key):
                    s = sess()
                    s.buf('V')
                    m, _ = s.run('%s_%s' % (how, L), [Ptr('V'), s.const(n, 64)])
                    seen.update(s.it.visited)
                    if m is None or any(g for g, _, _ in s.it.thrown):
                        c.ob(key, False, 'it may throw %s' % [t for _, _, t in s.it.thrown], where)
                        continue
                    names = [x[0] for x in s.log]
                    k = names.index('done') if 'done' in names else 0
                    items = [x for x in s.log[:k] if x[0] == 'item']
                    ok = len(items) == n
                    d = '%d items' % len(items)
                    for j, x in enumerate(items[:n]):
                        e, d1 = s.cmp(list(x[2]), s.inbits('V', 4 * j, 4))
                        if not e:
                            ok, d = False, 'item %d: %s' % (j, d1)
                    c.ob(key + ': items', ok, d, where)
                    c.ob(key + ': nothing is deleted', 'gone' not in names[:k], 'an item is deleted', where)
                    if L in ('VL', 'PL', 'PP', 'Own'):
                        ps = [x[1] for x in items]
                        c.ob(key + ': items are distinct objects', len(set(map(repr, ps))) == len(ps), ps, where)
                        if L != 'Own':
                            g = [x[1] for x in s.log[k + 1:] if x[0] == 'gone']
                            c.ob(key + ': items are those stored', sorted(map(repr, g)) == sorted(map(repr, ps)), '%s instead of %s' % (ps, g), where)
                    else:
                        pass
            with c.part('%s of %d, size' % (L, n)):
                s = sess()
                s.buf('V')
                r = s.c.cval(s.run('size_' + L, [Ptr('V'), s.const(n, 64)])[1])
                c.ob('%s of %d, size' % (L, n), r == n, r, where)
            for i in (n, n + 1, 1 << 32, (1 << 64) - 1):
                for how in ('out', 'bout'):
                    key = '%s of %d: item %d does not exist (%s)' % (L, n, i, how)
                    with c.part(key):
                        s = sess()
                        s.buf('V')
                        m, _ = s.run('%s_%s' % (how, L), [Ptr('V'), s.const(n, 64), s.const(i, 64)])
                        c.ob(key, m is None and [t for _, _, t in s.it.thrown] == ['_ZTISt12out_of_range'], [t for _, _, t in s.it.thrown] or 'it is delivered', where)
    for f in ('num', 'proxy'):
        for n in NS:
            with c.part('%s %d' % (f, n)):
                s = sess()
                s.run(f, [s.const(n, 64)])
                seen.update(s.it.visited)
                a = [s.c.cval(x[1]) for x in s.log if x[0] == 'asked']
                v = [s.c.cval(x[2]) for x in s.log if x[0] == 'item']
                c.ob('%s: a list of %d computed values' % (f, n), a == list(range(n)) and v == [3 * k for k in range(n)], '%s, %s' % (a, v), 'VirtualIterator')
    for n in (0, 1, 0xfffffffe):
        with c.part('ends %d' % n):
            s = sess()
            c.ob('begin and end of %d values' % n, s.c.cval(s.run('same_end', [s.const(n, 64), s.const(0, 64)])[1]) == 1, 'differ', 'VirtualIterator')
    # resampling
    s0 = sess()
    kinds = [s0.c.cval(s0.run('ut', [s0.const(i, 32)])[1]) for i in range(4)]
    for k, name in list(zip(kinds, ('None', 'Add', 'Mul', 'Madd'))) + [(77, 'an unknown type')]:
        for n in NS:
            key = 'Resample %s, %d values' % (name, n)
            with c.part(key):
                s = sess()
                s.buf('B')
                s.buf('V')
                m, _ = s.run('resample', [s.const(k, 32), Ptr('B'), Ptr('V'), s.const(n, 64)])
                seen.update(s.it.visited)
                if m is None:
                    c.ob(key, False, 'throws', 'PrimitiveDescriptor::Resample')
                    continue
                fa = FAlg(s.c)
                bad = ''
                for j in range(n):
                    for l in range(4):
                        x, lo, hi = (fa.poly(Word(s.inbits(b, o, 4))) for b, o in (('V', 16 * j + 4 * l), ('B', 4 * l), ('B', 16 + 4 * l)))
                        want = {'Add': lambda: fa.padd(x, lo), 'Mul': lambda: fa.pmul(x, lo), 'Madd': lambda: fa.padd(hi, fa.pmul(x, lo))}.get(name, lambda: x)()
                        got = fa.poly(Word(s.outbits('V', 16 * j + 4 * l, 4)))
                        if got != want:
                            bad = bad or 'component %d of value %d' % (l, j)
                c.ob(key, not bad, bad, 'PrimitiveDescriptor::Resample')
                sz = [s.c.cval(x[2]) for x in s.log if x[0] == 'item']
                c.ob(key + ': number of values', sz == [n], sz, 'PrimitiveDescriptor::Resample')
    with c.part('codec'):
        s = sess()
        got = []

        def get(it, dem, i, args, mem):
            p = it.ptr(args[0])
            got.append(it.load(mem, p, ['i', 32], i))
            return Ptr('codec')
        s.it.models.append((re.compile(r'^uni::FormatCodec::Get\('), get))
        f = s.arg('format', 32)
        m, r = s.run('codec', [f])
        ok, d = s.cmp(list(got[0]), list(f)) if len(got) == 1 else (False, '%d calls' % len(got))
        c.ob('Codec is that of Type', ok and s.it.ptr(r) == Ptr('codec'), d, 'PrimitiveDescriptor::Codec')
    with c.part('rts'):
        s = sess()
        s.buf('O')
        s.run('rts', [Ptr('O')])
        fa = FAlg(s.c)
        got = [fa.poly(Word(s.outbits('O', 4 * k, 4))) for k in range(12)]
        want = [fa.pconst(x) for x in (0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0)]
        c.ob('a new RTSValue is the identity', got == want, 'differs', 'RTSValue')
        s = sess()
        s.buf('O')
        s.buf('V')
        s.run('rts3', [Ptr('O'), Ptr('V')])
        ok, d = s.cmp(s.outbits('O', 0, 48), s.inbits('V', 0, 48))
        c.ob('RTSValue of three vectors', ok, d, 'RTSValue')
        s = sess()
        s.buf('A')
        s.buf('V')
        e, n, a = (s.run(f, [Ptr('A'), Ptr('V')])[1][0] for f in ('rts_eq', 'rts_ne', 'rts_and'))
        c.ob('RTSValues are equal if all parts are', s.c.same(e, a) and s.c.dep_count(e) if hasattr(s.c, 'dep_count') else s.c.same(e, a), 'differs', 'RTSValue::operator==')
        c.ob('RTSValues differ if they are not equal', s.c.same(n, a ^ 1), 'differs', 'RTSValue::operator!=')
        deps = s.c.deps(a)
        c.ob('RTSValue compares all parts', len({(t, i // 32) for t, i in deps}) >= 18 if all(s.c.terms[t][0] == 'in' for t, _ in deps) else len(deps) > 0, 'only %d bits' % len(deps), 'RTSValue::operator==')
    # defaults that throw
    tms = [s0.c.cval(s0.run('tm', [s0.const(i, 32)])[1]) for i in range(2)]
    tts = [s0.c.cval(s0.run('tt', [s0.const(i, 32)])[1]) for i in range(6)]
    LOGIC = {'bone_rts': {tms[0]}, 'bone_mtx': {tms[1]}, 'skin_rts': {tms[0]}, 'skin_mtx': {tms[1]}, 'track_rts': {tts[4]}, 'track_mtx': {tts[3]}, 'track_vec': set(tts[:3]), 'track_flt': {tts[5]}}
    for f, own in LOGIC.items():
        for t in (tms if f[:5] != 'track' else tts):
            key = '%s for type %d' % (f, t)
            with c.part(key):
                s = sess()
                s.buf('O')
                m, _ = s.run(f, [s.const(t, 32), Ptr('O')])
                seen.update(s.it.visited)
                th = [x for _, _, x in s.it.thrown]
                want = '_ZTISt11logic_error' if t in own else '_ZTISt13runtime_error'
                c.ob(key + (' is an unhandled call' if t in own else ' is an unsupported call'), m is None and th == [want], 'throws %s' % th if th else 'returns', 'uni/internal/exception.hpp')
    with c.part('frame rate'):
        s = sess()
        s.buf('O')
        m, _ = s.run('framerate', [s.const(30, 32), Ptr('O')])
        th = [x for _, _, x in s.it.thrown]
        c.ob('setting the frame rate throws ModifyError', m is None and th == ['_ZTIN3uni11ModifyErrorE'], th or 'returns', 'Motion::FrameRate')
        c.ob('ModifyError is a runtime_error', s.c.cval(s.run('modify_is_runtime')[1]) == 1, 'it is not', 'ModifyError')
    c.unit('U02', mod, seen)
