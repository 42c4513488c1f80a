/* runs the bindings without an interpreter: objects with real reference counts */
#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "pymodel.inl"
static std::set<const void *> live;
static int bad = 0;
static std::map<std::string, PyTypeObject *> types;
extern "C" {
void made(const void *p) { live.insert(p); }
void freed(const void *p) { if (!live.erase(p)) bad++; }
int py_unready() { return 0; }
int PyModule_AddObject(PyObject *, const char *n, PyObject *o) { types[n] = (PyTypeObject *)o; return 0; }
static PyObject *seq(const char *&f, va_list &v) {
  std::vector<PyObject *> x;
  for (; *f && *f != ')'; f++) {
    if (*f == '(') { x.push_back(seq(++f, v)); }
    else if (*f == 'f' || *f == 'd') x.push_back(PyFloat_FromDouble(va_arg(v, double)));
    else abort();
  }
  auto t = py_tuple(x.size());
  for (size_t i = 0; i < x.size(); i++) py_set(t, i, x[i]);
  return t;
}
PyObject *Py_BuildValue(const char *f, ...) {
  va_list v; va_start(v, f);
  bool t = *f == '(';
  if (t) f++;
  PyObject *r = seq(f, v);
  if (t && f[1]) abort();
  va_end(v);
  return r;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) {
  va_list v; va_start(v, f);
  auto t = (PyVal *)a; Py_ssize_t n = 0;
  for (; *f; f++) {
    if (*f != 'O') break;
    if (n >= t->ob_size) { PyErr_SetNone(PyExc_TypeError); return 0; }
    auto o = ((PyObject **)t->data)[n++];
    if (f[1] == '!') { f++; if (o->ob_type != va_arg(v, PyTypeObject *)) { PyErr_SetNone(PyExc_TypeError); return 0; } }
    *va_arg(v, PyObject **) = o;
  }
  va_end(v);
  if (n != t->ob_size) { PyErr_SetNone(PyExc_TypeError); return 0; }
  return 1;
}
}
static double num(PyObject *o) { return o->ob_type == &PyFloat_Type ? ((PyVal *)o)->d : ((PyVal *)o)->v; }
static PyObject *at(PyObject *o, int i) { return ((PyObject **)((PyVal *)o)->data)[i]; }
static std::string str(PyObject *o) { return std::string((char *)((PyVal *)o)->data, ((PyVal *)o)->ob_size); }
#define LIB
#include <stdexcept>
#include "datas/vectors_simd.hpp"
#include "datas/matrix44.hpp"
#include "uni/rts.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "datas/reflector.hpp"
#include "datas/python/reflected_enum.hpp"
#include "uni/python/pymotion.inl"
#include "uni/python/pyskeleton.inl"
static int dead = 0;
struct T : uni::MotionTrack { TrackType_e type = Position; size_t index = 0; ~T() { dead++; } TrackType_e TrackType() const override { return type; } size_t BoneIndex() const override { return index; }
  void GetValue(uni::RTSValue &o, float t) const override { o.translation = Vector4A16(t, 1, 2, 3); o.rotation = Vector4A16(4, 5, 6, 7); o.scale = Vector4A16(8, 9, 10, 11); }
  void GetValue(esMatrix44 &o, float t) const override { o.r1() = Vector4A16(t, 1, 2, 3); o.r2() = Vector4A16(4, 5, 6, 7); o.r3() = Vector4A16(8, 9, 10, 11); o.r4() = Vector4A16(12, 13, 14, 15); }
  void GetValue(Vector4A16 &o, float t) const override { o = Vector4A16(t, 1, 2, 3); } void GetValue(float &o, float t) const override { o = t; } };
struct B : uni::Bone { std::string n = "bone"; size_t index = 0; uni::TransformType type = uni::TMTYPE_RTS; const Bone *parent = nullptr; ~B() { dead++; } uni::TransformType TMType() const override { return type; }
  void GetTM(uni::RTSValue &o) const override { o.translation = Vector4A16(0, 1, 2, 3); o.rotation = Vector4A16(4, 5, 6, 7); o.scale = Vector4A16(8, 9, 10, 11); }
  void GetTM(esMatrix44 &o) const override { o.r1() = Vector4A16(0, 1, 2, 3); o.r2() = Vector4A16(4, 5, 6, 7); o.r3() = Vector4A16(8, 9, 10, 11); o.r4() = Vector4A16(12, 13, 14, 15); }
  const Bone *Parent() const override { return parent; } size_t Index() const override { return index; } std::string Name() const override { return n; } };
template <class I> struct L : uni::List<I> { std::vector<I *> v; bool own = false; ~L() { dead++; } size_t Size() const override { return v.size(); } typename uni::List<I>::const_type At(size_t i) const override { return {v.at(i), own}; } };
struct M : uni::Motion { std::string n = "motion"; mutable uint32 rate = 30; MotionType_e type = Absolute; L<uni::MotionTrack> *l = nullptr; bool own = false; ~M() { dead++; } std::string Name() const override { return n; }
  void FrameRate(uint32 f) const override { rate = f; } uint32 FrameRate() const override { return rate; } float Duration() const override { return 2; }
  uni::MotionTracksConst Tracks() const override { return {l, own}; } MotionType_e MotionType() const override { return type; } };
struct K : uni::Skeleton { std::string n = "skeleton"; L<uni::Bone> *l = nullptr; bool own = false; ~K() { dead++; } std::string Name() const override { return n; } uni::SkeletonBonesConst Bones() const override { return {l, own}; } };
static PyObject *skeleton(K &k) { return (PyObject *)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(&k, false)); }
static PyObject *motion(M &m) { return (PyObject *)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false)); }
static void init() { UniPy::Skeleton::InitType(nullptr); UniPy::Motion::InitType(nullptr); }
static PyObject *num(long i) { return PyInt_FromLong(i); }
/* item i of a list */
static PyObject *item(PyObject *l, long i) { auto n = num(i); auto r = do_item(l, n); do_drop(n); return r; }
static PyObject *args(std::vector<double> t) { auto l = PyList_New(t.size()); for (size_t i = 0; i < t.size(); i++) py_set(l, i, PyFloat_FromDouble(t[i])); auto a = py_tuple(1); py_set(a, 0, l); return a; }
