/* what the part of Python 2.7 declared in py2/Python.h does, for analysis of code that uses it */
#include <Python.h>
#include <new>
extern "C" {
void made(const void *);
void freed(const void *);
void gone(const void *);
void asked(size_t);
struct PyVal { PyObject_VAR_HEAD void *data; union { long v; double d; }; };
static PyObject *py_error;
static PyTypeObject py_type;
static void object_dealloc(PyObject *o) { o->ob_type->tp_free(o); }
static void val_dealloc(PyObject *o) {
  PyVal *v = (PyVal *)o;
  if (o->ob_type == &PyTuple_Type || o->ob_type == &PyList_Type)
    for (Py_ssize_t i = 0; i < v->ob_size; i++)
      Py_XDECREF(((PyObject **)v->data)[i]);
  if (v->data)
    ::operator delete(v->data);
  PyObject_Free(o);
}
#define PYTYPE(n, s) PyTypeObject n = {1, &py_type, 0, s, sizeof(PyVal), 0, val_dealloc};
PYTYPE(PyList_Type, "list") PYTYPE(PyTuple_Type, "tuple") PYTYPE(PyFloat_Type, "float") PYTYPE(PyInt_Type, "int") PYTYPE(PyLong_Type, "long") PYTYPE(PyString_Type, "str")
PyObject _Py_NoneStruct = {1000, &py_type};
static PyObject py_exc[10];
PyObject *PyExc_StopIteration = py_exc + 0, *PyExc_IndexError = py_exc + 1, *PyExc_AttributeError = py_exc + 2, *PyExc_TypeError = py_exc + 3, *PyExc_ValueError = py_exc + 4, *PyExc_RuntimeError = py_exc + 5, *PyExc_SystemError = py_exc + 6,
         *PyExc_OverflowError = py_exc + 7, *PyExc_KeyError = py_exc + 8, *PyExc_NotImplementedError = py_exc + 9;
void _Py_Dealloc(PyObject *o) { o->ob_type->tp_dealloc(o); }
void Py_IncRef(PyObject *o) { Py_XINCREF(o); }
void Py_DecRef(PyObject *o) { Py_XDECREF(o); }
PyObject *PyObject_SelfIter(PyObject *o) { Py_INCREF(o); return o; }
static PyVal *py_new(PyTypeObject *t, size_t size) { void *p = ::operator new(size); memset(p, 0, size); made(p); PyVal *v = (PyVal *)p; v->ob_refcnt = 1; v->ob_type = t; return v; }
PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t) { return (PyObject *)py_new(t, t->tp_basicsize); }
PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
int py_unready();
int PyType_Ready(PyTypeObject *t) {
  if (py_unready())
    return -1;
  if (!t->tp_alloc)
    t->tp_alloc = PyType_GenericAlloc;
  if (!t->tp_free)
    t->tp_free = PyObject_Free;
  if (!t->tp_dealloc)
    t->tp_dealloc = object_dealloc;
  return 0;
}
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b; }
void PyObject_Free(void *p) { freed(p); ::operator delete(p); }
PyObject *PyInt_FromLong(long v) { auto r = py_new(&PyInt_Type, sizeof(PyVal)); r->v = v; return (PyObject *)r; }
PyObject *PyInt_FromSize_t(size_t v) { return PyInt_FromLong(v); }
PyObject *PyInt_FromSsize_t(Py_ssize_t v) { return PyInt_FromLong(v); }
PyObject *PyLong_FromSize_t(size_t v) { return PyInt_FromLong(v); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return PyInt_FromLong(v); }
PyObject *PyLong_FromLong(long v) { return PyInt_FromLong(v); }
PyObject *PyLong_FromUnsignedLong(unsigned long v) { return PyInt_FromLong(v); }
PyObject *PyFloat_FromDouble(double d) { auto r = py_new(&PyFloat_Type, sizeof(PyVal)); r->d = d; return (PyObject *)r; }
PyObject *PyString_FromStringAndSize(const char *s, Py_ssize_t n) { auto r = py_new(&PyString_Type, sizeof(PyVal)); char *p = (char *)::operator new(n + 1); memcpy(p, s, n); p[n] = 0; r->data = p; r->ob_size = n; return (PyObject *)r; }
PyObject *PyString_FromString(const char *s) { return PyString_FromStringAndSize(s, strlen(s)); }
static PyVal *py_seq(PyTypeObject *t, Py_ssize_t n) { auto r = py_new(t, sizeof(PyVal)); r->data = ::operator new(n * sizeof(PyObject *) + 1); memset(r->data, 0, n * sizeof(PyObject *)); r->ob_size = n; return r; }
PyObject *PyList_New(Py_ssize_t n) { return (PyObject *)py_seq(&PyList_Type, n); }
PyObject *py_tuple(Py_ssize_t n) { return (PyObject *)py_seq(&PyTuple_Type, n); }
void py_set(PyObject *o, Py_ssize_t i, PyObject *v) { ((PyObject **)((PyVal *)o)->data)[i] = v; }
Py_ssize_t PyList_Size(PyObject *o) { return ((PyVal *)o)->ob_size; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { if ((size_t)i >= (size_t)((PyVal *)o)->ob_size) { PyErr_SetNone(PyExc_IndexError); return NULL; } return ((PyObject **)((PyVal *)o)->data)[i]; }
int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) {
  if ((size_t)i >= (size_t)((PyVal *)o)->ob_size) { Py_XDECREF(v); PyErr_SetNone(PyExc_IndexError); return -1; }
  PyObject **p = (PyObject **)((PyVal *)o)->data + i; PyObject *old = *p; *p = v; Py_XDECREF(old); return 0;
}
void PyErr_SetNone(PyObject *e) { py_error = e; }
void PyErr_SetString(PyObject *e, const char *s) { py_error = e; }
void PyErr_SetObject(PyObject *e, PyObject *) { py_error = e; }
PyObject *PyErr_Occurred(void) { return py_error; }
void PyErr_Clear(void) { py_error = NULL; }
PyObject *PyErr_NoMemory(void) { py_error = PyExc_RuntimeError; return NULL; }
static bool py_int(PyObject *o) { if (o && (o->ob_type == &PyInt_Type || o->ob_type == &PyLong_Type)) return true; py_error = o ? PyExc_TypeError : PyExc_SystemError; return false; }
long PyLong_AsLong(PyObject *o) { return py_int(o) ? ((PyVal *)o)->v : -1; }
long PyInt_AsLong(PyObject *o) { return PyLong_AsLong(o); }
unsigned long PyLong_AsUnsignedLong(PyObject *o) { return PyLong_AsLong(o); }
Py_ssize_t PyInt_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
double PyFloat_AsDouble(PyObject *o) { if (o && o->ob_type == &PyFloat_Type) return ((PyVal *)o)->d; return py_int(o) ? (double)((PyVal *)o)->v : -1.; }
PyObject *PyErr_Format(PyObject *e, const char *, ...) { py_error = e; return NULL; }
int PyErr_ExceptionMatches(PyObject *e) { return py_error == e; }
int PyErr_BadArgument(void) { py_error = PyExc_TypeError; return 0; }
PyObject *PyTuple_New(Py_ssize_t n) { return py_tuple(n); }
Py_ssize_t PyTuple_Size(PyObject *o) { return PyList_Size(o); }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { return PyList_GetItem(o, i); }
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { return PyList_SetItem(o, i, v); }
int PyList_Append(PyObject *o, PyObject *v) {
  PyVal *l = (PyVal *)o; void *d = ::operator new((l->ob_size + 1) * sizeof(PyObject *) + 1); memcpy(d, l->data, l->ob_size * sizeof(PyObject *)); ::operator delete(l->data);
  l->data = d; Py_INCREF(v); ((PyObject **)d)[l->ob_size++] = v; return 0;
}
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return PyInt_FromLong(v); }
PyObject *PyLong_FromLongLong(long long v) { return PyInt_FromLong(v); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
Py_ssize_t PyNumber_AsSsize_t(PyObject *o, PyObject *) { return PyLong_AsLong(o); }
PyObject *PyObject_Init(PyObject *o, PyTypeObject *t) { o->ob_type = t; o->ob_refcnt = 1; return o; }
/* what the interpreter does with objects */
PyObject *do_attr(PyObject *o, const char *n) {
  auto t = o->ob_type;
  if (t->tp_getattr)
    return t->tp_getattr(o, (char *)n);
  for (auto g = t->tp_getset; g && g->name; g++)
    if (!strcmp(g->name, n))
      return g->get(o, g->closure);
  PyErr_SetNone(PyExc_AttributeError);
  return NULL;
}
int do_setattr(PyObject *o, const char *n, PyObject *v) {
  for (auto g = o->ob_type->tp_getset; g && g->name; g++)
    if (!strcmp(g->name, n) && g->set)
      return g->set(o, v, g->closure);
  PyErr_SetNone(PyExc_AttributeError);
  return -1;
}
PyObject *do_call(PyObject *o, const char *n, PyObject *args) {
  for (auto g = o->ob_type->tp_methods; g && g->ml_name; g++)
    if (!strcmp(g->ml_name, n) && g->ml_flags == METH_VARARGS)
      return g->ml_meth(o, args);
  PyErr_SetNone(PyExc_AttributeError);
  return NULL;
}
Py_ssize_t do_len(PyObject *o) { return o->ob_type->tp_as_mapping->mp_length(o); }
PyObject *do_item(PyObject *o, PyObject *i) { return o->ob_type->tp_as_mapping->mp_subscript(o, i); }
PyObject *do_iter(PyObject *o) { return o->ob_type->tp_iter(o); }
PyObject *do_next(PyObject *o) { return o->ob_type->tp_iternext(o); }
int do_compare(PyObject *a, PyObject *b) { return a->ob_type->tp_compare(a, b); }
PyObject *do_new(PyTypeObject *t) { return t->tp_new(t, NULL, NULL); }
void do_drop(PyObject *o) { Py_DECREF(o); }
Py_ssize_t do_refs(PyObject *o) { return o->ob_refcnt; }
PyTypeObject *do_type(PyObject *o) { return o->ob_type; }
PyObject *do_error(void) { auto e = py_error; py_error = NULL; return e; }
bool do_is_none(PyObject *o) { return o == Py_None; }
}
