/* declarations of the part of the Python 2.7 C API that the bindings use: layouts and macros are those of 2.7, functions are models */
#pragma once
#define PY_MAJOR_VERSION 2
#define PY_MINOR_VERSION 7
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
extern "C" {
typedef ssize_t Py_ssize_t;
struct _typeobject;
typedef struct _object { Py_ssize_t ob_refcnt; struct _typeobject *ob_type; } PyObject;
typedef struct { Py_ssize_t ob_refcnt; struct _typeobject *ob_type; Py_ssize_t ob_size; } PyVarObject;
#define PyObject_HEAD Py_ssize_t ob_refcnt; struct _typeobject *ob_type;
#define PyObject_VAR_HEAD PyObject_HEAD Py_ssize_t ob_size;
#define PyObject_HEAD_INIT(type) 1, type,
#define PyVarObject_HEAD_INIT(type, size) PyObject_HEAD_INIT(type) size,
#define Py_REFCNT(ob) (((PyObject *)(ob))->ob_refcnt)
#define Py_TYPE(ob) (((PyObject *)(ob))->ob_type)
#define Py_SIZE(ob) (((PyVarObject *)(ob))->ob_size)
typedef PyObject *(*unaryfunc)(PyObject *);
typedef PyObject *(*binaryfunc)(PyObject *, PyObject *);
typedef PyObject *(*ternaryfunc)(PyObject *, PyObject *, PyObject *);
typedef Py_ssize_t (*lenfunc)(PyObject *);
typedef int (*objobjargproc)(PyObject *, PyObject *, PyObject *);
typedef int (*visitproc)(PyObject *, void *);
typedef int (*traverseproc)(PyObject *, visitproc, void *);
typedef int (*inquiry)(PyObject *);
typedef void (*freefunc)(void *);
typedef void (*destructor)(PyObject *);
typedef int (*printfunc)(PyObject *, FILE *, int);
typedef PyObject *(*getattrfunc)(PyObject *, char *);
typedef PyObject *(*getattrofunc)(PyObject *, PyObject *);
typedef int (*setattrfunc)(PyObject *, char *, PyObject *);
typedef int (*setattrofunc)(PyObject *, PyObject *, PyObject *);
typedef int (*cmpfunc)(PyObject *, PyObject *);
typedef PyObject *(*reprfunc)(PyObject *);
typedef long (*hashfunc)(PyObject *);
typedef PyObject *(*richcmpfunc)(PyObject *, PyObject *, int);
typedef PyObject *(*getiterfunc)(PyObject *);
typedef PyObject *(*iternextfunc)(PyObject *);
typedef PyObject *(*descrgetfunc)(PyObject *, PyObject *, PyObject *);
typedef int (*descrsetfunc)(PyObject *, PyObject *, PyObject *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*newfunc)(struct _typeobject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(struct _typeobject *, Py_ssize_t);
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*getter)(PyObject *, void *);
typedef int (*setter)(PyObject *, PyObject *, void *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyGetSetDef { char *name; getter get; setter set; char *doc; void *closure; } PyGetSetDef;
typedef struct PyMemberDef { char *name; int type; Py_ssize_t offset; int flags; char *doc; } PyMemberDef;
typedef struct { lenfunc mp_length; binaryfunc mp_subscript; objobjargproc mp_ass_subscript; } PyMappingMethods;
typedef struct _typeobject {
  PyObject_VAR_HEAD
  const char *tp_name;
  Py_ssize_t tp_basicsize, tp_itemsize;
  destructor tp_dealloc;
  printfunc tp_print;
  getattrfunc tp_getattr;
  setattrfunc tp_setattr;
  cmpfunc tp_compare;
  reprfunc tp_repr;
  void *tp_as_number;
  void *tp_as_sequence;
  PyMappingMethods *tp_as_mapping;
  hashfunc tp_hash;
  ternaryfunc tp_call;
  reprfunc tp_str;
  getattrofunc tp_getattro;
  setattrofunc tp_setattro;
  void *tp_as_buffer;
  long tp_flags;
  const char *tp_doc;
  traverseproc tp_traverse;
  inquiry tp_clear;
  richcmpfunc tp_richcompare;
  Py_ssize_t tp_weaklistoffset;
  getiterfunc tp_iter;
  iternextfunc tp_iternext;
  PyMethodDef *tp_methods;
  PyMemberDef *tp_members;
  PyGetSetDef *tp_getset;
  struct _typeobject *tp_base;
  PyObject *tp_dict;
  descrgetfunc tp_descr_get;
  descrsetfunc tp_descr_set;
  Py_ssize_t tp_dictoffset;
  initproc tp_init;
  allocfunc tp_alloc;
  newfunc tp_new;
  freefunc tp_free;
  inquiry tp_is_gc;
  PyObject *tp_bases;
  PyObject *tp_mro;
  PyObject *tp_cache;
  PyObject *tp_subclasses;
  PyObject *tp_weaklist;
  destructor tp_del;
  unsigned int tp_version_tag;
} PyTypeObject;
typedef struct { PyObject_VAR_HEAD PyObject **ob_item; Py_ssize_t allocated; } PyListObject;
#define METH_VARARGS 0x0001
#define METH_KEYWORDS 0x0002
#define METH_NOARGS 0x0004
#define METH_O 0x0008
#define Py_TPFLAGS_HAVE_CLASS (1L << 8)
#define Py_TPFLAGS_BASETYPE (1L << 10)
#define Py_TPFLAGS_HAVE_RICHCOMPARE (1L << 5)
#define Py_TPFLAGS_HAVE_WEAKREFS (1L << 6)
#define Py_TPFLAGS_HAVE_ITER (1L << 7)
#define Py_TPFLAGS_IS_ABSTRACT (1L << 20)
#define Py_TPFLAGS_DEFAULT ((1L << 0) | (1L << 1) | (1L << 3) | (1L << 5) | (1L << 6) | (1L << 7) | (1L << 8) | (1L << 17))
extern PyObject _Py_NoneStruct;
#define Py_None (&_Py_NoneStruct)
void _Py_Dealloc(PyObject *);
#define Py_INCREF(op) (((PyObject *)(op))->ob_refcnt++)
#define Py_DECREF(op) do { if (--((PyObject *)(op))->ob_refcnt == 0) _Py_Dealloc((PyObject *)(op)); } while (0)
#define Py_XINCREF(op) do { if ((op) != NULL) Py_INCREF(op); } while (0)
#define Py_XDECREF(op) do { if ((op) != NULL) Py_DECREF(op); } while (0)
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None
extern PyTypeObject PyList_Type, PyTuple_Type, PyFloat_Type, PyInt_Type, PyLong_Type, PyString_Type;
extern PyObject *PyExc_StopIteration, *PyExc_IndexError, *PyExc_AttributeError, *PyExc_TypeError, *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_SystemError, *PyExc_OverflowError, *PyExc_KeyError, *PyExc_NotImplementedError;
void Py_IncRef(PyObject *);
void Py_DecRef(PyObject *);
PyObject *PyType_GenericAlloc(PyTypeObject *, Py_ssize_t);
PyObject *PyType_GenericNew(PyTypeObject *, PyObject *, PyObject *);
int PyType_Ready(PyTypeObject *);
int PyType_IsSubtype(PyTypeObject *, PyTypeObject *);
#define PyObject_TypeCheck(ob, tp) (Py_TYPE(ob) == (tp) || PyType_IsSubtype(Py_TYPE(ob), (tp)))
int PyModule_AddObject(PyObject *, const char *, PyObject *);
void PyObject_Free(void *);
#define PyObject_Del PyObject_Free
#define PyObject_FREE PyObject_Free
#define PyObject_DEL PyObject_Free
PyObject *PyObject_Init(PyObject *, PyTypeObject *);
PyObject *PyObject_SelfIter(PyObject *);
PyObject *Py_BuildValue(const char *, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *PyString_FromStringAndSize(const char *, Py_ssize_t);
PyObject *PyString_FromString(const char *);
PyObject *PyInt_FromSize_t(size_t);
PyObject *PyInt_FromSsize_t(Py_ssize_t);
PyObject *PyInt_FromLong(long);
PyObject *PyLong_FromSize_t(size_t);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromUnsignedLong(unsigned long);
PyObject *PyFloat_FromDouble(double);
Py_ssize_t PyInt_AsSsize_t(PyObject *);
long PyInt_AsLong(PyObject *);
long PyLong_AsLong(PyObject *);
unsigned long PyLong_AsUnsignedLong(PyObject *);
double PyFloat_AsDouble(PyObject *);
PyObject *PyList_New(Py_ssize_t);
Py_ssize_t PyList_Size(PyObject *);
PyObject *PyList_GetItem(PyObject *, Py_ssize_t);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *);
#define PyList_GET_SIZE(op) Py_SIZE(op)
#define PyList_GET_ITEM(op, i) (((PyListObject *)(op))->ob_item[i])
#define PyList_SET_ITEM(op, i, v) (((PyListObject *)(op))->ob_item[i] = (v))
void PyErr_SetString(PyObject *, const char *);
void PyErr_SetNone(PyObject *);
void PyErr_SetObject(PyObject *, PyObject *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
PyObject *PyErr_NoMemory(void);
int PyErr_ExceptionMatches(PyObject *);
int PyErr_BadArgument(void);
PyObject *PyTuple_New(Py_ssize_t);
Py_ssize_t PyTuple_Size(PyObject *);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
#define PyTuple_GET_SIZE(op) Py_SIZE(op)
#define PyTuple_GET_ITEM(op, i) PyTuple_GetItem((PyObject *)(op), (i))
#define PyTuple_SET_ITEM(op, i, v) PyTuple_SetItem((PyObject *)(op), (i), (v))
int PyList_Append(PyObject *, PyObject *);
PyObject *PyLong_FromUnsignedLongLong(unsigned long long);
PyObject *PyLong_FromLongLong(long long);
Py_ssize_t PyLong_AsSsize_t(PyObject *);
Py_ssize_t PyNumber_AsSsize_t(PyObject *, PyObject *);
#define Py_CLEAR(op) do { if (op) { PyObject *_py_tmp = (PyObject *)(op); (op) = NULL; Py_DECREF(_py_tmp); } } while (0)
#define PyList_Check(op) (Py_TYPE(op) == &PyList_Type)
#define PyTuple_Check(op) (Py_TYPE(op) == &PyTuple_Type)
#define PyFloat_Check(op) (Py_TYPE(op) == &PyFloat_Type)
#define PyInt_Check(op) (Py_TYPE(op) == &PyInt_Type)
#define PyLong_Check(op) (Py_TYPE(op) == &PyLong_Type)
#define PyString_Check(op) (Py_TYPE(op) == &PyString_Type)
#define PyNumber_Check(op) (PyFloat_Check(op) || PyInt_Check(op) || PyLong_Check(op))
#define PyFloat_AS_DOUBLE(op) PyFloat_AsDouble((PyObject *)(op))
#define PyInt_AS_LONG(op) PyInt_AsLong((PyObject *)(op))
}
