/* Stub of the Python C API: declarations only, every API entry is a plain call
 * so that the analyser sees calls rather than the expansion of the macros. */
#ifndef VERIF_STUB_PYTHON_H
#define VERIF_STUB_PYTHON_H
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <limits.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
typedef ptrdiff_t Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt_; } PyObject;
typedef struct _typeobject PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef { int m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject*
#define Py_UNUSED(x) x
extern PyObject *PyExc_ValueError, *PyExc_MemoryError, *PyExc_RuntimeError, *PyExc_TypeError,
  *PyExc_IndexError, *PyExc_KeyError, *PyExc_OverflowError, *PyExc_Exception, *PyExc_OSError, *PyExc_IOError,
  *PyExc_SystemError, *PyExc_ArithmeticError, *PyExc_ImportError, *PyExc_AttributeError, *PyExc_NotImplementedError;
extern PyObject verif_none;
#define Py_None (&verif_none)
#define Py_True (&verif_none)
#define Py_False (&verif_none)
void Py_INCREF_(PyObject *); void Py_DECREF_(PyObject *); void Py_XINCREF_(PyObject *); void Py_XDECREF_(PyObject *);
#define Py_INCREF(o) Py_INCREF_((PyObject*)(o))
#define Py_DECREF(o) Py_DECREF_((PyObject*)(o))
#define Py_XINCREF(o) Py_XINCREF_((PyObject*)(o))
#define Py_XDECREF(o) Py_XDECREF_((PyObject*)(o))
#define Py_CLEAR(o) do { PyObject *t_ = (PyObject*)(o); (o) = NULL; Py_XDECREF_(t_); } while (0)
PyObject *Py_NewRef(PyObject *); PyObject *Py_XNewRef(PyObject *);
#define Py_RETURN_NONE return Py_NewRef(Py_None)
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *PyErr_Format(PyObject *, const char *, ...);
void PyErr_SetString(PyObject *, const char *);
void PyErr_SetNone(PyObject *);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
void PyErr_Print(void);
PyObject *PyErr_NewException(const char *, PyObject *, PyObject *);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t); Py_ssize_t PyTuple_Size(PyObject *); int PyTuple_Check(PyObject *);
PyObject *PyTuple_Pack(Py_ssize_t, ...); PyObject *PyTuple_New(Py_ssize_t); int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
#define PyTuple_GET_ITEM PyTuple_GetItem
#define PyTuple_GET_SIZE PyTuple_Size
PyObject *PyList_GetItem(PyObject *, Py_ssize_t); Py_ssize_t PyList_Size(PyObject *); int PyList_Check(PyObject *);
#define PyList_GET_ITEM PyList_GetItem
#define PyList_GET_SIZE PyList_Size
int PyLong_Check(PyObject *); long PyLong_AsLong(PyObject *); PyObject *PyLong_FromLong(long);
Py_ssize_t PyLong_AsSsize_t(PyObject *); long long PyLong_AsLongLong(PyObject *); int PyLong_AsInt(PyObject *);
int PyFloat_Check(PyObject *); double PyFloat_AsDouble(PyObject *); PyObject *PyFloat_FromDouble(double);
PyObject *PyUnicode_FromString(const char *); int PyUnicode_Check(PyObject *); const char *PyUnicode_AsUTF8(PyObject *);
int PyBool_Check(PyObject *); PyObject *PyBool_FromLong(long);
int PyObject_IsTrue(PyObject *); int PyObject_Not(PyObject *);
int PyCallable_Check(PyObject *);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyModule_Create(PyModuleDef *); PyObject *PyModule_GetDict(PyObject *);
int PyDict_SetItemString(PyObject *, const char *, PyObject *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
int PyModule_AddIntConstant(PyObject *, const char *, long);
int PyModule_AddStringConstant(PyObject *, const char *, const char *);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void *PyMem_Realloc(void *, size_t); void PyMem_Free(void *);
void *PyMem_RawMalloc(size_t); void PyMem_RawFree(void *);
typedef struct verif_ts PyThreadState;
PyThreadState *PyEval_SaveThread(void); void PyEval_RestoreThread(PyThreadState *);
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
#endif
