#ifndef VERIF_STUB_NUMPY_H
#define VERIF_STUB_NUMPY_H
#include <Python.h>
typedef Py_ssize_t npy_intp; typedef size_t npy_uintp;
typedef double npy_double; typedef int npy_int32; typedef int npy_int; typedef long npy_int64; typedef unsigned char npy_bool;
typedef double npy_float64;
typedef struct verif_ndarray { PyObject ob_base; } PyArrayObject;
typedef struct verif_descr { PyObject ob_base; } PyArray_Descr;
extern PyTypeObject PyArray_Type;
enum { NPY_BOOL=0, NPY_INT=5, NPY_INT32=5, NPY_LONG=7, NPY_INT64=7, NPY_INTP=7, NPY_DOUBLE=12, NPY_FLOAT64=12 };
#define NPY_ARRAY_C_CONTIGUOUS 0x1
#define NPY_ARRAY_F_CONTIGUOUS 0x2
#define NPY_ARRAY_OWNDATA 0x4
#define NPY_ARRAY_FORCECAST 0x10
#define NPY_ARRAY_ENSURECOPY 0x20
#define NPY_ARRAY_ENSUREARRAY 0x40
#define NPY_ARRAY_ALIGNED 0x100
#define NPY_ARRAY_NOTSWAPPED 0x200
#define NPY_ARRAY_WRITEABLE 0x400
#define NPY_ARRAY_WRITEBACKIFCOPY 0x2000
#define NPY_ARRAY_BEHAVED (NPY_ARRAY_ALIGNED|NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_CARRAY_RO (NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
#define NPY_ARRAY_OUT_ARRAY NPY_ARRAY_CARRAY
#define NPY_MAXDIMS 64
int PyArray_NDIM(const PyArrayObject *); npy_intp *PyArray_DIMS(const PyArrayObject *); npy_intp PyArray_DIM(const PyArrayObject *, int);
#define PyArray_SHAPE PyArray_DIMS
void *PyArray_DATA(const PyArrayObject *); char *PyArray_BYTES(const PyArrayObject *);
npy_intp *PyArray_STRIDES(const PyArrayObject *); npy_intp PyArray_STRIDE(const PyArrayObject *, int);
npy_intp PyArray_SIZE(const PyArrayObject *); npy_intp PyArray_Size(PyObject *);
npy_intp PyArray_ITEMSIZE(const PyArrayObject *); int PyArray_TYPE(const PyArrayObject *); int PyArray_FLAGS(const PyArrayObject *);
int PyArray_ISCONTIGUOUS(const PyArrayObject *); int PyArray_IS_C_CONTIGUOUS(const PyArrayObject *); int PyArray_Check(PyObject *);
PyObject *PyArray_EMPTY(int, const npy_intp *, int, int); PyObject *PyArray_ZEROS(int, const npy_intp *, int, int);
PyObject *PyArray_SimpleNew(int, const npy_intp *, int);
PyObject *PyArray_FromAny(PyObject *, PyArray_Descr *, int, int, int, PyObject *);
PyObject *PyArray_FROM_OTF(PyObject *, int, int); PyObject *PyArray_FROMANY(PyObject *, int, int, int, int);
PyObject *PyArray_ContiguousFromAny(PyObject *, int, int, int);
PyArray_Descr *PyArray_DescrFromType(int);
PyObject *PyArray_Return(PyArrayObject *);
void *PyArray_GETPTR1(const PyArrayObject *, npy_intp);
void *PyArray_GETPTR2(const PyArrayObject *, npy_intp, npy_intp);
int PyArray_ISCARRAY(const PyArrayObject *); int PyArray_ISCARRAY_RO(const PyArrayObject *);
int PyArray_ISFORTRAN(const PyArrayObject *); int PyArray_IS_F_CONTIGUOUS(const PyArrayObject *);
int PyArray_ISWRITEABLE(const PyArrayObject *); int PyArray_ISBEHAVED(const PyArrayObject *);
int PyArray_ISBEHAVED_RO(const PyArrayObject *); int PyArray_ISONESEGMENT(const PyArrayObject *);
int PyArray_ISALIGNED(const PyArrayObject *); int PyArray_CHKFLAGS(const PyArrayObject *, int);
int PyArray_SAMESHAPE(const PyArrayObject *, const PyArrayObject *);
int PyArray_CompareLists(const npy_intp *, const npy_intp *, int); npy_intp PyArray_MultiplyList(const npy_intp *, int);
PyObject *PyArray_NewCopy(PyArrayObject *, int); PyObject *PyArray_Copy(PyArrayObject *);
int PyArray_CopyInto(PyArrayObject *, PyArrayObject *); void PyArray_FILLWBYTE(PyArrayObject *, int);
int PyArray_IsZeroDim(PyObject *);
#define NPY_CORDER 0
#define NPY_ANYORDER (-1)
#define NPY_FORTRANORDER 1
#define NPY_KEEPORDER 2
void verif_import_array(void);
#define import_array() verif_import_array()
#define import_array1(x) verif_import_array()
#endif
