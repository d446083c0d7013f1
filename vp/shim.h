/* Included before the unit under analysis (-include): keeps the interpreter's
 * macros and inline functions visible as calls in the IR, so that the analysis
 * sees API operations instead of their CPython-version-specific expansion. */
#include "Python.h"
#include "structmember.h"
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#undef Py_CLEAR
#undef Py_SETREF
#undef Py_XSETREF
#undef Py_NewRef
#undef Py_XNewRef
#undef PyUnicode_KIND
#undef PyUnicode_DATA
#undef PyUnicode_READ
#undef PyUnicode_READ_CHAR
#undef PyUnicode_WRITE
#undef PyUnicode_GET_LENGTH
#undef PyUnicode_READY
#undef PyUnicode_MAX_CHAR_VALUE
#undef PyUnicode_Check
#undef PyUnicode_CheckExact
#undef PyUnicode_1BYTE_DATA
#undef PyUnicode_2BYTE_DATA
#undef PyUnicode_4BYTE_DATA
#undef PyLong_Check
#undef PyLong_CheckExact
#undef PyBool_Check
#undef PyList_SET_ITEM
#undef PyList_GET_ITEM
#undef PyList_GET_SIZE
#undef PyTuple_SET_ITEM
#undef PyTuple_GET_ITEM
#undef PyTuple_GET_SIZE
#undef Py_SIZE
#undef Py_TYPE
#undef PyObject_TypeCheck
extern void vp_INCREF(PyObject *);
extern void vp_DECREF(PyObject *);
extern void vp_XINCREF(PyObject *);
extern void vp_XDECREF(PyObject *);
extern void vp_CLEAR(PyObject **);
extern void vp_SETREF(PyObject **, PyObject *);
extern void vp_XSETREF(PyObject **, PyObject *);
extern PyObject *vp_NewRef(PyObject *);
extern PyObject *vp_XNewRef(PyObject *);
extern int vp_KIND(PyObject *);
extern void *vp_DATA(PyObject *);
extern Py_UCS4 vp_READ(int, const void *, Py_ssize_t);
extern Py_UCS4 vp_READ_CHAR(PyObject *, Py_ssize_t);
extern void vp_WRITE(int, void *, Py_ssize_t, Py_UCS4);
extern Py_ssize_t vp_GET_LENGTH(PyObject *);
extern int vp_READY(PyObject *);
extern Py_UCS4 vp_MAXCHAR(PyObject *);
extern int vp_IsUnicode(PyObject *);
extern int vp_IsLong(PyObject *);
extern int vp_IsBool(PyObject *);
extern void vp_ListSet(PyObject *, Py_ssize_t, PyObject *);
extern PyObject *vp_ListGet(PyObject *, Py_ssize_t);
extern Py_ssize_t vp_ListSize(PyObject *);
extern void vp_TupleSet(PyObject *, Py_ssize_t, PyObject *);
extern PyObject *vp_TupleGet(PyObject *, Py_ssize_t);
extern Py_ssize_t vp_TupleSize(PyObject *);
extern PyTypeObject *vp_TYPE(PyObject *);
extern int vp_TypeCheck(PyObject *, PyTypeObject *);
#define VP_O(x) ((PyObject *)(x))
#define Py_INCREF(o) vp_INCREF(VP_O(o))
#define Py_DECREF(o) vp_DECREF(VP_O(o))
#define Py_XINCREF(o) vp_XINCREF(VP_O(o))
#define Py_XDECREF(o) vp_XDECREF(VP_O(o))
#define Py_CLEAR(o) vp_CLEAR((PyObject **)&(o))
#define Py_SETREF(d, s) vp_SETREF((PyObject **)&(d), VP_O(s))
#define Py_XSETREF(d, s) vp_XSETREF((PyObject **)&(d), VP_O(s))
#define Py_NewRef(o) vp_NewRef(VP_O(o))
#define Py_XNewRef(o) vp_XNewRef(VP_O(o))
#define PyUnicode_KIND(o) vp_KIND(VP_O(o))
#define PyUnicode_DATA(o) vp_DATA(VP_O(o))
#define PyUnicode_READ(k, d, i) vp_READ((int)(k), (d), (i))
#define PyUnicode_READ_CHAR(o, i) vp_READ_CHAR(VP_O(o), (i))
#define PyUnicode_WRITE(k, d, i, v) vp_WRITE((int)(k), (d), (i), (v))
#define PyUnicode_GET_LENGTH(o) vp_GET_LENGTH(VP_O(o))
#define PyUnicode_READY(o) vp_READY(VP_O(o))
#define PyUnicode_MAX_CHAR_VALUE(o) vp_MAXCHAR(VP_O(o))
#define PyUnicode_Check(o) vp_IsUnicode(VP_O(o))
#define PyUnicode_CheckExact(o) vp_IsUnicode(VP_O(o))
#define PyLong_Check(o) vp_IsLong(VP_O(o))
#define PyLong_CheckExact(o) vp_IsLong(VP_O(o))
#define PyBool_Check(o) vp_IsBool(VP_O(o))
#define PyList_SET_ITEM(o, i, v) vp_ListSet(VP_O(o), (i), VP_O(v))
#define PyList_GET_ITEM(o, i) vp_ListGet(VP_O(o), (i))
#define PyList_GET_SIZE(o) vp_ListSize(VP_O(o))
#define PyTuple_SET_ITEM(o, i, v) vp_TupleSet(VP_O(o), (i), VP_O(v))
#define PyTuple_GET_ITEM(o, i) vp_TupleGet(VP_O(o), (i))
#define PyTuple_GET_SIZE(o) vp_TupleSize(VP_O(o))
#define Py_TYPE(o) vp_TYPE(VP_O(o))
#define PyObject_TypeCheck(o, t) vp_TypeCheck(VP_O(o), (t))
