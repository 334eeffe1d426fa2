/* The part of the CPython API that _buffer.c uses, as assumed contracts for CBMC.
   Objects carry a reference count, a type and, for the proof, where they came from. */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stddef.h>
typedef long Py_ssize_t;
struct _typeobject;
enum { K_NONE, K_FALSE, K_TRUE, K_STR, K_STRSUB, K_OTHER, K_BUFFER, K_TUPLE, K_LIST, K_MODULE, K_CALLABLE, K_TYPE };
typedef struct _object {
    Py_ssize_t ob_refcnt;
    struct _typeobject *ob_type;
    int kind;
    struct _object *of;          /* the object whose str() or escape() this is */
    int made_by;                 /* 0 given, 1 str(), 2 escape() */
    const char *text;            /* of a literal */
    Py_ssize_t size;             /* of a tuple */
    struct _object *items[6];
    int abstract;                /* a tuple of any size */
    struct _object *joined;      /* the list joined */
} PyObject;
#define PyObject_HEAD PyObject ob_base;
#define PyVarObject_HEAD_INIT(t, n) { 1, t, K_TYPE },
typedef PyObject PyListObject;
typedef PyObject *(*ternaryfunc)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*reprfunc)(PyObject *);
typedef void (*destructor)(PyObject *);
typedef void (*freefunc)(void *);
typedef struct _typeobject PyTypeObject;
typedef PyObject *(*newfunc)(PyTypeObject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(PyTypeObject *, Py_ssize_t);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { const char *name; int type; Py_ssize_t offset; int flags; const char *doc; } PyMemberDef;
struct _typeobject {
    PyObject ob_base;
    const char *tp_name;
    Py_ssize_t tp_basicsize, tp_itemsize;
    destructor tp_dealloc;
    Py_ssize_t tp_vectorcall_offset;
    void *tp_getattr, *tp_setattr, *tp_as_async;
    reprfunc tp_repr;
    void *tp_as_number, *tp_as_sequence, *tp_as_mapping, *tp_hash;
    ternaryfunc tp_call;
    reprfunc tp_str;
    void *tp_getattro, *tp_setattro, *tp_as_buffer;
    unsigned long tp_flags;
    const char *tp_doc;
    void *tp_traverse, *tp_clear, *tp_richcompare;
    Py_ssize_t tp_weaklistoffset;
    void *tp_iter, *tp_iternext;
    PyMethodDef *tp_methods;
    PyMemberDef *tp_members;
    void *tp_getset, *tp_base, *tp_dict, *tp_descr_get, *tp_descr_set;
    Py_ssize_t tp_dictoffset;
    void *tp_init;
    allocfunc tp_alloc;
    newfunc tp_new;
    freefunc tp_free;
};
#define Py_TPFLAGS_DEFAULT 1
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
typedef struct { PyObject ob_base; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT { { 1 } }
typedef struct { PyModuleDef_Base m_base; const char *m_name, *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *a, *b, *c, *d; } PyModuleDef;
#define PyMODINIT_FUNC PyObject *

extern PyObject g_none, g_true, g_false, g_exc;
#define Py_None (&g_none)
#define Py_True (&g_true)
#define Py_False (&g_false)
#define PyExc_TypeError (&g_exc)

int nondet_int(void);
long nondet_long(void);
_Bool nondet_bool(void);

extern int g_failed;             /* an API call has failed: an exception is set */
#define Py_TYPE(o) (((PyObject *)(o))->ob_type)
#define Py_SIZE(o) (((PyObject *)(o))->size)

/* ---- reference counts */
static inline void tk_drop(PyObject *o)
{
    __CPROVER_assert(o->ob_refcnt > 0, "no reference is dropped that is not there");
    o->ob_refcnt--;
}
#define TK_ITEM(o, i) if ((i) < (o)->size && (o)->items[i]) tk_drop((o)->items[i])
static inline void tk_decref(PyObject *o)
{
    tk_drop(o);
    if (o->ob_refcnt == 0 && o->kind == K_TUPLE && !o->abstract) {
        TK_ITEM(o, 0); TK_ITEM(o, 1); TK_ITEM(o, 2); TK_ITEM(o, 3); TK_ITEM(o, 4); TK_ITEM(o, 5);
    }
}
#define Py_INCREF(o) ((void)(((PyObject *)(o))->ob_refcnt++))
#define Py_XINCREF(o) ((o) ? Py_INCREF(o) : (void)0)
#define Py_DECREF(o) tk_decref((PyObject *)(o))
#define Py_XDECREF(o) ((o) ? Py_DECREF(o) : (void)0)
#define Py_CLEAR(o) do { PyObject *tk_ = (PyObject *)(o); (o) = NULL; if (tk_) Py_DECREF(tk_); } while (0)
static inline PyObject *tk_newref(PyObject *o) { o->ob_refcnt++; return o; }
#define Py_NewRef(o) tk_newref((PyObject *)(o))
#define Py_RETURN_NONE return tk_newref(Py_None)

/* ---- the events of the list under contract: what is appended to it, in order */
extern PyObject *g_list;         /* the list of the buffer under contract */
extern long g_events;            /* how many times it was added to */
extern long g_watch;             /* an arbitrary index */
extern int g_wkind;              /* 1 append, 2 extend */
extern PyObject *g_wobj;
extern PyObject *g_log[8];
extern int g_logkind[8];
static inline void tk_event(int kind, PyObject *o)
{
    if (g_events == g_watch) { g_wkind = kind; g_wobj = o; }
    if (g_events >= 0 && g_events < 8) { g_log[g_events] = o; g_logkind[g_events] = kind; }
    g_events++;
}
static inline int PyList_Append(PyObject *l, PyObject *o)
{
    __CPROVER_assert(l == g_list, "only the buffer's own list is added to");
    __CPROVER_assert(o != NULL && o->ob_refcnt > 0, "a live object is added");
    o->ob_refcnt++;
    tk_event(1, o);
    if (nondet_bool()) { g_failed = 1; return -1; }
    return 0;
}
static inline PyObject *tk_extend(PyObject *l, PyObject *o)
{
    __CPROVER_assert(l == g_list, "only the buffer's own list is added to");
    tk_event(2, o);
    if (nondet_bool()) { g_failed = 1; return NULL; }
    g_none.ob_refcnt++;
    return &g_none;
}
#define _PyList_Extend(l, o) tk_extend((PyObject *)(l), (PyObject *)(o))

/* ---- tuples */
extern PyObject g_item, g_other;
extern struct tk_buffer_s g_item_buffer;
extern long g_other_at;
PyObject *tk_tuple_item(PyObject *t, long i);
#define PyTuple_GET_SIZE(t) (((PyObject *)(t))->size)
#define PyTuple_Size(t) (((PyObject *)(t))->size)
#define PyTuple_GET_ITEM(t, i) tk_tuple_item((PyObject *)(t), (i))
extern PyObject g_tuple0, g_tuple1;
extern int g_ntuples;
static inline PyObject *PyTuple_New(Py_ssize_t n)
{
    /* assumed: there is memory for a small tuple (the code looks at the result of one of its two calls only) */
    __CPROVER_assert(g_ntuples < 2 && n >= 0 && n <= 6, "tuples as expected");
    __CPROVER_assume(g_ntuples < 2 && n >= 0 && n <= 6);
    PyObject *t = g_ntuples++ == 0 ? &g_tuple0 : &g_tuple1;
    t->ob_refcnt = 1; t->kind = K_TUPLE; t->size = n; t->abstract = 0;
    t->items[0] = t->items[1] = t->items[2] = t->items[3] = t->items[4] = t->items[5] = NULL;
    return t;
}
#define PyTuple_SET_ITEM(t, i, o) do { __CPROVER_assert((i) >= 0 && (i) < ((PyObject *)(t))->size, "inside the tuple"); ((PyObject *)(t))->items[i] = (PyObject *)(o); } while (0)

/* ---- strings */
extern PyObject g_strK, g_strother;
extern int g_abstract;
#define PyUnicode_CheckExact(o) (((PyObject *)(o))->kind == K_STR)
#define PyUnicode_Check(o) (((PyObject *)(o))->kind == K_STR || ((PyObject *)(o))->kind == K_STRSUB)
/* contents of a text are not known here, only which characters were looked for and not found */
extern int g_absent;
extern PyObject *g_looked;
static inline Py_ssize_t PyUnicode_FindChar(PyObject *o, unsigned int c, Py_ssize_t a, Py_ssize_t b, int dir)
{
    Py_ssize_t r = nondet_long();
    __CPROVER_assume(r >= -1);
    if (r == -1 && o == g_looked) g_absent |= c == '&' ? 1 : c == '<' ? 2 : c == '>' ? 4 : c == '"' ? 8 : c == '\'' ? 16 : 0;
    return r;
}
static inline Py_ssize_t tk_length(PyObject *o) { Py_ssize_t r = nondet_long(); __CPROVER_assume(r >= 0); return r; }
#define PyUnicode_GET_LENGTH(o) tk_length((PyObject *)(o))
#define PyUnicode_GetLength(o) tk_length((PyObject *)(o))
#define PyUnicode_READ_CHAR(o, i) ((unsigned int)nondet_int())
#define PyUnicode_IS_ASCII(o) nondet_bool()
static inline int PyUnicode_CompareWithASCIIString(PyObject *o, const char *s) { return nondet_int(); }
static inline int PyUnicode_Compare(PyObject *a, PyObject *b) { return a == b ? 0 : nondet_int(); }
/* ---- questions about objects */
extern struct _typeobject PyTuple_Type, PyList_Type, PyUnicode_Type, PyLong_Type, PyFloat_Type, PyBool_Type;
#define PyTuple_CheckExact(o) (((PyObject *)(o))->kind == K_TUPLE)
#define PyTuple_Check(o) (((PyObject *)(o))->kind == K_TUPLE)
#define PyList_CheckExact(o) (((PyObject *)(o))->kind == K_LIST)
#define PyList_Check(o) (((PyObject *)(o))->kind == K_LIST)
#define PyBool_Check(o) (((PyObject *)(o))->kind == K_TRUE || ((PyObject *)(o))->kind == K_FALSE)
#define PyLong_CheckExact(o) (((PyObject *)(o))->ob_type == &PyLong_Type)
#define PyLong_Check(o) (PyBool_Check(o) || PyLong_CheckExact(o))
#define PyFloat_CheckExact(o) (((PyObject *)(o))->ob_type == &PyFloat_Type)
#define PyFloat_Check(o) PyFloat_CheckExact(o)
#define Py_IsNone(o) ((PyObject *)(o) == Py_None)
#define Py_IsTrue(o) ((PyObject *)(o) == Py_True)
#define Py_IsFalse(o) ((PyObject *)(o) == Py_False)
#define Py_Is(a, b) ((PyObject *)(a) == (PyObject *)(b))
#define Py_IS_TYPE(o, t) (Py_TYPE(o) == (t))
#define PyObject_TypeCheck(o, t) (Py_TYPE(o) == (t))
static inline int PyObject_IsTrue(PyObject *o) { return o == &g_true ? 1 : o == &g_false || o == &g_none ? 0 : nondet_bool(); }
static inline int PyObject_Not(PyObject *o) { return !PyObject_IsTrue(o); }
static inline int PyObject_HasAttrString(PyObject *o, const char *s) { return nondet_bool(); }
static inline int PyObject_RichCompareBool(PyObject *a, PyObject *b, int op) { if (a == b) return op == 2; if (nondet_bool()) { g_failed = 1; return -1; } return nondet_bool(); }
double nondet_double(void);
#define PyFloat_AS_DOUBLE(o) nondet_double()
#define PyFloat_AsDouble(o) nondet_double()
#define PyLong_AsLong(o) nondet_long()
#define PyLong_AsLongAndOverflow(o, p) (*(p) = 0, nondet_long())
#define PyObject_Size(o) tk_length((PyObject *)(o))
#define PyObject_Length(o) tk_length((PyObject *)(o))
#define Py_EQ 2
#define Py_NE 3
#define PyErr_Occurred() (g_failed ? &g_exc : NULL)
#define PyErr_Clear() (g_failed = 0)
static inline PyObject *PyErr_NoMemory(void) { g_failed = 1; return NULL; }
#define PyErr_Format(e, ...) (g_failed = 1, (PyObject *)NULL)
#define Py_SETREF(o, v) do { PyObject *tk_ = (PyObject *)(o); (o) = (v); Py_DECREF(tk_); } while (0)
#define Py_XSETREF(o, v) do { PyObject *tk_ = (PyObject *)(o); (o) = (v); Py_XDECREF(tk_); } while (0)
#define Py_UNUSED(x) x
#define Py_RETURN_TRUE return tk_newref(Py_True)
#define Py_RETURN_FALSE return tk_newref(Py_False)
PyObject *PyObject_Str(PyObject *o);
extern PyObject g_lit0, g_lit1, g_lit2, g_lit3;
extern int g_nlit;
static inline PyObject *tk_literal(const char *s)
{
    __CPROVER_assume(g_nlit < 4);
    int n = g_nlit++;
    PyObject *o = n == 0 ? &g_lit0 : n == 1 ? &g_lit1 : n == 2 ? &g_lit2 : &g_lit3;
    o->ob_refcnt = 1; o->kind = K_STR; o->text = s;
    return o;
}
#define PyUnicode_FromString(s) tk_literal(s)
#define PyUnicode_InternFromString(s) tk_literal(s)
extern PyObject g_joined;
static inline PyObject *PyUnicode_Join(PyObject *sep, PyObject *l)
{
    __CPROVER_assert(sep->ob_refcnt > 0 && sep->text != NULL && sep->text[0] == 0, "the parts are joined with nothing between");
    if (nondet_bool()) { g_failed = 1; return NULL; }
    g_joined.ob_refcnt = 1; g_joined.kind = K_STR; g_joined.joined = l;
    return &g_joined;
}
static inline void PyErr_SetString(PyObject *e, const char *m) { g_failed = 1; }

/* ---- calls of the escape function */
extern PyObject g_escape, g_escaped;
extern PyObject *g_escape_arg;
extern int g_escape_calls;
PyObject *tk_call_escape(PyObject *f, PyObject *args, PyObject *kw);
PyObject *tk_call_escape1(PyObject *f, PyObject *arg);
#define PyObject_CallOneArg(f, a) tk_call_escape1((f), (PyObject *)(a))
#define PyObject_CallFunctionObjArgs(f, a, n) tk_call_escape1((f), (PyObject *)(a))
#define PyObject_CallObject(f, t) tk_call_escape((f), (t), NULL)
#define PyObject_Call(f, t, k) tk_call_escape((f), (t), (k))

/* ---- lists, modules, types */
extern PyObject g_newlist, g_module;
static inline PyObject *PyList_New(Py_ssize_t n)
{
    __CPROVER_assert(n == 0, "a buffer starts empty");
    if (nondet_bool()) { g_failed = 1; return NULL; }
    g_newlist.ob_refcnt = 1; g_newlist.kind = K_LIST; g_newlist.size = 0;
    return &g_newlist;
}
extern char g_module_state[256];
#define PyModule_GetState(m) ((void *)g_module_state)
static inline PyObject *PyState_FindModule(PyModuleDef *d) { return &g_module; }
static inline PyObject *PyModule_Create(PyModuleDef *d)
{
    if (nondet_bool()) { g_failed = 1; return NULL; }
    return &g_module;
}
extern int g_ready_fails;
static inline int PyType_Ready(PyTypeObject *t) { if (g_ready_fails) { g_failed = 1; return -1; } return 0; }
extern const char *g_added_name;
extern PyObject *g_added;
static inline int PyModule_AddObject(PyObject *m, const char *n, PyObject *o) { g_added_name = n; g_added = o; return 0; }
extern PyObject *g_parsed;
extern int g_parse_ok;
#define PyArg_ParseTupleAndKeywords(a, k, f, w, p) (g_parse_ok ? (*(p) = g_parsed ? g_parsed : *(p), 1) : (g_failed = 1, 0))
#endif
