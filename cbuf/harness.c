/* Contracts of the functions of _buffer.c: one entry function each. The source itself is included unchanged but for the
   loop contract, which bin puts in front of the body of the loop over the arguments. */
#include <Python.h>

PyObject g_none, g_true, g_false, g_exc, g_item, g_other, g_tuple0, g_tuple1, g_strname, g_strvalue, g_strescaped, g_strrest, g_strK, g_strother, g_lit0, g_lit1, g_lit2, g_lit3, g_joined;
PyObject g_escape, g_escaped, g_newlist, g_module, g_args, g_thelist, g_itemlist;
PyObject *g_list, *g_wobj, *g_log[8], *g_escape_arg, *g_added, *g_parsed;
const char *g_added_name;
int g_failed, g_wkind, g_logkind[8], g_ntuples, g_abstract, g_nlit, g_escape_calls, g_ready_fails, g_parse_ok;
long g_events, g_watch, g_other_at;
char g_module_state[256];
/* what is known at the head of the loop over the arguments */
extern PyObject *g_item_p, *g_other_p, *g_item_list;
#define WATCHED (g_item_list ? g_wkind == 2 && g_wobj == g_item_list : g_item_p->kind == K_STR ? g_wkind == 1 && g_wobj == g_item_p : g_wkind == 1 && g_wobj == &g_strK && g_strK.of == g_item_p && g_strK.ob_refcnt == 1)
#define LOOP_INVARIANT(i) (g_events == i && !g_failed && g_item.ob_refcnt == g_item0 + (i > g_watch && g_item_p == &g_item && g_item.kind == K_STR ? 1 : 0) && g_none.ob_refcnt == 1000 && g_other.ob_refcnt >= 1 && g_other.ob_refcnt <= g_other0 + i && (i > g_watch ? WATCHED : 1))
#define LOOP_ASSIGNS g_events, g_wkind, g_wobj, g_failed, g_item.ob_refcnt, g_other.ob_refcnt, g_none.ob_refcnt, __CPROVER_object_whole(g_log), __CPROVER_object_whole(g_logkind), __CPROVER_object_whole(&g_strK), __CPROVER_object_whole(&g_strother)
long g_item0, g_other0;

#include SOURCE

static Buffer g_buf, g_argbuf;
int g_absent;
PyObject *g_looked;
PyTypeObject PyTuple_Type, PyList_Type, PyUnicode_Type, PyLong_Type, PyFloat_Type, PyBool_Type;
static PyObject g_eq, g_quot, g_space;
static PyTypeObject t_str, t_sub, t_other, t_callable, t_none;

#if REACH
#define CHECK(c, m) ((void)0)
#define REACHED(m) __CPROVER_assert(0, "reached: " m)
#else
#define CHECK(c, m) __CPROVER_assert(c, m)
#define REACHED(m) ((void)0)
#endif

static void any_object(PyObject *o)
{
    /* any type: exact str, subclass of str, none of these, a constant */
    o->ob_refcnt = nondet_long();
    __CPROVER_assume(o->ob_refcnt > 0 && o->ob_refcnt < 1000000);
    int k = nondet_int();
    __CPROVER_assume(k == K_STR || k == K_STRSUB || k == K_OTHER);
    o->kind = k;
    o->ob_type = k == K_STR ? &t_str : k == K_STRSUB ? &t_sub : &t_other;
    o->made_by = 0;
    o->of = NULL;
}

/* a buffer among the arguments is an object of its own: its list is what counts */
PyObject *g_item_p, *g_other_p, *g_item_list;

PyObject *tk_tuple_item(PyObject *t, long i)
{
    CHECK(i >= 0 && i < t->size, "arguments are read inside the tuple");
    if (!t->abstract)
        return t->items[i];
    if (i == g_watch)
        return g_item_p;
    return g_other_p;
}

static PyObject *g_name, *g_value;
PyObject *PyObject_Str(PyObject *o)
{
    CHECK(o->ob_refcnt > 0, "str() of a live object");
    PyObject *r;
    if (g_abstract)
        r = o == g_item_p ? &g_strK : &g_strother;
    else
        r = o == g_name ? &g_strname : o == g_value ? &g_strvalue : o == &g_escaped ? &g_strescaped : &g_strrest;
    r->ob_refcnt = g_abstract ? 1 : r->ob_refcnt + 1; r->kind = K_STR; r->ob_type = &t_str; r->made_by = 1; r->of = o;
    if (nondet_bool()) { g_failed = 1; return NULL; }
    return r;
}

PyObject *tk_call_escape1(PyObject *f, PyObject *arg)
{
    CHECK(f == &g_escape, "the escape function is called");
    g_escape_arg = arg;
    g_escape_calls++;
    if (nondet_bool()) { g_failed = 1; return NULL; }
    any_object(&g_escaped);
    g_escaped.ob_refcnt = 1;
    g_escaped.made_by = 2;
    g_escaped.of = arg;
    return &g_escaped;
}

PyObject *tk_call_escape(PyObject *f, PyObject *args, PyObject *kw)
{
    CHECK(kw == NULL, "without keyword arguments");
    CHECK(args->kind == K_TUPLE && args->size == 1, "the escape function gets one argument");
    return tk_call_escape1(f, args->items[0]);
}

static void world(void)
{
    g_none.ob_refcnt = 1000; g_none.kind = K_NONE; g_none.ob_type = &t_none;
    g_true.ob_refcnt = 1000; g_true.kind = K_TRUE; g_true.ob_type = &t_other;
    g_false.ob_refcnt = 1000; g_false.kind = K_FALSE; g_false.ob_type = &t_other;
    g_escape.ob_refcnt = 1000; g_escape.kind = K_CALLABLE; g_escape.ob_type = &t_callable;
    t_callable.tp_call = tk_call_escape;
    g_thelist.ob_refcnt = 1; g_thelist.kind = K_LIST;
    g_itemlist.ob_refcnt = 1; g_itemlist.kind = K_LIST;
    g_list = &g_thelist;
    g_events = 0; g_nlit = g_ntuples = g_escape_calls = 0; g_escape_arg = NULL;
    g_failed = 0;
    g_buf.ob_base.ob_type = &buffer_BufferType;
    g_buf.ob_base.kind = K_BUFFER;
    g_buf.ob_base.ob_refcnt = 5;
    g_buf.buffer_list = &g_thelist;
    g_buf.escape_func = &g_escape;
    g_eq.text = "=\""; g_quot.text = "\""; g_space.text = " ";
    g_eq.ob_refcnt = g_quot.ob_refcnt = g_space.ob_refcnt = 1000;
    g_eq.kind = g_quot.kind = g_space.kind = K_STR;
    g_eq.ob_type = g_quot.ob_type = g_space.ob_type = &t_str;
    g_buf.equals_quot = &g_eq;
    g_buf.quot = &g_quot;
    g_buf.space = &g_space;
}

/* writing any number of values: each gives exactly one addition to the list, in order: a buffer adds the parts of its
   list, a plain string itself, anything else its str() */
static void written(int through_call)
{
    world();
    g_abstract = 1;
    g_args.kind = K_TUPLE; g_args.abstract = 1; g_args.ob_refcnt = 10;
    g_args.size = nondet_long();
    __CPROVER_assume(g_args.size >= 0 && g_args.size < 1000000000 SIZE_BOUND);
    g_watch = nondet_long();
    __CPROVER_assume(g_watch >= 0 && g_watch < g_args.size || g_args.size == 0 && g_watch == 0);
    any_object(&g_item);
    any_object(&g_other);
    g_strK.ob_refcnt = 0;
    g_argbuf.ob_base.ob_type = &buffer_BufferType;
    g_argbuf.ob_base.kind = K_BUFFER;
    g_argbuf.ob_base.ob_refcnt = 7;
    g_argbuf.buffer_list = &g_itemlist;
    int w = nondet_int();
    __CPROVER_assume(w >= 0 && w <= 5);
    g_item_p = w == 0 ? &g_item : w == 1 ? (PyObject *)&g_argbuf : w == 2 ? (PyObject *)&g_buf : w == 3 ? &g_none : w == 4 ? &g_true : &g_false;
    g_item_list = w == 1 ? &g_itemlist : w == 2 ? &g_thelist : NULL;
    g_other_p = nondet_bool() ? &g_other : (PyObject *)&g_argbuf;
    g_item0 = g_item.ob_refcnt; g_other0 = g_other.ob_refcnt;
    long none0 = g_none.ob_refcnt, a0 = g_argbuf.ob_base.ob_refcnt, b0 = g_buf.ob_base.ob_refcnt;
    PyObject *r = through_call ? Buffer_call((PyObject *)&g_buf, &g_args, NULL) : _do_append(&g_buf, &g_args);
    CHECK(g_buf.buffer_list == &g_thelist && g_argbuf.buffer_list == &g_itemlist, "buffers keep their lists");
    CHECK(g_events <= g_args.size, "nothing is added twice");
    if (r == NULL) {
        CHECK(g_failed, "failure only when a step failed");
        REACHED("failure");
        return;
    }
    CHECK(!g_failed, "a failed step is reported");
    CHECK(r == &g_none && g_none.ob_refcnt == none0 + 1, "None is returned, as a new reference");
    CHECK(g_events == g_args.size, "each value is written exactly once");
    if (g_args.size > 5 && g_watch == 4) REACHED("several values");
    if (g_args.size > 0) {
        if (g_item_list) {
            CHECK(g_wkind == 2 && g_wobj == g_item_list, "a buffer is written as its parts, in its place");
            CHECK(g_argbuf.ob_base.ob_refcnt == a0 && g_buf.ob_base.ob_refcnt == b0, "no reference to the buffer is kept or lost");
        } else if (g_item_p->kind == K_STR) {
            CHECK(g_wkind == 1 && g_wobj == &g_item, "a plain string is written as it is, in its place");
            CHECK(g_item.ob_refcnt == g_item0 + 1, "the list has a reference of its own to it");
        } else {
            CHECK(g_wkind == 1 && g_wobj == &g_strK && g_strK.of == g_item_p, "any other value is written as its str(), in its place");
            CHECK(g_item.ob_refcnt == g_item0, "no reference to the value is kept or lost");
            CHECK(g_strK.ob_refcnt == 1, "the list has the reference to the str()");
        }
    }
    REACHED("success");
}

void do_append(void) { written(0); }
void buffer_call(void) { written(1); }

void buffer_call_keywords(void)
{
    world();
    PyObject kw;
    PyObject *r = Buffer_call((PyObject *)&g_buf, &g_args, &kw);
    CHECK(r == NULL && g_failed, "keyword arguments are an error");
    CHECK(g_events == 0, "which writes nothing");
    REACHED("success");
}

/* name="escaped value", name="name" for True, nothing for None and False */
static void attribute(int k, int two)
{
    world();
    g_abstract = 0;
    PyObject name, value;
    any_object(&name);
    any_object(&value);
    if (nondet_bool()) {
        /* a value of one of the types that code may know, of any content */
        int w = nondet_int();
        __CPROVER_assume(w >= 0 && w <= 2);
        value.kind = w == 0 ? K_TUPLE : K_OTHER;
        value.ob_type = w == 0 ? &PyTuple_Type : w == 1 ? &PyLong_Type : &PyFloat_Type;
        value.abstract = 1;
        value.size = nondet_long();
        __CPROVER_assume(value.size >= 0);
    }
    g_absent = 0;
    g_looked = &value;
    PyObject *v = k == 0 ? &g_none : k == 1 ? &g_false : k == 2 ? &g_true : &value;
    g_args.kind = K_TUPLE; g_args.abstract = 0; g_args.ob_refcnt = 10;
    g_args.size = two ? 2 : nondet_int();
    __CPROVER_assume(two || g_args.size >= 0 && g_args.size <= 6 && g_args.size != 2);
    g_args.items[2] = g_args.items[3] = g_args.items[4] = g_args.items[5] = &g_other;
    any_object(&g_other);
    g_args.items[0] = &name;
    g_args.items[1] = v;
    g_watch = -1;
    g_name = &name; g_value = &value;
    g_strname.ob_refcnt = g_strvalue.ob_refcnt = g_strescaped.ob_refcnt = g_strrest.ob_refcnt = 0;
    long n0 = name.ob_refcnt, v0 = value.ob_refcnt, none0 = g_none.ob_refcnt, true0 = g_true.ob_refcnt, s0 = g_buf.space->ob_refcnt, e0 = g_buf.equals_quot->ob_refcnt, q0 = g_buf.quot->ob_refcnt;
    PyObject *r = Buffer_output_boolean_attr(&g_buf, &g_args);
    if (!two) {
        CHECK(r == NULL && g_failed && g_events == 0, "any other number of arguments is an error and writes nothing");
        REACHED("failure");
        return;
    }
    CHECK(g_escape_calls <= 1, "the value is escaped once");
    if (r == NULL) {
        CHECK(g_failed, "failure only when a step failed");
        REACHED("failure");
        return;
    }
    CHECK(!g_failed, "a failed step is reported");
    CHECK(r == &g_none && g_none.ob_refcnt == none0 + 1, "None is returned, as a new reference");
    if (k <= 1) {
        CHECK(g_events == 0, "None and False write nothing");
        CHECK(g_escape_calls == 0, "nor are they escaped");
        REACHED("success");
        return;
    }
    CHECK(g_events == 5, "five parts are written");
    CHECK(g_log[0] == g_buf.space, "a space");
    PyObject *nm = name.kind == K_STR ? &name : g_log[1];
    CHECK(g_log[1] == nm && (nm == &name || nm->made_by == 1 && nm->of == &name), "the name");
    CHECK(g_log[2] == g_buf.equals_quot, "equals sign and quote");
    CHECK(g_log[4] == g_buf.quot, "the closing quote");
    for (int i = 0; i < 5; i++)
        CHECK(g_logkind[i] == 1 && g_log[i]->kind == K_STR && g_log[i]->ob_refcnt > 0, "each part is a live plain string");
    if (k == 2) {
        CHECK(g_escape_calls == 0, "True is not escaped");
        CHECK(name.kind == K_STR ? g_log[3] == &name : g_log[3]->made_by == 1 && g_log[3]->of == &name, "True gives the name as the value");
    } else {
        int plain = value.kind == K_STR && g_absent == 31 && g_escape_calls == 0;     /* nothing in it that would be escaped */
        int number = (value.ob_type == &PyLong_Type || value.ob_type == &PyFloat_Type) && g_escape_calls == 0;   /* nor in these */
        CHECK(plain || number || g_escape_calls == 1 && g_escape_arg == &value, "the value itself is escaped, once");
        CHECK(plain ? g_log[3] == &value : number ? g_log[3]->made_by == 1 && g_log[3]->of == &value : g_escaped.kind == K_STR ? g_log[3] == &g_escaped : g_log[3]->made_by == 1 && g_log[3]->of == &g_escaped, "the escaped value is written");
        CHECK(value.ob_refcnt >= v0, "no reference to the value is lost");
    }
    CHECK(name.ob_refcnt == n0 + (name.kind == K_STR ? (k == 2 ? 2 : 1) : 0), "references to the name are those of the list");
    CHECK(g_buf.space->ob_refcnt == s0 + 1 && g_buf.equals_quot->ob_refcnt == e0 + 1 && g_buf.quot->ob_refcnt == q0 + 1, "references to the fixed parts are those of the list");
    REACHED("success");
}

void attribute_none(void) { attribute(0, 1); }
void attribute_false(void) { attribute(1, 1); }
void attribute_true(void) { attribute(2, 1); }
void attribute_value(void) { attribute(3, 1); }
void attribute_arguments(void) { attribute(3, 0); }

void join_str_html(void)
{
    world();
    PyObject *r = Buffer_join((PyObject *)&g_buf, NULL);
    CHECK(r == NULL ? g_failed : r == &g_joined && r->joined == &g_thelist && r->ob_refcnt == 1, "join gives the parts of the list, joined");
    g_failed = 0;
    r = Buffer_str((PyObject *)&g_buf);
    CHECK(r == NULL ? g_failed : r == &g_joined && r->joined == &g_thelist && r->ob_refcnt == 1, "str gives the same");
    long b0 = g_buf.ob_base.ob_refcnt;
    r = Buffer__html__((PyObject *)&g_buf, NULL);
    CHECK(r == (PyObject *)&g_buf && g_buf.ob_base.ob_refcnt == b0 + 1, "a buffer is its own markup");
    CHECK(g_events == 0 && g_buf.buffer_list == &g_thelist, "reading a buffer does not change it");
    REACHED("success");
}

static Buffer g_fresh;
static PyObject *alloc(PyTypeObject *t, Py_ssize_t n)
{
    if (nondet_bool()) { g_failed = 1; return NULL; }
    g_fresh.ob_base.ob_refcnt = 1;
    g_fresh.ob_base.ob_type = t;
    g_fresh.buffer_list = NULL; g_fresh.escape_func = NULL; g_fresh.equals_quot = NULL; g_fresh.quot = NULL; g_fresh.space = NULL;
    return (PyObject *)&g_fresh;
}

void buffer_new(void)
{
    world();
    PyTypeObject t;
    t.tp_alloc = alloc;
    struct Buffer_module_state *st = (struct Buffer_module_state *)g_module_state;
    st->escape = &g_escape; st->equals_quot = g_buf.equals_quot; st->quot = g_buf.quot; st->space = g_buf.space;
    long e0 = g_escape.ob_refcnt, q0 = st->quot->ob_refcnt, s0 = st->space->ob_refcnt, eq0 = st->equals_quot->ob_refcnt;
    PyObject *r = Buffer_new(&t, NULL, NULL);
    if (r == NULL) { CHECK(g_failed, "failure only when a step failed"); REACHED("failure"); return; }
    CHECK(r == (PyObject *)&g_fresh && !g_failed, "a new buffer");
    CHECK(g_fresh.buffer_list == &g_newlist && g_newlist.ob_refcnt == 1, "with a new list of its own");
    CHECK(g_fresh.escape_func == &g_escape && g_escape.ob_refcnt == e0 + 1, "and the escape function of the module");
    CHECK(g_fresh.quot == st->quot && g_fresh.space == st->space && g_fresh.equals_quot == st->equals_quot, "and its fixed strings");
    CHECK(st->quot->ob_refcnt == q0 + 1 && st->space->ob_refcnt == s0 + 1 && st->equals_quot->ob_refcnt == eq0 + 1, "with references of its own");
    REACHED("success");
}

static int same(const char *a, const char *b)
{
    int i;
    for (i = 0; i < 24 && a[i] && a[i] == b[i]; i++) ;
    return a[i] == b[i];
}

void module_init(void)
{
    world();
    g_ready_fails = nondet_bool();
    PyObject *m = PyInit__buffer();
    if (m == NULL) { CHECK(g_failed, "failure only when a step failed"); REACHED("failure"); return; }
    struct Buffer_module_state *st = (struct Buffer_module_state *)g_module_state;
    CHECK(m == &g_module && g_added == (PyObject *)&buffer_BufferType && same(g_added_name, "Buffer"), "the module has the Buffer type");
    CHECK(same(st->equals_quot->text, "=\"") && same(st->quot->text, "\"") && same(st->space->text, " "), "the fixed strings of an attribute");
    CHECK(st->escape == &g_none, "no escape function yet");
    REACHED("success");
}

static PyCFunction method(PyMethodDef *t, const char *n, int *flags)
{
    for (int i = 0; i < 6 && t[i].ml_name; i++)
        if (same(t[i].ml_name, n)) { *flags = t[i].ml_flags; return t[i].ml_meth; }
    return NULL;
}

void tables(void)
{
    int f = 0;
    CHECK(buffer_BufferType.tp_call == Buffer_call, "calling a buffer writes to it");
    CHECK(buffer_BufferType.tp_str == Buffer_str, "str of a buffer");
    CHECK(buffer_BufferType.tp_new == Buffer_new, "making a buffer");
    CHECK(buffer_BufferType.tp_basicsize == sizeof(Buffer), "the size of a buffer");
    CHECK(method(buffer_BufferType.tp_methods, "join", &f) == Buffer_join && f == METH_NOARGS, "join");
    CHECK(method(buffer_BufferType.tp_methods, "__html__", &f) == Buffer__html__ && f == METH_NOARGS, "__html__");
    CHECK(method(buffer_BufferType.tp_methods, "output_boolean_attr", &f) == (PyCFunction)Buffer_output_boolean_attr && f == METH_VARARGS, "output_boolean_attr");
    CHECK(method(buffermodule.m_methods, "_set_escape_method", &f) == (PyCFunction)_set_escape_method && f == (METH_VARARGS | METH_KEYWORDS), "_set_escape_method");
    CHECK(buffermodule.m_size >= (long)sizeof(struct Buffer_module_state), "the module has room for its state");
    REACHED("success");
}

void set_escape_method(void)
{
    world();
    struct Buffer_module_state *st = (struct Buffer_module_state *)g_module_state;
    PyObject old;
    any_object(&old);
    st->escape = &old;
    long o0 = old.ob_refcnt, e0 = g_escape.ob_refcnt, none0 = g_none.ob_refcnt;
    g_parse_ok = nondet_bool();
    g_parsed = &g_escape;
    PyObject *r = _set_escape_method(&g_module, NULL, NULL);
    if (r == NULL) { CHECK(g_failed && st->escape == &old && old.ob_refcnt == o0, "a failed call changes nothing"); REACHED("failure"); return; }
    CHECK(r == &g_none && g_none.ob_refcnt == none0 + 1, "None is returned");
    CHECK(st->escape == &g_escape && g_escape.ob_refcnt == e0 + 1, "the function given is the escape function");
    REACHED("success");
}
