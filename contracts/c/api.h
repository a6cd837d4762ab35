/* Assumed contracts of the CPython API used by Cheetah/c/_namemapper.c, over
   two objects: T is an arbitrary object, U stands for every other one.  What
   is proved of T (never used without a reference, references balanced) holds
   for every object, because T is arbitrary. T.ob_refcnt counts the references
   the code under verification owns, plus one when somebody else keeps T alive
   for the whole call (T_borrowed). */
#include <Python.h>
#include <string.h>
#include <stdlib.h>

int nondet_int(void);
_Bool nondet_bool(void);
long nondet_long(void);
unsigned char nondet_uchar(void);
size_t nondet_size_t(void);

#define NOCHUNK 15
enum {E_NONE, E_NOTFOUND, E_ATTR, E_PERIODS, E_OTHER};

static PyTypeObject TY;
static char TYNAME[12];
static PyObject T, U, FIX[8];
#define X_NOTFOUND (&FIX[0])
#define X_PERIODS (&FIX[1])
#define X_ATTR (&FIX[2])
#define X_OTHER (&FIX[3])

/* ghost state: g_err is the kind of the pending exception, g_live the number of
   blocks allocated and not freed, the others belong to the specifications */
static struct { int m_g_err, m_G_step, m_G_phase, m_G_fail, m_G_failkind, m_G_attrfail, m_E_phase, m_E_tested, m_E_hit, m_E_looked, m_E_stop, m_E_err; PyObject *m_G_cur, *m_G_next, *m_E_ns, *m_E_res; } Z;
static struct { int m_g_live, m_N_freed, m_N_rounds, m_N_chunks, m_G_exarg; PyObject *m_E_arg, *m_E_iter; char **m_G_chunks; } Y;
#define g_err Z.m_g_err
#define G_step Z.m_G_step
#define G_phase Z.m_G_phase
#define G_fail Z.m_G_fail
#define G_failkind Z.m_G_failkind
#define G_attrfail Z.m_G_attrfail
#define E_phase Z.m_E_phase
#define E_tested Z.m_E_tested
#define E_hit Z.m_E_hit
#define E_looked Z.m_E_looked
#define E_stop Z.m_E_stop
#define E_err Z.m_E_err
#define G_cur Z.m_G_cur
#define G_next Z.m_G_next
#define E_ns Z.m_E_ns
#define E_res Z.m_E_res
#define g_live Y.m_g_live
#define N_freed Y.m_N_freed
#define N_rounds Y.m_N_rounds
#define N_chunks Y.m_N_chunks
#define G_exarg Y.m_G_exarg
#define E_arg Y.m_E_arg
#define E_iter Y.m_E_iter
#define G_chunks Y.m_G_chunks
int T_borrowed;
/* specification of one dotted lookup */
int G_on, G_num, G_ex;
_Bool o_map[NOCHUNK + 1], o_key[NOCHUNK + 1], o_call[NOCHUNK + 1], o_inst[NOCHUNK + 1];
/* specification of the cascade of namespaces */
int E_on, E_frame, E_list;
char *N_name;
size_t N_len, N_end, N_p;
char N_c0;
#define ENDS (nameCopy[N_end] == 0 && (N_p >= N_end || nameCopy[N_p] == N_c0))

#define OBJ(p) ((p) == &T || (p) == &U)
#define ALIVE(p) ((p) != &T || T.ob_refcnt >= 1)
#define OWN(p) ((p) == &T ? 1 : 0)
#define SCHEME(c, m) __CPROVER_assert(c, "SCHEME " m)
#define OB(c, m) __CPROVER_assert(c, "OB " m)

static void use(PyObject *o)
{
    OB(o != NULL, "no null object is used");
    OB(ALIVE(o), "an object is used only while a reference to it is held");
}

static PyObject *fresh(void)
{
    if (nondet_bool()) {
        T.ob_refcnt++;
        return &T;
    }
    return &U;
}

static PyObject *borrowed(void)
{
    if (T_borrowed && nondet_bool()) return &T;
    return &U;
}

static int anyerr(void)
{
    int k = nondet_int();
    __CPROVER_assume(k >= E_NOTFOUND && k <= E_OTHER);
    return k;
}

/* the value found for the current component is used further */
static void settle(void)
{
    if (G_on && G_phase == 1) {
        OB(!(G_ex && o_call[G_step] && !o_inst[G_step]),
           "a callable that is to be called is called");
        G_cur = G_next;
        G_step++;
        G_phase = 0;
    }
}

static _Bool current(PyObject *o, const char *key)
{
    settle();
    if (!G_on) return 0;
    OB(G_step < G_num, "no lookup beyond the last component");
    OB(o == G_cur, "a component is looked up in the value of the previous one");
    OB(key == G_chunks[G_step], "the components are looked up in order");
    return 1;
}

int PyErr_CheckSignals(void)
{
    if (nondet_bool()) { g_err = E_OTHER; G_fail = 1; G_failkind = E_OTHER; G_attrfail = 0; E_stop = 1; return -1; }
    return 0;
}

int PyMapping_Check(PyObject *o)
{
    use(o);
    settle();
    if (G_on && G_step < G_num && o == G_cur) return o_map[G_step];
    return nondet_bool();
}

int PyMapping_HasKeyString(PyObject *o, const char *key)
{
    use(o);
    if (!G_on) OB(__CPROVER_r_ok(key, 1), "keys are readable");
    if (current(o, key)) {
        OB(o_map[G_step], "keys are looked up in mappings only");
        return o_key[G_step];
    }
    return nondet_bool();
}

static PyObject *lookup(int attr)
{
    if (nondet_bool()) {
        g_err = anyerr();
        G_fail = 1;
        G_failkind = g_err;
        G_attrfail = attr;
        return NULL;
    }
    PyObject *r = fresh();
    if (G_on) { G_next = r; G_phase = 1; }
    return r;
}

PyObject *PyMapping_GetItemString(PyObject *o, const char *key)
{
    use(o);
    if (!G_on) OB(__CPROVER_r_ok(key, 1), "keys are readable");
    if (current(o, key))
        OB(o_map[G_step] && o_key[G_step], "items come before attributes");
    return lookup(0);
}

PyObject *PyObject_GetAttrString(PyObject *o, const char *key)
{
    use(o);
    if (!G_on) OB(__CPROVER_r_ok(key, 1), "keys are readable");
    if (current(o, key))
        OB(!(o_map[G_step] && o_key[G_step]), "items come before attributes");
    return lookup(1);
}

/* whether the object looked at has the attributes that tell functions and
   methods from instances and classes */
_Bool A_class, A_mro, A_func, A_code, A_self, A_init;
#define IS(k, s) (strcmp(k, s) == 0)
int PyObject_HasAttrString(PyObject *o, const char *key)
{
    use(o);
    return IS(key, "__class__") ? A_class : IS(key, "mro") ? A_mro : IS(key, "__func__") ? A_func
        : IS(key, "__code__") ? A_code : IS(key, "__self__") ? A_self : IS(key, "__init__") ? A_init
        : nondet_bool();
}

int PyCallable_Check(PyObject *o)
{
    use(o);
    if (G_on && G_phase == 1) {
        OB(o == G_next, "the value just found is checked for being callable");
        return o_call[G_step];
    }
    return nondet_bool();
}

PyObject *PyObject_CallObject(PyObject *o, PyObject *args)
{
    use(o);
    SCHEME(args == NULL, "calls without arguments");
    if (G_on) {
        OB(G_phase == 1 && o == G_next && G_ex && o_call[G_step] && !o_inst[G_step],
           "only what is to be called is called, once");
    }
    if (nondet_bool()) {
        g_err = anyerr();
        G_fail = 1; G_failkind = g_err; G_attrfail = 0;
        return NULL;
    }
    PyObject *r = fresh();
    if (G_on) { G_cur = r; G_step++; G_phase = 0; }
    return r;
}
PyObject *PyObject_CallNoArgs(PyObject *o) { return PyObject_CallObject(o, NULL); }

PyObject *PyErr_Occurred(void)
{
    switch (g_err) {
    case E_NONE: return NULL;
    case E_NOTFOUND: return X_NOTFOUND;
    case E_ATTR: return X_ATTR;
    case E_PERIODS: return X_PERIODS;
    }
    return X_OTHER;
}

static int kind(PyObject *x)
{
    return x == X_NOTFOUND ? E_NOTFOUND : x == X_ATTR ? E_ATTR
        : x == X_PERIODS ? E_PERIODS : E_OTHER;
}

int PyErr_GivenExceptionMatches(PyObject *given, PyObject *exc)
{
    return given != NULL && kind(given) == kind(exc);
}
int PyErr_ExceptionMatches(PyObject *exc)
{
    OB(g_err != E_NONE, "the kind of the exception is asked for when there is one");
    return kind(exc) == g_err;
}
void PyErr_Clear(void) { g_err = E_NONE; }
void PyErr_SetObject(PyObject *exc, PyObject *v) { if (v) use(v); g_err = kind(exc); }
void PyErr_SetString(PyObject *exc, const char *s) { OB(__CPROVER_r_ok(s, 1), "messages are readable"); g_err = kind(exc); }
PyObject *PyErr_NoMemory(void) { g_err = E_OTHER; return NULL; }

void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **tb)
{
    if (g_err == E_NONE) { *t = *v = *tb = NULL; return; }
    *t = PyErr_Occurred();
    *v = fresh();
    *tb = nondet_bool() ? NULL : &U;
    g_err = E_NONE;
}
void PyErr_Restore(PyObject *t, PyObject *v, PyObject *tb)
{
    if (t) use(t);
    if (v) { use(v); if (v == &T) T.ob_refcnt--; }
    g_err = t ? kind(t) : E_NONE;
    OB(t == NULL || v != NULL, "a restored exception keeps its value");
}

static PyObject *new_or_error(void)
{
    if (nondet_bool()) { g_err = E_OTHER; return NULL; }
    return fresh();
}
static PyObject *call_method(PyObject *o)
{
    use(o);
    if (nondet_bool()) { g_err = anyerr(); return NULL; }
    return fresh();
}
#undef PyObject_CallMethod
#define PyObject_CallMethod(o, n, ...) call_method(o)
long PyLong_AsLong(PyObject *o)
{
    use(o);
    long r = nondet_long();
    if (r == -1 && nondet_bool()) g_err = E_OTHER;
    return r;
}
static PyObject *from_format(const char *fmt, const void *a)
{
    OB(!(fmt[0] == '%' && fmt[1] == 'U'), "%U is given a string");
    if (fmt[0] == '%' && (fmt[1] == 'S' || fmt[1] == 'R')) use((PyObject *)a);
    return new_or_error();
}
#define PyUnicode_FromFormat(fmt, a, ...) from_format(fmt, (const void *)(a))
#undef Py_BuildValue
#define Py_BuildValue(...) new_or_error()

/* arguments of the entry functions */
static int parse(const char *fmt, void *a, void *b, void *c)
{
    if (nondet_bool()) { g_err = E_OTHER; E_stop = 1; return 0; }
    if (fmt[0] == 'O') {
        E_arg = borrowed();
        *(PyObject **)a = E_arg;
        *(char **)b = N_name;
        if (fmt[2] == '|' && nondet_bool()) { int x = nondet_int(); *(int *)c = x; G_exarg = x; }
    } else {
        *(char **)a = N_name;
        if (fmt[1] == '|' && nondet_bool()) { int x = nondet_int(); *(int *)b = x; G_exarg = x; }
    }
    return 1;
}
#define PARSE_(fmt, a, b, c, ...) parse(fmt, (void *)(a), (void *)(b), (void *)(c))
#undef PyArg_ParseTuple
#undef PyArg_ParseTupleAndKeywords
#define PyArg_ParseTuple(args, fmt, ...) PARSE_(fmt, __VA_ARGS__, NULL, NULL, NULL)
#define PyArg_ParseTupleAndKeywords(args, kw, fmt, kwl, ...) PARSE_(fmt, __VA_ARGS__, NULL, NULL, NULL)

/* the namespaces, in the documented order: 0 nothing yet, 1 locals, 2 search
   list, 3 search list exhausted, 4 globals, 5 builtins */
static void nextns(int phase, PyObject *ns)
{
    if (!E_on) return;
    OB(!E_hit, "the first namespace that has the name decides");
    OB(E_phase == 0 || E_tested, "every namespace is tried");
    E_phase = phase; E_ns = ns; E_tested = 0;
}
PyObject *PyEval_GetLocals(void)
{
    PyObject *r = borrowed();
    OB(!E_on || (E_frame && E_phase == 0), "locals come first");
    nextns(1, r);
    return r;
}
PyObject *PyEval_GetGlobals(void)
{
    PyObject *r = borrowed();
    OB(!E_on || (E_frame && E_phase == (E_list ? 3 : 1)), "globals come after locals and search list");
    nextns(4, r);
    return r;
}
PyObject *PyEval_GetBuiltins(void)
{
    PyObject *r = borrowed();
    OB(!E_on || (E_frame && E_phase == 4), "builtins come after globals");
    nextns(5, r);
    return r;
}
PyObject *PyObject_GetIter(PyObject *o)
{
    use(o);
    OB(!E_on || (E_list && E_phase == (E_frame ? 1 : 0) && o == E_arg), "the search list follows the locals");
    OB(!E_on || (!E_hit && (E_phase == 0 || E_tested)), "every namespace is tried");
    if (nondet_bool()) { g_err = anyerr(); E_stop = 1; return NULL; }
    E_phase = 2; E_tested = 1;
    E_iter = fresh();
    return E_iter;
}
PyObject *PyIter_Next(PyObject *it)
{
    use(it);
    OB(!E_on || (E_phase == 2 && it == E_iter), "namespaces come from the search list");
    OB(!E_on || (!E_hit && E_tested), "every namespace is tried");
    if (nondet_bool()) { g_err = anyerr(); E_stop = 1; return NULL; }
#ifdef BOUNDED
    if (++N_rounds > 4) { E_phase = 3; E_tested = 1; return NULL; }
#endif
    if (nondet_bool()) { E_phase = 3; E_tested = 1; return NULL; }
    PyObject *r = fresh();
    nextns(2, r);
    return r;
}

void _Py_Dealloc(PyObject *o)
{
    OB(!(o == &T && T_borrowed), "references of others are not given up");
}

void *v_malloc(size_t n)
{
    if (nondet_bool()) return NULL;
    void *p = malloc(n);
    if (p) g_live++;
    return p;
}
void v_free(void *p)
{
    if (p) { g_live--; N_freed = 1; }
    free(p);
}
size_t v_strlen(const char *s)
{
    SCHEME(s == N_name, "only the length of the name is asked for");
    return N_len;
}
#ifndef BOUNDED
#define strlen v_strlen
#endif
#define malloc v_malloc
#define free v_free
#define PyMem_Malloc v_malloc
#define PyMem_Free v_free
