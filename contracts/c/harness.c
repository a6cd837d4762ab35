#include "api.h"
#include "contracts.h"
#include "_namemapper.h"
int c_createNameCopyAndChunks(char *name, char **nameCopy, char **nameChunks, int *numChunks);
#ifdef MACRO_CONTRACT
#undef createNameCopyAndChunks
#define createNameCopyAndChunks() { if (c_createNameCopyAndChunks(name, &nameCopy, nameChunks, &numChunks)) return NULL; }
#endif
#include SOURCE

static char NAME1[1];
static char CHUNKBUF[32];
static char *CHUNKS[15];

static void setup(void)
{
    T_borrowed = nondet_bool();
    T.ob_refcnt = T_borrowed;
    U.ob_refcnt = 0xFFFFFFFF;          /* not counted */
    for (int i = 0; i < 8; i++) { FIX[i].ob_refcnt = 0xFFFFFFFF; FIX[i].ob_type = &TY; }
    T.ob_type = U.ob_type = &TY;
    TY.tp_flags = nondet_long();
    TYNAME[11] = 0;
    TY.tp_name = TYNAME;
    NotFound = X_NOTFOUND; TooManyPeriods = X_PERIODS;
    PyExc_AttributeError = X_ATTR;
    PyExc_TypeError = PyExc_ValueError = PyExc_IndexError = PyExc_KeyError = PyExc_LookupError = X_OTHER;
    g_err = 0; g_live = 0; G_on = 0; E_on = 0; G_fail = 0; G_phase = 0; G_step = 0;
    E_phase = E_tested = E_hit = E_looked = E_stop = E_direct = 0; N_chunks = 0; G_exarg = 0; N_freed = 0; N_rounds = 0;
}
static PyObject *arg(void)
{
    PyObject *o = nondet_bool() ? &T : &U;
    if (o == &T && !T_borrowed) { T.ob_refcnt++; }
    return o;
}
static void chunks(void)
{
    CHUNKBUF[31] = 0;
    for (int i = 0; i < 15; i++) { size_t k = nondet_size_t(); __CPROVER_assume(k < 32); CHUNKS[i] = CHUNKBUF + k; }
}
void h_setNotFoundException(void) { setup(); chunks(); g_err = nondet_int(); PyObject *n = nondet_bool() ? NULL : arg(); setNotFoundException(CHUNKBUF, n); }
void h_wrapInternalNotFoundException(void) { setup(); chunks(); g_err = nondet_bool() ? 0 : anyerr(); wrapInternalNotFoundException(CHUNKBUF, arg()); }
void h_isInstanceOrClass(void) { setup(); if (TY.tp_flags & Py_TPFLAGS_TYPE_SUBCLASS) __CPROVER_assume(A_class); isInstanceOrClass(arg()); }
void h_hasAttr(void) { setup(); chunks(); hasAttr(arg(), CHUNKBUF); }
void h_PyNamemapper_hasKey(void) { setup(); chunks(); PyNamemapper_hasKey(arg(), CHUNKBUF); }
void h_PyNamemapper_valueForKey(void)
{
    setup(); chunks();
    PyNamemapper_valueForKey(arg(), CHUNKBUF);
}
void h_PyNamemapper_valueForName(void)
{
    setup(); chunks();
    PyObject *o = arg();
    G_on = 1; G_chunks = CHUNKS; G_num = nondet_int(); G_ex = nondet_int(); G_cur = o;
    __CPROVER_assume(G_num >= 1 && G_num <= 14);
    for (int i = 0; i <= NOCHUNK; i++) { o_map[i] = nondet_bool(); o_key[i] = nondet_bool(); o_call[i] = nondet_bool(); o_inst[i] = nondet_bool(); }
#ifdef PLAIN
    /* the contract checked at the call itself, without instrumentation of
       every assignment */
    PyObject *obj = o; char **nameChunks = CHUNKS; int numChunks = G_num, executeCallables = G_ex;
    __CPROVER_assume(VFN_REQ1 && VFN_REQ2 && VFN_REQ3);
    Py_ssize_t old = T.ob_refcnt;
    PyObject *r = PyNamemapper_valueForName(obj, nameChunks, numChunks, executeCallables);
    OB(VFN_ENS1(r, old), "valueForName gives a new reference, or an exception and no reference");
    OB(VFN_ENS2(r), "valueForName gives the value the specification arrives at, or its error");
#else
    PyNamemapper_valueForName(o, CHUNKS, G_num, G_ex);
#endif
}
static void thename(void)
{
    N_len = nondet_size_t();
    __CPROVER_assume(N_len < MAXNAME);
#undef malloc
    N_name = malloc(N_len + 1);
#define malloc v_malloc
    __CPROVER_assume(N_name != NULL && N_name[N_len] == 0);
}
#ifdef BOUNDED
/* every name of less than MAXNAME characters, against the split at the dots */
void h_getNameChunks(void)
{
    static char copy[MAXNAME + 1], orig[MAXNAME + 1];
    char *arr[15];
    char *want[MAXNAME + 2];
    int n = 0, r;
    setup();
    for (int i = 0; i < MAXNAME; i++) { char c = nondet_uchar(); copy[i] = c; orig[i] = c; }
    copy[MAXNAME] = orig[MAXNAME] = 0;
    want[n++] = copy;
    for (int i = 0; orig[i]; i++) if (orig[i] == '.') want[n++] = copy + i + 1;
    if (orig[want[n - 1] - copy] == 0) n--;             /* nothing behind the last dot */
    r = getNameChunks(arr, orig, copy);
    OB(r >= 0 && r <= 14, "at most 14 components");
    OB(g_err == E_NONE ? r == n : (g_err == E_PERIODS && r == 0 && n > 13), "the number of components is right");
    if (g_err == E_NONE) {
        int k = nondet_int();
        __CPROVER_assume(k >= 0 && k < r);
        OB(arr[k] == want[k], "the components start where they should");
        int q = nondet_int();
        __CPROVER_assume(q >= 0 && q < MAXNAME);
        OB(copy[q] == (orig[q] == '.' && want[n - 1] > copy + q ? 0 : orig[q]) || orig[q] == '.', "the components are unchanged");
        if (k + 1 < r) OB(want[k + 1][-1] == 0, "the components end where they should");
    }
}
#else
void h_getNameChunks(void)
{
    setup(); thename();
    char *arr[15];
    N_end = nondet_size_t(); N_p = nondet_size_t();
    __CPROVER_assume(N_end <= N_len && N_p < 0x100000);
    if (N_p < N_end) N_c0 = N_name[N_p];
    getNameChunks(arr, NAME1, N_name);
}
#endif
void h_namemapper_valueForKey(void) { setup(); thename(); E_on = 1; namemapper_valueForKey(&U, &U); }
void h_namemapper_valueForName(void) { setup(); thename(); E_on = 1; E_direct = 1; namemapper_valueForName(&U, &U, &U); }
void h_namemapper_valueFromSearchList(void) { setup(); thename(); E_on = 1; E_list = 1; E_frame = 0; namemapper_valueFromSearchList(&U, &U, &U); }
void h_namemapper_valueFromFrame(void) { setup(); thename(); E_on = 1; E_list = 0; E_frame = 1; namemapper_valueFromFrame(&U, &U, &U); }
void h_namemapper_valueFromFrameOrSearchList(void) { setup(); thename(); E_on = 1; E_list = 1; E_frame = 1; namemapper_valueFromFrameOrSearchList(&U, &U, &U); }

/* Contracts of the callees in executable form (requires asserted, the rest
   arbitrary within the ensures of contracts.h), with the bookkeeping of the
   specification of the caller. */
int c_isInstanceOrClass(PyObject *nextVal)
{
    OB(OBJ(nextVal) && ALIVE(nextVal), "requires of isInstanceOrClass");
    OB(!G_on || (G_phase == 1 && nextVal == G_next), "the value just found is checked");
    return G_on ? o_inst[G_step] : nondet_bool();
}
void c_setNotFoundException(char *key, PyObject *namespace)
{
    OB(key != NULL && !N_freed, "requires of setNotFoundException");
    g_err = E_NOTFOUND;
}
int c_wrapInternalNotFoundException(char *fullName, PyObject *namespace)
{
    OB(fullName != NULL, "requires of wrapInternalNotFoundException");
    return g_err == E_NOTFOUND ? -1 : 0;
}
int c_getNameChunks(char *nameChunks[], char *name, char *nameCopy)
{
    int n = nondet_int();
    OB(nameCopy != NULL && name == N_name && !N_freed, "requires of getNameChunks");
#ifdef MACRO_CONTRACT
#elif defined(BOUNDED)
    OB(strlen(nameCopy) <= N_len, "the copy of the name is terminated");
#else
    OB(N_end <= N_len && nameCopy[N_end] == 0, "the copy of the name is terminated");
#endif
    OB(__CPROVER_w_ok(nameChunks, 15 * sizeof(char *)), "there is room for the components");
    OB(g_err == E_NONE, "requires of getNameChunks: no exception");
    G_chunks = nameChunks;
    N_chunks = 0;
    if (nondet_bool()) { g_err = E_PERIODS; return 0; }
    __CPROVER_assume(n >= 0 && n <= 14);
#define SET(i) if (i < n) nameChunks[i] = nameCopy;
    SET(0) SET(1) SET(2) SET(3) SET(4) SET(5) SET(6) SET(7) SET(8) SET(9) SET(10) SET(11) SET(12) SET(13)
    N_chunks = n;
    return n;
}
int c_PyNamemapper_hasKey(PyObject *obj, char *key)
{
    OB(obj != NULL && ALIVE(obj) && g_err == E_NONE && !N_freed, "requires of hasKey");
    OB(obj == E_ns && !E_tested && !E_hit, "the namespaces are tried one after the other");
    OB(N_chunks > 0 && key == G_chunks[0], "namespaces are asked for the first component");
    E_tested = 1;
    E_hit = nondet_bool();
    return E_hit;
}
static PyObject *found(void)
{
    PyObject *r = NULL;
    E_looked = 1;
    if (nondet_bool()) g_err = anyerr(); else r = fresh();
    E_res = r; E_err = g_err;
    return r;
}
PyObject *c_PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], int numChunks, int executeCallables)
{
    OB(obj != NULL && ALIVE(obj) && g_err == E_NONE && !N_freed, "requires of valueForName");
    OB(nameChunks == G_chunks && numChunks == N_chunks && numChunks >= 1, "the whole name is looked up");
    OB(executeCallables == G_exarg, "executeCallables is passed on");
    OB(E_direct ? obj == E_arg : (E_hit && obj == E_ns), "the name is looked up where its first component was found");
    OB(!E_looked, "the name is looked up once");
    return found();
}
PyObject *c_PyNamemapper_valueForKey(PyObject *obj, char *key)
{
    OB(obj != NULL && ALIVE(obj) && g_err == E_NONE && obj == E_arg && key == N_name, "requires of valueForKey");
    return found();
}

/* contract of the macro createNameCopyAndChunks */
int c_createNameCopyAndChunks(char *name, char **nameCopy, char **nameChunks, int *numChunks)
{
    OB(name == N_name && g_err == E_NONE && g_live == 0, "requires of createNameCopyAndChunks");
    if (nondet_bool()) { g_err = E_OTHER; E_stop = 1; return 1; }
    *nameCopy = v_malloc(1);
    __CPROVER_assume(*nameCopy != NULL);
    *numChunks = c_getNameChunks(nameChunks, name, *nameCopy);
    if (g_err != E_NONE) { v_free(*nameCopy); return 1; }
    return 0;
}
#ifndef MACRO_CONTRACT
/* the macro itself */
static PyObject *macro_unit(char *name)
{
    char *nameCopy = NULL, *tmpPntr1, *tmpPntr2;
    char *nameChunks[MAXCHUNKS];
    int numChunks;
    createNameCopyAndChunks();
    OB(g_err == E_NONE && g_live == 1 && nameCopy != NULL && !N_freed, "the copy lives on");
    OB(numChunks == N_chunks && G_chunks == nameChunks, "the components are those of the name");
    v_free(nameCopy);
    return &U;
}
void h_macro(void)
{
    setup(); thename();
    PyObject *r = macro_unit(N_name);
    OB(r != NULL || (g_err != E_NONE && g_live == 0), "no name: an exception and nothing allocated");
    OB(r == NULL || g_err == E_NONE, "a name: no exception");
}
#endif
