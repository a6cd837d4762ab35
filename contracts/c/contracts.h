/* Contracts of the functions of Cheetah/c/_namemapper.c. Ghost variables that
   an ensures clause sets (E_*, N_chunks, o_inst) are definitions: the code
   neither reads nor writes them. */
int E_direct;

#define GHOSTS T.ob_refcnt, Z
#define CH1(i) (numChunks <= i || (nameChunks[i] != NULL && __CPROVER_r_ok(nameChunks[i], 1)))
#define ALLCHUNKS (CH1(0) && CH1(1) && CH1(2) && CH1(3) && CH1(4) && CH1(5) && CH1(6) && CH1(7) && CH1(8) \
  && CH1(9) && CH1(10) && CH1(11) && CH1(12) && CH1(13))
#define RT __CPROVER_return_value
#define SAME (T.ob_refcnt == __CPROVER_old(T.ob_refcnt))

static void setNotFoundException(char *key, PyObject *namespace)
__CPROVER_requires(__CPROVER_r_ok(key, 1))
__CPROVER_assigns(T.ob_refcnt, g_err)
__CPROVER_ensures(g_err == E_NOTFOUND)
__CPROVER_ensures(SAME);

static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
__CPROVER_requires(__CPROVER_r_ok(fullName, 1))
__CPROVER_assigns(T.ob_refcnt, g_err)
__CPROVER_ensures(g_err == __CPROVER_old(g_err))
__CPROVER_ensures((RT != 0) == (__CPROVER_old(g_err) == E_NOTFOUND))
__CPROVER_ensures(SAME);

static int isInstanceOrClass(PyObject *nextVal)
__CPROVER_requires(OBJ(nextVal) && ALIVE(nextVal))
__CPROVER_assigns()
__CPROVER_ensures(RT == ((A_class && ((TY.tp_flags & Py_TPFLAGS_TYPE_SUBCLASS) || A_mro
   || (!A_func && !A_code && !A_self && A_init))) ? 1 : 0));


static int hasAttr(PyObject *obj, char *key)
__CPROVER_requires(OBJ(obj) && ALIVE(obj) && __CPROVER_r_ok(key, 1) && g_err == E_NONE && G_fail == 0)
__CPROVER_requires(T.ob_refcnt >= 0 && T.ob_refcnt < 100)
__CPROVER_assigns(GHOSTS)
__CPROVER_ensures(g_err == E_NONE && SAME)
__CPROVER_ensures((RT != 0) == !(G_fail && G_failkind == E_ATTR))
__CPROVER_ensures(G_on || (G_step == __CPROVER_old(G_step) && G_phase == __CPROVER_old(G_phase)));

static int PyNamemapper_hasKey(PyObject *obj, char *key)
__CPROVER_requires(OBJ(obj) && ALIVE(obj) && __CPROVER_r_ok(key, 1) && g_err == E_NONE && G_fail == 0)
__CPROVER_requires(T.ob_refcnt >= 0 && T.ob_refcnt < 100)
__CPROVER_assigns(GHOSTS)
__CPROVER_ensures(g_err == E_NONE && SAME);

static PyObject *PyNamemapper_valueForKey(PyObject *obj, char *key)
__CPROVER_requires(OBJ(obj) && ALIVE(obj) && __CPROVER_r_ok(key, 1) && g_err == E_NONE)
__CPROVER_requires(T.ob_refcnt >= 0 && T.ob_refcnt < 100)
__CPROVER_assigns(GHOSTS)
__CPROVER_ensures(RT == NULL ? (g_err != E_NONE && SAME)
   : (OBJ(RT) && g_err == E_NONE && T.ob_refcnt == __CPROVER_old(T.ob_refcnt) + OWN(RT)));

/* the copy of the name ends at N_end; N_p is an arbitrary position in it, with
   character N_c0: the chunks start at 0 and behind every '.', and nowhere
   else, and every '.' ends a chunk */
#define GN1(i) (RT <= i || (__CPROVER_same_object(nameChunks[i], nameCopy) && __CPROVER_POINTER_OFFSET(nameChunks[i]) <= N_len \
   && (__CPROVER_POINTER_OFFSET(nameChunks[i]) != N_p + 1 || N_c0 == '.')))
#define GNEQ(i) (i < RT && __CPROVER_POINTER_OFFSET(nameChunks[i]) == N_p + 1)
#define GNLT(i) (RT <= i + 1 || __CPROVER_POINTER_OFFSET(nameChunks[i]) < __CPROVER_POINTER_OFFSET(nameChunks[i + 1]))
#define FIRST13(F) (F(0) && F(1) && F(2) && F(3) && F(4) && F(5) && F(6) && F(7) && F(8) && F(9) && F(10) && F(11) && F(12))
static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
__CPROVER_requires(N_len < 0x100000 && N_end <= N_len && __CPROVER_rw_ok(nameCopy, N_len + 1))
__CPROVER_requires(__CPROVER_POINTER_OFFSET(nameCopy) == 0)
__CPROVER_requires(ENDS)
__CPROVER_requires(__CPROVER_rw_ok(nameChunks, 15 * sizeof(char *)) && __CPROVER_r_ok(name, 1) && g_err == E_NONE)
__CPROVER_assigns(__CPROVER_object_whole(nameCopy), __CPROVER_object_upto(nameChunks, 15 * sizeof(char *)), g_err)
__CPROVER_ensures(RT >= 0 && RT <= 14)
__CPROVER_ensures(g_err == E_NONE || (g_err == E_PERIODS && RT == 0))
__CPROVER_ensures(FIRST13(GN1) && GN1(13))
__CPROVER_ensures(g_err != E_NONE || FIRST13(GNLT))
__CPROVER_ensures(g_err != E_NONE || RT == 0 || __CPROVER_POINTER_OFFSET(nameChunks[0]) == 0)
__CPROVER_ensures(g_err != E_NONE || RT == 0 || N_p >= __CPROVER_POINTER_OFFSET(nameChunks[RT - 1]) || nameCopy[N_p] == (N_c0 == '.' ? 0 : N_c0))
__CPROVER_ensures(g_err != E_NONE || RT == 0 || N_p >= __CPROVER_POINTER_OFFSET(nameChunks[RT - 1]) || N_c0 != '.' || GNEQ(1) || GNEQ(2) || GNEQ(3) || GNEQ(4) || GNEQ(5) || GNEQ(6)
   || GNEQ(7) || GNEQ(8) || GNEQ(9) || GNEQ(10) || GNEQ(11) || GNEQ(12) || GNEQ(13));

#define VFN_REQ1 (OBJ(obj) && ALIVE(obj) && numChunks >= 1 && numChunks <= 14 && g_err == E_NONE)
#define VFN_REQ2 (T.ob_refcnt >= 0 && T.ob_refcnt < 100)
#define VFN_REQ3 (!G_on || (nameChunks == G_chunks && numChunks == G_num && executeCallables == G_ex && obj == G_cur \
   && G_step == 0 && G_phase == 0 && G_fail == 0))
/* a new reference and no exception, or an exception and no reference */
#define VFN_ENS1(RET, OLD) ((RET) == NULL ? (g_err != E_NONE && T.ob_refcnt == (OLD)) \
   : (OBJ(RET) && g_err == E_NONE && T.ob_refcnt == (OLD) + OWN(RET)))
/* the value is the one the specification arrives at; an AttributeError becomes NotFound, all others stay */
#define VFN_ENS2(RET) (!G_on || ((RET) == NULL \
   ? (G_fail && g_err == (G_attrfail && G_failkind == E_ATTR ? E_NOTFOUND : G_failkind)) \
   : (!G_fail && (G_phase == 0 ? G_step == G_num && (RET) == G_cur \
        : G_step == G_num - 1 && (RET) == G_next && !(G_ex && o_call[G_step] && !o_inst[G_step])))))
static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], int numChunks, int executeCallables)
__CPROVER_requires(VFN_REQ1)
__CPROVER_requires(VFN_REQ2)
__CPROVER_requires(__CPROVER_r_ok(nameChunks, numChunks * sizeof(char *)))
__CPROVER_requires(ALLCHUNKS)
__CPROVER_requires(VFN_REQ3)
__CPROVER_assigns(GHOSTS)
__CPROVER_ensures(VFN_ENS1(RT, __CPROVER_old(T.ob_refcnt)))
__CPROVER_ensures(VFN_ENS2(RT));

#define ENTRY(LAST) \
__CPROVER_requires(g_err == E_NONE && T.ob_refcnt == T_borrowed && g_live == 0) \
__CPROVER_requires(!E_looked && !E_stop && !E_hit && E_phase == 0 && !E_tested && G_exarg == 0 && N_chunks == 0 && N_rounds == 0 && !N_freed) \
__CPROVER_assigns(GHOSTS, Y) \
__CPROVER_ensures(g_live == 0) \
__CPROVER_ensures(RT == NULL || (OBJ(RT) && g_err == E_NONE && E_looked && RT == E_res)) \
__CPROVER_ensures(RT != NULL || g_err != E_NONE) \
__CPROVER_ensures(T.ob_refcnt == T_borrowed + OWN(RT)) \
__CPROVER_ensures(RT != NULL || !E_looked || g_err == E_err) \
__CPROVER_ensures(RT != NULL || E_looked || E_stop || N_chunks == 0 || g_err == E_NOTFOUND) \
__CPROVER_ensures(E_looked || E_stop || N_chunks == 0 || (E_phase == LAST && E_tested && !E_hit))

static PyObject *namemapper_valueForKey(PyObject *self, PyObject *args) ENTRY(0);
static PyObject *namemapper_valueForName(PyObject *self, PyObject *args, PyObject *kwargs) ENTRY(0);
static PyObject *namemapper_valueFromSearchList(PyObject *self, PyObject *args, PyObject *kwargs) ENTRY(3);
static PyObject *namemapper_valueFromFrame(PyObject *self, PyObject *args, PyObject *keywds) ENTRY(5);
static PyObject *namemapper_valueFromFrameOrSearchList(PyObject *self, PyObject *args, PyObject *keywds) ENTRY(5);
