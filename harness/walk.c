/* Contracts of the functions that walk linked lists, for lists of any length (CUTSRC: loops cut by vk/cut.py, mode walk; not run natively).
 *
 * A list is a length L and, at any time, the elements at a few positions: 0, an arbitrary tracked position J, the current position k and
 * k + 1, and the last. All other addresses are invalid pointers, so touching another element fails. What holds of the
 * element at J before and after the current position passes it is the universally quantified invariant over all elements; the
 * elements at the other positions are its instances. It is checked after every iteration for every materialised
 * element, which is also the frame: an iteration changes nothing but what the invariant says. */
#include "vk.h"
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include "projectm-eval/CompilerTypes.h"
#include "projectm-eval/CompilerFunctions.h"
#include "projectm-eval/CompileContext.h"
#include "projectm-eval/ExpressionTree.h"
#include "projectm-eval/MemoryBuffer.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/TreeVariables.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
typedef prjm_eval_exptreenode_list_item_t item_t;
typedef prjm_eval_compiler_node_t cnode_t;
typedef prjm_eval_compiler_arg_list_t alist_t;
typedef prjm_eval_compiler_arg_node_t anode_t;
typedef prjm_eval_function_def_t def_t;
typedef prjm_eval_function_list_item_t fitem_t;
typedef prjm_eval_variable_entry_t vent_t;
typedef prjm_eval_variable_def_t vdef_t;
#define VK_fitem 1
#define VK_vent 2
#define VK_anode 4
#define VK_item 8
#if defined(W_DESTROY) || defined(W_DARG) || defined(W_DTREE)
#define DESTROYS 1      /* elements passed have been released */
#else
#define DESTROYS 0
#endif
#if defined(W_RESET)
#define VISITED_VALUE(v0) ((F) 0)
#else
#define VISITED_VALUE(v0) (v0)
#endif
static long nd_long(void) { return nd_int(); }
static void* raw(size_t n) { return calloc(1, n); }
static void vk_same(bool b) { __CPROVER_assert(b, "C14: a loop leaves other pointers alone"); }

prjm_eval_compiler_context_t CC, CC0, *G_cc;
F* MB1[1]; F* MB2[1]; F REGS[100];
static int g_alloc, g_other, g_alloc0, g_other0;   /* allocations, other releases */

/* ---- lists */
/* elements that are released have to be dynamic */
#define OBJ(p) (DESTROYS ? malloc(sizeof(*(p))) : (void*) (p))
/* slots of a list: head, tracked, last, current, next; X_p: their positions */
#define NS 5
#define LIST(X, EL, PL, FIELD) \
static EL X##_s[NS]; static PL X##_ps[NS]; static char X##_ns[NS]; static EL* X##_o[NS]; static PL* X##_pl[NS]; static bool X##_there[NS], X##_fe[NS], X##_fp[NS]; static long X##_p[NS], X##_L, X##_J, X##_k; \
static void X##_place(void) { X##_p[0] = 0; X##_p[1] = X##_J; X##_p[2] = X##_L - 1; X##_p[3] = X##_k; X##_p[4] = X##_k + 1; \
    for (int s = 0; s < NS; s++) { X##_there[s] = X##_p[s] >= 0 && X##_p[s] < X##_L && (!DESTROYS || X##_p[s] >= X##_k); for (int t = 0; t < s; t++) if (X##_p[t] == X##_p[s]) X##_there[s] = false; } } \
static int X##_slot(long p) { for (int s = 0; s < NS; s++) if (X##_there[s] && X##_p[s] == p) return s; return -1; } \
static EL* X##_at(long p) { if (p < 0 || p >= X##_L) return 0; int c = X##_slot(p); return c < 0 ? (EL*) (16 * p + 16) : X##_o[c]; } \
static void X##_links(void) { for (int s = 0; s < NS; s++) { X##_o[s]->FIELD = X##_pl[s]; X##_o[s]->next = X##_at(X##_p[s] + 1); } } \
static EL* vk_nd_##X(void) { int c = nd_range(0, 3); return c == 0 ? 0 : c == 1 ? X##_at(X##_k) : c == 2 ? X##_at(X##_k + 1) : X##_at(0); } \
static bool vk_is_##X(int c, EL* p) { return c == 0 ? p == X##_at(X##_k) : c == 1 ? p == X##_at(X##_k + 1) : c == 2 ? p == 0 : p != 0; } \
static bool X##_linked(int s) { return X##_o[s]->FIELD == X##_pl[s] && X##_o[s]->next == X##_at(X##_p[s] + 1); }

#if defined(W_GETF) || defined(W_ISF) || defined(W_DESTROY)
#define HAVE_F 1
LIST(fitem, fitem_t, def_t, function)
static char* f_nm[NS]; static bool f_fn[NS], f_m[NS]; static bool g_exists;
static void f_new(int s)
{
    fitem_o[s] = OBJ(&fitem_s[s]); fitem_pl[s] = OBJ(&fitem_ps[s]); f_nm[s] = OBJ(&fitem_ns[s]);
    fitem_fe[s] = fitem_fp[s] = f_fn[s] = false;
    fitem_pl[s]->name = f_nm[s];
    f_m[s] = g_exists && (fitem_p[s] == fitem_J || fitem_p[s] > fitem_J && nd_bool());
}
#endif
#if defined(W_REG) || defined(W_RESET) || defined(W_DESTROY)
#define HAVE_V 1
LIST(vent, vent_t, vdef_t, variable)
static char* v_nm[NS]; static bool v_fn[NS], v_m[NS]; static bool g_exists2; static F v_val[NS];
static void v_new(int s)
{
    vent_o[s] = OBJ(&vent_s[s]); vent_pl[s] = OBJ(&vent_ps[s]); v_nm[s] = OBJ(&vent_ns[s]);
    vent_fe[s] = vent_fp[s] = v_fn[s] = false;
    vent_pl[s]->name = v_nm[s]; v_val[s] = nd_F(); vent_pl[s]->value = v_val[s];
    v_m[s] = g_exists2 && vent_p[s] == vent_J;
}
#endif
#if defined(W_DARG) || defined(W_ADDARG)
#define HAVE_A 1
LIST(anode, anode_t, cnode_t, node)
static cnode_t A_N[NS];
static void a_new(int s)
{
    anode_o[s] = OBJ(&anode_s[s]); anode_pl[s] = nd_bool() ? &A_N[s] : 0;
    anode_fe[s] = anode_fp[s] = false;
}
#endif
#if defined(W_DTREE) || defined(W_ADDI)
#define HAVE_I 1
LIST(item, item_t, node_t, expr)
static node_t I_N[NS];
static void i_new(int s)
{
    item_o[s] = OBJ(&item_s[s]); item_pl[s] = &I_N[s];
    item_fe[s] = item_fp[s] = false;
}
#endif
/* nothing is reached by a pointer from before the loop */
#if HAVE_F
static void f_drop(int s) { if (!fitem_fe[s]) free(fitem_o[s]); if (!fitem_fp[s]) free(fitem_pl[s]); if (!f_fn[s]) free(f_nm[s]); }
#endif
#if HAVE_V
static void v_drop(int s) { if (!vent_fe[s]) free(vent_o[s]); if (!vent_fp[s]) free(vent_pl[s]); if (!v_fn[s]) free(v_nm[s]); }
#endif
#if HAVE_A
static void a_drop(int s) { if (!anode_fe[s]) free(anode_o[s]); }
#endif
#if HAVE_I
static void i_drop(int s) { if (!item_fe[s]) free(item_o[s]); }
#endif
/* a fresh list: every position is still ahead */
#define START(X, mk) { X##_L = nd_long(); X##_J = nd_long(); X##_k = 0; VK_ASSUME(X##_L >= 0 && X##_L <= 2147483600 && X##_J >= 0 && (X##_J < X##_L || X##_L == 0)); X##_place(); for (int s = 0; s < NS; s++) mk(s); X##_links(); }
/* any later position. Elements that have been released are gone, those ahead are the same objects (whatever points to them still does), others
 * are as the invariant says */
#define REMAKE(X, mk, drop) { X##_k = nd_long(); VK_ASSUME(X##_k >= 0 && X##_k <= X##_L); \
    bool gone[NS]; for (int s = 0; s < NS; s++) { gone[s] = X##_k > 0 && (s >= 3 || DESTROYS && X##_p[s] < X##_k); if (DESTROYS && gone[s]) drop(s); } \
    X##_place(); for (int s = 0; s < NS; s++) if (gone[s]) mk(s); X##_links(); }

static void* g_root; static bool g_rootfree; static void* g_args; static bool g_argsfree; static void* g_err; static bool g_errfree; static void* g_list; static bool g_listfree;
#define OWN_FREE(P, FLAG, what) if (p == P) { VK_ASSERT(!FLAG, "C14 C13: " what " is released only once"); FLAG = true; g_other++; free(p); return; }
void vk_free(void* p)
{
    if (!p) return;
    OWN_FREE(g_root, g_rootfree, "an object")
    OWN_FREE(g_args, g_argsfree, "an operand array")
    OWN_FREE(g_err, g_errfree, "an error")
    OWN_FREE(g_list, g_listfree, "an argument list")
#define EL_FREE(X) for (int s = 0; s < NS; s++) if (X##_there[s] && p == X##_o[s]) { VK_ASSERT(!X##_fe[s], "C14: an element is released only once"); X##_fe[s] = true; if (DESTROYS) free(p); return; }
#define PL_FREE(X, fp, pl) for (int s = 0; s < NS; s++) if (X##_there[s] && p == pl[s]) { VK_ASSERT(!fp[s], "C14: a part of an element is released only once"); fp[s] = true; if (DESTROYS) free(p); return; }
#if HAVE_F
    EL_FREE(fitem) PL_FREE(fitem, fitem_fp, fitem_pl) PL_FREE(fitem, f_fn, f_nm)
#endif
#if HAVE_V
    EL_FREE(vent) PL_FREE(vent, vent_fp, vent_pl) PL_FREE(vent, v_fn, v_nm)
#endif
#if HAVE_A
    EL_FREE(anode)
#endif
#if HAVE_I
    EL_FREE(item)
#endif
    VK_ASSERT(false, "C14 C13: nothing else is released");
    VK_ASSUME(false);
}
static void* g_new[4]; static int g_nnew;
void* vk_malloc(size_t n) { void* p = malloc(n); if (g_nnew < 4) g_new[g_nnew++] = p; g_alloc++; return p; }
void* vk_calloc(size_t n, size_t s) { void* p = calloc(n, s); if (g_nnew < 4) g_new[g_nnew++] = p; g_alloc++; return p; }

/* released: nothing of an element is left; otherwise all of it is as it was */
static void inv(int list, bool step)
{
    (void) step;
#if HAVE_F
    for (int s = 0; s < NS; s++) if ((list & VK_fitem) && fitem_there[s])
    {
        if (DESTROYS && fitem_p[s] < fitem_k) VK_ASSERT(fitem_fe[s] && fitem_fp[s] && f_fn[s], "C14: every function of a context is released with its definition and name");
        else
        {
            VK_ASSERT(!fitem_fe[s] && !fitem_fp[s] && !f_fn[s], "C14: functions are released once");
            VK_ASSERT(fitem_linked(s) && fitem_pl[s]->name == f_nm[s], "C12 C08: the table of functions is not changed");
        }
    }
#endif
#if HAVE_V
    for (int s = 0; s < NS; s++) if ((list & VK_vent) && vent_there[s])
    {
        if (DESTROYS && vent_p[s] < vent_k) VK_ASSERT(vent_fe[s] && vent_fp[s] && v_fn[s], "C14: every variable of a context is released with its definition and name");
        else
        {
            VK_ASSERT(!vent_fe[s] && !vent_fp[s] && !v_fn[s], "C14: variables are released once");
            VK_ASSERT(vent_linked(s) && vent_pl[s]->name == v_nm[s], "C09 C10: variables keep their names and addresses");
            if (vent_p[s] < vent_k) VK_ASSERT(SAME(vent_pl[s]->value, VISITED_VALUE(v_val[s])), "C09 C10: every variable has the value promised");
            else VK_ASSERT(SAME(vent_pl[s]->value, v_val[s]), "C09 C10: every variable has the value promised");
        }
    }
#endif
#if HAVE_A
    for (int s = 0; s < NS; s++) if ((list & VK_anode) && anode_there[s])
    {
        if (DESTROYS && anode_p[s] < anode_k) VK_ASSERT(anode_fe[s] && anode_fp[s] == (anode_pl[s] != 0), "C13 C14: every argument is released once");
        else VK_ASSERT(!anode_fe[s] && !anode_fp[s] && anode_linked(s), "C13 C14 C12: arguments are kept");
    }
#endif
#if HAVE_I
    for (int s = 0; s < NS; s++) if ((list & VK_item) && item_there[s])
    {
        if (DESTROYS && item_p[s] < item_k) VK_ASSERT(item_fe[s] && item_fp[s], "C14: every instruction is released once");
        else VK_ASSERT(!item_fe[s] && !item_fp[s] && item_linked(s), "C08 C14: instructions are kept");
    }
#endif
}
#define CCSAME (G_cc->functions.first == CC0.functions.first && G_cc->variables.first == CC0.variables.first && G_cc->global_variables == CC0.global_variables && G_cc->memory == CC0.memory && \
        G_cc->global_memory == CC0.global_memory && G_cc->error.error == CC0.error.error && G_cc->compile_result == CC0.compile_result && G_cc->error.line == CC0.error.line && \
        G_cc->error.column_start == CC0.error.column_start)
static bool ccsame(void) { return g_rootfree || CCSAME; }
static void frame_snap(void) { if (!g_rootfree) CC0 = *G_cc; g_alloc0 = g_alloc; g_other0 = g_other; }
static int extra(void);
static int g_extra0;
/* loop heads */
static void vk_loop_base(int m)
{
    frame_snap(); g_extra0 = extra();
#if HAVE_F
    if (m & VK_fitem) { if (!DESTROYS && VISITED_VALUE(1.) == 1.) fitem_k = 0; VK_ASSERT(fitem_k == 0, "C14: one walk over a list"); }
#endif
#if HAVE_V
    if (m & VK_vent) { if (!DESTROYS && VISITED_VALUE(1.) == 1.) vent_k = 0; VK_ASSERT(vent_k == 0, "C14: one walk over a list"); }
#endif
#if HAVE_A
    if (m & VK_anode) { if (!DESTROYS) anode_k = 0; VK_ASSERT(anode_k == 0, "C14: one walk over a list"); }
#endif
#if HAVE_I
    if (m & VK_item) { if (!DESTROYS) item_k = 0; VK_ASSERT(item_k == 0, "C14: one walk over a list"); }
#endif
    inv(15, false);
}
static void vk_loop_havoc(int m)
{
#if HAVE_F
    if (m & VK_fitem) { REMAKE(fitem, f_new, f_drop) VK_ASSUME(!g_exists || fitem_k <= fitem_J); }
#endif
#if HAVE_V
    if (m & VK_vent)
    {
        REMAKE(vent, v_new, v_drop)
        VK_ASSUME(!g_exists2 || vent_k <= vent_J);
#if defined(W_RESET)
        for (int s = 0; s < 3; s++) vent_pl[s]->value = vent_p[s] < vent_k ? VISITED_VALUE(v_val[s]) : v_val[s];
#endif
    }
#endif
#if HAVE_A
    if (m & VK_anode) { REMAKE(anode, a_new, a_drop) }
#endif
#if HAVE_I
    if (m & VK_item) { REMAKE(item, i_new, i_drop) }
#endif
}
static void vk_loop_step(int m)
{
#if HAVE_F
    if (m & VK_fitem) { VK_ASSERT(fitem_k < fitem_L, "C14: the walk stays in the list"); fitem_k++; VK_ASSERT(!g_exists || fitem_k <= fitem_J, "C12: the first match is not passed"); }
#endif
#if HAVE_V
    if (m & VK_vent) { VK_ASSERT(vent_k < vent_L, "C14: the walk stays in the list"); vent_k++; VK_ASSERT(!g_exists2 || vent_k <= vent_J, "C09: the match is not passed"); }
#endif
#if HAVE_A
    if (m & VK_anode) { VK_ASSERT(anode_k < anode_L, "C14: the walk stays in the list"); anode_k++; }
#endif
#if HAVE_I
    if (m & VK_item) { VK_ASSERT(item_k < item_L, "C14: the walk stays in the list"); item_k++; }
#endif
    inv(15, true);
    VK_ASSERT(ccsame() && g_alloc == g_alloc0 && g_other == g_other0 && extra() == g_extra0, "C14: a loop changes nothing else");
}

static bool vk_intc(int c, long v, long e)
{
    long k =
#if HAVE_F && !HAVE_V
        fitem_k;
    long L = fitem_L;
#elif HAVE_V
        vent_k;
    long L = vent_L;
#elif HAVE_A
        anode_k;
    long L = anode_L;
#else
        item_k;
    long L = item_L;
#endif
    return c == 0 ? v == e + k : c == 1 ? v == L - k : c == 2 ? v == k : v >= 0;
}
#define malloc vk_malloc
#define calloc vk_calloc
#define free vk_free
#define VACUITY __CPROVER_assert(0, "VACUITY")
static char NM[8]; static char* g_dup; static bool d_free; static long g_len;
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void setup(void)
{
    CC.functions.first = 0; CC.variables.first = 0; CC.global_variables = 0; CC.memory = MB1; CC.global_memory = MB2;
    CC.error.error = 0; CC.error.line = nd_int(); CC.error.column_start = nd_int(); CC.error.column_end = nd_int(); CC.compile_result = 0;
    G_cc = &CC; g_alloc = g_other = g_nnew = 0; g_root = g_args = g_err = g_list = 0; g_rootfree = g_argsfree = g_errfree = g_listfree = false; g_dup = 0;
    (void) spec_f2i(0.); (void) nd_uint; (void) nd_F;
}

#if HAVE_F && !defined(W_DESTROY)
static int extra(void) { return 0; }
int vk_strcasecmp(const char* a, const char* b)
{
    for (int s = 0; s < NS; s++) if (fitem_there[s])
        if (a == f_nm[s] && b == NM || a == NM && b == f_nm[s]) { int r = nd_int(); VK_ASSUME((r == 0) == f_m[s]); return r; }
    VK_ASSERT(false, "C12: names of functions are compared with the given name");
    VK_ASSUME(false);
    return 0;
}
#define strcasecmp vk_strcasecmp
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    g_exists = nd_bool();
    START(fitem, f_new)
    VK_ASSUME(!g_exists || fitem_L > 0);
    CC.functions.first = fitem_at(0);
    CC0 = CC;
#ifdef W_GETF
    def_t* r = prjm_eval_compiler_get_function(&CC, NM);
    VK_ASSERT(r == (g_exists ? fitem_pl[fitem_slot(fitem_J)] : 0), "C12: a name resolves to the first function of that name in any letter case, or none");
#else
    bool r = prjm_eval_compiler_name_is_function(&CC, NM);
    VK_ASSERT(r == g_exists, "C12 C19: a name is a function name exactly if a function has that name in any letter case");
#endif
    inv(15, false);
    VK_ASSERT(ccsame() && g_alloc == 0 && g_other == 0, "C12: looking a name up changes nothing");
    VACUITY;
}
#endif

#if defined(W_REG)
static int extra(void) { return 0; }
#define ND(c) ((c) >= '0' && (c) <= '9')
int vk_isdigit(int c) { return ND(c); }
int vk_atoi(const char* s) { int v = 0; for (int i = 0; i < 6 && ND(s[i]); i++) v = v * 10 + (s[i] - '0'); return v; }
static char O[6];
size_t vk_strlen(const char* s) { if (s == O) return 5; VK_ASSERT(s == NM, "C09: the length of the name"); return (size_t) g_len; }
int vk_strncasecmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; i++) { int d = low((unsigned char) a[i]) - low((unsigned char) b[i]); if (d || !a[i]) return d; }
    return 0;
}
int vk_strcasecmp(const char* a, const char* b)
{
    for (int s = 0; s < NS; s++) if (vent_there[s])
        if (a == v_nm[s] && b == NM || a == NM && b == v_nm[s]) { int r = nd_int(); VK_ASSUME((r == 0) == v_m[s]); return r; }
    VK_ASSERT(false, "C09: names of variables are compared with the given name");
    VK_ASSUME(false);
    return 0;
}
char* vk_strdup(const char* s) { VK_ASSERT(s == NM && g_dup == 0, "C09: the variable gets the given name"); g_alloc++; g_dup = raw(1); return g_dup; }
#undef isdigit
#define isdigit vk_isdigit
#define atoi vk_atoi
#define strlen vk_strlen
#define strncasecmp vk_strncasecmp
#define strcasecmp vk_strcasecmp
#undef strdup
#define strdup vk_strdup
#pragma CPROVER check pop
#include CUTSRC
prjm_eval_compiler_context_t C2;
void harness(void)
{
    setup();
    /* a name of any length; characters behind the eighth do not matter to the contract */
    g_len = nd_long(); VK_ASSUME(g_len >= 0);
    for (int i = 0; i < 8; i++) { NM[i] = (char) nd_range(-128, 127); VK_ASSUME(i < g_len ? NM[i] != 0 : i != g_len || NM[i] == 0); }
    char N2[8]; for (int i = 0; i < 8; i++) N2[i] = NM[i];
    bool isreg = g_len == 5 && low(NM[0]) == 'r' && low(NM[1]) == 'e' && low(NM[2]) == 'g' && ND(NM[3]) && ND(NM[4]);
#ifdef REGN
    VK_ASSUME(isreg);
#else
    VK_ASSUME(!isreg);
#endif
    g_exists2 = nd_bool() && !isreg;   /* names of variables are no register names and differ from each other: invariant */
    START(vent, v_new)
    VK_ASSUME(!g_exists2 || vent_L > 0);
    CC.variables.first = vent_at(0);
    bool own = nd_bool();
    CC.global_variables = own ? &REGS : 0;
    CC0 = CC;
    int k0 = nd_range(0, 99); F rv0 = nd_F(); REGS[k0] = rv0;
    F* r = prjm_eval_register_variable(&CC, NM);
    VK_ASSERT(SAME(REGS[k0], rv0), "C09: registering variables changes no register");
    for (int i = 0; i < 8; i++) VK_ASSERT(NM[i] == N2[i], "C09: the given name is not changed");
    VK_ASSERT(CC.memory == MB1 && CC.global_memory == MB2 && CC.functions.first == 0 && CC.compile_result == 0 && CC.error.error == 0 && g_other == 0, "C09 C11: nothing else in the context changes");
#ifdef REGN
    {
        int k = (NM[3] - '0') * 10 + (NM[4] - '0');
        VK_ASSERT(g_alloc == 0 && CC.variables.first == CC0.variables.first, "C09: a register name creates no variable");
        inv(15, false);
        if (own) VK_ASSERT(r == &REGS[k] && CC.global_variables == &REGS, "C09 C11: regNN denotes register NN of the array the context was created with");
        else
        {
            C2.global_variables = 0;
            O[0] = 'R'; O[1] = 'e'; O[2] = 'g'; O[3] = (char) nd_range('0', '9'); O[4] = (char) nd_range('0', '9'); O[5] = 0;
            int o = (O[3] - '0') * 10 + O[4] - '0';
            F* q = prjm_eval_register_variable(&C2, O);
            VK_ASSERT(q - r == o - k, "C09 C11: contexts without registers share the built-in registers");
            F* q2 = prjm_eval_register_variable(&CC, O);
            VK_ASSERT(q2 == q && g_alloc == 0, "C09: a register keeps its address");
        }
    }
#else
    if (g_exists2)
    {
        VK_ASSERT(r == &vent_pl[vent_slot(vent_J)]->value, "C09: every spelling of a name denotes the same variable");
        VK_ASSERT(g_alloc == 0 && ccsame(), "C09 C14: registering an existing variable creates nothing");
        inv(15, false);
    }
    else
    {
        VK_ASSERT(g_alloc == 3 && g_dup != 0, "C14 C09: a variable consists of entry, definition and name");
        VK_ASSERT(CC.global_variables == CC0.global_variables, "C09: a variable is no register");
        vent_t* e = CC.variables.first;
        VK_ASSERT(e != 0 && e != vent_at(0), "C09 C14: a new variable is added to the context once");
        VK_ASSUME(e != 0 && e != vent_at(0));
        VK_ASSERT((void*) e == g_new[0] || (void*) e == g_new[1], "C09: a new variable is an object of its own");
        VK_ASSERT(e->next == vent_at(0), "C09: all variables stay registered");
        VK_ASSERT((void*) e->variable == g_new[1] || (void*) e->variable == g_new[0], "C09: different names denote different variables");
        VK_ASSERT((void*) e->variable != (void*) e && r == &e->variable->value, "C09: different names denote different variables");
        VK_ASSERT(e->variable->name == g_dup, "C09: a variable has the name it was registered with");
        VK_ASSERT(*r == 0 && !SIGNBIT(*r), "C09: a new variable is 0");
        inv(15, false);
    }
#endif
    VACUITY;
}
#endif

#if defined(W_RESET)
static int extra(void) { return 0; }
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    START(vent, v_new)
    CC.variables.first = vent_at(0);
    CC.global_variables = nd_bool() ? &REGS : 0;
    if (nd_bool()) CC.compile_result = (node_t*) 16;
    int k = nd_range(0, 99); F rv = nd_F(); REGS[k] = rv;
    CC0 = CC;
    prjm_eval_reset_context_vars(&CC);
    VK_ASSERT(vent_L == 0 || vent_pl[vent_slot(vent_J)]->value == 0, "C10: resetting sets every variable of the context to 0");
    VK_ASSERT(SAME(REGS[k], rv), "C10: resetting changes no register");
    VK_ASSERT(ccsame() && g_alloc == 0 && g_other == 0 && MB1[0] == 0 && MB2[0] == 0, "C10: resetting changes nothing else in the context");
    VK_ASSERT(vent_k == vent_L, "C10: resetting sets every variable of the context to 0");
    inv(15, false);
    VACUITY;
}
#endif

#if defined(W_DARG)
static alist_t L0;
static int extra(void) { alist_t* l = g_list; return l && !g_listfree && (l->count != L0.count || l->begin != L0.begin || l->end != L0.end); }
void vk_destroy_node(cnode_t* n)
{
    for (int s = 0; s < NS; s++) if (anode_there[s] && n == anode_pl[s] && n) { VK_ASSERT(!anode_fp[s], "C13 C14: an argument is released only once"); anode_fp[s] = true; return; }
    VK_ASSERT(false, "C13 C14: only the arguments are released");
    VK_ASSUME(false);
}
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    START(anode, a_new)
    alist_t* al = 0;
    bool has = nd_bool();
    VK_ASSUME(has || anode_L == 0);
    if (has) { al = raw(sizeof *al); al->count = (int) anode_L; al->begin = anode_at(0); al->end = anode_at(anode_L - 1); g_list = al; L0 = *al; }
    CC0 = CC;
    prjm_eval_compiler_destroy_arglist(al);
    VK_ASSERT(anode_k == anode_L, "C13 C14: releasing an argument list releases every argument still in it once");
    inv(15, false);
    VK_ASSERT(g_listfree == has && g_other == has && g_alloc == 0, "C13 C14: nothing is left behind");
    VACUITY;
}
#endif

#if defined(W_DTREE)
static node_t T[3], X0; static int rel[3];
static int extra(void)
{
    node_t* x = g_root;
    return rel[0] + rel[1] + rel[2] + (x && !g_rootfree && (x->args != X0.args || x->list != X0.list || x->func != X0.func) ? 100 : 0);
}
void vk_rec(prjm_eval_exptreenode_t* n)
{
    if (!n) return;
    for (int i = 0; i < 3; i++) if (n == &T[i]) { VK_ASSERT(rel[i] == 0, "C14: every subexpression is released only once"); rel[i]++; return; }
    for (int s = 0; s < NS; s++) if (item_there[s] && n == item_pl[s]) { VK_ASSERT(!item_fp[s], "C14: every subexpression is released only once"); item_fp[s] = true; return; }
    VK_ASSERT(false, "C14: only operands and instructions are released with an expression");
    VK_ASSUME(false);
}
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    START(item, i_new)
    node_t* x = 0; int na = -1;
    bool has = nd_bool();
    VK_ASSUME(has || item_L == 0);
    if (has)
    {
        x = raw(sizeof *x); g_root = x;
        x->value = nd_F(); if (nd_bool()) x->memory_buffer = MB1;
        na = nd_range(-1, 3);
        if (na >= 0) { x->args = raw((na + 1) * sizeof *x->args); g_args = x->args; for (int i = 0; i < 3; i++) if (i < na) x->args[i] = &T[i]; }
        x->list = item_at(0); X0 = *x;
    }
    CC0 = CC;
    prjm_eval_destroy_exptreenode(x);
    for (int i = 0; i < 3; i++) VK_ASSERT(rel[i] == (i < na), "C14: releasing an expression releases each operand exactly once");
    VK_ASSERT(item_k == item_L, "C14: releasing an expression releases each instruction exactly once");
    inv(15, false);
    VK_ASSERT(g_rootfree == has && g_argsfree == (na >= 0) && g_alloc == 0, "C14: an expression is released with its argument array and list items, and nothing else");
    VACUITY;
}
#endif

#if defined(W_DESTROY)
static int g_mem, g_res; static node_t RES;
static int extra(void) { return g_mem * 16 + g_res; }
void vk_destroy_exptree(prjm_eval_exptreenode_t* n) { if (!n) return; VK_ASSERT(n == &RES && g_res == 0, "C14 C13: a pending compile result is released with the context"); g_res++; }
void vk_destroy_buffer(projectm_eval_mem_buffer b) { VK_ASSERT(b == MB1 && g_mem == 0, "C14 C11: destroying a context releases its local memory only"); g_mem++; }
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    START(fitem, f_new)
    START(vent, v_new)
    prjm_eval_compiler_context_t* c = raw(sizeof *c);
    c->functions.first = fitem_at(0); c->variables.first = vent_at(0);
    c->memory = MB1; c->global_memory = MB2; c->global_variables = nd_bool() ? &REGS : 0;
    bool err = nd_bool(), res = nd_bool();
    if (err) { c->error.error = raw(2); g_err = c->error.error; }
    if (res) c->compile_result = &RES;
    g_root = c; G_cc = c;
    CC0 = CC;
    prjm_eval_destroy_compile_context(c);
    VK_ASSERT(g_mem == 1, "C14: destroying a context releases its local memory once");
    VK_ASSERT(g_res == res, "C14 C13: a pending compile result is released with the context");
    VK_ASSERT(fitem_k == fitem_L && vent_k == vent_L, "C14: destroying a context releases its functions and variables");
    inv(15, false);
    VK_ASSERT(g_rootfree && g_errfree == err && g_alloc == 0, "C14: destroying a context releases its functions, variables and error, and nothing else");
    VACUITY;
}
#endif

#if defined(W_ADDARG)
static int extra(void) { return 0; }
#pragma CPROVER check pop
#include CUTSRC
void harness(void)
{
    setup();
    START(anode, a_new)
    alist_t* al = 0;
    bool has = nd_bool();
    VK_ASSUME(has == (anode_L > 0));
    if (has) { al = raw(sizeof *al); al->count = (int) anode_L; al->begin = anode_at(0); al->end = anode_at(anode_L - 1); }
    cnode_t arg; CC0 = CC;
    alist_t* r = prjm_eval_compiler_add_argument(al, &arg);
    VK_ASSERT(r != 0 && (al == 0 || r == al), "C12 C13: adding an argument yields the list");
    VK_ASSUME(r != 0);
    VK_ASSERT(r->count == anode_L + 1, "C12: the number of arguments is counted");
    anode_t* n = r->end;
    VK_ASSERT((void*) n == g_new[0] || (void*) n == g_new[1], "C12 C03: a new argument comes last");
    VK_ASSUME(n == g_new[0] || n == g_new[1]);
    VK_ASSERT(n->node == &arg && n->next == 0, "C12 C14: the argument list ends with the last argument");
    VK_ASSERT((void*) n != (void*) r, "C12: the argument list ends with the last argument");
    VK_ASSERT(r->begin == (has ? anode_at(0) : n), "C12 C03: arguments keep their source order");
    VK_ASSERT(g_alloc == (has ? 1 : 2) && g_other == 0, "C13 C14: nothing else is created");
    if (has)
    {
        int l = anode_slot(anode_L - 1);
        VK_ASSERT(anode_o[l]->next == n, "C12 C03: arguments keep their source order");
        anode_o[l]->next = 0;
    }
    inv(15, false);
    VACUITY;
}
#endif

#if defined(W_ADDI)
/* the list is given as a list; a single expression needs no walk: harness/comp.c U_ADDI with SINGLE */
static cnode_t G_l, G_l0, G_i0; static cnode_t* G_lp; static node_t G_x, NI; static def_t LISTDEF;
void fn_list(node_t* c, F** rv) { VK_ASSERT(0, "C08: nothing is evaluated"); }
static int extra(void) { return !(G_lp->tree_node == G_l0.tree_node && G_lp->type == G_l0.type && G_lp->instr_is_const_expr == G_l0.instr_is_const_expr && G_lp->instr_is_state_changing == G_l0.instr_is_state_changing &&
    G_lp->list_is_const_expr == G_l0.list_is_const_expr && G_lp->list_is_state_changing == G_l0.list_is_state_changing) + 2 * (G_x.list != item_at(0)) + 4 * (G_x.func != fn_list); }
def_t* vk_get_function(prjm_eval_compiler_context_t* cctx, const char* name) { VK_ASSERT(cctx == &CC, "C11 C12: functions are looked up in the context compiled in"); return &LISTDEF; }
void vk_destroy_exptree(node_t* n)
{
    for (int s = 0; s < NS; s++) if (item_there[s] && n == item_pl[s]) { VK_ASSERT(!item_fp[s], "C13 C14: an instruction is released only once"); item_fp[s] = true; return; }
    VK_ASSERT(false, "C08 C14: only instructions of the list are dropped");
    VK_ASSUME(false);
}
void vk_destroy_node(cnode_t* n) { VK_ASSERT(false, "C08 C14: only instructions of the list are dropped"); VK_ASSUME(false); }
#pragma CPROVER check pop
#include CUTSRC
#define SOUND(n, p, e) (IMPLIES((n)->list_is_const_expr && !(n)->list_is_state_changing, (p)) && IMPLIES(!(n)->list_is_state_changing, (e)))
static void nd_flags(cnode_t* n, bool p, bool e, bool laste, bool one)
{
    n->list_is_state_changing = nd_bool() || !e;
    n->list_is_const_expr = nd_bool() && (p || n->list_is_state_changing);
    n->instr_is_state_changing = one ? n->list_is_state_changing : nd_bool() || !laste;
    n->instr_is_const_expr = one ? n->list_is_const_expr : nd_bool();
}
void harness(void)
{
    setup();
    START(item, i_new)
    VK_ASSUME(item_L >= 1);
    LISTDEF.func = fn_list; LISTDEF.is_const_eval = nd_bool(); LISTDEF.is_state_changing = nd_bool();
    /* all but the last instruction, the last instruction, the new one */
    bool rp = nd_bool(), re = nd_bool() || rp, lp = nd_bool(), le = nd_bool() || lp, np = nd_bool(), ne = nd_bool() || np;
    if (item_L == 1) rp = re = true;
    G_x.func = fn_list; G_x.args = 0; G_x.list = item_at(0); G_x.value = nd_F();
    G_lp = &G_l; G_l.type = PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST; G_l.tree_node = &G_x;
    nd_flags(&G_l, rp && lp, re && le, le, false);
    G_l0 = G_l;
    cnode_t* in = raw(sizeof *in); g_list = in;
    bool inlist = nd_bool();
    in->type = inlist ? PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST : PRJM_EVAL_NODE_FUNC_EXPRESSION;
    in->tree_node = &NI;
    nd_flags(in, np, ne, nd_bool() || ne, !inlist);
    CC0 = CC;
    cnode_t* r = prjm_eval_compiler_add_instruction(&CC, &G_l, in);
    VK_ASSERT(r == &G_l && g_listfree, "C13 C08: adding an instruction yields the list");
    VK_ASSUME(r == &G_l);
    VK_ASSERT(r->tree_node == &G_x && G_x.func == fn_list && G_x.list == item_at(0), "C08 C03: a list is executed as a list");
    VK_ASSERT(r->type == PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST, "C08: a list is marked as list");
    VK_ASSERT(g_alloc == 1 && g_other == 1, "C13 C14: nothing is left behind");
    int last = item_slot(item_L - 1); long m = item_L;
    VK_ASSERT(item_fe[last] == item_fp[last], "C08 C14: a dropped instruction is released with its list item");
    if (item_fe[last])
    {
        VK_ASSERT(le, "C08: only instructions without effect are dropped");
        VK_ASSERT(item_L >= 2, "C08: remaining instructions keep their order");
        item_there[last] = false; m--;
    }
    int end = item_slot(m - 1);
    VK_ASSERT(end >= 0, "C08 C03: the new instruction comes last");
    VK_ASSUME(end >= 0);
    item_t* n = item_o[end]->next;
    VK_ASSERT((void*) n == g_new[0], "C08 C03: the new instruction comes last");
    VK_ASSUME((void*) n == g_new[0]);
    VK_ASSERT(n->expr == &NI, "C08: the last instruction is never dropped");
    VK_ASSERT(n->next == 0, "C08 C07: the list ends with its last instruction");
    item_o[end]->next = item_at(m);
    if (m < item_L) for (int s = 0; s < NS; s++) if (item_there[s]) item_o[s]->next = item_p[s] + 1 == m ? item_at(m) : item_o[s]->next;
    inv(15, false);
    bool ap = rp && np && (m < item_L || lp), ae = re && ne && (m < item_L || le);
    VK_ASSERT(IMPLIES(!r->instr_is_state_changing, ne), "C08: the last instruction is marked as changing state if it may");
    VK_ASSERT(SOUND(r, ap, ae), "C08: the flags of a list claim no more than holds for all its instructions");
    VK_ASSERT(ccsame(), "C08 C13: nothing else changes");
    VACUITY;
}
#endif
