/* Contracts of the node functions with loops: instruction list, loop, while (see node.c for the operand contract).
 * Modes: default = loops of the function are cut at their head (vk/cut.py inserts VK_BASE/VK_STEP invariant checks),
 *        BOUNDED = loops unwound for small counts, VK_NATIVE = running code. */
#include "vk.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/MemoryBuffer.h"
#define NW 2
#define LIMIT 1048576
#ifndef VK_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#endif
typedef struct prjm_eval_exptreenode_list_item item_t;
F W[NW], g_snap[NW];
node_t CTX, KN0, KN1; node_t* ARGS[3]; F* RV; F SLOT; F g_ksnap[2];
node_t* G_ctx; F** G_rv; F* G_slot;
item_t IT[5]; item_t* g_expect;
int g_n; F* g_last; F g_lastv; bool g_lastbyval; F g_count; int g_cnt;
long g_it;
#define SPEC_CLAMP(k) ((k) < 0 ? 0 : (k) > LIMIT ? LIMIT : (k))
#define UNTOUCHED (SAME(W[0], g_snap[0]) && SAME(W[1], g_snap[1]))
#define KUNTOUCHED (SAME(KN0.value, g_ksnap[0]) && SAME(KN1.value, g_ksnap[1]))
#define IN_W(p) ((p) == &W[0] || (p) == &W[1])
#define OWN(p) ((p) == G_slot || (p) == &G_ctx->value)
#define FIN(x) (!ISNAN(x) && !ISINF(x))
#define ABS(x) ((x) < 0 ? -(x) : (x))
#define IS_T(x) (FIN(x) && ABS(x) > 1e-300)
#define IS_F(x) ((x) == 0)
#ifdef VK_NATIVE
#define SPEC_F2I(x) spec_f2i(x)
int nd_pick(int lo, int hi);
/* the first cases of a native run: counts around and far below the limit */
static const int big_counts[] = { LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 65535, 65536, 70000, 32769, 131071, 300001, 777777, 1000003, 257, 4097 };
#define NBIG (int) (sizeof big_counts / sizeof *big_counts)
static int vk_big;
#else
int __CPROVER_uninterpreted_f2i(double);
int vk_f2i(double v) { return __CPROVER_uninterpreted_f2i(v); }
#ifdef ABS_F2I
#define SPEC_F2I(x) __CPROVER_uninterpreted_f2i(x)
#else
#define SPEC_F2I(x) spec_f2i(x)
#endif
double fabs(double);
#endif
static void snap(void) { g_snap[0] = W[0]; g_snap[1] = W[1]; g_ksnap[0] = KN0.value; g_ksnap[1] = KN1.value; }

void child(node_t* c, F** rv)
{
    int k;
    VK_ASSERT(c == &KN0 || c == &KN1, "C03 C07: only operands of the node are evaluated");
    VK_ASSUME(c == &KN0 || c == &KN1);
    VK_ASSERT(UNTOUCHED, "C02 C03: no program-visible cell changes between operand evaluations");
    VK_ASSERT(KUNTOUCHED, "C02 C20: an operand's storage is not changed between evaluations");
    VK_ASSERT(VK_W_OK(rv) && VK_W_OK(*rv), "C07: an operand gets a valid result slot");
    VK_ASSUME(VK_W_OK(rv) && VK_W_OK(*rv));
    VK_ASSERT(!IN_W(*rv), "C02 C04: the result slot of an operand is not a program-visible cell");
    VK_ASSERT(*rv != &KN0.value && *rv != &KN1.value, "C02 C20: the result slot of an operand is not another node's storage");
    VK_ASSERT(*rv == G_slot ? rv == G_rv : true, "C02: the caller's slot is only passed on together with the caller's result");
#if defined(C_LIST)
    VK_ASSERT(g_expect != 0 && c == g_expect->expr, "C03 C08: the instructions of a list are executed in order, once each");
    VK_ASSUME(g_expect != 0);
    g_expect = g_expect->next;
#elif defined(C_LOOP)
    VK_ASSERT(g_n == 0 ? c == &KN0 : c == &KN1, "C03: the loop count is evaluated once and first, then only the body");
    VK_ASSERT(g_n == 0 || g_n - 1 < g_cnt, "C03: the loop body is evaluated at most the given number of times and never more than 2^20 times");
#elif defined(C_WHILE)
    VK_ASSERT(g_n == 0 || !IS_F(g_lastv), "C03: while ends as soon as its body yields zero");
    VK_ASSERT(g_n < LIMIT, "C03: while repeats its body at most 2^20 times");
#endif
#ifdef VK_NATIVE
    if (vk_big)
    {
#ifdef C_WHILE
        **rv = g_n == vk_big ? 0. : 1.;
#else
        **rv = g_n == 0 ? (F) vk_big : (F) (g_n % 7);
#endif
    }
    else { W[0] = nd_F(); W[1] = nd_F(); c->value = nd_F(); **rv = nd_F(); }
    k = vk_big ? NW + 1 : nd_range(0, NW + 1);
#else
    W[0] = nd_F(); W[1] = nd_F();
    c->value = nd_F();
    **rv = nd_F();
    k = nd_range(0, NW + 1);
#endif
    g_lastbyval = k == NW + 1;
    if (k == 0) *rv = &W[0]; else if (k == 1) *rv = &W[1]; else if (k == NW) *rv = &c->value;
#ifdef C_LOOP
    if (g_n == 0)
    {
#if defined(VK_NATIVE)
        if (!vk_big) VK_ASSUME(!(**rv > 40));
#elif defined(BOUNDED)
        VK_ASSUME(**rv <= 3.5);
#endif
        g_count = **rv;
        g_cnt = SPEC_F2I(g_count); g_cnt = SPEC_CLAMP(g_cnt);
    }
#endif
#if defined(C_WHILE) && defined(BOUNDED) && !defined(VK_NATIVE)
    VK_ASSUME(g_n < 2 || **rv == 0);
#endif
    g_last = *rv; g_lastv = **rv;
    g_n++;
    snap();
}

#if !defined(VK_NATIVE) && !defined(BOUNDED)
static void vk_ghost_refs(void);
#endif
static void setup(void)
{
    g_n = 0; g_last = 0; g_lastv = 0; g_lastbyval = false; g_count = 0; g_cnt = 0; g_it = 0;
    KN0.func = KN1.func = child; KN0.args = KN1.args = 0; KN0.list = KN1.list = 0; KN0.var = KN1.var = 0;
    KN0.value = nd_F(); KN1.value = nd_F();
    ARGS[0] = &KN0; ARGS[1] = &KN1; ARGS[2] = 0;
    G_ctx = &CTX; CTX.func = child; CTX.list = 0; CTX.args = ARGS; CTX.value = nd_F(); CTX.var = 0;
    G_rv = &RV; RV = &SLOT; G_slot = &SLOT; SLOT = nd_F();
    W[0] = nd_F(); W[1] = nd_F();
#ifdef C_LIST
    CTX.args = 0; CTX.list = &IT[0];
#if defined(BOUNDED) || defined(VK_NATIVE)
    int n = nd_range(1, 5);
    for (int i = 0; i < 5; i++) { IT[i].expr = nd_bool() ? &KN0 : &KN1; IT[i].next = i + 1 < n && i < 4 ? &IT[i + 1] : 0; }
#else
    IT[0].expr = nd_bool() ? &KN0 : &KN1; IT[0].next = nd_bool() ? &IT[1] : 0;
#endif
    g_expect = CTX.list;
#endif
#ifdef VK_NATIVE
    vk_big = nd_pick(0, NBIG); vk_big = vk_big < NBIG ? big_counts[vk_big] : 0;
#else
    (void) vk_f2i(0.);
#ifndef BOUNDED
    vk_ghost_refs();
#endif
#endif
    (void) spec_f2i(0.); (void) SPEC_F2I(0.);
    snap();
}

#if !defined(VK_NATIVE) && !defined(BOUNDED)
/* An arbitrary state at a loop head: everything a function may change is arbitrary, restricted by GHOST_INV below
 * and by the invariants of the loop, all of which are checked on entry and after one iteration. */
static void vk_loop_havoc(void)
{
    W[0] = nd_F(); W[1] = nd_F(); KN0.value = nd_F(); KN1.value = nd_F(); CTX.value = nd_F(); SLOT = nd_F();
    g_snap[0] = nd_F(); g_snap[1] = nd_F(); g_ksnap[0] = nd_F(); g_ksnap[1] = nd_F();
    g_n = nd_int(); g_it = nd_int(); g_lastv = nd_F(); g_lastbyval = nd_bool(); 
    int k = nd_range(0, 6);
    g_last = k == 0 ? &W[0] : k == 1 ? &W[1] : k == 2 ? &KN0.value : k == 3 ? &KN1.value : k == 4 ? &CTX.value : k == 5 ? &SLOT : 0;
#ifdef C_LIST
    IT[0].expr = nd_bool() ? &KN0 : &KN1; IT[0].next = nd_bool() ? &IT[1] : 0;
    g_expect = nd_bool() ? &IT[0] : 0;
#endif
}
static F* vk_nd_Fptr(void)
{
    int k = nd_range(0, 6);
    return k == 0 ? &W[0] : k == 1 ? &W[1] : k == 2 ? &KN0.value : k == 3 ? &KN1.value : k == 4 ? &CTX.value : k == 5 ? &SLOT : 0;
}
static item_t* vk_nd_item(void) { int k = nd_range(0, 2); return k == 0 ? &IT[0] : k == 1 ? &IT[1] : 0; }
static node_t* vk_nd_node(void) { int k = nd_range(0, 3); return k == 0 ? &KN0 : k == 1 ? &KN1 : k == 2 ? &CTX : 0; }
static F** vk_nd_Fpptr(void) { return nd_bool() ? &RV : 0; }
static int g_n_entry;
static void vk_loop_base(void) { g_it = 0; g_n_entry = g_n; VK_ASSERT(UNTOUCHED && KUNTOUCHED, "C02 C20: nothing changes between operand evaluations"); }
static void vk_loop_step(void) { g_it++; VK_ASSERT(UNTOUCHED && KUNTOUCHED, "C02 C20: nothing changes between operand evaluations"); }
static void vk_loop_assume(void) { VK_ASSUME(UNTOUCHED && KUNTOUCHED && g_it >= 0 && g_it <= 2000000000); }
static bool vk_ghost_cand(int k)
{
    switch (k)
    {
        case 0: return g_last != 0;
        case 1: return g_n > 0;
        case 2: return g_n == 0 || (g_last != 0 && SAME(*g_last, g_lastv));
        case 3: return g_n == g_n_entry + g_it;
        case 4: return g_n == 0 || !g_lastbyval || g_last == G_slot || g_last == &CTX.value;
        case 5: return g_n == 0 || !IS_F(g_lastv);
        case 6: return g_n >= 0;
        case 7: return g_n == 0 || g_lastbyval || (g_last != G_slot && g_last != &CTX.value);
        case 8: return g_it < LIMIT;
        case 9: return g_it <= LIMIT;
        case 10: return g_it <= g_cnt;
        case 11: return g_n <= LIMIT;
        case 12: return g_n < LIMIT;
        case 13: return g_n > 0 || g_expect != 0;
    }
    return true;
}
static void vk_ghost_refs(void) { int* volatile p = &g_n_entry; (void) p; }
#endif

#define RET_OK (SAME(**ret_val, g_lastv) && (g_lastbyval ? OWN(*ret_val) : *ret_val == g_last))
#define POST_COMMON \
ENSURES("C02: no program-visible cell changes", UNTOUCHED) \
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
#if defined(C_LIST)
#define POST \
ENSURES("C03 C08: every instruction of the list is executed", g_expect == 0 && g_n > 0) \
ENSURES("C03 C02 C20: the result is that of the last instruction, including its reference", RET_OK)
#elif defined(C_LOOP)
#define POST \
ENSURES("C03: the loop body is evaluated exactly the given number of times", g_n == 1 + g_cnt) \
ENSURES("C03 C02 C20: the result is that of the last iteration, or the count without one", RET_OK)
#else
#define POST \
ENSURES("C03: while repeats its body until it yields zero, or 2^20 times", g_n >= 1 && (g_n == LIMIT || !IS_T(g_lastv))) \
ENSURES("C03 C02 C20: the result is that of the last iteration", RET_OK)
#endif

#ifdef VK_NATIVE
#define ENSURES(tag, e) VK_ASSERT(e, tag);
#include "projectm-eval/TreeFunctions.c"
PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return 0; }
PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* src, PRJM_EVAL_F* len) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return dest; }
PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* value, PRJM_EVAL_F* len) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return dest; }
static void post(node_t* ctx, F** ret_val) { POST POST_COMMON }
void harness(void) { setup(); FN(G_ctx, G_rv); post(G_ctx, G_rv); }
#else
#if defined(BOUNDED)
#define VK_ENTRY_A
#else
#define VK_ENTRY_A , g_n_entry
#endif
#define ENSURES(tag, e) __CPROVER_ensures(e)
/* one clause per line, so that a failed clause can be named */
void FN(node_t* ctx, F** ret_val)
__CPROVER_requires(ctx == G_ctx && ret_val == G_rv)
__CPROVER_assigns(*G_rv, *G_slot, G_ctx->value, KN0.value, KN1.value, __CPROVER_object_whole(W), __CPROVER_object_whole(g_snap), __CPROVER_object_whole(g_ksnap),
    g_n VK_ENTRY_A, g_last, g_lastv, g_lastbyval, g_count, g_cnt, g_expect, g_it, __CPROVER_object_whole(IT))
#if defined(C_LIST)
ENSURES("C03 C08: every instruction of the list is executed", g_expect == 0 && g_n > 0)
ENSURES("C03 C02 C20: the result is that of the last instruction, including its reference", RET_OK)
#elif defined(C_LOOP)
ENSURES("C03: the loop body is evaluated exactly the given number of times", g_n == 1 + g_cnt)
ENSURES("C03 C02 C20: the result is that of the last iteration, or the count without one", RET_OK)
#else
ENSURES("C03: while repeats its body until it yields zero, or 2^20 times", g_n >= 1 && (g_n == LIMIT || !IS_T(g_lastv)))
ENSURES("C03 C02 C20: the result is that of the last iteration", RET_OK)
#endif
ENSURES("C02: no program-visible cell changes", UNTOUCHED)
ENSURES("C02 C20: no operand's storage changes", KUNTOUCHED)
;
#pragma CPROVER check pop
#ifdef CUTSRC
#include CUTSRC
#else
#include "projectm-eval/TreeFunctions.c"
#endif
void harness(void) { setup(); FN(G_ctx, G_rv); __CPROVER_assert(0, "VACUITY"); }
#endif
