/* Contract of one expression node function (FN), for arbitrary operands.
 * The operands are nodes whose function `child` renders the contract every node function is proved to satisfy:
 * it may change every program-visible cell (W) and the scratch of its own tree, and yields either a value in the
 * slot it was given, a reference to a program-visible cell, or a reference to scratch of its own tree. */
#include "vk.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/MemoryBuffer.h"

#define NW 3
#ifndef ARITY
#define ARITY 0
#endif
#ifndef VK_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#endif

F W[NW], g_snap[NW];          /* program-visible cells */
F g_ksnap[3];
node_t CTX, KN0, KN1, KN2; node_t* ARGS[4]; F* RV; F SLOT;
F VARCELL;
node_t *G_ctx, *g_kid[3]; F** G_rv; F* G_slot;
int g_n;                      /* operand evaluations so far */
int g_log[4];                 /* which operand each of them evaluated */
int g_kind[3];                /* what the operand yielded: 0..NW-1 reference to W, NW own scratch, NW+1 value */
F* g_ret[3]; bool g_byval[3];
F g_v[3];                     /* value of the operand, as seen now (references: current value of the cell) */
F g_at[3];                    /* value of the operand when its evaluation ended */
F g_slot0;
F g_t0;                       /* value of the first operand after the last evaluation */
int BUF[1]; projectm_eval_mem_buffer G_buf;
bool BOOLS;

#define UNTOUCHED (SAME(W[0], g_snap[0]) && SAME(W[1], g_snap[1]) && SAME(W[2], g_snap[2]))
#define OTHERS_UNTOUCHED(p) (((p) == &W[0] || SAME(W[0], g_snap[0])) && ((p) == &W[1] || SAME(W[1], g_snap[1])) && ((p) == &W[2] || SAME(W[2], g_snap[2])))
#define KUNT(i) (ARITY <= i || SAME(g_kid[i]->value, g_ksnap[i]))
#define KUNTOUCHED (KUNT(0) && KUNT(1) && KUNT(2))
#define KUNTOUCHED_EXC(p) ((ARITY < 1 || (p) == &KN0.value || KUNT(0)) && (ARITY < 2 || (p) == &KN1.value || KUNT(1)) && (ARITY < 3 || (p) == &KN2.value || KUNT(2)))
#define IN_W(p) ((p) == &W[0] || (p) == &W[1] || (p) == &W[2])
#define OWN(p) ((p) == G_slot || (p) == &G_ctx->value)
#ifndef SLOT0
#define SLOT0 CTX.value
#endif
#ifndef GUARD
#define GUARD 1
#endif
#define R (**ret_val)
#define FIN(x) (!ISNAN(x) && !ISINF(x))
#define ABS(x) ((x) < 0 ? -(x) : (x))
#define IS_T(x) (FIN(x) && ABS(x) > 1e-300)
#define IS_F(x) ((x) == 0)
#define IS_TB(x) (FIN(x) && ABS(x) > 0.00001)
#define AT(i) g_at[i]
#define B(i) g_byval[i]
#define V(i) g_v[i]

static void snap(void)
{
    g_snap[0] = W[0]; g_snap[1] = W[1]; g_snap[2] = W[2];
    g_ksnap[0] = KN0.value; g_ksnap[1] = KN1.value; g_ksnap[2] = KN2.value;
    if (g_ret[0] && !g_byval[0]) g_v[0] = *g_ret[0];
    if (g_ret[1] && !g_byval[1]) g_v[1] = *g_ret[1];
    if (g_ret[2] && !g_byval[2]) g_v[2] = *g_ret[2];
}

#ifdef TWICE
/* C20: the function is executed twice with the same operand results and different leftovers */
static int g_run, g_calls1; static node_t* r_c[4]; static F r_W[4][NW], r_cv[4], r_rv[4]; static int r_k[4];
static int r_cell; static F r_B[NW]; static unsigned r_num;
#endif

void child(node_t* c, F** rv)
{
    int i = (ARITY > 0 && c == g_kid[0]) ? 0 : (ARITY > 1 && c == g_kid[1]) ? 1 : (ARITY > 2 && c == g_kid[2]) ? 2 : -1;
    VK_ASSERT(i >= 0, "C07 C03 C12: only operands of the node are evaluated");
    VK_ASSUME(i >= 0);
    VK_ASSERT(UNTOUCHED, "C02 C04 C03: no program-visible cell changes between operand evaluations");
    VK_ASSERT(KUNTOUCHED, "C02 C20: no other node's storage changes between operand evaluations");
    VK_ASSERT(VK_W_OK(rv) && VK_W_OK(*rv), "C07: an operand gets a valid result slot");
    VK_ASSUME(VK_W_OK(rv) && VK_W_OK(*rv));
    VK_ASSERT(!IN_W(*rv), "C02 C04: the result slot of an operand is not a program-visible cell");
    VK_ASSERT(*rv != &KN0.value && *rv != &KN1.value && *rv != &KN2.value, "C02 C20: the result slot of an operand is not another node's storage");
    VK_ASSERT(*rv == G_slot ? rv == G_rv : true, "C02: the caller's slot is only passed on together with the caller's result");
#ifdef TWICE
    VK_ASSUME(g_n < 4);
    if (g_run == 2)
    {
        VK_ASSERT(g_n < g_calls1 && r_c[g_n] == c, "C20: the same operands are evaluated in the same order whatever earlier executions left behind");
        VK_ASSUME(g_n < g_calls1);
        W[0] = r_W[g_n][0]; W[1] = r_W[g_n][1]; W[2] = r_W[g_n][2]; c->value = r_cv[g_n]; **rv = r_rv[g_n];
    }
    else
#endif
    {
    W[0] = nd_F(); W[1] = nd_F(); W[2] = nd_F();
    c->value = nd_F();
    **rv = nd_F();
    }
#ifdef K0
    int k = i == 0 ? K0 : i == 1 ? K1 : K2;
#elif defined(TWICE)
    int k = g_run == 2 ? r_k[g_n] : nd_range(0, NW + 1);
    VK_ASSUME(k >= 0 && k <= NW + 1);
#else
    int k = nd_range(0, NW + 1);
#endif
#ifdef TWICE
    if (g_run == 1)
    {
        r_c[g_n] = c; r_W[g_n][0] = W[0]; r_W[g_n][1] = W[1]; r_W[g_n][2] = W[2]; r_cv[g_n] = c->value; r_rv[g_n] = **rv; r_k[g_n] = k;
        g_calls1 = g_n + 1;
    }
#endif
    g_kind[i] = k;
    g_byval[i] = k == NW + 1;
    if (k == 0) *rv = &W[0]; else if (k == 1) *rv = &W[1]; else if (k == 2) *rv = &W[2]; else if (k == NW) *rv = &c->value;
    g_ret[i] = *rv;
    g_at[i] = **rv;
    if (g_byval[i]) g_v[i] = **rv;
    if (g_n < 4) g_log[g_n] = i;
    g_n++;
    snap();
    g_t0 = g_v[0];
}

#include "node_env.h"

static void setup(void)
{
    g_n = 0;
    g_log[0] = g_log[1] = g_log[2] = g_log[3] = -1;
    g_ret[0] = g_ret[1] = g_ret[2] = 0; g_byval[0] = g_byval[1] = g_byval[2] = false;
    g_kid[0] = &KN0; g_kid[1] = &KN1; g_kid[2] = &KN2;
    KN0.func = KN1.func = KN2.func = child;
    KN0.args = KN1.args = KN2.args = 0; KN0.list = KN1.list = KN2.list = 0;
    KN0.var = KN1.var = KN2.var = 0;
    KN0.value = nd_F(); KN1.value = nd_F(); KN2.value = nd_F();
    ARGS[0] = ARITY > 0 ? &KN0 : 0; ARGS[1] = ARITY > 1 ? &KN1 : 0; ARGS[2] = ARITY > 2 ? &KN2 : 0; ARGS[3] = 0;
    G_ctx = &CTX; CTX.func = child; CTX.list = 0; CTX.args = ARGS; CTX.value = nd_F();
    CTX.var = &VARCELL; VARCELL = nd_F();
    G_rv = &RV; RV = &SLOT; G_slot = &SLOT; SLOT = nd_F();
    W[0] = nd_F(); W[1] = nd_F(); W[2] = nd_F();
    env_setup();
    /* keep the specification functions in the program even if only a contract uses them */
    (void) spec_f2i(0.); (void) SPEC_F2I(0.);
#ifndef VK_NATIVE
    (void) vk_f2i(0.);
#endif
#ifdef C_RAND
    g_draws = 0; (void) RANDOM(1.);
#endif
    (void) spec_sigmoid(0., 0.); (void) spec_invsqrt(0.);
    snap();
    g_slot0 = SLOT0;
}

#ifdef TWICE
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
#include TF
void harness(void)
{
    g_run = 1; g_calls1 = 0;
    setup();
    F w0[NW]; w0[0] = W[0]; w0[1] = W[1]; w0[2] = W[2];
    FN(G_ctx, G_rv);
    VK_ASSERT(VK_W_OK(RV), "C07: the result is valid");
    VK_ASSUME(VK_W_OK(RV));
    F* r1 = RV; F v1 = *RV; F w1[NW]; w1[0] = W[0]; w1[1] = W[1]; w1[2] = W[2];
    int n1 = g_n;
    g_run = 2; g_n = 0;
    g_ret[0] = g_ret[1] = g_ret[2] = 0; g_byval[0] = g_byval[1] = g_byval[2] = false;
    W[0] = w0[0]; W[1] = w0[1]; W[2] = w0[2];
    KN0.value = nd_F(); KN1.value = nd_F(); KN2.value = nd_F(); CTX.value = nd_F(); SLOT = nd_F(); RV = &SLOT;
    snap();
    FN(G_ctx, G_rv);
    VK_ASSERT(VK_W_OK(RV), "C07: the result is valid");
    VK_ASSUME(VK_W_OK(RV));
    VK_ASSERT(g_n == n1, "C20: the same operands are evaluated whatever earlier executions left behind");
    VK_ASSERT(SAME(v1, *RV), "C20: the result depends on the operand values only, not on what earlier executions left behind");
    VK_ASSERT((IN_W(r1) || IN_W(RV)) ? r1 == RV : true, "C20: the result's reference depends on the operands only");
    VK_ASSERT(SAME(w1[0], W[0]) && SAME(w1[1], W[1]) && SAME(w1[2], W[2]), "C20: the effects depend on the operands only, not on what earlier executions left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#elif defined(VK_NATIVE)
#define REQUIRES(e)
#define ASSIGNS(...)
#define ENSURES(tag, e) VK_ASSERT(e, tag);
#include TF
static void post(node_t* ctx, F** ret_val)
{
#include "node_post.inc"
}
void harness(void) { setup(); FN(G_ctx, G_rv); post(G_ctx, G_rv); }
#else
#define ENSURES(tag, e) __CPROVER_ensures(e)
void FN(node_t* ctx, F** ret_val)
__CPROVER_requires(ctx == G_ctx && ret_val == G_rv)
__CPROVER_assigns(*G_rv, *G_slot, G_ctx->value, KN0.value, KN1.value, KN2.value, __CPROVER_object_whole(W),
    __CPROVER_object_whole(g_snap), __CPROVER_object_whole(g_ksnap), __CPROVER_object_whole(g_v), __CPROVER_object_whole(g_at), g_n, g_t0,
    __CPROVER_object_whole(g_log), __CPROVER_object_whole(g_byval), __CPROVER_object_whole(g_ret), __CPROVER_object_whole(g_kind) ENV_ASSIGNS RAND_ASSIGNS)
#include "node_post.inc"
;
#pragma CPROVER check pop
#include TF
void harness(void) { setup(); FN(G_ctx, G_rv); __CPROVER_assert(0, "VACUITY"); }
#endif
