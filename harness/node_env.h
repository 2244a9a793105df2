/* Environment of the node functions: C math library (uninterpreted, deterministic) and the memory functions,
 * represented by their contracts. */
#ifndef VK_NATIVE
double fabs(double);
#endif
#ifdef VK_NATIVE
#define U1(f, x) f(x)
#define U2(f, x, y) f(x, y)
#else
#define DECL1(f) double __CPROVER_uninterpreted_##f(double); double f(double x) { return __CPROVER_uninterpreted_##f(x); }
#define DECL2(f) double __CPROVER_uninterpreted_##f(double, double); double f(double x, double y) { return __CPROVER_uninterpreted_##f(x, y); }
DECL1(sin) DECL1(cos) DECL1(tan) DECL1(asin) DECL1(acos) DECL1(atan) DECL1(sqrt) DECL1(exp) DECL1(log) DECL1(log10) DECL1(floor) DECL1(ceil)
DECL2(atan2) DECL2(pow)
#define U1(f, x) __CPROVER_uninterpreted_##f(x)
#define U2(f, x, y) __CPROVER_uninterpreted_##f(x, y)
#endif

#ifdef VK_NATIVE
#define SPEC_F2I(x) spec_f2i(x)
#else
/* prjm_eval_float_to_int is represented by its contract: some function of the value (which one is proved in unit f2i). */
int __CPROVER_uninterpreted_f2i(double);
int vk_f2i(double v) { return __CPROVER_uninterpreted_f2i(v); }
#ifdef ABS_F2I
#define SPEC_F2I(x) __CPROVER_uninterpreted_f2i(x)
#else
#define SPEC_F2I(x) spec_f2i(x)
#endif
#endif

#define SAME_CELL(i, j) ((i) == (j) || ((i) < 0 || (i) >= 8388608) && ((j) < 0 || (j) >= 8388608))
#ifdef ENV_MEM
/* Contract of prjm_eval_memory_allocate (proved in unit mem_allocate): a cell or NULL, nothing visible changes. */
F g_b4[3]; int e_calls; int e_index; projectm_eval_mem_buffer e_buf; F* e_cell; F* e_ret; F e_d, e_s, e_l; F *e_dp, *e_sp, *e_lp;
F MEMCELL;
PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index)
{
    VK_ASSERT(UNTOUCHED && KUNTOUCHED, "C02: nothing changes before the cell is looked up");
    e_calls++; e_index = index; e_buf = buffer;
#ifdef TWICE
    int k = g_run == 2 ? r_cell : nd_range(0, NW);
    r_cell = k;
#else
    int k = nd_range(0, NW);
#endif
    e_ret = k == 0 ? &W[0] : k == 1 ? &W[1] : k == 2 ? &W[2] : 0;
    return e_ret;
}
static PRJM_EVAL_F* e_block(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* src, PRJM_EVAL_F* len)
{
    VK_ASSERT(UNTOUCHED && KUNTOUCHED, "C02 C06: nothing changes before the memory operation");
    VK_ASSERT(VK_W_OK(dest) && VK_W_OK(src) && VK_W_OK(len), "C07: operands of the memory operation are readable");
    e_calls++; e_buf = buffer; e_d = *dest; e_s = *src; e_l = *len; e_dp = dest; e_sp = src; e_lp = len;
    g_b4[0] = g_v[0]; g_b4[1] = g_v[1]; g_b4[2] = g_v[2];
    W[0] = nd_F(); W[1] = nd_F(); W[2] = nd_F();
#ifdef TWICE
    if (g_run == 2) { W[0] = r_B[0]; W[1] = r_B[1]; W[2] = r_B[2]; }
    r_B[0] = W[0]; r_B[1] = W[1]; r_B[2] = W[2];
#endif
    snap();
    return dest;
}
PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* src, PRJM_EVAL_F* len)
{ e_index = 1; return e_block(buffer, dest, src, len); }
PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* value, PRJM_EVAL_F* len)
{ e_index = 2; return e_block(buffer, dest, value, len); }
static PRJM_EVAL_F* MEMBLK[1];
static void env_setup(void)
{
    e_calls = 0; e_index = -1; e_buf = 0; e_ret = 0; e_dp = e_sp = e_lp = 0;
    G_buf = MEMBLK; CTX.memory_buffer = G_buf;
}
#define ENV_ASSIGNS , e_calls, e_index, e_buf, e_ret, e_d, e_s, e_l, e_dp, e_sp, e_lp, __CPROVER_object_whole(g_b4)
#else
PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return 0; }
PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* src, PRJM_EVAL_F* len) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return dest; }
PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer, PRJM_EVAL_F* dest, PRJM_EVAL_F* value, PRJM_EVAL_F* len) { VK_ASSERT(0, "C02: a function without memory access uses memory"); return dest; }
static void env_setup(void) {}
#define ENV_ASSIGNS
#endif

#define T0 (g_t0)
static F spec_sigmoid(F a, F b)
{
    double t = 1 + U1(exp, (-a) * b);
    return fabs(t) > 0.00001 ? 1.0 / t : 0.0;
}
static F spec_invsqrt(F x)
{
    union { double d; uint64_t i; } c;
    c.d = x;
    c.i = 0x5fe6eb50c7b537a9ULL - (c.i >> 1);
    return c.d * (1.5 - ((x * 0.5) * c.d * c.d));
}

/* Contract of the random generator (proved by mt.c): some number, and one step of its own state. TF calls it instead of the generator. */
#ifdef C_RAND
unsigned g_num; int g_draws;
#ifdef TWICE
unsigned int vk_genrand(void) { g_draws++; g_num = nd_uint(); if (g_run == 2) g_num = r_num; r_num = g_num; return g_num; }
#else
unsigned int vk_genrand(void) { g_draws++; g_num = nd_uint(); return g_num; }
#endif
#define RANDOM(v) (g_num * (1.0 / (double) 0xFFFFFFFF) * (U1(floor, v) < 1. ? 1. : U1(floor, v)))
#define RMAX(v) (U1(floor, v) < 1. ? 1. : U1(floor, v))
#define RANGE_OK(r, v) (!FIN(U1(floor, v)) || ((r) >= 0 && (r) <= RMAX(v)))
#define RAND_ASSIGNS , g_num, g_draws
#ifdef VK_NATIVE
static bool vk_near(F a, F b) { return SAME(a, b) || fabs(a - b) <= 1e-12 * fabs(b); }
#define SAME_NUMBER(a, b) vk_near(a, b)
#else
#define SAME_NUMBER(a, b) SAME(a, b)
#endif
#else
#define RAND_ASSIGNS
unsigned int vk_genrand(void) { VK_ASSERT(0, "C17 C20 C08: only rand draws from the random generator"); return 0; }
#endif
