/* Contracts of prjm_eval_memory_set (M_SET) and prjm_eval_memory_copy (M_COPY): the effect on one arbitrary cell g_w.
 * prjm_eval_memory_allocate is represented by its contract (proved in mem.c): the cell of the index, or NULL.
 * Cells are positions (pointers which must not be dereferenced): g_cw is the current value of the cell g_w, for M_COPY g_csw the one of g_sw, the
 * cell g_w's new value comes from. Values move by memmove and memcpy (M_COPY), which are represented by their contracts, or by assignments (M_SET).
 * VK_FILTER: the same on the running code, to drop loop invariant candidates which do not hold there (vk/cut.py). */
#ifdef VK_FILTER
#define VK_NATIVE
#include "vk.h"
#undef VK_NATIVE
#undef VK_ASSUME
#define VK_ASSUME(c) ((void) 0)
#else
#include "vk.h"
#endif
#include <stddef.h>
#include "projectm-eval/MemoryBuffer.h"
#define NBLK 128
#define NITEM 65536
#define CELLS (NBLK * NITEM)
typedef unsigned long ul;
static char BUFOBJ[1];   /* the block table is only used through vk_alloc */
#if !defined(VK_NATIVE) && !defined(VK_FILTER)
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
int __CPROVER_uninterpreted_f2i(double);
int vk_f2i(double v) { return __CPROVER_uninterpreted_f2i(v); }
#define SPEC_F2I(x) __CPROVER_uninterpreted_f2i(x)
#else
#ifdef VK_FILTER
int vk_f2i(double v) { return spec_f2i(v); }
#undef VK_ASSERT
#define VK_ASSERT(c, t) ((void) 0)
#endif
#define SPEC_F2I(x) spec_f2i(x)
#endif
F D, S, L;
F vD, vS, vL;                       /* operand values before the call */
long g_d, g_s, g_n;                 /* the same as integers */
long g_lo, g_hi;                    /* cells to change: g_lo <= cell < g_hi */
long g_w;                           /* the cell observed */
long g_sw;                          /* M_COPY: the cell its new value comes from */
bool g_in;                          /* g_w is to be changed */
bool g_fail;                        /* a reservation failed */
long g_it;
#if defined(M_COPY) && !defined(VK_NATIVE)
/* copied values are opaque: identities instead of numbers */
typedef int val_t;
#define EQ(a, b) ((a) == (b))
#else
typedef F val_t;
#define EQ(a, b) SAME(a, b)
#endif
val_t g_old, g_new;

static void spec(void)
{
    g_d = SPEC_IDX(vD);
#ifdef M_COPY
    g_s = SPEC_IDX(vS);
#else
    g_s = 0;
#endif
    g_n = SPEC_F2I(vL + 0.0001);
    g_lo = g_d < 0 ? 0 : g_d; g_hi = g_d + g_n;
#ifdef M_COPY
    if (g_s < 0 && g_d - g_s > g_lo) g_lo = g_d - g_s;
    if (g_hi > CELLS + g_d - g_s) g_hi = CELLS + g_d - g_s;
#endif
    if (g_hi > CELLS) g_hi = CELLS;
}

#ifndef VK_NATIVE
/* ---- positions: block b of the buffer is at CELLOBJ + b * STRIDE, with a gap behind it, so no access can leave its block unnoticed */
static char CELLOBJ[1];
#define STRIDE (1L << 20)
val_t g_cw;
#define CUR (g_cw)
#ifdef VK_FILTER
#define INOBJ(p) ((char*) (p) >= CELLOBJ && (char*) (p) <= CELLOBJ + NBLK * STRIDE)
#define OFFSET(p) ((long) ((char*) (p) - CELLOBJ))
#else
#define INOBJ(p) __CPROVER_same_object(p, CELLOBJ)
#define OFFSET(p) ((long) __CPROVER_POINTER_OFFSET(p))
#endif
static F* at(long i) { return (F*) (CELLOBJ + (i >> 16) * STRIDE + (i & 65535) * 8); }
/* a pointer to a cell or to the end of a block */
static bool INBUF(const F* p) { return INOBJ(p) && OFFSET(p) >= 0 && OFFSET(p) < NBLK * STRIDE && (OFFSET(p) & (STRIDE - 1)) <= 8 * NITEM && (OFFSET(p) & 7) == 0; }
static long vk_pos(const F* p) { return INOBJ(p) ? ((OFFSET(p) / STRIDE) << 16) + ((OFFSET(p) & (STRIDE - 1)) >> 3) : -1000000000L; }
/* n cells from p on lie within one block */
static bool vk_fit(const F* p, long n) { return INBUF(p) && n >= 0 && n <= NITEM && ((OFFSET(p) & (STRIDE - 1)) >> 3) + n <= NITEM; }
F* vk_alloc(projectm_eval_mem_buffer buffer, int index)
{
    VK_ASSERT(buffer == (F**) BUFOBJ, "C06 C11: the operation is done in the given buffer");
    if (index < 0 || index >= CELLS) return 0;
    if (nd_bool()) { g_fail = true; return 0; }
    return at(index);
}
#ifdef M_COPY
val_t g_csw;
static void move(F* d, const F* s, ul bytes)
{
    VK_ASSERT((bytes & 7) == 0, "C06: whole cells are moved");
    VK_ASSERT(bytes <= sizeof(F) * NITEM, "C07 C06: a move stays within one block");
    VK_ASSUME(bytes <= sizeof(F) * NITEM);
    long n = (long) (bytes >> 3);
    VK_ASSERT(n == 0 || (vk_fit(d, n) && vk_fit(s, n)), "C07 C06: values are only moved between cells of the buffer, a move stays within one block");
    VK_ASSUME(n == 0 || (vk_fit(d, n) && vk_fit(s, n)));
    long di = vk_pos(d), si = vk_pos(s);
    VK_ASSERT(n == 0 || di - si == g_d - g_s, "C06: cells are moved by the requested distance");
    VK_ASSERT(n == 0 || (di >= g_lo && di + n <= g_hi), "C06: only cells of the range change");
    VK_ASSUME(n == 0 || (di - si == g_d - g_s && di >= g_lo && di + n <= g_hi));
    /* so the cell moved to g_w is g_sw, and the one moved to g_sw is neither of them unless the distance is 0 */
    if (g_d == g_s) return;
    val_t b = g_csw;
    if (g_w >= di && g_w < di + n) g_cw = b;
    if (g_in && g_sw >= di && g_sw < di + n) g_csw = nd_int();
}
static void* vk_memmove(void* d, const void* s, ul n) { move(d, s, n); return d; }
static void* vk_memcpy(void* d, const void* s, ul n)
{
    VK_ASSERT(OFFSET(d) + (long) n <= OFFSET(s) || OFFSET(s) + (long) n <= OFFSET(d), "C07 C06: memcpy gets ranges that do not overlap");
    move(d, s, n); return d;
}
#endif
static void* vk_other(void* d) { VK_ASSERT(0, "C06: the cells are not changed in another way"); return d; }
/* single cells: the assignments *p = v and p[i] = v of the source (vk/cut.py); a cell is never dereferenced otherwise */
static F vk_store(F* p, F v)
{
    VK_ASSERT(vk_fit(p, 1), "C07 C06: values are only stored in cells of the buffer");
#ifdef M_COPY
    VK_ASSERT(0, "C06: the cells are not changed in another way");
#else
    if (vk_pos(p) == g_w) g_cw = v;
#endif
    return v;
}
static void setup(void)
{
#ifndef VK_FILTER
    D = nd_F(); S = nd_F(); L = nd_F();
    g_w = nd_int(); VK_ASSUME(g_w >= 0 && g_w < CELLS);
#endif
    vD = D; vS = S; vL = L;
    spec();
    g_sw = g_w - g_d + g_s;
    g_in = g_w >= g_lo && g_w < g_hi;
    if (!g_in) g_sw = g_w;
    g_fail = false; g_it = 0;
#ifdef M_COPY
    g_cw = nd_int(); g_csw = g_sw == g_w ? g_cw : nd_int();
    g_new = g_csw;
#else
    g_cw = nd_F();
    g_new = vS;
#endif
    g_old = CUR;
}
#define POST \
    VK_ASSERT(r == &D, "C06: the result is the destination index operand"); \
    VK_ASSERT(g_in || EQ(CUR, g_old), "C06: no other cell changes"); \
    VK_ASSERT(!g_in || g_fail || EQ(CUR, g_new), "C06: every cell of the range gets its new value"); \
    VK_ASSERT(!g_in || EQ(CUR, g_new) || EQ(CUR, g_old), "C06 C05: if storage cannot be reserved a cell keeps its value or gets the new one"); \
    VK_ASSERT(SAME(D, vD) && SAME(S, vS) && SAME(L, vL), "C06 C02: the operands are not changed");
static F* vk_nd_Fptr(void)
{
    long k = nd_int();
    return nd_bool() ? (F*) (CELLOBJ + 8 * k) : nd_bool() ? (F*) 0 : &D;
}
static void vk_loop_base(void) { g_it = 0; }
static void vk_loop_step(void) { g_it++; }
static void vk_loop_havoc(void)
{
    g_it = nd_int(); g_fail = nd_bool();
#ifdef M_COPY
    g_cw = nd_int(); g_csw = nd_int();
#else
    g_cw = nd_F();
#endif
}
static void vk_loop_assume(void) { VK_ASSUME(g_it >= 0 && g_it <= 2000000000); }
#define FWD (g_d <= g_s)
static bool vk_gc(int k, long v)
{
    switch (k)
    {
        case 0: return v >= g_lo; case 1: return v <= g_hi; case 2: return v >= 0; case 3: return v <= CELLS;
        case 4: return EQ(CUR, (g_in && g_w < v) ? g_new : g_old);
        case 5: return g_lo + v <= g_hi;
#ifdef M_COPY
        case 6: return !FWD || EQ(CUR, (g_in && g_w < v) ? g_new : g_old);
        case 7: return !FWD || !g_in || g_w < v || EQ(g_csw, g_new);
        case 8: return FWD || EQ(CUR, (g_in && g_w >= g_lo + v) ? g_new : g_old);
        case 9: return FWD || !g_in || g_w >= g_lo + v || EQ(g_csw, g_new);
        case 10: return FWD || v == g_lo;
        case 11: return !FWD || v >= g_lo;
        case 12: return v >= g_lo - g_d + g_s;
        case 13: return FWD || v == g_lo - g_d + g_s;
#endif
    }
    return true;
}
/* relations of two variables */
static bool vk_rel(int k, long a, long b, long ea, long eb)
{
    switch (k)
    {
        case 0: return a + b == ea + eb; case 1: return a - b == ea - eb; case 2: return a <= b; case 3: return a + b == g_hi; case 4: return a - b == g_d - g_s;
        case 5: return a + b <= CELLS; case 6: return !FWD || a + b == g_hi; case 7: return a + b == g_hi - g_d + g_s; case 8: return a + b <= g_hi;
    }
    return true;
}
static bool vk_pin(F* p) { return INBUF(p); }
static bool vk_ghost_cand(int k)
{
    switch (k)
    {
        case 0: return EQ(CUR, g_old) || g_in; case 1: return EQ(CUR, g_old) || EQ(CUR, g_new); case 2: return !g_fail;
        case 3: return SAME(D, vD) && SAME(S, vS) && SAME(L, vL);
    }
    return true;
}
#ifndef VK_FILTER
#pragma CPROVER check pop
#endif
#include <stdlib.h>
#include <string.h>
#undef memmove
#undef memcpy
#undef memset
#ifdef M_COPY
#define memmove(d, s, n) vk_memmove(d, s, n)
#define memcpy(d, s, n) vk_memcpy(d, s, n)
#else
#define memmove(d, s, n) vk_other(d)
#define memcpy(d, s, n) vk_other(d)
#define memset(d, s, n) vk_other(d)
#endif
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
#ifdef VK_FILTER
#include <stdio.h>
#include <time.h>
static unsigned char vk_bad[4096];
static void vk_filter(int i, int ok) { if (!ok) vk_bad[i] = 1; }
#endif
#include CUTSRC
void harness(void)
{
    (void) spec_f2i(0.); (void) vk_f2i(0.); (void) vk_alloc((F**) BUFOBJ, -1);
    setup();
#ifdef M_COPY
    F* r = prjm_eval_memory_copy((F**) BUFOBJ, &D, &S, &L);
#else
    F* r = prjm_eval_memory_set((F**) BUFOBJ, &D, &S, &L);
#endif
    POST
#ifndef VK_FILTER
    __CPROVER_assert(0, "VACUITY");
#endif
}
#ifdef VK_FILTER
static uint64_t vk_rng = 88172645463325252ULL;
static uint64_t rnd(void) { vk_rng ^= vk_rng << 13; vk_rng ^= vk_rng >> 7; vk_rng ^= vk_rng << 17; return vk_rng * 0x2545F4914F6CDD1DULL >> 11; }
int nd_int(void) { return (int) (rnd() % 1000000); }
bool nd_bool(void) { return rnd() % 40 == 0; }
F nd_F(void)
{
    long k = rnd() % 10, b = (long) (rnd() % 5) * NITEM + (long) (rnd() % 13) - 6;
    if (k == 0) return (F) (rnd() % 200000) - 70000;
    if (k == 1) return CELLS - (F) (rnd() % 12);
    if (k == 2) return (F) (rnd() % 20) - 10;
    if (k == 3) return CELLS - NITEM + (F) (rnd() % 12) - 6;
    if (k == 4) return (F) (rnd() % 30) * NITEM / 4;
    return b;
}
void vk_skip(void) { }
void vk_fail(const char* s) { }
int main(void)
{
    for (int i = 0; i < 3000 && clock() < 5 * CLOCKS_PER_SEC; i++)
    {
        vD = D = nd_F(); vS = S = nd_F(); vL = L = nd_F();
#ifdef M_SET
        vL = L = fmod(L, i % 16 ? 50 : 150000);
#endif
        spec();
        static const int o[] = {0, -1, 1, 2, -2, NITEM, -NITEM, 7};
        long at[] = {g_lo, g_hi, g_d, g_s, g_lo + (g_hi - g_lo) / 2, (long) (rnd() % CELLS)};
        g_w = at[rnd() % 6] + o[rnd() % 8];
        if (g_w < 0 || g_w >= CELLS) g_w = 5;
        harness();
    }
    for (int i = 0; i < 4096; i++) if (vk_bad[i]) printf("%d\n", i);
    return 0;
}
#endif
#else
/* Running code, real blocks: observes a sample of cells. The operands may be cells of the buffer themselves. */
static int locks;
void projectm_eval_memory_host_lock_mutex(void) { locks++; }
void projectm_eval_memory_host_unlock_mutex(void) { locks--; }
#include "projectm-eval/MemoryBuffer.c"
static projectm_eval_mem_buffer BUF; static long uses;
static F rd(long i) { F* b = BUF[i / NITEM]; return b ? b[i % NITEM] : 0.; }
static void wr(long i, F v) { F* p = prjm_eval_memory_allocate(BUF, (int) i); if (p) *p = v; }
static long near_block(void)
{
    int k = nd_range(0, 9);
    if (k == 0) return nd_range(-70000, CELLS + 70000);
    if (k == 1) return (long) nd_range(126, 129) * NITEM + nd_range(-5, 5);
    if (k == 2) return nd_range(-10, 10);
    if (k == 3) return CELLS - nd_range(0, 12);
    return (long) nd_range(0, 4) * NITEM + nd_range(-6, 6);
}
#define NS 64
void harness(void)
{
    static F OPD[3]; F* op[3]; long cell[NS], from; F before[NS], exp_[NS]; int n = 0;
    if (BUF && ++uses > 200) { prjm_eval_memory_destroy_buffer(BUF); BUF = 0; uses = 0; }
    if (!BUF) BUF = prjm_eval_memory_create_buffer();
    static const double specials[] = {0. / 0., 1. / 0., -1. / 0., 1e300, -1e300, 4294967296., -4294967296., 2147483647., -2147483648., 0.5, -0.5, 0.99995};
    for (int k = 0; k < 3; k++)
    {
        op[k] = &OPD[k];
        if (nd_range(0, 7) == 0) { long c = near_block(); F* p = c >= 0 && c < CELLS ? prjm_eval_memory_allocate(BUF, (int) c) : 0; if (p) op[k] = p; }
    }
    double val[3];
    for (int k = 0; k < 3; k++)
    {
        int sp = nd_range(0, 25);
        val[k] = sp < 12 ? specials[sp] : k == 2 ? (nd_range(0, 99) == 0 ? (double) nd_range(0, 9000000) : (double) (near_block() / (nd_bool() ? 1 : 7))) : (double) near_block();
        if (sp == 12 && k) val[k] = val[0] + nd_range(-3, 3);
        if (sp > 20) val[k] += 0.25 * nd_range(0, 3);
#ifdef M_SET
        if (k == 1) val[k] = nd_F();
#endif
        *op[k] = val[k];
    }
    for (int k = 0; k < 3; k++) val[k] = *op[k];   /* operands may be the same cell */
    vD = val[0]; vS = val[1]; vL = val[2];
    spec();
    long c0[] = {g_lo, g_lo - 1, g_lo + 1, g_hi, g_hi - 1, g_hi - 2, g_d, g_s, g_s + g_n, g_s + g_n - 1, 0, CELLS - 1, g_d + g_n - 1};
    for (unsigned i = 0; i < sizeof c0 / sizeof *c0; i++) if (c0[i] >= 0 && c0[i] < CELLS && n < NS) cell[n++] = c0[i];
    for (long b = g_lo / NITEM; b <= g_hi / NITEM + 1 && b < 8; b++)
        for (int e = -1; e <= 1; e++) { long c = b * NITEM + e, q = b * NITEM + e + g_d - g_s; if (c >= 0 && c < CELLS && n < NS) cell[n++] = c; if (q >= 0 && q < CELLS && n < NS) cell[n++] = q; }
    for (int i = 0; i < 8 && n < NS; i++) if (g_hi > g_lo) { long c = g_lo + (long) nd_range(0, 1 << 30) % (g_hi - g_lo); if (c >= 0 && c < CELLS) cell[n++] = c; }
    bool isop;
    for (int i = 0; i < n; i++)
    {
        long q = cell[i];
#ifdef M_COPY
        if (cell[i] >= g_lo && cell[i] < g_hi) q = cell[i] - g_d + g_s;
#endif
        isop = false;
        for (int k = 0; k < 3; k++) if (BUF[q / NITEM] && op[k] == &BUF[q / NITEM][q % NITEM]) isop = true;
        if (!isop && nd_range(0, 3)) wr(q, (F) (i + 1) * 1.5 + uses);
    }
    for (int i = 0; i < n; i++)
    {
        before[i] = rd(cell[i]);
        bool in = cell[i] >= g_lo && cell[i] < g_hi;
#ifdef M_COPY
        exp_[i] = in ? rd(cell[i] - g_d + g_s) : before[i];
#else
        exp_[i] = in ? vS : before[i];
#endif
    }
#ifdef M_COPY
    F* r = prjm_eval_memory_copy(BUF, op[0], op[1], op[2]);
#else
    F* r = prjm_eval_memory_set(BUF, op[0], op[1], op[2]);
#endif
    VK_ASSERT(r == op[0], "C06: the result is the destination index operand");
    for (int i = 0; i < n; i++)
    {
        bool in = cell[i] >= g_lo && cell[i] < g_hi;
        if (in) VK_ASSERT(SAME(rd(cell[i]), exp_[i]), "C06: every cell of the range gets its new value");
        else VK_ASSERT(SAME(rd(cell[i]), exp_[i]), "C06: no other cell changes");
    }
    VK_ASSERT(op[0] != &OPD[0] || SAME(OPD[0], vD), "C06 C02: the operands are not changed");
    VK_ASSERT(locks == 0, "C16: the lock is released");
}
#endif
