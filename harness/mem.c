/* Contracts of MemoryBuffer.c. M_ALLOC, M_FREE, M_CREATE, M_DESTROY, M_GLOBAL: block management under the host's lock.
 * Other threads act while the lock is free: the lock function below lets another thread create the same block or buffer. */
#include "vk.h"
#include <stddef.h>
#include "projectm-eval/MemoryBuffer.h"
#define NBLK 128
#define NITEM 65536
#ifndef VK_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#endif
typedef unsigned long ul;
F* BUFARR[NBLK];
char TOK[NBLK + 4];                /* opaque identities of blocks: TOK[i] is the block found at i, TOK[NBLK+..] new ones */
#define BLOCK(i) ((F*) &TOK[i])
int g_lock, g_locks;               /* lock held / times obtained */
int g_index, g_blk, g_j; F* g_oldj; F* g_old; F* g_atlock; F* g_snapb; F* g_snapj;
int g_alloc, g_allocfail, g_zero; ul g_allocsize; int g_jfrees, g_freebuf; bool g_peer; bool g_null; bool g_live; int g_inpeer;
F* g_new; F* g_peerblk; F* g_res; F** g_arg;
F* G_mine; F* G_theirs; F* GB1[NBLK], *GB2[NBLK]; int g_gfree[2];
#if defined(M_ALLOC) || defined(M_FREE)
#define ONLYLOCKED VK_ASSERT(BUFARR[g_j] == g_snapj && BUFARR[g_blk] == g_snapb, "C16: the block table is only changed while the lock is held")
#define SNAPB (g_snapj = BUFARR[g_j], g_snapb = BUFARR[g_blk])
#else
#define ONLYLOCKED
#define SNAPB
#endif

void vk_lock(void)
{
    VK_ASSERT(g_lock == 0, "C16: the lock is not obtained twice");
    ONLYLOCKED;
#ifdef M_ALLOC
    if (BUFARR[g_blk] == 0 && nd_bool()) { BUFARR[g_blk] = G_theirs; g_peer = true; }
    g_atlock = BUFARR[g_blk];
#endif
#ifdef M_GLOBAL
    if (!g_inpeer && nd_bool()) { g_inpeer = 1; g_peerblk = (F*) prjm_eval_memory_global(); g_inpeer = 0; g_peer = true; }
#endif
    g_lock = 1; g_locks++;
    SNAPB;
}
void vk_unlock(void)
{
    VK_ASSERT(g_lock == 1, "C16: the lock is only released while it is held");
#ifdef M_FREE
    VK_ASSERT(!(g_jfrees && BUFARR[g_j] != 0), "C16 C07: a released block is removed from the table before the lock is released");
#endif
    g_lock = 0;
    SNAPB;
}
void projectm_eval_memory_host_lock_mutex(void) { vk_lock(); }
void projectm_eval_memory_host_unlock_mutex(void) { vk_unlock(); }

/* dynamic memory: one allocation by the function under contract (two for M_GLOBAL), results by identity */
static bool g_pre;
static void* vk_new(ul size, int zero)
{
#if defined(M_FREE) || defined(M_DESTROY) || defined(M_ALLOC)
    if (g_pre) return BUFARR;
#endif
#if defined(M_ALLOC) || defined(M_GLOBAL)
    VK_ASSERT(g_lock == 1, "C16: memory is created only while the lock is held");
#endif
    VK_ASSERT(g_alloc < 2, "C05 C14 C16: no more than one object is created");
    g_allocsize = size;
    if (nd_bool()) { g_allocfail++; return 0; }
    g_zero = zero;
#if defined(M_ALLOC) || defined(M_CREATE)
    g_alloc++;
    g_new = G_mine;
    return G_mine;
#else
    g_alloc++;
#ifdef M_GLOBAL
    return g_alloc == 1 ? GB1 : GB2;
#else
    return &TOK[NBLK + g_alloc];
#endif
#endif
}
#ifdef VK_NATIVE
static bool vk_own(void* p) { return (char*) p >= TOK && (char*) p < TOK + NBLK + 4; }
#else
static bool vk_own(void* p) { return __CPROVER_same_object(p, TOK); }
#endif
static void vk_release(void* p)
{
    if (!p) return;
#if defined(M_FREE) || defined(M_DESTROY)
    if (p == (void*) BUFARR)
    {
        g_freebuf++;
        VK_ASSERT(g_freebuf == 1, "C14 C07: a buffer is released once");
        return;
    }
    VK_ASSERT(g_lock == 1, "C16: blocks are released only while the lock is held");
    VK_ASSERT(g_freebuf == 0, "C07: a buffer is not used after its release");
#endif
#if defined(M_ALLOC)
    VK_ASSERT(p == G_mine && BUFARR[g_blk] != G_mine && g_alloc > 0, "C05 C14: no block in use is released");
    g_alloc--;
    return;
#else
#ifdef M_GLOBAL
    VK_ASSERT(p == (void*) GB1 || p == (void*) GB2, "C07 C14: only own objects are released");
    g_gfree[p == (void*) GB2]++;
    VK_ASSERT(g_gfree[p == (void*) GB2] == 1, "C14 C07: the built-in buffer is released once");
    return;
#endif
    VK_ASSERT(vk_own(p), "C07 C14: only own objects are released");
    if (p == (void*) BLOCK(g_j))
    {
        g_jfrees++;
        VK_ASSERT(g_jfrees == 1, "C14 C07: every block is released once");
    }
#endif
}

static void setup(void)
{
    g_lock = g_locks = 0; g_alloc = g_allocfail = 0; g_zero = 0; g_freebuf = 0; g_peer = false; g_new = 0; g_inpeer = 0; g_allocsize = 0; g_peerblk = 0;
    g_index = nd_int(); g_blk = g_index >= 0 && g_index < NBLK * NITEM ? g_index / NITEM : 0;
    g_j = nd_range(0, NBLK - 1);
    g_jfrees = 0;
#ifdef VK_NATIVE
    for (int i = 0; i < NBLK; i++) BUFARR[i] = BLOCK(i);
    for (int i = 0; i < NBLK; i++) if ((i * 7 + g_index) % 3) BUFARR[i] = 0;
#else
    for (int i = 0; i < NBLK; i++) BUFARR[i] = nondet_vk_int() ? BLOCK(i) : 0;
#endif
#ifdef VK_NATIVE
    BUFARR[g_j] = nd_bool() ? BLOCK(g_j) : 0;
#endif
#ifdef M_ALLOC
    BUFARR[g_blk] = nd_bool() ? G_theirs : 0;
#endif
    g_oldj = BUFARR[g_j]; g_old = BUFARR[g_blk]; g_atlock = g_old;
    SNAPB;
    g_null = nd_bool();
    g_arg = g_null ? (F**) 0 : &BUFARR[0];
}
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif

#define calloc(n, s) vk_calloc(n, s)
#define malloc(s) vk_malloc(s)
#define realloc(p, s) vk_realloc_unsupported(p, s)
#define free(p) vk_free(p)
static void* vk_calloc(ul n, ul s) { return vk_new(n * s, 1); }
static void* vk_malloc(ul s) { return vk_new(s, 0); }
static void vk_free(void* p) { vk_release(p); }
#ifdef VK_NATIVE
#define vk_memset memset
#else
static void* vk_memset(void* p, int c, ul n)
{
    if (p == (void*) G_mine) { g_zero = c == 0 && n == g_allocsize; return p; }
#ifdef M_GLOBAL
    if ((p == (void*) GB1 || p == (void*) GB2) && c == 0 && n == sizeof GB1) { for (int i = 0; i < NBLK; i++) ((F**) p)[i] = 0; return p; }
#endif
#if defined(M_FREE) || defined(M_DESTROY)
    if (p == (void*) BUFARR && c == 0 && n == sizeof BUFARR) { for (int i = 0; i < NBLK; i++) BUFARR[i] = 0; return p; }
#endif
    for (ul i = 0; i < n; i++) ((char*) p)[i] = (char) c;
    return p;
}
#define memset(p, c, n) vk_memset(p, c, n)
#endif
#include <stdlib.h>
#include <string.h>
#include "projectm-eval/MemoryBuffer.c"
#undef calloc
#undef malloc
#undef free
#ifndef VK_NATIVE
#undef memset
#endif

#define CHECK(tag, e) VK_ASSERT(e, tag)
F MINEBLK[NITEM], THEIRBLK[NITEM];
void harness(void)
{
    G_mine = MINEBLK; G_theirs = THEIRBLK;
#if defined(M_FREE) || defined(M_DESTROY) || defined(M_ALLOC)
    /* the buffer may be the built-in one */
    if (nd_bool())
    {
        g_lock = 0; g_pre = true; SNAPB;
        g_jfrees = 0;
#if defined(M_FREE) || defined(M_ALLOC)
        g_j = g_blk = 0; BUFARR[0] = G_mine; g_snapj = g_snapb = BUFARR[0];
#endif
        F** b = prjm_eval_memory_global();
        g_pre = false;
        VK_ASSERT(b == &BUFARR[0], "C11: the built-in buffer is the one created for it");
    }
#endif
    setup();
#ifdef M_ALLOC
    F* r = prjm_eval_memory_allocate(g_arg, g_index);
    bool in = g_index >= 0 && g_index < NBLK * NITEM && !g_null;
    CHECK("C16: the lock is released", g_lock == 0);
    CHECK("C16: the block table is only changed while the lock is held", BUFARR[g_j] == g_snapj && BUFARR[g_blk] == g_snapb);
    CHECK("C05 C02: no other block is changed", (in && g_j == g_blk) || BUFARR[g_j] == g_oldj);
    CHECK("C05 C04 C07: an index outside the buffer denotes no cell", in || (r == 0 && g_alloc == 0));
    CHECK("C05 C16 C07: an existing block is kept", !in || g_atlock == 0 || (BUFARR[g_blk] == g_atlock && g_alloc == 0));
    CHECK("C05: storage is only reserved in a missing block, with all of its cells 0", g_alloc == 0 || (g_alloc == 1 && g_zero && g_allocsize == sizeof(F) * NITEM));
    CHECK("C05 C14: reserved storage belongs to the buffer", g_alloc == 0 || (in && BUFARR[g_blk] == G_mine));
    CHECK("C05 C07: every index of the buffer denotes the cell of its own in its block", !in || BUFARR[g_blk] == 0 || r == BUFARR[g_blk] + (g_index % NITEM));
    CHECK("C05 C07: without storage there is no cell", BUFARR[g_blk] != 0 || r == 0 );
    CHECK("C05: a cell is only missing if its storage could not be reserved", !in || r != 0 || g_allocfail > 0);
#endif
#ifdef M_FREE
    prjm_eval_memory_free(g_arg);
    CHECK("C16: the lock is released", g_lock == 0);
    CHECK("C16: the block table is only changed while the lock is held", BUFARR[g_j] == g_snapj);
    CHECK("C10 C14: every block of the buffer is released exactly once", g_null || g_jfrees == (g_oldj != 0));
    CHECK("C10 C07: all cells read 0 again and none refers to released storage", g_null || BUFARR[g_j] == 0);
    CHECK("C10 C14: the buffer itself stays usable", g_freebuf == 0 && g_alloc == 0);
    CHECK("C10 C07: without a buffer nothing happens", !g_null || (BUFARR[g_j] == g_oldj && g_jfrees == 0));
#endif
#ifdef M_CREATE
    F** r = prjm_eval_memory_create_buffer();
    CHECK("C05 C11 C14: a new buffer has no blocks", r == 0 || ((F*) r == g_new && g_zero && g_alloc == 1 && g_allocsize == sizeof(F*) * NBLK));
    CHECK("C05 C11: a buffer is created unless memory is exhausted", r != 0 || g_allocfail > 0);
    CHECK("C16: the lock is released", g_lock == 0);
#endif
#ifdef M_DESTROY
    prjm_eval_memory_destroy_buffer(g_arg);
    CHECK("C16: the lock is released", g_lock == 0);
    CHECK("C14: every block of the buffer is released exactly once", g_jfrees == (!g_null && g_oldj != 0));
    CHECK("C14: the buffer is released exactly once", g_freebuf == (g_null ? 0 : 1));
#endif
#ifdef M_GLOBAL
#ifdef VK_NATIVE
    prjm_eval_memory_destroy_global();
    setup();
#endif
    g_gfree[0] = g_gfree[1] = 0;
    F** a = prjm_eval_memory_global();
    CHECK("C16: the lock is released", g_lock == 0);
    CHECK("C11 C16: all threads get the same built-in buffer", !g_peer || g_peerblk == 0 || (F*) a == g_peerblk);
    CHECK("C11 C16: the built-in buffer exists once and has no blocks", g_alloc == (a != 0) && (a == 0 || (g_zero && g_allocsize == sizeof(F*) * NBLK)));
    CHECK("C11 C16: the built-in buffer is created unless memory is exhausted", a != 0 || g_allocfail > 0);
    g_peer = false; g_peerblk = 0;
    F** b = prjm_eval_memory_global();
    CHECK("C11 C16 C14: the built-in buffer stays the same", a == 0 || (b == a && g_alloc == 1 && g_gfree[0] == 0));
    prjm_eval_memory_destroy_global();
    CHECK("C14: destroying the built-in buffer releases it once", b == 0 || (g_gfree[b == GB2] == 1 && g_gfree[b != GB2] == 0));
    prjm_eval_memory_destroy_global();
    g_alloc = 1; g_allocfail = 0; g_peer = false; g_peerblk = 0;
    a = prjm_eval_memory_global();
    CHECK("C14 C11 C07: after its destruction the built-in buffer is created anew", g_peer || (a == 0 ? g_allocfail > 0 : g_alloc == 2 && a == GB2));
    CHECK("C16: the lock is released", g_lock == 0);
#endif
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
