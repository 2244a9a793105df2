/* Common definitions of all harnesses. Every harness is compiled in two modes:
 *  - for the verifier (goto-cc): contracts become __CPROVER_ clauses, nondeterministic values are arbitrary;
 *  - natively (VK_NATIVE, gcc with sanitizers): the same clauses are evaluated on the running code, the
 *    nondeterministic values are read from a replay file (taken from a counterexample) or generated.
 * Clause texts start with the ids of the properties they belong to, e.g. "C02 C20: ...". */
#ifndef VK_H
#define VK_H
#include <limits.h>
#include <stdbool.h>
#include <stdint.h>
#include "projectm-eval/CompilerTypes.h"
typedef PRJM_EVAL_F F;
typedef struct prjm_eval_exptreenode node_t;

#ifdef VK_NATIVE
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
void vk_fail(const char* what);
void vk_skip(void);
F nd_F(void); int nd_int(void); unsigned nd_uint(void); int nd_range(int lo, int hi); bool nd_bool(void);
#define VK_ASSERT(c, tag) do { if (!(c)) vk_fail(tag); } while (0)
#define VK_ASSUME(c) do { if (!(c)) vk_skip(); } while (0)
#define VK_W_OK(p) 1
#define SIGNBIT(x) (signbit(x) != 0)
#define ISNAN(x) ((x) != (x))
#else
F nondet_vk_F(void); int nondet_vk_int(void); unsigned nondet_vk_uint(void);
static F nd_F(void) { F vk_nd = nondet_vk_F(); return vk_nd; }
static int nd_int(void) { int vk_nd = nondet_vk_int(); return vk_nd; }
static unsigned nd_uint(void) { unsigned vk_nd = nondet_vk_uint(); return vk_nd; }
static int nd_range(int lo, int hi) { int vk_nd = nondet_vk_int(); __CPROVER_assume(vk_nd >= lo && vk_nd <= hi); return vk_nd; }
static bool nd_bool(void) { int vk_nd = nondet_vk_int(); __CPROVER_assume(vk_nd >= 0 && vk_nd <= 1); return vk_nd != 0; }
#define VK_ASSERT(c, tag) __CPROVER_assert((c), tag)
#define VK_ASSUME(c) __CPROVER_assume(c)
#define VK_W_OK(p) __CPROVER_w_ok(p, sizeof(*(p)))
#define SIGNBIT(x) __CPROVER_signd(x)
#define ISNAN(x) __CPROVER_isnand(x)
#endif
#define ISINF(x) (!ISNAN(x) && ISNAN((x) - (x)))
/* The same value: both NaN, or equal including the sign of zero. */
#define SAME(a, b) ((ISNAN(a) && ISNAN(b)) || ((a) == (b) && SIGNBIT(a) == SIGNBIT(b)))
#define IMPLIES(a, b) (!(a) || (b))

/* Conversion of a value to an integer as the properties define it: truncated, clamped to the int range, NaN -> 0. */
static int spec_f2i(double v)
{
    if (ISNAN(v)) return 0;
    if (v >= 2147483647.0) return INT_MAX;
    if (v <= -2147483648.0) return INT_MIN;
    return (int) v;
}
/* Index of a memory cell: the integer part of the value, with a tolerance of 0.0001; no cell for NaN. */
#define SPEC_IDX(v) (ISNAN(v) ? INT_MIN : SPEC_F2I((v) < 0 ? (v) - 0.0001 : (v) + 0.0001))
#endif
