/* Contract of prjm_eval_float_to_int (CompilerTypes.h). */
#include "vk.h"
F g_in;
#ifdef VK_NATIVE
void harness(void) { g_in = nd_F(); int r = prjm_eval_float_to_int(g_in);
    VK_ASSERT(r == spec_f2i(g_in), "C01 C05 C06 C07: conversion to integer truncates and clamps to the int range, NaN becomes 0"); }
#else
#define ENSURES(tag, e) __CPROVER_ensures(e)
int prjm_eval_float_to_int(PRJM_EVAL_F v)
__CPROVER_assigns()
ENSURES("C01 C05 C06 C07: conversion to integer truncates and clamps to the int range, NaN becomes 0", __CPROVER_return_value == spec_f2i(v))
;
void harness(void) { (void) spec_f2i(0.); g_in = nd_F(); prjm_eval_float_to_int(g_in); __CPROVER_assert(0, "VACUITY"); }
#endif
