/* Contracts of the ns-eel2 interface: each function does what the native function does, given as stubs here. */
#include "comp.h"
static int g_op, g_call; static F* BUF[1]; static F CELL; static char NAME[] = "v", CODE[] = "c"; static int g_code; static int g_hasres; static F g_val; static char ERR[] = "e";
static struct projectm_eval_code* g_pr;
#define X ((struct projectm_eval_context*) &CC)
static void op(int o, bool ok) { VK_ASSERT(g_op == o && ok, "C18: the corresponding native function is called with the given arguments"); g_call++; }
void vk_global_destroy(void) { op(0, true); }
struct projectm_eval_context* vk_ctx_create(projectm_eval_mem_buffer m, F (*v)[100]) { op(1, m == 0 && v == 0); return X; }
void vk_ctx_destroy(struct projectm_eval_context* c) { op(2, c == X); }
void vk_reset_vars(struct projectm_eval_context* c) { op(3, c == X); }
F* vk_reg(struct projectm_eval_context* c, const char* n) { op(4, c == X && n == NAME); return &CELL; }
void vk_free_mem(struct projectm_eval_context* c) { op(5, c == X); }
void vk_buf_destroy(projectm_eval_mem_buffer b) { op(7, b == BUF); }
struct projectm_eval_code* vk_code_compile(struct projectm_eval_context* c, const char* s) { op(8, c == X && s == CODE); return g_pr; }
const char* vk_get_err(struct projectm_eval_context* c, int* l, int* col) { VK_ASSERT(g_op == 9 && c == X, "C18: the error of the given context is read"); return CC.error.error; }
F vk_exec(struct projectm_eval_code* p) { op(10, p == g_pr); return nd_F(); }
void vk_code_destroy(struct projectm_eval_code* p) { op(11, p == g_pr); }
void vk_mem_free(projectm_eval_mem_buffer b) { op(5, b == MB1); }
prjm_eval_program_t* vk_compile2(prjm_eval_compiler_context_t* c, const char* s) { op(8, c == &CC && s == CODE); return (prjm_eval_program_t*) g_pr; }
void vk_destroy2(prjm_eval_program_t* p) { op(11, (struct projectm_eval_code*) p == g_pr); }
const char* vk_get_err2(prjm_eval_compiler_context_t* c, int* l, int* c1, int* c2) { return vk_get_err(X, l, c1); }
void NSEEL_HOSTSTUB_EnterMutex(void) { op(12, true); }
void NSEEL_HOSTSTUB_LeaveMutex(void) { op(13, true); }
#define projectm_eval_memory_host_lock_mutex vk_shim_lock
#define projectm_eval_memory_host_unlock_mutex vk_shim_unlock
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup(); g_call = 0;
    g_op = nd_range(0, 13);
    g_pr = nd_bool() ? (struct projectm_eval_code*) &g_code : 0;
    CC.error.error = nd_bool() ? &ERR[0] : 0;
    prjm_eval_compiler_context_t c0 = CC;
    char* e0 = CC.error.error;
    int want = 1;
    switch (g_op)
    {
        case 0: NSEEL_quit(); break;
        case 1: VK_ASSERT(NSEEL_VM_alloc() == (NSEEL_VMCTX) X, "C18: the new context is returned"); break;
        case 2: NSEEL_VM_free((NSEEL_VMCTX) X); break;
        case 3: NSEEL_VM_resetvars((NSEEL_VMCTX) X); break;
        case 4: VK_ASSERT(NSEEL_VM_regvar((NSEEL_VMCTX) X, NAME) == &CELL, "C18: the address of the variable is returned"); break;
        case 5: NSEEL_VM_freeRAM((NSEEL_VMCTX) X); break;
        case 6: want = 0; NSEEL_VM_SetGRAM((NSEEL_VMCTX) X, (void**) BUF);
            VK_ASSERT(CC.global_memory == (projectm_eval_mem_buffer) BUF, "C18 C11: the global memory of the context is the given buffer"); break;
        case 7: NSEEL_VM_FreeGRAM((void**) BUF); break;
        case 8: VK_ASSERT(NSEEL_code_compile((NSEEL_VMCTX) X, CODE, nd_int()) == (NSEEL_CODEHANDLE) g_pr, "C18: the compiled code or null is returned"); break;
        case 9: want = 0; VK_ASSERT(NSEEL_code_getcodeerror((NSEEL_VMCTX) X) == e0, "C18: the error of the context is returned"); break;
        case 10: NSEEL_code_execute((NSEEL_CODEHANDLE) g_pr); if (!g_pr) want = g_call; break;
        case 11: NSEEL_code_free((NSEEL_CODEHANDLE) g_pr); if (!g_pr) want = g_call; break;
        case 12: vk_shim_lock(); break;
        default: vk_shim_unlock(); break;
    }
    VK_ASSERT(g_call == want, "C18: each function calls its native counterpart exactly once");
    VK_ASSERT(CC.memory == MB1 && (g_op == 6 || CC.global_memory == MB2) && CC.variables.first == 0 && CC.functions.first == 0 && CC.global_variables == 0 && CC.error.error == e0 && CC.compile_result == 0,
              "C18: nothing else in the context changes");
    VK_ASSERT(live == 0, "C18: nothing is allocated or released");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
