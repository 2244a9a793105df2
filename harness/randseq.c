/* rand on the running library against a reference generator: random programs mix rand with every other built-in. */
#include "vk.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/CompilerTypes.h"
#include "projectm-eval/api/projectm-eval.h"
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
static uint32_t x[624]; static int xi = -1;
static uint32_t ref(void)
{
    if (xi < 0) { x[0] = 0x4141f00du; for (int i = 1; i < 624; i++) x[i] = 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)) + (uint32_t) i; xi = 624; }
    if (xi == 624)
    {
        for (int k = 0; k < 624; k++)
        {
            uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu);
            x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
        }
        xi = 0;
    }
    uint32_t y = x[xi++];
    y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
    return y;
}
static double arg_value; static long operands;
static void operand(node_t* c, F** rv) { operands++; **rv = arg_value; }
static bool right(double r, double a)
{
    uint32_t n = ref();
    double m = floor(a); if (!(m >= 1)) m = 1;
    double e = (double) n / 4294967295.0 * m;
    return r >= 0 && r <= m && fabs(r - e) <= 1e-12 * m;
}
static void (*fn)(node_t*, F**);
static prjm_eval_intrinsic_function_list l; static int nl;
static double draw(double a)
{
    static node_t child, node; static node_t* args[2];
    F v = 0, *p = &v;
    child.func = (void*) operand; args[0] = &child; args[1] = 0; node.args = args; node.func = (void*) fn;
    arg_value = a; operands = 0;
    fn(&node, &p);
    if (operands != 1) vk_fail("C17 C03: the operand of rand is evaluated exactly once");
    return *p;
}
void harness(void)
{
    static bool first = true;
    if (!fn)
    {
        prjm_eval_intrinsic_functions(&l, &nl);
        for (int i = 0; i < nl && !fn; i++) if (!strcmp(l[i].name, "rand")) fn = (void*) l[i].func;
        if (!fn) { vk_fail("C17 C12: there is no function rand"); return; }
    }
    double a = nd_F();
    if (ISNAN(a) || ISINF(a)) a = 7;
    for (long i = 0; i < 50; i++)
        if (!right(draw(a), a)) { vk_fail("C17: rand is the scaled next number of the sequence, between 0 and the integer part of its argument (at least 1)"); return; }
    /* a program with other functions in between, run twice */
    char src[4096]; int n = 0; int draws = 0;
    static double args[64];
    n += sprintf(src + n, "v1=0.5;v2=3;");
    for (int k = 0; k < 12; k++)
    {
        int f = nd_range(0, nl - 1);
        const char* nm = l[f].name;
        if (nm[0] == '/' ) continue;
        if (!strcmp(nm, "rand"))
        {
            double b = nd_range(-3, 1000) / 2.0;
            n += sprintf(src + n, "r%d=rand(%s%g);", draws, b < 0 ? "-" : "", fabs(b));
            args[draws++] = b;
            continue;
        }
        if (!strcmp(nm, "while") || !strcmp(nm, "_while")) continue;
        n += sprintf(src + n, "%s(", nm);
        for (int i = 0; i < l[f].arg_count; i++) n += sprintf(src + n, "%s%s", i ? "," : "", (nd_range(0, 2) ? "v1" : "v2"));
        n += sprintf(src + n, ");");
        if (nd_range(0, 1)) { n += sprintf(src + n, "r%d=%s(3)", draws, k & 1 ? "rand" : "RAND"); n += sprintf(src + n, ";"); args[draws++] = 3; }
    }
    struct projectm_eval_context* c = projectm_eval_context_create(0, 0);
    F* rv[64];
    for (int i = 0; i < draws; i++) { char b[16]; sprintf(b, "r%d", i); rv[i] = projectm_eval_context_register_variable(c, b); }
    struct projectm_eval_code* code = projectm_eval_code_compile(c, src);
    if (code)
    {
        for (int t = 0; t < 2; t++)
        {
            projectm_eval_code_execute(code);
            for (int i = 0; i < draws; i++)
                if (!right(*rv[i], args[i])) { printf("program %s\n", src); vk_fail("C17: only evaluating rand advances the sequence, by one number"); return; }
        }
        projectm_eval_code_destroy(code);
    }
    projectm_eval_context_destroy(c);
    if (first)
    {
        first = false;
        for (long i = 0; i < DRAWS; i++) if (!right(draw(9), 9)) { printf("draw %ld\n", i); vk_fail("C17: rand follows the sequence"); return; }
    }
}
