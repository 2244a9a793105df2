/* Actions of the scanner (vk_act: the generated switch over the rules), for every rule and the documented token it matches
 * (lexcases.h, from the comparison of the automata). */
#include "vk.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "projectm-eval/CompilerTypes.h"
#include "projectm-eval/CompilerFunctions.h"
static prjm_eval_compiler_context_t CC;
static char* g_text; static bool g_isfn; static int q_fn, q_dup, q_atof, q_strtoul; static F g_num; static unsigned long g_hex; static char g_copy[4];
static bool g_echo;
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
bool vk_is_function(prjm_eval_compiler_context_t* c, const char* name)
{
    VK_ASSERT(c == &CC && name == g_text, "C19 C12: the name in the source is looked up in the context compiled in");
    q_fn++; return g_isfn;
}
static bool vk_same(const char* a, const char* b) { int i = 0; while (a[i] == b[i]) { if (!a[i]) return true; i++; } return false; }
char* vk_dup(const char* s) { VK_ASSERT(vk_same(s, g_text), "C19 C12: the name in the source is kept"); q_dup++; return g_copy; }
double vk_atof(const char* s) { VK_ASSERT(vk_same(s, g_text), "C19: the whole constant is converted"); q_atof++; return g_num; }
double vk_strtod(const char* s, char** e) { if (e) { *e = (char*) s + strlen(s); } return vk_atof(s); }
unsigned long vk_strtoul(const char* s, char** e, int base)
{
    VK_ASSERT(vk_same(s, g_text + 2) && base == 16, "C19: the digits of a hexadecimal constant are converted to base 16");
    if (e) *e = (char*) s + strlen(s);
    q_strtoul++; return g_hex;
}
unsigned long long vk_strtoull(const char* s, char** e, int base) { return vk_strtoul(s, e, base); }
size_t vk_fwrite(const void* p, size_t a, size_t b, FILE* f) { g_echo = true; return b; }
#include CF_SRC
#define prjm_eval_compiler_name_is_function vk_is_function
#undef strdup
#undef atof
#undef strtod
#undef strtoul
#define strdup vk_dup
#define atof vk_atof
#define strtod vk_strtod
#define strtoul vk_strtoul
#define strtoull vk_strtoull
#define fwrite vk_fwrite
#include SRC
#include "lexcases.h"
static struct yyguts_t G; static struct yy_buffer_state BUF; static YY_BUFFER_STATE STACK[1];
static char text[24];
static void one(int k)
{
    int kind = CASES[k].kind;
    int n = 0;
    for (; n < 20 && CASES[k].text[n]; n++) text[n] = CASES[k].text[n];
    text[n] = 0;
    if (kind == 6) { char c = (char) nd_range(-128, 127); if (c == 0 || c == '\n') c = 'x'; text[2] = c; }
    g_text = text; g_isfn = nd_bool(); q_fn = q_dup = q_atof = q_strtoul = 0; g_num = nd_F(); g_hex = nd_uint(); g_echo = false;
    memset(&G, 0, sizeof G); memset(&BUF, 0, sizeof BUF);
    STACK[0] = &BUF; G.yy_buffer_stack = STACK; G.yy_buffer_stack_max = 1; G.yy_init = 1;
    G.yy_start = 1 + 2 * CASES[k].sc;
    G.yytext_r = text; G.yyleng_r = n;
    BUF.yy_bs_lineno = 1; BUF.yy_bs_column = nd_range(0, 1000);
    YYSTYPE v; YYLTYPE l; memset(&v, 0, sizeof v); memset(&l, 0, sizeof l);
    int t = vk_act(CASES[k].rule, &v, &l, &CC, &G);
    int start = (G.yy_start - 1) / 2;
    VK_ASSERT(!g_echo, "C19: nothing is printed");
    VK_ASSERT(start == (kind == 1 ? ML_COMMENT : kind == 2 ? IL_COMMENT : kind == 3 ? INITIAL : CASES[k].sc), "C19: comments begin and end where documented");
    VK_ASSERT(kind <= 4 ? t == -1 : t != -1, "C19: exactly whitespace and comments yield no token");
    VK_ASSERT(!(kind >= 5 && kind <= 9) && kind != 11 || t == NUM, "C19: constants are number tokens");
    VK_ASSERT(kind != 5 || (q_strtoul == 1 && v.NUM == (F) g_hex), "C19: a hexadecimal constant has its value");
    VK_ASSERT(kind != 6 || v.NUM == (F) (unsigned char) text[2], "C19: a character constant is the character's code");
    VK_ASSERT(kind != 7 || v.NUM == 3.141592653589793, "C19: the value of $PI");
    VK_ASSERT(kind != 8 || v.NUM == 2.71828183, "C19: the value of $E");
    VK_ASSERT(kind != 9 || v.NUM == 1.61803399, "C19: the value of $PHI");
    VK_ASSERT(kind != 10 || t == GMEM, "C19: gmem is a keyword");
    VK_ASSERT(kind != 11 || (q_atof == 1 && SAME(v.NUM, g_num)), "C19: a decimal constant has its value");
    VK_ASSERT(kind != 12 || (q_dup == 1 && q_fn >= 1 && t == (g_isfn ? FUNC : VAR) && (g_isfn ? v.FUNC : v.VAR) == g_copy), "C19 C12: a name is a call exactly if a built-in function has that name");
    VK_ASSERT(kind == 12 || q_dup == 0, "C19 C13: only names are copied");
    VK_ASSERT(kind != 13 || t == PRJM_EVAL_UNDEF || t == PRJM_EVAL_error, "C19: any other character is an error");
    VK_ASSERT(kind != 14 || t == CASES[k].token, "C19: every operator yields its token");
}
void harness(void)
{
#ifdef VK_NATIVE
    one(nd_range(0, NCASES - 1));
#else
    for (int k = LO; k < HI; k++) one(k);
    __CPROVER_assert(0, "VACUITY");
#endif
}
