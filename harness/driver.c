/* Runs source texts through the real library (compiled from the mirror) and prints what it made of them, one line per text:
 *   tokens;  accepted or rejected, error message;  the expression tree;  objects not released.
 * Used by vk/refparse.py. Input file: records "<length>\n<bytes>". Modes:
 *   tree FILE   optimisation switched off through the function flags of the context, so that the tree is the whole program
 *   diff FILE   the text compiled normally and with optimisation off, executed, results, variables and memory compared
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include "projectm-eval/CompilerTypes.h"
#include "projectm-eval/CompilerFunctions.h"
#include "projectm-eval/CompileContext.h"
#include "projectm-eval/ExpressionTree.h"
#include "projectm-eval/MemoryBuffer.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/TreeVariables.h"
#include "projectm-eval/api/projectm-eval.h"
#include "projectm-eval/Compiler.h"
#include "projectm-eval/Scanner.h"
typedef PRJM_EVAL_F F;
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
static long live;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(const char*);
void* __wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t s) { live++; return __real_calloc(n, s); }
void* __wrap_realloc(void* p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
char* __wrap_strdup(const char* s) { live++; return __real_strdup(s); }

static char out[1 << 20]; static size_t on;
static void put(const char* s) { while (*s && on < sizeof out - 8) out[on++] = *s++; out[on] = 0; }
static void putf_(F v) { char b[64]; snprintf(b, sizeof b, "%a", (double) v); put(v != v ? "nan" : b); }
static void put_escaped(const char* s) { char b[8]; for (; *s; s++) { if ((unsigned char) *s < 32 || *s == '\\' || *s == '\t' || (unsigned char) *s > 126) { snprintf(b, sizeof b, "\\x%02x", (unsigned char) *s); put(b); } else { b[0] = *s; b[1] = 0; put(b); } } }

static prjm_eval_intrinsic_function_list table; static int ntable;
static const char* name_of(prjm_eval_expr_func_t* f) { for (int i = 0; i < ntable; i++) if (table[i].func == f) return table[i].name; return "?"; }
static void dump(prjm_eval_compiler_context_t* c, prjm_eval_exptreenode_t* e)
{
    if (!e) { put("NULL"); return; }
    const char* n = name_of(e->func);
    if (!strcmp(n, "/*const*/")) { put("#"); putf_(e->value); return; }
    if (!strcmp(n, "/*var*/"))
    {
        for (prjm_eval_variable_entry_t* v = c->variables.first; v; v = v->next)
            if (&v->variable->value == e->var) { put("@"); for (const char* p = v->variable->name; *p; p++) { char b[2] = {*p >= 'A' && *p <= 'Z' ? *p + 32 : *p, 0}; put(b); } return; }
        for (int i = 0; i < 100; i++) if (&(*c->global_variables)[i] == e->var) { char b[16]; snprintf(b, sizeof b, "@reg%02d", i); put(b); return; }
        put("@?"); return;
    }
    if (!strcmp(n, "/*list*/"))
    {
        put("{");
        for (prjm_eval_exptreenode_list_item_t* i = e->list; i; i = i->next) { if (i != e->list) put(" "); dump(c, i->expr); }
        put("}"); return;
    }
    put("("); put(n);
    if (e->memory_buffer) put(e->memory_buffer == c->memory ? ":L" : e->memory_buffer == c->global_memory ? ":G" : ":?");
    for (prjm_eval_exptreenode_t** a = e->args; a && *a; a++) { put(" "); dump(c, *a); }
    put(")");
}
static void no_optimisation(prjm_eval_compiler_context_t* c)
{
    for (prjm_eval_function_list_item_t* f = c->functions.first; f; f = f->next) { f->function->is_const_eval = false; f->function->is_state_changing = true; }
}
static void tokens(prjm_eval_compiler_context_t* c, const char* text)
{
    yyscan_t sc; prjm_eval_lex_init(&sc);
    YY_BUFFER_STATE b = prjm_eval__scan_string(text, sc);
    PRJM_EVAL_LTYPE loc; memset(&loc, 0, sizeof loc);
    for (int n = 0; n < 5000; n++)
    {
        PRJM_EVAL_STYPE v; memset(&v, 0, sizeof v);
        int t = prjm_eval_lex(&v, &loc, c, sc);
        if (t <= 0) break;
        char s[64];
        if (t == NUM) { put("N"); putf_(v.NUM); put(" "); }
        else if (t == VAR) { put("V"); put_escaped(v.VAR); put(" "); free(v.VAR); }
        else if (t == FUNC) { put("F"); put_escaped(v.FUNC); put(" "); free(v.FUNC); }
        else
        {
            const char* nm = t == GMEM ? "gmem" : t == ADDOP ? "+=" : t == SUBOP ? "-=" : t == MODOP ? "%=" : t == OROP ? "|=" : t == ANDOP ? "&=" : t == DIVOP ? "/=" : t == MULOP ? "*=" : t == POWOP ? "^=" : t == EQUAL ? "==" :
                t == BELEQ ? "<=" : t == ABOEQ ? ">=" : t == NOTEQ ? "!=" : t == BOOLOR ? "||" : t == BOOLAND ? "&&" : 0;
            if (nm) snprintf(s, sizeof s, "%s ", nm); else if (t > 32 && t < 127) snprintf(s, sizeof s, "%c ", t); else snprintf(s, sizeof s, "error ");
            put(s);
        }
    }
    prjm_eval__delete_buffer(b, sc);
    prjm_eval_lex_destroy(sc);
}
static void tree(const char* text)
{
    on = 0; out[0] = 0;
    long before = live;
    prjm_eval_compiler_context_t* c = (prjm_eval_compiler_context_t*) projectm_eval_context_create(NULL, NULL);
    prjm_eval_intrinsic_functions(&table, &ntable);
    no_optimisation(c);
    tokens(c, text);
    put("\t");
    struct projectm_eval_code* code = projectm_eval_code_compile((struct projectm_eval_context*) c, text);
    const char* err = projectm_eval_get_error((struct projectm_eval_context*) c, NULL, NULL);
    put(code ? "A\t" : "R\t");
    put(err ? "E" : "-"); if (err) put_escaped(err);
    put("\t");
    if (code) dump(c, ((prjm_eval_program_t*) code)->program); else put("-");
    F r = projectm_eval_code_execute(NULL);
    put(r == 0 ? "" : "\tBADNULL");
    projectm_eval_code_destroy(code);
    projectm_eval_context_destroy((struct projectm_eval_context*) c);
    projectm_eval_memory_global_destroy();
    printf("%s\t%ld\n", out, live - before);
}
/* ---- differential */
static bool same(F a, F b) { return (a != a && b != b) || (a == b && !(a == 0 && 1 / a != 1 / b)); }
static const char* VARS[] = {"a", "b", "c", "d", "reg00", "reg07"};
static const F INIT[2][6] = {{1.5, -2, 0, 3, 7, 0.25}, {0, 5, -0.5, 1, 0, 2}};
enum { CELLS = 24 };
static F* cell(prjm_eval_compiler_context_t* c, bool global, int i) { return prjm_eval_memory_allocate(global ? c->global_memory : c->memory, i); }
static int diff(const char* text)
{
    for (int k = 0; k < 2; k++)
    {
        F R[2][3], V[2][3][6], M[2][3][2][CELLS]; bool acc[2];
        for (int m = 0; m < 2; m++)
        {
            F regs[100] = {0};
            struct projectm_eval_mem_buffer_dummy { int x; };
            projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
            prjm_eval_compiler_context_t* c = (prjm_eval_compiler_context_t*) projectm_eval_context_create(gm, &regs);
            if (m == 1) no_optimisation(c);
            F* v[6];
            for (int i = 0; i < 6; i++) { v[i] = projectm_eval_context_register_variable((struct projectm_eval_context*) c, VARS[i]); *v[i] = INIT[k][i]; }
            for (int g = 0; g < 2; g++) for (int i = 0; i < CELLS; i++) *cell(c, g, i) = (i % 5) - 1 + g;
            struct projectm_eval_code* code = projectm_eval_code_compile((struct projectm_eval_context*) c, text);
            acc[m] = code != 0;
            for (int i = 0; i < 6; i++) if (!same(*v[i], INIT[k][i])) { printf("compiling changed variable %s\n", VARS[i]); return 1; }
            for (int g = 0; g < 2; g++) for (int i = 0; i < CELLS; i++) if (*cell(c, g, i) != (i % 5) - 1 + g) { printf("compiling changed %s memory cell %d\n", g ? "global" : "local", i); return 1; }
            for (int n = 0; n < 3 && code; n++)
            {
                R[m][n] = projectm_eval_code_execute(code);
                for (int i = 0; i < 6; i++) V[m][n][i] = *v[i];
                for (int g = 0; g < 2; g++) for (int i = 0; i < CELLS; i++) M[m][n][g][i] = *cell(c, g, i);
            }
            projectm_eval_code_destroy(code);
            projectm_eval_context_destroy((struct projectm_eval_context*) c);
            projectm_eval_memory_buffer_destroy(gm);
        }
        if (acc[0] != acc[1]) { printf("accepted %d with, %d without optimisation\n", acc[0], acc[1]); return 1; }
        if (!acc[0]) { printf("rejected "); return 0; }
        for (int n = 0; n < 3; n++)
        {
            if (!same(R[0][n], R[1][n])) { printf("start %d execution %d: result %a with, %a without optimisation\n", k, n, R[0][n], R[1][n]); return 1; }
            for (int i = 0; i < 6; i++) if (!same(V[0][n][i], V[1][n][i])) { printf("start %d execution %d: variable %s is %a with, %a without optimisation\n", k, n, VARS[i], V[0][n][i], V[1][n][i]); return 1; }
            for (int g = 0; g < 2; g++) for (int i = 0; i < CELLS; i++) if (!same(M[0][n][g][i], M[1][n][g][i]))
            { printf("start %d execution %d: %s memory cell %d is %a with, %a without optimisation\n", k, n, g ? "global" : "local", i, M[0][n][g][i], M[1][n][g][i]); return 1; }
        }
    }
    return 0;
}
/* ---- run */
static int watch(int k) { return k < 24 ? k : k < 36 ? 65530 + k - 24 : 8388602 + k - 36; }
enum { NWATCH = 42 };
static void runtext(const char* text)
{
    F regs[100] = {0};
    projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
    struct projectm_eval_context* c = projectm_eval_context_create(gm, &regs);
    prjm_eval_compiler_context_t* cc = (prjm_eval_compiler_context_t*) c;
    F* v[6];
    for (int i = 0; i < 6; i++) { v[i] = projectm_eval_context_register_variable(c, VARS[i]); *v[i] = INIT[0][i]; }
    for (int g = 0; g < 2; g++) for (int k = 0; k < NWATCH; k++) *cell(cc, g, watch(k)) = (watch(k) % 5) - 1 + g;
    struct projectm_eval_code* code = projectm_eval_code_compile(c, text);
    printf("R");
    for (int n = 0; n < 3 && code; n++)
    {
        printf(" %a", (double) projectm_eval_code_execute(code));
        for (int i = 0; i < 6; i++) printf(" %a", (double) *v[i]);
        for (int g = 0; g < 2; g++) for (int k = 0; k < NWATCH; k++) printf(" %a", (double) *cell(cc, g, watch(k)));
    }
    printf("\n");
    projectm_eval_code_destroy(code);
    projectm_eval_context_destroy(c);
    projectm_eval_memory_buffer_destroy(gm);
}
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[2], "rb"); int n;
    static char buf[1 << 16];
    for (int i = 0; fscanf(f, "%d", &n) == 1; i++)
    {
        fgetc(f);
        if (n >= (int) sizeof buf || (int) fread(buf, 1, n, f) != n) return 3;
        buf[n] = 0;
        if (!strcmp(argv[1], "tree")) tree(buf);
        else if (!strcmp(argv[1], "run")) runtext(buf);
        else { printf("%d\t", i); if (!diff(buf)) printf("ok\n"); }
        fflush(stdout);
    }
    return 0;
}
