/* Common part of comp.c and ctx.c. Every function is
 * checked against the contracts (stubs vk_*) of the functions it calls, never their bodies; vk/stubs.py redirects the calls
 * in a scratch copy (SRC). Pre- and postconditions are the assumptions and assertions in harness().
 *
 * Ghost state. An expression tree is an opaque token T[i] with
 *   pure[i]   evaluating it reads and changes nothing but the operand results (always the same value),
 *   noeff[i]  evaluating it changes no variable, register or memory (pure implies noeff),
 *   rel[i]    how often it was released.
 * Dynamic memory: live counts the objects allocated and not yet released by the code under contract or handed over to it. */
#include "vk.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include "projectm-eval/CompilerTypes.h"
#include "projectm-eval/CompilerFunctions.h"
#include "projectm-eval/CompileContext.h"
#include "projectm-eval/ExpressionTree.h"
#include "projectm-eval/MemoryBuffer.h"
#include "projectm-eval/TreeFunctions.h"
#include "projectm-eval/TreeVariables.h"
#ifndef VK_NATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#endif
typedef prjm_eval_exptreenode_list_item_t item_t;
typedef prjm_eval_compiler_node_t cnode_t;
typedef prjm_eval_compiler_arg_list_t alist_t;
typedef prjm_eval_compiler_arg_node_t anode_t;
typedef prjm_eval_function_def_t def_t;
typedef prjm_eval_function_list_item_t fitem_t;
typedef prjm_eval_variable_entry_t vent_t;
#define NT 6
node_t T[NT]; bool pure[NT], noeff[NT]; int rel[NT];
int live;
prjm_eval_compiler_context_t CC;
F* MB1[1]; F* MB2[1];
static def_t CONSTDEF, VARDEF, LISTDEF, FDEF; static bool fpure, fnoeff;

/* ---- dynamic memory (allocation succeeds: running out of memory is outside the properties) */
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
void* vk_malloc(size_t n) { live++; return malloc(n); }
void* vk_calloc(size_t n, size_t s) { live++; return calloc(n, s); }
void vk_free(void* p)
{
    if (!p) return;
    for (int i = 0; i < NT; i++) /* (an opaque expression owns more than its node) */
    {
        VK_ASSERT(p != (void*) &T[i], "C13 C14: an expression is released together with everything it contains");
        VK_ASSUME(p != (void*) &T[i]);
    }
    live--;
    free(p);
}
static size_t vk_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
char* vk_strdup(const char* s)
{
    size_t n = vk_strlen(s) + 1;
    char* p = vk_malloc(n);
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    return p;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vk_strcasecmp(const char* a, const char* b)
{
    int i = 0;
    while (low((unsigned char) a[i]) == low((unsigned char) b[i])) { if (!a[i]) return 0; i++; }
    return low((unsigned char) a[i]) - low((unsigned char) b[i]);
}
int vk_strncasecmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        int d = low((unsigned char) a[i]) - low((unsigned char) b[i]);
        if (d || !a[i]) return d;
    }
    return 0;
}
static bool same_text(const char* a, const char* b)
{
    int i = 0;
    while (a[i] == b[i]) { if (!a[i]) return true; i++; }
    return false;
}
static int token(const void* p) { for (int i = 0; i < NT; i++) if (p == &T[i]) return i; return -1; }

/* ---- contracts of callees */
static int d_trees;
/* releases a tree completely: tokens by identity, nodes made by the code under contract with all they own */
void vk_destroy_exptree(prjm_eval_exptreenode_t* e)
{
    if (!e) return;
    int t = token(e);
    d_trees++;
    if (t >= 0)
    {
        VK_ASSERT(rel[t] == 0, "C13 C14: an expression is released only once");
        rel[t]++;
        return;
    }
    if (e->args)
    {
        for (int i = 0; e->args[i]; i++)
        {
            int k = token(e->args[i]);
            VK_ASSERT(k >= 0 && rel[k] == 0, "C13 C14: an operand is released only once");
            VK_ASSUME(k >= 0);
            rel[k]++;
        }
        vk_free(e->args);
    }
    for (item_t* l = e->list; l;)
    {
        item_t* n = l->next;
        int k = token(l->expr);
        VK_ASSERT(k >= 0 && rel[k] == 0, "C13 C14: an instruction is released only once");
        VK_ASSUME(k >= 0);
        rel[k]++;
        vk_free(l);
        l = n;
    }
    vk_free(e);
}
void vk_destroy_node(cnode_t* n) { if (n->tree_node) vk_destroy_exptree(n->tree_node); vk_free(n); }
static int d_arglists; static alist_t* d_arglist;
void vk_destroy_arglist(alist_t* l)
{
    d_arglists++; d_arglist = l;
    if (!l) return;
    for (anode_t* a = l->begin; a;)
    {
        anode_t* n = a->next;
        if (a->node) vk_destroy_node(a->node);
        vk_free(a);
        a = n;
    }
    vk_free(l);
}
static int g_lookups; static const char* g_lookup; static bool g_found; static bool g_byname;
def_t* vk_get_function(prjm_eval_compiler_context_t* cctx, const char* name)
{
    VK_ASSERT(cctx == &CC, "C11 C12: functions are looked up in the context compiled in");
    if (same_text(name, "/*const*/")) return &CONSTDEF;
    if (same_text(name, "/*var*/")) return &VARDEF;
    if (same_text(name, "/*list*/")) return &LISTDEF;
    g_lookups++;
    VK_ASSERT(g_byname && same_text(name, g_lookup), "C12: the function is looked up by the name in the source");
    return g_found ? &FDEF : 0;
}

/* flags promise no more than what holds */
#define SOUND(n, p, e) (IMPLIES((n)->list_is_const_expr && !(n)->list_is_state_changing, (p)) && IMPLIES(!(n)->list_is_state_changing, (e)))
/* any flags which are sound for a list with pure / no effect, whose last instruction has no effect; one: single expression */
static void nd_flags(cnode_t* n, bool p, bool e, bool laste, bool one)
{
    n->list_is_state_changing = nd_bool() || !e;
    n->list_is_const_expr = nd_bool() && (p || n->list_is_state_changing);
    n->instr_is_state_changing = one ? n->list_is_state_changing : nd_bool() || !laste;
    n->instr_is_const_expr = one ? n->list_is_const_expr : nd_bool();
}
static cnode_t* mknode(int t)
{
    cnode_t* n = vk_calloc(1, sizeof *n);
    n->type = PRJM_EVAL_NODE_FUNC_EXPRESSION;
    n->tree_node = &T[t];
    nd_flags(n, pure[t], noeff[t], noeff[t], true);
    return n;
}
static void setup(void)
{
    live = 0; d_trees = d_arglists = 0; d_arglist = 0; g_lookups = 0; g_lookup = 0; g_found = g_byname = false;
    for (int i = 0; i < NT; i++) { pure[i] = nd_bool(); noeff[i] = nd_bool() || pure[i]; rel[i] = 0; T[i].value = nd_F(); T[i].args = 0; T[i].list = 0; T[i].func = 0; T[i].var = 0; }
    CC.functions.first = 0; CC.variables.first = 0; CC.global_variables = 0; CC.memory = MB1; CC.global_memory = MB2;
    CC.error.error = 0; CC.error.line = CC.error.column_start = CC.error.column_end = 0; CC.compile_result = 0;
    (void) spec_f2i(0.); (void) nd_uint;
}
static def_t mkdef(char* name, int args, bool c, bool s) { def_t d; d.name = name; d.func = 0; d.arg_count = args; d.is_const_eval = c; d.is_state_changing = s; return d; }

#define malloc vk_malloc
#define calloc vk_calloc
#define free vk_free
#define strdup vk_strdup
#define strcasecmp vk_strcasecmp
#define strncasecmp vk_strncasecmp

