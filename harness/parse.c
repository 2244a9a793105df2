/* Semantic actions of the grammar (one reduction, vk_reduce: the generated switch over the rules) and the release of
 * discarded symbols (yydestruct), against the contracts of the functions they call. The expected effect of every rule is
 * generated into rules.h from the specification table in vk/grammar.py. */
#include "vk.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#ifdef STRUCT_VALUES
/* CBMC loses the target of a pointer stored in a union: for the rules which use what a value points to, the members of the
 * semantic value are kept apart (every value is read by the member it was written by) */
#define union struct
#endif
#include "comp.h"
#include <stdarg.h>
#define NN 8
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
typedef struct { int op; int arg[4]; int n; int fn; F val; char* text; } ev_t;  /* op: 1 function call, 2 constant, 3 variable, 4 instruction */
static ev_t ev[6]; static int nev;
static cnode_t N[NN]; static node_t NT_[NN]; static int released[NN];  /* operand nodes 0..3, results 4.. */
static bool isnode(const void* p) { for (int i = 0; i < NN; i++) if (p == &N[i]) return true; return false; }
static int nid(const void* p) { for (int i = 0; i < NN; i++) if (p == &N[i]) return i; return -1; }
static alist_t AL[3]; static int al_used, al_n[3], al_arg[3][8], al_released[3], al_given[3];  /* argument lists: 0 is the one in $n */
static int lid(const void* p) { for (int i = 0; i < 3; i++) if (p == &AL[i]) return i; return -1; }
static char STR[4][3]; static int freed[4], errfreed, errgiven, nerr; static char ERRTEXT[4]; static bool free_other;
static int sid(const void* p) { for (int i = 0; i < 4; i++) if (p == STR[i]) return i; return -1; }
static char* errmsg; static bool fails[3]; static int ncreate;
static int fnid(const char* s);

cnode_t* vk_create_function(prjm_eval_compiler_context_t* cctx, const char* name, alist_t* args, char** error)
{
    VK_ASSERT(cctx == &CC, "C15 C12: code is generated in the context compiled in");
    int l = lid(args);
    VK_ASSERT(l >= 0 && !al_given[l], "C15 C13 C14: an argument list is handed over once");
    VK_ASSUME(l >= 0);
    al_given[l]++;
    ev_t* e = &ev[nev < 5 ? nev : 5]; nev++;
    e->op = 1; e->n = al_n[l]; for (int i = 0; i < 4; i++) e->arg[i] = al_arg[l][i];
    int s = sid(name);
    VK_ASSERT(s < 0 || !freed[s], "C15 C13 C07: the name is still alive when it is used");
    e->fn = s >= 0 ? 1000 + s : fnid(name);
    int k = ncreate < 2 ? ncreate : 2; ncreate++;
    if (fails[k]) { *error = ERRTEXT; errgiven++; return 0; }
    return &N[4 + (nev < 4 ? nev - 1 : 3)];
}
alist_t* vk_add_argument(alist_t* list, cnode_t* node)
{
    int l = lid(list);
    VK_ASSERT(l >= 0 || !list, "C15 C07: arguments are added to an argument list");
    if (l < 0) { l = ++al_used < 3 ? al_used : 2; al_n[l] = 0; }
    VK_ASSERT(!al_given[l], "C13 C07: no argument is added to a list handed over");
    if (al_n[l] < 8) al_arg[l][al_n[l]] = nid(node);
    al_n[l]++;
    return &AL[l];
}
cnode_t* vk_create_constant(prjm_eval_compiler_context_t* cctx, F v)
{
    VK_ASSERT(cctx == &CC, "C15: code is generated in the context compiled in");
    ev_t* e = &ev[nev < 5 ? nev : 5]; nev++;
    e->op = 2; e->val = v; e->n = 0;
    return &N[4 + (nev < 4 ? nev - 1 : 3)];
}
cnode_t* vk_create_variable(prjm_eval_compiler_context_t* cctx, const char* name)
{
    VK_ASSERT(cctx == &CC, "C15: code is generated in the context compiled in");
    ev_t* e = &ev[nev < 5 ? nev : 5]; nev++;
    int s = sid(name);
    VK_ASSERT(s >= 0 && !freed[s], "C12 C13 C07: the name is alive when it is used");
    e->op = 3; e->fn = 1000 + s; e->n = 0;
    return &N[4 + (nev < 4 ? nev - 1 : 3)];
}
cnode_t* vk_add_instruction(prjm_eval_compiler_context_t* cctx, cnode_t* list, cnode_t* instr)
{
    VK_ASSERT(cctx == &CC, "C15: code is generated in the context compiled in");
    ev_t* e = &ev[nev < 5 ? nev : 5]; nev++;
    e->op = 4; e->n = 2; e->arg[0] = nid(list); e->arg[1] = nid(instr);
    return &N[4 + (nev < 4 ? nev - 1 : 3)];
}
static int noded[NN];
void vk_dnode(cnode_t* n) { int i = nid(n); VK_ASSERT(i >= 0 || !n, "C13 C07: only nodes are released"); if (i >= 0) noded[i]++; }
void vk_darglist(alist_t* l) { int i = lid(l); VK_ASSERT(i >= 0 || !l, "C13 C07: only argument lists are released"); if (i >= 0) al_released[i]++; }
void vk_dtree(node_t* n) { VK_ASSERT(!n, "C13 C14: no expression is released by itself"); }
void vk_err(void* loc, prjm_eval_compiler_context_t* cctx, void* scanner, const char* msg)
{
    VK_ASSERT(cctx == &CC, "C13: the error is reported to the context compiled in");
    VK_ASSERT(!errfreed, "C13 C07: the message is alive when it is reported");
    errmsg = (char*) msg; nerr++;
}
void vk_pfree(void* p)
{
    if (!p) return;
    int i = nid(p), s = sid(p);
    if (i >= 0) released[i]++; else if (s >= 0) freed[s]++; else if (p == ERRTEXT) errfreed++; else free_other = true;
}
#undef free
#define free vk_pfree
#include CF_SRC
#define prjm_eval_compiler_create_function vk_create_function
#define prjm_eval_compiler_add_argument vk_add_argument
#define prjm_eval_compiler_create_constant vk_create_constant
#define prjm_eval_compiler_create_variable vk_create_variable
#define prjm_eval_compiler_add_instruction vk_add_instruction
#define prjm_eval_compiler_destroy_node vk_dnode
#define prjm_eval_compiler_destroy_arglist vk_darglist
#define prjm_eval_destroy_exptreenode vk_dtree
#define prjm_eval_error vk_err
#include SRC
#ifdef STRUCT_VALUES
#undef union
#endif
#include "rules.h"
static int fnid(const char* s)
{
    /* functions are compared by what the built-in table binds their names to */
    for (int i = 0; i < NFN; i++) if (same_text(s, FNAME[i])) return FID[i];
    return -1;
}
static YYSTYPE ST[8]; static YYLTYPE LS[8];
#define get(v) get_sym(RLHS[rule], v)
static void reset(void)
{
    setup();
    nev = ncreate = al_used = nerr = errfreed = errgiven = 0; errmsg = 0; free_other = false;
    for (int i = 0; i < 3; i++) { al_given[i] = al_released[i] = al_n[i] = 0; fails[i] = nd_bool(); }
    for (int i = 0; i < 4; i++) { freed[i] = 0; STR[i][0] = (char) ('w' + i); STR[i][1] = 'b'; STR[i][2] = 0; }
    for (int i = 0; i < 6; i++) { ev[i].op = 0; ev[i].n = 0; ev[i].fn = -2; ev[i].arg[0] = ev[i].arg[1] = ev[i].arg[2] = -2; ev[i].val = 0; }
    for (int i = 0; i < NN; i++) { released[i] = noded[i] = 0; N[i].tree_node = &NT_[i]; N[i].type = PRJM_EVAL_NODE_FUNC_EXPRESSION; }
    ERRTEXT[0] = 'e'; ERRTEXT[1] = 0;
    CC.compile_result = &NT_[7];
    al_n[0] = 2; al_arg[0][0] = 0; al_arg[0][1] = 1;
    (void) isnode; (void) fnid("x"); 
}
#define EV_FN(i, f, cnt) (ev[i].op == 1 && ev[i].fn == (f) && ev[i].n == (cnt))
#define A1(i, a) (ev[i].arg[0] == (a))
#define A2(i, a, b) (ev[i].arg[0] == (a) && ev[i].arg[1] == (b))
#define A3(i, a, b, c) (ev[i].arg[0] == (a) && ev[i].arg[1] == (b) && ev[i].arg[2] == (c))
/* the last call failed: reported once, released once, the reduction is an error; otherwise the result is that of the last event */
#define NOERR(res) (r == 0 && nerr == 0 && errgiven == 0 && get(&out) == (void*) (res))
#define ISERR (r == 1 && nerr == 1 && errmsg == ERRTEXT && errfreed == 1 && errgiven == 1)
#define LAST_RESULT (&N[4 + nev - 1])
static int operands_freed(void) { int k = 0; for (int i = 0; i < 4; i++) k += released[i] + noded[i]; return k; }
static int strings_freed(void) { int k = 0; for (int i = 0; i < 4; i++) k += freed[i]; return k; }
#ifndef LO
#define LO 1
#define HI NRULES
#endif
static void one(int rule)
{
    reset();
#ifdef DESTRUCT
    YYSTYPE v; memset(&v, 0, sizeof v);
    int k = nd_range(0, NKIND - 1);
    int what = KIND_VALUE[k];   /* 0 nothing, 1 name, 2 node, 3 argument list */
    put_sym(KIND[k], &v, what == 1 ? (void*) STR[0] : what == 2 ? (void*) &N[0] : (void*) &AL[0], 0);
    yydestruct("x", (yysymbol_kind_t) KIND[k], &v, &LS[0], &CC, 0);
    VK_ASSERT(freed[0] == (what == 1) && strings_freed() == (what == 1), "C13 C14: a discarded name is released exactly once");
    VK_ASSERT(noded[0] == (what == 2) && operands_freed() == (what == 2), "C13 C14: a discarded expression is released exactly once");
    VK_ASSERT(al_released[0] == (what == 3) && al_released[1] + al_released[2] == 0, "C13 C14: a discarded argument list is released exactly once");
    VK_ASSERT(!free_other, "C13 C14 C07: nothing else is released");
#else
    int len = RLEN[rule];
    int strings = 0, nodes = 0;
    for (int i = 0; i < 8; i++) { memset(&ST[i], 0, sizeof ST[i]); LS[i].first_line = LS[i].last_line = 1; LS[i].first_column = LS[i].last_column = i; }
    F number = nd_F();
    /* $1 is ST[1]; the nodes are numbered in the order of the rule's symbols */
    bool nulltop = rule == TOP_RULE && nd_bool();
    for (int i = 1; i <= 5; i++) if (i <= len)
    {
        char c = RSYM[rule][i - 1];
        if (c == 'n') { put_sym(RKIND[rule][i - 1], &ST[i], nulltop ? 0 : &N[nodes], 0); nodes++; }
        else if (c == 's') put_sym(RKIND[rule][i - 1], &ST[i], STR[strings++], 0);
        else if (c == 'a') put_sym(RKIND[rule][i - 1], &ST[i], &AL[0], 0);
        else if (c == 'f') put_sym(RKIND[rule][i - 1], &ST[i], 0, number);
    }
    YYSTYPE out; memset(&out, 0, sizeof out);
    int r = vk_reduce(rule + 1, &ST[len], &out, &LS[len], &CC, 0);
    VK_ASSERT(r == 0 || r == 1, "C13 C15: no rule ends the parse by itself");
    VK_ASSERT(errgiven == errfreed && !free_other, "C13 C14: every message is released exactly once and nothing foreign is released");
    VK_ASSERT(rule == TOP_RULE || operands_freed() == 0, "C13 C14: operands are handed over, not released");
    VK_ASSERT(strings_freed() == strings && freed[0] <= 1 && freed[1] <= 1, "C13 C14: names are released exactly once");
    VK_ASSERT(rule == TOP_RULE || rule == EMPTY_RULE || CC.compile_result == &NT_[7], "C13 C15: the result is only set at the end");
    rules_post(rule, r, out, number, nulltop);
#endif
}
void harness(void)
{
#ifdef VK_NATIVE
    one(nd_range(1, NRULES));
#else
    for (int rule = LO; rule <= HI; rule++) one(rule);
    __CPROVER_assert(0, "VACUITY");
#endif
}
