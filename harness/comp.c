/* Contracts of CompilerFunctions.c, see comp.h. */
#include "comp.h"

#if defined(U_EXPR) || defined(U_EMPTY) || defined(U_CONST) || defined(U_VAR)
void fn_const(node_t* c, F** rv) { VK_ASSERT(0, "C08: nothing is evaluated but the folded expression"); }
void fn_var(node_t* c, F** rv) { VK_ASSERT(0, "C08: nothing is evaluated but the folded expression"); }
static int g_evals; static F g_evalv; static int g_nargs; static bool g_mayfold;
void fn_eval(node_t* c, F** rv)
{
    VK_ASSERT(g_mayfold, "C08: only expressions without variables, memory, random numbers or side effects are evaluated at compile time");
    VK_ASSERT(g_evals == 0, "C08: an expression is evaluated once at compile time");
    VK_ASSERT(token(c) < 0, "C08: the expression itself is evaluated");
    VK_ASSERT(g_nargs == 0 || c->args != 0, "C08: compile-time evaluation has all operands");
    VK_ASSUME(token(c) < 0 && (g_nargs == 0 || c->args != 0));
    for (int i = 0; i < g_nargs; i++) VK_ASSERT(c->args[i] == &T[i], "C08 C12: compile-time evaluation uses the operands in order");
    VK_ASSERT(rv && *rv, "C07 C08: compile-time evaluation has a result slot");
    VK_ASSUME(rv && *rv);
    g_evals++;
    g_evalv = nd_F();
    if (nd_bool()) { c->value = g_evalv; **rv = nd_F(); *rv = &c->value; }
    else if (nd_bool() && g_nargs > 0) { T[0].value = g_evalv; *rv = &T[0].value; }
    else **rv = g_evalv;
}
static void expr_setup(void)
{
    CONSTDEF = mkdef("/*const*/", 0, true, false); CONSTDEF.func = fn_const;
    VARDEF = mkdef("/*var*/", 0, false, nd_bool()); VARDEF.func = fn_var;
    g_evals = 0; g_evalv = 0; g_nargs = 0; g_mayfold = false;
    fpure = nd_bool(); fnoeff = nd_bool() || fpure;
    FDEF.func = fn_eval; FDEF.is_state_changing = nd_bool() || !fnoeff; FDEF.is_const_eval = nd_bool() && (fpure || FDEF.is_state_changing);
}
#endif

#if defined(U_EXPR)
#define TARGET prjm_eval_compiler_create_expression
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
static char* const names[] = {"_mem", "megabuf", "freembuf", "memcpy", "memset", "_gmem", "gmegabuf", "_add"};
void harness(void)
{
    setup(); expr_setup();
    int nk = nd_range(0, 7);
    FDEF.name = names[nk];
    int n = nd_range(0, 3); g_nargs = n; FDEF.arg_count = n;
    bool allpure = fpure, allnoeff = fnoeff;
    alist_t* al = 0;
    if (n > 0 || nd_bool())
    {
        al = vk_calloc(1, sizeof *al); al->count = n;
        for (int i = 0; i < 3; i++) if (i < n)
        {
            anode_t* a = vk_calloc(1, sizeof *a);
            a->node = mknode(i);
            if (i == 0) al->begin = a; else al->end->next = a;
            al->end = a;
            allpure = allpure && pure[i]; allnoeff = allnoeff && noeff[i];
        }
    }
    g_mayfold = allpure;
    cnode_t* r = prjm_eval_compiler_create_expression(&CC, &FDEF, al);
    VK_ASSERT(r != 0 && r->tree_node != 0, "C12 C13: a call yields an expression");
    VK_ASSUME(r != 0 && r->tree_node != 0);
    VK_ASSERT(d_arglists == 1 && (!al || d_arglist == al), "C13 C14: the argument list is released exactly once");
    VK_ASSERT(r->type == PRJM_EVAL_NODE_FUNC_EXPRESSION, "C08: a call is a single expression");
    VK_ASSERT(SOUND(r, allpure, allnoeff), "C08: the flags of an expression claim no more than holds for its function and all operands");
    VK_ASSERT(IMPLIES(!r->instr_is_state_changing, allnoeff), "C08: an expression that may have effects is marked as such");
    node_t* x = r->tree_node;
    VK_ASSERT(token(x) < 0, "C12: a call yields its own expression");
    VK_ASSERT(g_evals == 0 ? x->func == fn_eval : x->func == fn_const, "C08 C12: the expression runs the called function, or is its folded constant");
    if (g_evals)
    {
        VK_ASSERT(SAME(x->value, g_evalv), "C08: a folded constant has exactly the value of the expression");
        VK_ASSERT(x->args == 0 && x->list == 0, "C08: a folded constant has no operands");
        for (int i = 0; i < 3; i++) VK_ASSERT(rel[i] == (i < n), "C13 C14: folding releases every operand once");
    }
    else
    {
        VK_ASSERT(n == 0 || x->args != 0, "C12: the operands are attached");
        if (n > 0 && x->args)
        {
            for (int i = 0; i < 3; i++) if (i < n) VK_ASSERT(x->args[i] == &T[i], "C12 C08: the arguments are passed in source order");
            VK_ASSERT(x->args[n] == 0, "C12 C14: the arguments end with a null pointer");
        }
        if (n == 0) VK_ASSERT(x->args == 0 || x->args[0] == 0, "C12: no operands without arguments");
        VK_ASSERT(IMPLIES(nk < 5, x->memory_buffer == MB1), "C11: local memory functions use the context's local memory");
        VK_ASSERT(IMPLIES(nk == 5 || nk == 6, x->memory_buffer == MB2), "C11: global memory functions use the context's global memory");
        VK_ASSERT(x->list == 0, "C14: a call has no instruction list");
        for (int i = 0; i < 3; i++) VK_ASSERT(rel[i] == 0, "C13 C14: operands stay alive with the expression");
    }
    vk_destroy_node(r);
    for (int i = 0; i < 3; i++) VK_ASSERT(rel[i] == (i < n), "C13 C14: every operand belongs to the expression");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_EMPTY) || defined(U_CONST) || defined(U_VAR)
static const char* g_regname; static int g_regs; static F VARCELL;
F* vk_register(prjm_eval_compiler_context_t* cctx, const char* name)
{
    VK_ASSERT(cctx == &CC && name == g_regname, "C09 C12: the variable named in the source is registered in this context");
    g_regs++;
    return &VARCELL;
}
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup(); expr_setup();
#if defined(U_EMPTY)
    FDEF.name = "_add";
    cnode_t* r = prjm_eval_compiler_create_expression_empty(&FDEF);
    VK_ASSUME(r && r->tree_node);
    VK_ASSERT(r->tree_node->func == fn_eval && r->type == PRJM_EVAL_NODE_FUNC_EXPRESSION, "C12: an empty expression runs the given function");
    VK_ASSERT(SOUND(r, fpure, fnoeff) && IMPLIES(!r->instr_is_state_changing, fnoeff), "C08: the flags of an expression claim no more than holds for its function");
#elif defined(U_CONST)
    F v = nd_F();
    cnode_t* r = prjm_eval_compiler_create_constant(&CC, v);
    VK_ASSERT(r && r->tree_node, "C12: a constant yields an expression");
    VK_ASSUME(r && r->tree_node);
    VK_ASSERT(r->tree_node->func == fn_const && r->type == PRJM_EVAL_NODE_FUNC_EXPRESSION, "C12: a constant is compiled as a constant");
    VK_ASSERT(SAME(r->tree_node->value, v), "C12 C19: a constant has exactly the value given in the source");
#else
    char* nm = "x"; g_regname = nm; g_regs = 0; VARCELL = nd_F();
    F old = VARCELL;
    cnode_t* r = prjm_eval_compiler_create_variable(&CC, nm);
    VK_ASSERT(r && r->tree_node, "C12: a variable yields an expression");
    VK_ASSUME(r && r->tree_node);
    VK_ASSERT(r->tree_node->func == fn_var && r->type == PRJM_EVAL_NODE_FUNC_EXPRESSION, "C12: a variable is compiled as a variable access");
    VK_ASSERT(g_regs == 1 && r->tree_node->var == &VARCELL, "C09 C12: a variable access refers to the registered variable");
    VK_ASSERT(!(r->list_is_const_expr && !r->list_is_state_changing), "C08: a variable is never constant");
    VK_ASSERT(SAME(VARCELL, old), "C09 C10: compiling does not change variables");
#endif
    VK_ASSERT(g_evals == 0, "C08: nothing is evaluated");
    VK_ASSERT(r->tree_node->args == 0 && r->tree_node->list == 0, "C12 C14: no operands");
    vk_destroy_node(r);
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_FUNC)
static int g_creates; static alist_t* G_al; static cnode_t CN;
cnode_t* vk_create_expression(prjm_eval_compiler_context_t* cctx, def_t* f, alist_t* al)
{
    VK_ASSERT(cctx == &CC && f == &FDEF, "C12: the expression is created for the function found");
    VK_ASSERT(al == G_al && d_arglists == 0, "C12 C14: the expression gets the arguments of the call");
    VK_ASSERT(FDEF.arg_count == al->count, "C12: a call is only accepted with the exact number of arguments");
    g_creates++;
    vk_destroy_arglist(al); d_arglists = 0;
    return &CN;
}
int nondet_vk_len(void);
static int g_len; static char* g_buf; static int g_prints; static bool g_name, g_c1, g_c2;
static int g_ints[2], g_nints; static const char* g_str; static int g_nstrs;
static int vk_snprintf(char* b, size_t n, const char* fmt, ...)
{
    __builtin_va_list ap;
    if (!b) return g_len;
    VK_ASSERT(n >= (size_t) g_len + 1, "C12: the message is not cut off");
    g_buf = b; g_prints++;
    if (n > 0) { b[0] = 'm'; b[1] = 0; }
    /* what the message names */
    g_nints = g_nstrs = 0;
    __builtin_va_start(ap, fmt);
    for (int i = 0; i < 118 && fmt[i]; i++)
        if (fmt[i] == '%' && fmt[i + 1] == 's') { g_str = __builtin_va_arg(ap, const char*); g_nstrs++; }
        else if (fmt[i] == '%' && (fmt[i + 1] == 'd' || fmt[i + 1] == 'i' || fmt[i + 1] == 'u')) { int v = __builtin_va_arg(ap, int); if (g_nints < 2) g_ints[g_nints] = v; g_nints++; }
    __builtin_va_end(ap);
    return g_len;
}
#ifndef VK_NATIVE
#define snprintf vk_snprintf
#endif
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    g_creates = 0; g_len = nd_range(1, 60); g_buf = 0; g_prints = 0; g_nints = g_nstrs = 0; g_str = 0;
    FDEF = mkdef("abc", nd_range(0, 3), nd_bool(), nd_bool());
    int n = nd_range(0, 4);
    alist_t* al = vk_calloc(1, sizeof *al); al->count = n;
    for (int i = 0; i < 4; i++) if (i < n)
    {
        anode_t* a = vk_calloc(1, sizeof *a);
        a->node = mknode(i);
        if (i == 0) al->begin = a; else al->end->next = a;
        al->end = a;
    }
    G_al = al;
    char nm[4]; nm[0] = (char) nd_range('A', 'z'); nm[1] = 'b'; nm[2] = 'C'; nm[3] = 0;
    g_byname = true; g_lookup = nm; g_found = nd_bool();
    char* err = 0;
    bool good = g_found && FDEF.arg_count == n;
    cnode_t* r = prjm_eval_compiler_create_function(&CC, nm, al, &err);
    VK_ASSERT(good ? r == &CN && g_creates == 1 && err == 0 : r == 0 && g_creates == 0, "C12: a call compiles exactly if the function exists and takes this many arguments");
    VK_ASSERT(good || err != 0, "C12 C13: a rejected call reports an error");
    VK_ASSERT(d_arglists == (good ? 0 : 1), "C13 C14: the arguments of a rejected call are released exactly once");
    if (err)
    {
        VK_ASSERT(err[0] != 0, "C12: the message is not empty");
#ifdef VK_NATIVE
        int at = -1, v[8], nv = 0;
        for (int i = 0; err[i]; i++)
        {
            if (strncmp(err + i, nm, strlen(nm)) == 0 && at < 0) { at = i; i += (int) strlen(nm) - 1; }
            else if (isdigit((unsigned char) err[i])) { if (nv < 8) v[nv++] = atoi(err + i); while (isdigit((unsigned char) err[i + 1])) i++; }
        }
        VK_ASSERT(at >= 0, "C12: the message names the function");
        if (g_found) VK_ASSERT(nv == 2 && v[0] == FDEF.arg_count && v[1] == n, "C12: the message names the expected and the given number of arguments");
#else
        if (g_prints > 0)
        {
            VK_ASSERT(g_nstrs == 1 && g_str == nm, "C12: the message names the function");
            if (g_found) VK_ASSERT(g_nints == 2 && g_ints[0] == FDEF.arg_count && g_ints[1] == n, "C12: the message names the expected and the given number of arguments");
        }
#endif
        vk_free(err);
    }
    for (int i = 0; i < 4; i++) VK_ASSERT(rel[i] == (i < n), "C13 C14: every argument expression is released exactly once");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_ADDI)
void fn_list(node_t* c, F** rv) { VK_ASSERT(0, "C08: nothing is evaluated"); }
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
#ifndef NL
#define NL 4
#endif
static void mk_instr(cnode_t* n, int t) { n->tree_node = &T[t]; }
void harness(void)
{
    setup();
    bool lc = nd_bool(), ls = nd_bool();
    LISTDEF = mkdef("/*list*/", nd_range(0, 3), lc, ls); LISTDEF.func = fn_list;
    /* the existing instructions: one expression, or a list of 2..NL */
    int n = nd_range(1, NL);
#ifdef SINGLE
    bool aslist = false;
#else
    bool aslist = n > 1 || nd_bool();
#endif
    cnode_t* l = vk_calloc(1, sizeof *l);
    bool ap = true, ae = true;
    for (int i = 0; i < NL; i++) if (i < n) { ap = ap && pure[i]; ae = ae && noeff[i]; }
    if (aslist)
    {
        node_t* x = vk_calloc(1, sizeof *x); x->func = fn_list;
        item_t* last = 0;
        for (int i = 0; i < NL; i++) if (i < n)
        {
            item_t* it = vk_malloc(sizeof *it); it->expr = &T[i]; it->next = 0;
            if (last) last->next = it; else x->list = it;
            last = it;
        }
        l->type = PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST; l->tree_node = x;
    }
    else
    {
        l->type = PRJM_EVAL_NODE_FUNC_EXPRESSION; l->tree_node = &T[0];
    }
    nd_flags(l, ap, ae, noeff[n - 1], !aslist);
    /* the new instruction: a single expression or itself a (parenthesised) list, whose last instruction may have no effect */
    int ni = NT - 1;
    cnode_t* in = vk_calloc(1, sizeof *in);
    bool inlist = nd_bool();
    in->type = inlist ? PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST : PRJM_EVAL_NODE_FUNC_EXPRESSION;
    in->tree_node = &T[ni];
    nd_flags(in, pure[ni], noeff[ni], nd_bool() || noeff[ni], !inlist);
    cnode_t in0 = *in;
    cnode_t* r = prjm_eval_compiler_add_instruction(&CC, l, in);
    VK_ASSERT(r != 0 && r->tree_node != 0, "C13 C08: adding an instruction yields a list");
    VK_ASSUME(r != 0 && r->tree_node != 0);
    VK_ASSERT(rel[ni] == 0, "C08: the last instruction is never dropped");
    for (int i = 0; i < NL; i++) if (i < n) VK_ASSERT(rel[i] == 0 || noeff[i], "C08: only instructions without effect are dropped");
    ap = pure[ni]; ae = noeff[ni];
    if (r->tree_node == &T[ni])
    {
        /* everything else was dropped */
        for (int i = 0; i < NL; i++) if (i < n) VK_ASSERT(rel[i] == 1, "C08 C14: instructions are kept unless they are dropped and released");
        VK_ASSERT(r->type == in0.type, "C08: a remaining instruction is what it was");
        VK_ASSERT(inlist ? IMPLIES(!r->instr_is_state_changing, !in0.instr_is_state_changing || ae) : IMPLIES(!r->instr_is_state_changing, ae), "C08: the last instruction is marked as changing state if it may");
    }
    else
    {
        VK_ASSERT(token(r->tree_node) < 0, "C08: the new list contains all instructions");
        VK_ASSUME(token(r->tree_node) < 0);
        VK_ASSERT(r->tree_node->func == fn_list, "C08 C03: a list is executed as a list");
        VK_ASSERT(r->type == PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST, "C08: a list is marked as list");
        item_t* it = r->tree_node->list;
        for (int i = 0; i < NL; i++) if (i < n && rel[i] == 0)
        {
            VK_ASSERT(it != 0 && it->expr == &T[i], "C08 C03: remaining instructions keep their order");
            VK_ASSUME(it != 0);
            ap = ap && pure[i]; ae = ae && noeff[i];
            it = it->next;
        }
        VK_ASSERT(it != 0 && it->expr == &T[ni], "C08 C03: the new instruction comes last");
        VK_ASSUME(it != 0);
        VK_ASSERT(it->next == 0, "C08 C07: the list ends with its last instruction");
        VK_ASSUME(it->next == 0);
        VK_ASSERT(IMPLIES(!r->instr_is_state_changing, noeff[ni]), "C08: the last instruction is marked as changing state if it may");
    }
    VK_ASSERT(SOUND(r, ap, ae), "C08: the flags of a list claim no more than holds for all its instructions");
    vk_destroy_node(r);
    for (int i = 0; i < NT; i++) if (i < n || i == ni) VK_ASSERT(rel[i] == 1, "C13 C14: every instruction is released exactly once");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_ADDARG)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    int n = nd_range(0, 4);
    alist_t* al = 0;
    for (int i = 0; i < 5; i++) if (i <= n)
    {
        cnode_t* c = mknode(i);
        alist_t* r = prjm_eval_compiler_add_argument(al, c);
        VK_ASSERT(r != 0 && (al == 0 || r == al), "C12 C13: adding an argument yields the list");
        VK_ASSUME(r != 0);
        al = r;
        VK_ASSERT(al->count == i + 1, "C12: the number of arguments is counted");
    }
    anode_t* a = al->begin;
    for (int i = 0; i < 5; i++) if (i <= n)
    {
        VK_ASSERT(a != 0 && a->node != 0 && a->node->tree_node == &T[i], "C12 C03: arguments keep their source order");
        VK_ASSUME(a != 0);
        a = a->next;
    }
    VK_ASSERT(a == 0, "C12 C14: the argument list ends with the last argument");
    vk_destroy_arglist(al);
    for (int i = 0; i < 5; i++) VK_ASSERT(rel[i] == (i <= n), "C13 C14: every argument belongs to the list");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_DARG)
static int d_nodes;
void vk_dnode(cnode_t* n) { d_nodes++; vk_destroy_node(n); }
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup(); d_nodes = 0;
    int n = nd_range(0, 4), nodes = 0;
    bool moved[4];
    alist_t* al = 0;
    if (n > 0 || nd_bool())
    {
        al = vk_calloc(1, sizeof *al); al->count = n;
        for (int i = 0; i < 4; i++) if (i < n)
        {
            anode_t* a = vk_calloc(1, sizeof *a);
            moved[i] = nd_bool();
            if (nd_bool()) { a->node = mknode(i); nodes++; if (moved[i]) a->node->tree_node = 0; } else moved[i] = true;
            if (i == 0) al->begin = a; else al->end->next = a;
            al->end = a;
        }
    }
    prjm_eval_compiler_destroy_arglist(al);
    for (int i = 0; i < 4; i++) if (i < n) VK_ASSERT(rel[i] == !moved[i], "C13 C14: releasing an argument list releases every argument still in it once");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_DNODE)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    cnode_t* n = mknode(0);
    bool has = nd_bool();
    if (!has) n->tree_node = 0;
    n->type = nd_bool() ? PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST : PRJM_EVAL_NODE_FUNC_EXPRESSION;
    prjm_eval_compiler_destroy_node(n);
    VK_ASSERT(rel[0] == has, "C13 C14: releasing a node releases its expression once");
    VK_ASSERT(live == 0, "C13 C14: nothing is left behind");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_GETF)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
/* function table of up to 3 entries with names of up to 3 characters */
static fitem_t FI[3]; static def_t FD[3]; static char FNA[4], FNB[4], FNC[4], NM[4]; static char* FN_[3];
static void nd_name(char* s, int n) { for (int i = 0; i < n; i++) s[i] = (char) nd_range(-128, 127); s[n] = 0; }
void harness(void)
{
    setup();
    FN_[0] = FNA; FN_[1] = FNB; FN_[2] = FNC;
    int n = nd_range(0, 3);
    for (int i = 0; i < 3; i++)
    {
        nd_name(FN_[i], 3);
        FD[i] = mkdef(FN_[i], nd_range(0, 3), nd_bool(), nd_bool());
        FI[i].function = &FD[i]; FI[i].next = i + 1 < n ? &FI[i < 2 ? i + 1 : 2] : 0;
    }
    if (n > 0) CC.functions.first = &FI[0];
    nd_name(NM, 3);
#ifdef VK_NATIVE
    if (n > 0 && nd_bool()) for (int i = 0; i < 4; i++) { NM[i] = FN_[nd_bool()][i]; if (nd_bool() && isalpha((unsigned char) NM[i])) NM[i] ^= 32; }
#endif
    int first = -1;
    for (int i = 2; i >= 0; i--) if (i < n && vk_strcasecmp(FN_[i], NM) == 0) first = i;
    def_t* r = prjm_eval_compiler_get_function(&CC, NM);
    VK_ASSERT(first < 0 ? r == 0 : r == &FD[first], "C12: a name resolves to the first function of that name in any letter case, or none");
    bool b = prjm_eval_compiler_name_is_function(&CC, NM);
    VK_ASSERT(b == (first >= 0), "C12 C19: a name is a function name exactly if a function has that name in any letter case");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif

#if defined(U_ERROR)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    if (nd_bool()) CC.error.error = vk_strdup("old");
    char m[4]; for (int i = 0; i < 3; i++) m[i] = (char) nd_range(1, 127); m[3] = 0;
    PRJM_EVAL_LTYPE l; l.first_line = nd_int(); l.first_column = nd_int(); l.last_line = nd_int(); l.last_column = nd_int();
    prjm_eval_error(&l, &CC, 0, m);
    VK_ASSERT(CC.error.error != 0 && CC.error.error != m, "C13: an error is stored in the context as its own text");
    VK_ASSUME(CC.error.error != 0);
    VK_ASSERT(same_text(CC.error.error, m), "C13: the error text is the message");
    VK_ASSERT(CC.error.line == l.first_line && CC.error.column_start == l.first_column && CC.error.column_end == l.last_column, "C13: the error position is that of the message");
    VK_ASSERT(live == 1, "C13 C14: an earlier error is released");
#ifndef VK_NATIVE
    __CPROVER_assert(0, "VACUITY");
#endif
}
#endif
