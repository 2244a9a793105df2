/* Contracts of CompileContext.c, TreeVariables.c, ExpressionTree.c and the API, see comp.h. */
#include "comp.h"

#define DONE
#ifndef VK_NATIVE
#undef DONE
#define DONE __CPROVER_assert(0, "VACUITY")
#endif

#if defined(U_DTREE)
/* the recursive calls are calls of the contract: the subtree is released completely, once */
static node_t* G_root;
void vk_rec(prjm_eval_exptreenode_t* e)
{
    if (!e) return;
    int t = token(e);
    VK_ASSERT(t >= 0, "C14: only operands and instructions are released with an expression");
    VK_ASSUME(t >= 0);
    VK_ASSERT(rel[t] == 0, "C14: every subexpression is released only once");
    rel[t]++;
}
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    node_t* x = nd_bool() ? vk_calloc(1, sizeof *x) : 0;
    F cell = 0; int na = -1, nl = 0;
    if (x)
    {
        if (nd_bool()) x->var = &cell; else x->memory_buffer = MB1;
        x->value = nd_F();
        na = nd_range(-1, 3); nl = nd_range(0, 3);
        if (na >= 0)
        {
            x->args = vk_calloc(na + 1, sizeof *x->args);
            for (int i = 0; i < 3; i++) if (i < na) x->args[i] = &T[i];
        }
        item_t* last = 0;
        for (int i = 0; i < 3; i++) if (i < nl)
        {
            item_t* it = vk_malloc(sizeof *it); it->expr = &T[3 + i]; it->next = 0;
            if (last) last->next = it; else x->list = it;
            last = it;
        }
    }
    prjm_eval_destroy_exptreenode(x);
    for (int i = 0; i < 3; i++) VK_ASSERT(rel[i] == (i < na) && rel[3 + i] == (i < nl), "C14: releasing an expression releases each operand and instruction exactly once");
    VK_ASSERT(live == 0, "C14: an expression is released with its argument array and list items, and nothing else");
    DONE;
}
#endif

#if defined(U_REG)
#define ND(c) ((c) >= '0' && (c) <= '9')
int vk_isdigit(int c) { return ND(c); }
int vk_atoi(const char* s) { int v = 0; for (int i = 0; i < 6 && ND(s[i]); i++) v = v * 10 + (s[i] - '0'); return v; }
#undef isdigit
#define isdigit vk_isdigit
#define atoi vk_atoi
#ifndef VK_NATIVE
long vk_strtol(const char* s, char** end, int base)
{
    long v = 0; int i = 0;
    while (s[i] == ' ' || s[i] >= 9 && s[i] <= 13) i++;
    bool neg = s[i] == '-';
    if (s[i] == '-' || s[i] == '+') i++;
    if ((base == 0 || base == 16) && s[i] == '0' && low(s[i + 1]) == 'x' && (ND(s[i + 2]) || low(s[i + 2]) >= 'a' && low(s[i + 2]) <= 'f')) { base = 16; i += 2; }
    else if (base == 0) base = s[i] == '0' ? 8 : 10;
    for (int k = 0; k < 6; k++)
    {
        int d = ND(s[i]) ? s[i] - '0' : low(s[i]) >= 'a' && low(s[i]) <= 'z' ? low(s[i]) - 'a' + 10 : 99;
        if (d >= base) break;
        v = v * base + d; i++;
    }
    if (end) *end = (char*) s + i;
    return neg ? -v : v;
}
#define strtol vk_strtol
#define strtoul(s, e, b) ((unsigned long) vk_strtol(s, e, b))
#define strtoll vk_strtol
#endif
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
#ifndef NV
#define NV 2
#endif
#ifdef VK_NATIVE
#define NLEN 60
#else
#define NLEN 6
#endif
static char NM[NLEN + 1], NM2[NLEN + 1];
F REGS[100]; prjm_eval_compiler_context_t C2;
static void nd_name(char* s, int n)
{
    s[0] = s[n] = 0;
#ifdef VK_NATIVE
    /* mostly names that look like registers or differ in case only */
    static const char* pool[] = {"reg00", "REG99", "Reg42", "rEg7", "reg100", "reg1a", "rega1", "x", "X", "ab", "aB", "AB", "reg", "reh12", "xeg12", "reg12x", "_", "reg0", "q1", "Q1", "q10", "", "reg.1"};
    int k = nd_range(0, 60);
    if (k < 23) { strcpy(s, pool[k]); return; }
    if (k < 30) { sprintf(s, "%c%c%c%02d", nd_bool() ? 'r' : 'R', nd_bool() ? 'e' : 'E', nd_bool() ? 'g' : 'G', nd_range(0, 99)); return; }
    if (k < 50)
    {
        /* long names with a common start */
        int l = nd_range(1, n - 2), m = 0;
        for (; m < l; m++) s[m] = "abcdefghij"[m % 10] ^ (nd_range(0, 9) == 0 ? 32 : 0);
        s[m] = (char) ('0' + nd_range(0, 3)); s[m + 1] = 0;
        return;
    }
    n = nd_range(0, 6); s[n] = 0;
#endif
    for (int i = 0; i < n; i++) s[i] = (char) nd_range(-128, 127);
}
static bool is_reg(const char* s) { return vk_strlen(s) == 5 && low(s[0]) == 'r' && low(s[1]) == 'e' && low(s[2]) == 'g' && ND(s[3]) && ND(s[4]); }
void harness(void)
{
    setup();
    int n = nd_range(0, NV);
    prjm_eval_variable_def_t* d[NV]; F val[NV]; char* nm[NV];
    for (int i = 0; i < NV; i++) if (i < n)
    {
        vent_t* e = vk_malloc(sizeof *e);
        e->variable = d[i] = vk_calloc(1, sizeof **d);
        e->variable->name = nm[i] = vk_malloc(NLEN + 1);
        nd_name(nm[i], NLEN);
        VK_ASSUME(!is_reg(nm[i]));
        for (int j = 0; j < i; j++) VK_ASSUME(vk_strcasecmp(nm[i], nm[j]) != 0);
        e->variable->value = val[i] = nd_F();
        e->next = CC.variables.first; CC.variables.first = e;
    }
    nd_name(NM, NLEN);
#ifdef VK_NATIVE
    if (n > 0 && nd_bool()) { memcpy(NM, nm[nd_range(0, n - 1)], NLEN + 1); for (int i = 0; i < NLEN; i++) if (isalpha((unsigned char) NM[i]) && nd_bool()) NM[i] ^= 32; }
#endif
    memcpy(NM2, NM, NLEN + 1);
    bool own = nd_bool();
    CC.global_variables = own ? &REGS : 0;
    int k0 = nd_range(0, 99); F rv0 = nd_F(); REGS[k0] = rv0;
    int l0 = live, match = -1;
    for (int i = 0; i < NV; i++) if (i < n && vk_strcasecmp(nm[i], NM) == 0) match = i;
    F* r = prjm_eval_register_variable(&CC, NM);
    VK_ASSERT(r != 0, "C09: registering a variable yields its address");
    VK_ASSUME(r != 0);
    VK_ASSERT(SAME(REGS[k0], rv0), "C09: registering variables changes no register");
    if (is_reg(NM))
    {
        int k = (NM[3] - '0') * 10 + (NM[4] - '0');
        VK_ASSERT(live == l0, "C09: a register name creates no variable");
        if (own) VK_ASSERT(r == &REGS[k] && CC.global_variables == &REGS, "C09 C11: regNN denotes register NN of the array the context was created with");
        else
        {
            memset(&C2, 0, sizeof C2);
            char o[6] = "reg00"; o[3] += nd_range(0, 9); o[4] += nd_range(0, 9);
            F* q = prjm_eval_register_variable(&C2, o);
            VK_ASSERT(q - r == (o[3] - '0') * 10 + (o[4] - '0') - k, "C09 C11: contexts without registers share the built-in registers");
            F* q2 = prjm_eval_register_variable(&CC, o);
            VK_ASSERT(q2 == q, "C09: a register keeps its address");
            VK_ASSERT(live == l0, "C09: a register name creates no variable");
        }
    }
    else if (match >= 0)
    {
        VK_ASSERT(r == &d[match]->value, "C09: every spelling of a name denotes the same variable");
        VK_ASSERT(live == l0, "C09 C14: registering an existing variable creates nothing");
    }
    else
    {
        VK_ASSERT(*r == 0 && !SIGNBIT(*r), "C09: a new variable is 0");
        for (int i = 0; i < NV; i++) if (i < n) VK_ASSERT(r != &d[i]->value, "C09: different names denote different variables");
        int seen = 0, len = 0;
        for (vent_t* e = CC.variables.first; e && len < NV + 2; e = e->next)
        {
            if (&e->variable->value == r) { seen++; VK_ASSERT(same_text(e->variable->name, NM2) || vk_strcasecmp(e->variable->name, NM2) == 0, "C09: a variable has the name it was registered with"); VK_ASSERT(e->variable->name != NM, "C09 C14: the variable keeps a copy of its name"); }
            len++;
        }
        VK_ASSERT(seen == 1 && len == n + 1, "C09 C14: a new variable is added to the context once");
        VK_ASSERT(live == l0 + 3, "C14 C09: a variable consists of entry, definition and name");
        VK_ASSERT(prjm_eval_register_variable(&CC, NM2) == r, "C09: a registered variable is found again");
    }
    int seen = 0;
    for (vent_t* e = CC.variables.first; e; e = e->next) for (int i = 0; i < NV; i++) if (i < n && e->variable == d[i]) { seen++; VK_ASSERT(e->variable->name == nm[i], "C09: other variables keep their names"); }
    VK_ASSERT(seen == n, "C09: all variables stay registered");
    for (int i = 0; i < NV; i++) if (i < n) VK_ASSERT(SAME(d[i]->value, val[i]), "C09: registering changes no other variable");
    VK_ASSERT(same_text(NM, NM2), "C09: the given name is not changed");
    VK_ASSERT(CC.memory == MB1 && CC.global_memory == MB2 && CC.functions.first == 0 && CC.compile_result == 0, "C09 C11: nothing else in the context changes");
    DONE;
}
#endif

#if defined(U_RESET)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
static vent_t E[4]; static prjm_eval_variable_def_t V[4]; static F REGS[100];
void harness(void)
{
    setup();
    int n = nd_range(0, 4); char* nm = "v";
    for (int i = 0; i < 4; i++) { V[i].value = nd_F(); V[i].name = nm; E[i].variable = &V[i]; E[i].next = i + 1 < n ? &E[i < 3 ? i + 1 : 3] : 0; }
    F o3 = V[3].value;
    if (n > 0) CC.variables.first = &E[0];
    CC.global_variables = nd_bool() ? &REGS : 0;
    void* gv = CC.global_variables;
    int k = nd_range(0, 99); F rv = nd_F(); REGS[k] = rv;
    prjm_eval_reset_context_vars(&CC);
    for (int i = 0; i < 4; i++) if (i < n) VK_ASSERT(V[i].value == 0, "C10: resetting sets every variable of the context to 0");
    for (int i = 0; i < 4; i++) if (i < n) VK_ASSERT(V[i].name == nm && E[i].variable == &V[i] && E[i].next == (i + 1 < n ? &E[i + 1] : 0), "C10 C09: resetting keeps all variables and their addresses");
    if (n < 4) VK_ASSERT(SAME(V[3].value, o3), "C10 C11: variables of other contexts are not reset");
    VK_ASSERT(SAME(REGS[k], rv) && CC.global_variables == gv, "C10: resetting changes no register");
    VK_ASSERT(CC.memory == MB1 && CC.global_memory == MB2 && MB1[0] == 0 && MB2[0] == 0 && CC.functions.first == 0 && CC.compile_result == 0 && CC.error.error == 0, "C10: resetting changes nothing else in the context");
    VK_ASSERT(CC.variables.first == (n > 0 ? &E[0] : 0) && live == 0, "C10: resetting keeps the list of variables");
    DONE;
}
#endif

#if defined(U_CREATE)
static int g_newbuf, g_glob, g_destroyed;
static F* NEWB[1]; static F* GLOBB[1]; static F* ARGB[1]; static F REGS[100];
projectm_eval_mem_buffer vk_create_buffer(void) { g_newbuf++; return NEWB; }
projectm_eval_mem_buffer vk_global(void) { g_glob++; return GLOBB; }
/* the names of the current table (NAMES, generated: vk/comp.py); what the entries hold is arbitrary */
#define NTAB (sizeof(TN) / sizeof(*TN))
static char* const TN[] = { NAMES };
static def_t TAB[NTAB]; static bool seen[NTAB];
void vk_intrinsics(prjm_eval_intrinsic_function_list_ptr list, int* count) { *list = TAB; *count = NTAB; }
void fa(node_t* c, F** r) {} void fb(node_t* c, F** r) {}
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    g_newbuf = g_glob = g_destroyed = 0;
    for (int i = 0; i < NTAB; i++)
    {
        seen[i] = false;
        TAB[i] = mkdef(TN[i], nd_int(), nd_bool(), nd_bool()); TAB[i].func = nd_bool() ? fa : fb;
    }
    projectm_eval_mem_buffer ga = nd_bool() ? &ARGB[0] : 0; F (*gv)[100] = nd_bool() ? &REGS : 0;
    prjm_eval_compiler_context_t* c = prjm_eval_create_compile_context(ga, gv);
    VK_ASSERT(c != 0, "C11: a context is created");
    VK_ASSUME(c != 0);
    VK_ASSERT(g_newbuf == 1 && c->memory == NEWB, "C11: every context gets its own local memory");
    VK_ASSERT(ga ? c->global_memory == ARGB && g_glob == 0 : c->global_memory == GLOBB && g_glob >= 1, "C11: the global memory is the one given, or else the built-in one");
    VK_ASSERT(gv ? c->global_variables == &REGS : c->global_variables != &REGS, "C11 C09: the registers are those given");
    VK_ASSERT(c->variables.first == 0, "C11 C09: a new context has no variables");
    VK_ASSERT(c->error.error == 0 && c->compile_result == 0, "C11 C13: a new context has no error and no compile result");
    int len = 0;
    for (fitem_t* f = c->functions.first; f && len <= NTAB; f = f->next, len++)
    {
        int at = -1;
        VK_ASSERT(f->function != 0 && f->function->name != 0, "C11 C12: every context has a function table");
        VK_ASSUME(f->function != 0 && f->function->name != 0);
        for (int i = 0; i < NTAB; i++) if (!seen[i] && same_text(f->function->name, TN[i])) at = i;
        VK_ASSERT(at >= 0, "C12: a context has all built-in functions, once each");
        VK_ASSUME(at >= 0);
        VK_ASSERT(f->function != &TAB[at] && f->function->name != TN[at], "C11 C14: every context has its own function table");
        VK_ASSERT(f->function->func == TAB[at].func && f->function->arg_count == TAB[at].arg_count &&
                  f->function->is_const_eval == TAB[at].is_const_eval && f->function->is_state_changing == TAB[at].is_state_changing,
                  "C12 C08: a context's functions are exactly the built-in ones");
        seen[at] = true;
    }
    VK_ASSERT(len == NTAB, "C12: a context has all built-in functions, once each");
    VK_ASSERT(live == 1 + 3 * NTAB, "C14: a context consists of itself, its functions and buffers");
    DONE;
}
#endif

#if defined(U_DESTROY)
static int g_mem;
void vk_destroy_buffer(projectm_eval_mem_buffer b) { VK_ASSERT(b == MB1, "C14 C11: destroying a context releases its local memory only"); g_mem++; }
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
static F REGS[100];
void harness(void)
{
    setup(); g_mem = 0;
    prjm_eval_compiler_context_t* c = vk_calloc(1, sizeof *c);
    int nf = nd_range(0, 3), nv = nd_range(0, 3);
    for (int i = 0; i < 3; i++) if (i < nf)
    {
        fitem_t* f = vk_malloc(sizeof *f); f->function = vk_malloc(sizeof *f->function); f->function->name = vk_strdup("f");
        f->next = c->functions.first; c->functions.first = f;
    }
    for (int i = 0; i < 3; i++) if (i < nv)
    {
        vent_t* f = vk_malloc(sizeof *f); f->variable = vk_malloc(sizeof *f->variable); f->variable->name = vk_strdup("v");
        f->next = c->variables.first; c->variables.first = f;
    }
    c->memory = MB1; c->global_memory = MB2; c->global_variables = nd_bool() ? &REGS : 0;
    if (nd_bool()) c->error.error = vk_strdup("e");
    bool res = nd_bool();
    if (res) c->compile_result = &T[0];
    prjm_eval_destroy_compile_context(c);
    VK_ASSERT(g_mem == 1, "C14: destroying a context releases its local memory once");
    VK_ASSERT(rel[0] == res, "C14 C13: a pending compile result is released with the context");
    VK_ASSERT(live == 0, "C14: destroying a context releases its functions, variables and error, and nothing else");
    DONE;
}
#endif

#if defined(U_COMPILE)
#include "projectm-eval/Scanner.h"
static struct yy_buffer_state BS; static int g_ph; static const char* g_code; static char SC; static int g_res; static bool g_tree, g_locked;
static int g_line, g_col, g_c2;
int vk_lex_init(yyscan_t* s) { VK_ASSERT(g_ph == 0, "C13 C14: one scanner per compilation"); g_ph = 1; *s = (yyscan_t) &SC; live++; return 0; }
YY_BUFFER_STATE vk_scan_string(const char* c, yyscan_t s) { VK_ASSERT(g_ph == 1 && s == (yyscan_t) &SC && c == g_code, "C13 C19: the given source is scanned"); g_ph = 2; live++; return &BS; }
int vk_parse(prjm_eval_compiler_context_t* c, yyscan_t s)
{
    VK_ASSERT(g_ph == 2 && c == &CC && s == (yyscan_t) &SC, "C13: the source is parsed into the context");
    VK_ASSERT(CC.error.error == 0 && CC.compile_result == 0, "C13: a compilation starts without error or result");
    g_ph = 3;
    g_tree = nd_bool();
    g_res = nd_range(0, 2);
    CC.compile_result = g_tree ? &T[0] : 0;
    if (g_res != 0) { CC.error.error = vk_strdup("e"); CC.error.line = g_line = nd_int(); CC.error.column_start = g_col = nd_int(); CC.error.column_end = g_c2 = nd_int(); }
    return g_res;
}
void vk_delete_buffer(YY_BUFFER_STATE b, yyscan_t s) { VK_ASSERT((g_ph == 3 || g_ph == 2) && b == &BS, "C13 C14: the scan buffer is released once"); g_ph = 4; live--; }
int vk_lex_destroy(yyscan_t s) { VK_ASSERT(g_ph == 4 || g_ph == 1 || g_ph == 3, "C13 C14: the scanner is released once, after its buffer"); if (g_ph == 3) live--; g_ph = 5; live--; return 0; }
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
static vent_t E; static prjm_eval_variable_def_t V;
void harness(void)
{
    setup(); g_ph = 0; g_res = 0; g_code = "x"; g_line = g_col = g_c2 = 0;
    E.variable = &V; E.next = 0; CC.variables.first = &E; V.value = nd_F(); F v0 = V.value;
    if (nd_bool()) { CC.error.error = vk_strdup("old"); CC.error.line = nd_int(); CC.error.column_start = nd_int(); }
    prjm_eval_program_t* p = prjm_eval_compile_code(&CC, g_code);
    VK_ASSERT(g_ph == 5, "C13 C14: the scanner is used for one parse and released");
    VK_ASSERT(CC.compile_result == 0, "C13: no compile result stays in the context");
    VK_ASSERT(CC.memory == MB1 && CC.global_memory == MB2 && CC.variables.first == &E && SAME(V.value, v0), "C13 C02: compiling changes no variable or memory");
    if (g_res == 0)
    {
        VK_ASSERT(p != 0, "C13: an accepted source yields a program");
        VK_ASSUME(p != 0);
        VK_ASSERT(p->program == (g_tree ? &T[0] : 0) && rel[0] == 0, "C13 C12: the program runs the accepted source");
        VK_ASSERT(p->cctx == &CC, "C11: a program belongs to the context it was compiled in");
        VK_ASSERT(CC.error.error == 0 && CC.error.line == 0 && CC.error.column_start == 0, "C13: an accepted source leaves no error, also none of an earlier compilation");
        vk_free(p);
        VK_ASSERT(live == 0, "C13 C14: nothing is left behind but the program");
    }
    else
    {
        VK_ASSERT(p == 0, "C13: a rejected source yields no program");
        VK_ASSERT(CC.error.error != 0, "C13: the error of a rejected source stays available");
        VK_ASSUME(CC.error.error != 0);
        VK_ASSERT(CC.error.error[0] == 'e' && CC.error.line == g_line && CC.error.column_start == g_col && CC.error.column_end == g_c2, "C13: the error of a rejected source stays available");
        VK_ASSERT(rel[0] == g_tree, "C13 C14: a partial result is released once");
        VK_ASSERT(live == 1, "C13 C14: nothing is left behind but the error");
    }
    DONE;
}
#endif

#if defined(U_DCODE)
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup();
    prjm_eval_program_t* p = nd_bool() ? vk_malloc(sizeof *p) : 0;
    bool tree = nd_bool();
    if (p) { p->program = tree ? &T[0] : 0; p->cctx = &CC; }
    prjm_eval_program_t* p0 = p;
    CC.error.error = nd_bool() ? "e" : 0; char* e0 = CC.error.error;
    CC.compile_result = nd_bool() ? &T[1] : 0; node_t* c0 = CC.compile_result;
    prjm_eval_destroy_code(p);
    VK_ASSERT(rel[0] == (p0 && tree), "C14: destroying a program releases its expression tree once");
    VK_ASSERT(live == 0 && rel[1] == 0, "C14 C13: destroying a program releases the program and nothing else, a null program is ignored");
    VK_ASSERT(CC.error.error == e0 && CC.compile_result == c0 && CC.memory == MB1, "C14: destroying a program does not change its context");
    DONE;
}
#endif

#if defined(U_GETERR) || defined(U_API)
static int g_op; static int g_call;
static F* B1[1]; static F* B2[1]; static F REGS[100]; static F CELL; static char NAME[] = "v", CODE[] = "c"; static prjm_eval_program_t PR;
static projectm_eval_mem_buffer g_gm; static void* g_gv;
projectm_eval_mem_buffer vk_create_buffer(void) { VK_ASSERT(g_op == 0, "C11 C14: creating a memory buffer only when asked to"); g_call++; return B1; }
void vk_destroy_buffer(projectm_eval_mem_buffer b) { VK_ASSERT(g_op == 1 && b == B2, "C14: the given buffer is destroyed"); g_call++; }
void vk_destroy_global(void) { VK_ASSERT(g_op == 2, "C14: the built-in memory is destroyed only when asked to"); g_call++; }
prjm_eval_compiler_context_t* vk_create_ctx(projectm_eval_mem_buffer m, F (*v)[100]) { VK_ASSERT(g_op == 3 && m == g_gm && (void*) v == g_gv, "C11: a context is created with the given memory and registers"); g_call++; return &CC; }
void vk_destroy_ctx(prjm_eval_compiler_context_t* c) { VK_ASSERT(g_op == 4 && c == &CC, "C14: the given context is destroyed"); g_call++; }
void vk_memory_free(projectm_eval_mem_buffer b) { VK_ASSERT(g_op == 5 && b == MB1, "C10 C11: freeing a context's memory frees its local memory"); g_call++; }
void vk_reset(prjm_eval_compiler_context_t* c) { VK_ASSERT(g_op == 6 && c == &CC, "C10: the variables of the given context are reset"); g_call++; }
F* vk_register(prjm_eval_compiler_context_t* c, const char* n) { VK_ASSERT(g_op == 7 && c == &CC && n == NAME, "C09: the given name is registered in the given context"); g_call++; return &CELL; }
static prjm_eval_program_t* g_pr;
prjm_eval_program_t* vk_compile(prjm_eval_compiler_context_t* c, const char* s) { VK_ASSERT(g_op == 8 && c == &CC && s == CODE, "C13: the given source is compiled in the given context"); g_call++; return g_pr; }
void vk_destroy_code(prjm_eval_program_t* p) { VK_ASSERT(g_op == 9 && p == g_pr, "C14: the given program is destroyed"); g_call++; }
static F g_val, W1; static int g_evals;
void fn_root(node_t* c, F** rv)
{
    VK_ASSERT(g_op == 10 && c == &T[0], "C13 C20: executing a program evaluates its tree");
    VK_ASSERT(rv && *rv && *rv != &W1 && *rv != &T[0].value, "C02 C07: the program gets a result slot of its own");
    VK_ASSUME(rv && *rv);
    g_evals++;
    g_val = nd_F();
    int k = nd_range(0, 2);
    if (k == 0) **rv = g_val; else if (k == 1) { W1 = g_val; *rv = &W1; } else { T[0].value = g_val; *rv = &T[0].value; }
}
#include SRC
#ifndef VK_NATIVE
#pragma CPROVER check pop
#endif
void harness(void)
{
    setup(); g_call = 0; g_evals = 0; W1 = nd_F(); g_val = 0;
    char* e = "err";
    CC.error.error = nd_bool() ? e : 0; CC.error.line = nd_int(); CC.error.column_start = nd_int(); CC.error.column_end = nd_int();
    char* e0 = CC.error.error;
    int l = -7, c1 = -7, c2 = -7; bool wl = nd_bool(), w1 = nd_bool(), w2 = nd_bool();
#ifdef U_GETERR
    const char* r = prjm_eval_compiler_get_error(&CC, wl ? &l : 0, w1 ? &c1 : 0, w2 ? &c2 : 0);
    VK_ASSERT(r == e0 && CC.error.error == e0, "C13: the last error is returned");
    VK_ASSERT(l == (wl ? CC.error.line : -7) && c1 == (w1 ? CC.error.column_start : -7) && c2 == (w2 ? CC.error.column_end : -7), "C13: the position of the last error is returned where requested");
#else
    g_op = nd_range(0, 11);
    g_gm = nd_bool() ? &B1[0] : 0; g_gv = nd_bool() ? (void*) &REGS : 0;
    g_pr = nd_bool() ? &PR : 0;
    PR.cctx = &CC; PR.program = nd_bool() ? &T[0] : 0; T[0].func = fn_root;
    struct projectm_eval_context* X = (struct projectm_eval_context*) &CC;
    int want = 1;
    switch (g_op)
    {
        case 0: VK_ASSERT(projectm_eval_memory_buffer_create() == (projectm_eval_mem_buffer) B1, "C11: the new buffer is returned"); break;
        case 1: projectm_eval_memory_buffer_destroy(B2); break;
        case 2: projectm_eval_memory_global_destroy(); break;
        case 3: VK_ASSERT(projectm_eval_context_create(g_gm, g_gv) == X, "C11: the new context is returned"); break;
        case 4: projectm_eval_context_destroy(X); break;
        case 5: projectm_eval_context_free_memory(X); break;
        case 6: projectm_eval_context_reset_variables(X); break;
        case 7: VK_ASSERT(projectm_eval_context_register_variable(X, NAME) == &CELL, "C09: the address of the variable is returned"); break;
        case 8: VK_ASSERT(projectm_eval_code_compile(X, CODE) == (struct projectm_eval_code*) g_pr, "C13: the program or null is returned"); break;
        case 9: projectm_eval_code_destroy((struct projectm_eval_code*) g_pr); if (!g_pr) want = g_call; break;
        case 10:
        {
            want = 0;
            F v = projectm_eval_code_execute((struct projectm_eval_code*) g_pr);
            if (!g_pr || !PR.program) VK_ASSERT(v == 0 && g_evals == 0, "C13: executing a null or empty program yields 0");
            else VK_ASSERT(g_evals == 1 && SAME(v, g_val), "C20 C03: executing a program evaluates it once and returns its result");
            break;
        }
        default:
        {
            want = 0;
            const char* r = projectm_eval_get_error(X, wl ? &l : 0, w1 ? &c1 : 0);
            VK_ASSERT(r == e0, "C13: the last error is returned");
            VK_ASSERT(l == (wl ? CC.error.line : -7) && c1 == (w1 ? CC.error.column_start : -7), "C13: the position of the last error is returned where requested");
        }
    }
    VK_ASSERT(g_call == want, "C09 C10 C11 C13 C14: each API function does exactly what it is named after");
    VK_ASSERT(CC.error.error == e0, "C13: the error stays available until the next compilation");
#endif
    VK_ASSERT(live == 0, "C14: nothing is allocated or released");
    DONE;
}
#endif
