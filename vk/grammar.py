"""C15 (and C12, C13): grammar, precedence and semantic actions of the parser."""
from core import *
from cut import match
import stubs, table
import xml.etree.ElementTree as ET

BIN = {'ADDOP': '_addop', 'SUBOP': '_subop', 'MODOP': '_modop', 'OROP': '_orop', 'ANDOP': '_andop', 'DIVOP': '_divop', 'MULOP': '_mulop', 'POWOP': '_powop',
       'EQUAL': '_equal', 'BELEQ': '_beleq', 'ABOEQ': '_aboeq', 'NOTEQ': '_noteq', "'<'": '_below', "'>'": '_above', 'BOOLOR': '_or', 'BOOLAND': '_and', "'='": '_set',
       "'+'": '_add', "'-'": '_sub', "'*'": '_mul', "'/'": '_div', "'%'": '_mod', "'^'": 'pow', "'|'": '/*or*/', "'&'": '/*and*/'}
# levels from loosest to tightest: operator -> (level, associativity); as documented
LEVELS = [("'='", 'R'), ('ADDOP SUBOP', 'R'), ('MULOP DIVOP MODOP', 'R'), ('POWOP OROP ANDOP', 'R'), ("'?' ':'", 'R'), ('BOOLOR', 'L'), ('BOOLAND', 'L'), ("'|'", 'L'), ("'&'", 'L'),
          ('EQUAL NOTEQ', 'L'), ("'>' ABOEQ", 'L'), ("'<' BELEQ", 'L'), ("'-' '+'", 'L'), ("'*' '/'", 'L'), ("'%'", 'L'), ("'!'", 'R'), ("'^'", 'L'), ('sign', '-'), ("'['", 'L')]
LEVEL = {t: (i, a) for i, (ts, a) in enumerate(LEVELS) for t in ts.split()}
E = 'expression'
def rules():
    """rule text -> (C condition over the ghost state, texts), see harness/parse.c"""
    def fn(name, args, first=0):
        f = lambda i: 'EV_FN(%d, FN("%s"), %d)' % (i, name, len(args)) + ' && A%d(%d, %s)' % (len(args), i, ', '.join(map(str, args)))
        return f
    R = {}
    def call(rhs, name, args, pre=(), npre=0):
        f = fn(name, args)(npre)
        R[E + ': ' + rhs] = ' && '.join(list(pre) + ['nev == %d' % (npre + 1), f, 'ncreate == 1', '(fails[0] ? ISERR : NOERR(LAST_RESULT))'])
    for t, n in BIN.items():
        call('%s %s %s' % (E, t, E), n, [0, 1])
    call("'-' " + E, '_neg', [0])
    call("'!' " + E, '_not', [0])
    call("%s '?' %s ':' %s" % (E, E, E), '_if', [0, 1, 2])
    call("GMEM '[' %s ']'" % E, '_gmem', [0])
    call("%s '[' ']'" % E, '_mem', [0])
    call("GMEM '[' ']'", '_gmem', [4], ['ev[0].op == 2 && ev[0].val == 0'], 1)
    R["%s: %s '[' %s ']'" % (E, E, E)] = ('%s && (fails[0] ? nev == 1 && ncreate == 1 && ISERR : nev == 2 && ncreate == 2 && %s && (fails[1] ? ISERR : NOERR(LAST_RESULT)))'
                                          % (fn('_add', [0, 1])(0), fn('_mem', [4])(1)))
    same = lambda k: 'nev == 0 && NOERR(&N[%d])' % k
    for rhs, k in (("'+' " + E, 0), ('function', 0), ('parentheses', 0)):
        R[E + ': ' + rhs] = same(k)
    R["parentheses: '(' instruction-list ')'"] = same(0)
    R['instruction-list: expression'] = same(0)
    R["instruction-list: instruction-list ';' empty-expression"] = same(0)
    R["instruction-list: instruction-list ';' expression"] = 'nev == 1 && ev[0].op == 4 && A2(0, 0, 1) && NOERR(LAST_RESULT)'
    R[E + ': NUM'] = 'nev == 1 && ev[0].op == 2 && SAME(ev[0].val, number) && NOERR(LAST_RESULT)'
    R[E + ': VAR'] = 'nev == 1 && ev[0].op == 3 && ev[0].fn == 1000 && NOERR(LAST_RESULT)'
    R["function: FUNC '(' function-arglist ')'"] = 'nev == 1 && EV_FN(0, 1000, 2) && A2(0, 0, 1) && al_given[0] == 1 && ncreate == 1 && (fails[0] ? ISERR : NOERR(LAST_RESULT))'
    R['function-arglist: instruction-list'] = 'nev == 0 && r == 0 && al_used == 1 && al_n[1] == 1 && al_arg[1][0] == 0 && get(&out) == (void*) &AL[1]'
    R["function-arglist: function-arglist ',' instruction-list"] = 'nev == 0 && r == 0 && al_used == 0 && al_n[0] == 3 && al_arg[0][2] == 0 && get(&out) == (void*) &AL[0]'
    R['empty-expression: '] = 'nev == 0 && r == 0'
    R["empty-expression: '(' ')'"] = 'nev == 0 && r == 0'
    R['program: '] = 'nev == 0 && r == 0 && CC.compile_result == 0'
    R['program: instruction-list'] = 'nev == 0 && r == 0 && (nulltop ? CC.compile_result == &NT_[7] : CC.compile_result == &NT_[0]) && noded[0] == 0 && released[0] == !nulltop && operands_freed() == !nulltop'
    return R
RULES = rules()
TYPES = {'VAR': 1, 'FUNC': 1, 'function': 2, 'instruction-list': 2, 'expression': 2, 'parentheses': 2, 'function-arglist': 3}
LETTER = {1: 's', 2: 'n', 3: 'a'}

class Grammar:
    pass

def load(env):
    with env.lock2:
        if hasattr(env, 'grammar'):
            return env.grammar
        d = env.tmp('grammar')
        x = os.path.join(d, 'g.xml')
        run(['bison', '--xml=' + x, '-o', os.path.join(d, 'g.c'), os.path.join(env.src, 'projectm-eval', 'Compiler.y')], cwd=d)
        r = ET.parse(x).getroot()
        g = Grammar()
        gr = r.find('grammar')
        g.rules = {}
        for q in gr.find('rules'):
            rhs = [s.text for s in q.find('rhs') if s.tag == 'symbol']
            g.rules[int(q.get('number'))] = (q.find('lhs').text, rhs, q.get('percent_prec'))
        g.symbols = {s.get('name'): s.attrib for s in list(gr.find('terminals')) + list(gr.find('nonterminals'))}
        g.states = []
        for s in r.find('automaton'):
            items = [(int(i.get('rule-number')), int(i.get('dot'))) for i in s.find('itemset')]
            acts = s.find('actions')
            sh = {t.get('symbol'): int(t.get('state')) for t in acts.find('transitions') if t.get('type') == 'shift'}
            go = {t.get('symbol'): int(t.get('state')) for t in acts.find('transitions') if t.get('type') == 'goto'}
            rd = {t.get('symbol'): t.get('rule') for t in acts.find('reductions') if t.get('enabled') == 'true'}
            err = {t.get('symbol') for t in acts.find('errors')} if acts.find('errors') is not None else set()
            g.states.append((items, sh, go, rd, err))
        env.grammar = g
        return g

def text(rule):
    return '%s: %s' % (rule[0], ' '.join(rule[1]))

def check_rules(env):
    """The productions are exactly the specified ones."""
    g = load(env)
    r = Result(C_RULES)
    r.solver = 'grammar (bison --xml)'
    have = {text(q) for n, q in g.rules.items() if n > 0}
    want = set(RULES)
    r.obligations = len(have | want)
    diff = [('missing rule: ' + x) for x in want - have] + [('unexpected rule: ' + x) for x in have - want]
    r.discharged = r.obligations - len(diff)
    if not diff and g.rules[0][1][0] == 'program': r.status = 'ok'
    else: r.why = '; '.join(diff)
    return [r]

def rule_level(g, q):
    """(level, assoc, kind) of a completed rule that ends in an expression, or None"""
    lhs, rhs, _ = q
    if lhs != E or rhs[-1:] != [E]: return None
    if len(rhs) == 3 and rhs[1] in BIN: return LEVEL[rhs[1]]
    if len(rhs) == 5: return LEVEL["'?'"]
    if len(rhs) == 2: return LEVEL["'!'"] if rhs[0] == "'!'" else LEVEL['sign'] if rhs[0] in ("'-'", "'+'") else None
    return None

def check_prec(env):
    """In every state of the parser in which an operator's expression is complete, the decision about the next operator follows the documented order."""
    g = load(env)
    r = Result(C_PREC)
    r.solver = 'LALR automaton (bison --xml)'
    bad = []
    ops = set(BIN) | {"'?'", "'['"}
    seen = set()
    for si, (items, sh, go, rd, err) in enumerate(g.states):
        done = [n for n, dot in items if dot == len(g.rules[n][1])]
        for n in done:
            lv = rule_level(g, g.rules[n])
            if not lv: continue
            for t in ops:
                r.obligations += 1
                seen.add((n, t))
                lt = LEVEL[t]
                shift = lt[0] > lv[0] or (lt[0] == lv[0] and lv[1] == 'R')
                got = 'shift' if t in sh else 'reduce' if rd.get(t, rd.get('$default')) == str(n) and t not in err else 'error'
                if got != ('shift' if shift else 'reduce'):
                    bad.append('state %d, after "%s", next %s: %s' % (si, ' '.join(g.rules[n][1]), t, got))
            # what ends an expression completes it
            for t in ("')'", "']'", "','", "';'", "':'", '$end'):
                r.obligations += 1
                if t in sh or rd.get(t, rd.get('$default')) != str(n):
                    bad.append('state %d, after "%s", next %s: not completed' % (si, ' '.join(g.rules[n][1]), t))
    # every rule ending in an operand is decided for every operator
    for n, q in g.rules.items():
        if rule_level(g, q):
            for t in ops:
                r.obligations += 1
                if (n, t) not in seen: bad.append('no state decides "%s" before %s' % (' '.join(q[1]), t))
    r.discharged = r.obligations - len(bad)
    if not bad and r.obligations > 500: r.status = 'ok'
    else: r.why = '%d decisions differ: %s' % (len(bad), '; '.join(bad[:6]))
    return [r]

def action_files(env):
    """Copy of the generated parser with vk_reduce: the switch over the rules, extracted from yyparse; rules.h: the specification."""
    d = env.tmp('parse')
    pe = os.path.join(env.src, 'projectm-eval')
    t = open(os.path.join(pe, 'Compiler.c')).read()
    i = t.rindex('YY_REDUCE_PRINT (yyn);')
    i = t.index('switch (yyn)', i)
    e = match(t, t.index('{', i))
    body = t[i:e]
    red = '''
int vk_reduce(int yyn, YYSTYPE* yyvsp, YYSTYPE* vk_out, YYLTYPE* yylsp, prjm_eval_compiler_context_t* cctx, yyscan_t scanner)
{
    YYSTYPE yyval; YYLTYPE yyloc; int yylen = yyr2[yyn]; int yynerrs = 0; (void) yynerrs; (void) yylsp;
    yyval = yyvsp[1-yylen];
    yyloc = yylsp[0];
    ''' + body + '''
    *vk_out = yyval;
    return 0;
    if (0) goto yyerrorlab;
    if (0) goto yyabortlab;
    if (0) goto yyacceptlab;
yyerrorlab: return 1;
yyabortlab: return 2;
yyacceptlab: return 3;
}
'''
    f = os.path.join(d, 'Compiler_actions.c')
    open(f, 'w').write(t + red)
    P = 'prjm_eval_compiler_'
    cf = stubs.redirect(env, 'projectm-eval/CompilerFunctions.c', {P + 'create_function': 'vk_create_function', P + 'add_argument': 'vk_add_argument', P + 'create_constant': 'vk_create_constant',
        P + 'create_variable': 'vk_create_variable', P + 'add_instruction': 'vk_add_instruction', P + 'destroy_node': 'vk_dnode', P + 'destroy_arglist': 'vk_darglist',
        'prjm_eval_destroy_exptreenode': 'vk_dtree', 'prjm_eval_error': 'vk_err'}, d)
    g = load(env)
    tb = {}
    for en in table.load(env):
        tb.setdefault(en['name'], en['func'])
    ids = {fn: i for i, fn in enumerate(sorted(set(tb.values())))}
    n = max(g.rules)
    union = re.search(r'union PRJM_EVAL_STYPE\s*\{(.*?)\};', open(os.path.join(pe, 'Compiler.h')).read(), re.S).group(1)
    mem = {sy.strip().strip('"'): (nm, ty) for ty, nm, sy in re.findall(r'^\s*([\w ]+?\*?)\s*(\w+);\s*/\*(.*?)\*/', union, re.M)}
    num = {sy: int(a['symbol-number']) for sy, a in g.symbols.items()}
    h = ['#define NRULES %d' % n, '#define NFN %d' % len(tb)]
    h.append('static const char* const FNAME[] = {%s};' % ', '.join('"%s"' % k for k in tb))
    h.append('static const int FID[] = {%s};' % ', '.join(str(ids[v]) for v in tb.values()))
    h.append('static const int RLEN[] = {%s};' % ', '.join(str(len(g.rules[k][1])) for k in range(n + 1)))
    sym = lambda s: LETTER.get(TYPES.get(s, 0), 'f' if s == 'NUM' else '-')
    h.append('static const char RSYM[][6] = {%s};' % ', '.join('"%s"' % (''.join(sym(s) for s in g.rules[k][1])[:5]) for k in range(n + 1)))
    h.append('static const int RLHS[] = {%s};' % ', '.join(str(num[g.rules[k][0]]) for k in range(n + 1)))
    h.append('static const int RKIND[][6] = {%s};' % ', '.join('{%s}' % ', '.join([str(num[x]) for x in g.rules[k][1]][:5] + ['0']) for k in range(n + 1)))
    h.append('static void put_sym(int kind, YYSTYPE* v, void* p, F num)\n{\n    switch (kind) {')
    for sy, (nm, ty) in mem.items():
        h.append('    case %d: v->%s = %s; break;' % (num[sy], nm, 'num' if '*' not in ty else '(%s) p' % ty))
    h.append('    }\n}\nstatic void* get_sym(int kind, YYSTYPE* v)\n{\n    switch (kind) {')
    for sy, (nm, ty) in mem.items():
        if '*' in ty: h.append('    case %d: return v->%s;' % (num[sy], nm))
    h.append('    }\n    return 0;\n}')
    byt = {text(q): k for k, q in g.rules.items()}
    h.append('#define TOP_RULE %d\n#define EMPTY_RULE %d' % (byt.get('program: instruction-list', -1), byt.get('program: ', -1)))
    kinds = [(int(a['symbol-number']), TYPES.get(s, 0)) for s, a in g.symbols.items()]
    h.append('#define NKIND %d' % len(kinds))
    h.append('static const int KIND[] = {%s};\nstatic const int KIND_VALUE[] = {%s};' % (', '.join(str(a) for a, b in kinds), ', '.join(str(b) for a, b in kinds)))
    h.append('static int operands_freed(void);\n#define rules_post(rule, r, out, number, nulltop) do { \\')
    for tx, k in sorted(byt.items(), key=lambda p: p[1]):
        if k == 0 or tx not in RULES: continue
        cond = re.sub(r'FN\("([^"]*)"\)', lambda m: str(ids.get(tb.get(m.group(1)), -9)), RULES[tx])
        h.append('    if (rule == %d) VK_ASSERT(%s, "C15 C12 C13: rule %s"); \\' % (k, cond, tx.replace('"', "'")))
    h.append('} while (0)')
    open(os.path.join(d, 'rules.h'), 'w').write('\n'.join(h) + '\n')
    return d, f, cf

def units(env):
    d, f, cf = action_files(env)
    out = [C_RULES, C_PREC]
    n = max(load(env).rules)
    groups = [(k, min(k + 3, n)) for k in range(1, n + 1, 4)]
    for mode, lo, hi in [('DESTRUCT', 1, 1)] + [('ACTIONS', a, b) for a, b in groups]:
        what = 'yydestruct' if mode == 'DESTRUCT' else 'semantic actions of rules %d to %d' % (lo, hi)
        def mk(extra, lo=lo, hi=hi, what=what, mode=mode):
            u = Unit('parser[%s]' % what, 'parse.c', ['C15', 'C12', 'C13'], defs=['-D' + mode, '-DLO=%d' % lo, '-DHI=%d' % hi, '-DSRC="%s"' % f, '-DCF_SRC="%s"' % cf, '-I', d, '-I', os.path.join(env.src, 'projectm-eval')] + extra,
                 unwind=130, flags=['--no-malloc-may-fail'], builtin_tag='C13 C15', targets=['yyparse (reductions)' if mode == 'ACTIONS' else 'yydestruct'], cost=5)
            u.archive = True
            u.explore = (40000, 40)
            return u
        u = mk(['-DSTRUCT_VALUES'] if mode == 'ACTIONS' else [])
        if mode == 'ACTIONS': u.fallback = mk([])
        out.append(u)
    return out, []

C_RULES = Custom('grammar rules', check_rules, ['C15'], cost=1)
C_PREC = Custom('operator precedence in the parser automaton', check_prec, ['C15'], cost=1)
for c in (C_RULES, C_PREC): c.targets = ['yyparse (tables)']
