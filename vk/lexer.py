"""C19: tokens. The scanner's automaton (flex tables read from the compiled scanner) against the automaton of the documented tokens,
over all strings; the scanner's actions under contract (harness/lex.c); a bounded comparison of whole token streams."""
from core import *
from cut import match
import stubs, table
from collections import deque

# ---------------------------------------------------------------- documented tokens (priority: order)
ANY = frozenset(range(1, 256))
def cls(s): return frozenset(ord(c) for c in s)
DIGIT = cls('0123456789'); HEX = cls('0123456789abcdefABCDEF'); ALPHA = cls('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
WS = cls(' \t\r\n\v\f'); NL = cls('\n')
# regular expressions: ('c', set) | ('.', a, b..) | ('|', a, b..) | ('*', a) | ('e',)
C = lambda s: ('c', s)
cat = lambda *a: ('.',) + a
alt = lambda *a: ('|',) + a
star = lambda a: ('*', a)
plus = lambda a: cat(a, star(a))
opt = lambda a: alt(a, ('e',))
lit = lambda s: cat(*[C(cls(c)) for c in s])
ilit = lambda s: cat(*[C(cls(c.lower() + c.upper())) for c in s])
D = C(DIGIT)
EXPO = cat(C(cls('eE')), opt(C(cls('+-'))), plus(D))
OPS = ['+=', '-=', '%=', '|=', '&=', '/=', '*=', '^=', '==', '<=', '>=', '!=', '||', '&&'] + list('<>+-*/%^&|!=()[]?:,;')
TOKNAME = {'+=': 'ADDOP', '-=': 'SUBOP', '%=': 'MODOP', '|=': 'OROP', '&=': 'ANDOP', '/=': 'DIVOP', '*=': 'MULOP', '^=': 'POWOP', '==': 'EQUAL', '<=': 'BELEQ', '>=': 'ABOEQ', '!=': 'NOTEQ',
           '||': 'BOOLOR', '&&': 'BOOLAND'}
SPEC = {
    'INITIAL': [('ml_start', lit('/*')), ('il_start', lit('//')), ('hex', cat(lit('$'), C(cls('xX')), plus(C(HEX)))), ('char', cat(lit("$'"), C(ANY - NL), lit("'"))),
                ('pi', cat(lit('$'), ilit('pi'))), ('e', cat(lit('$'), ilit('e'))), ('phi', cat(lit('$'), ilit('phi'))), ('gmem', ilit('gmem')),
                ('number', cat(alt(plus(D), cat(plus(D), lit('.'), star(D)), cat(star(D), lit('.'), plus(D))), opt(EXPO))),
                ('name', cat(C(ALPHA), star(C(ALPHA | DIGIT))))] + [('op ' + o, lit(o)) for o in OPS] + [('space', C(WS)), ('error', C(ANY))],
    'ML_COMMENT': [('ml_end', lit('*/')), ('skip', C(ANY))],
    'IL_COMMENT': [('il_end', lit('\n')), ('skip', C(ANY))],
}

class NFA:
    def __init__(self):
        self.n, self.eps, self.tr, self.acc = 0, {}, {}, {}
    def new(self):
        self.n += 1; return self.n - 1
    def build(self, r, a):
        k = r[0]
        if k == 'e': return a
        if k == 'c':
            b = self.new(); self.tr.setdefault(a, []).append((r[1], b)); return b
        if k == '.':
            for x in r[1:]: a = self.build(x, a)
            return a
        if k == '|':
            b = self.new()
            for x in r[1:]:
                s = self.new(); self.eps.setdefault(a, []).append(s)
                self.eps.setdefault(self.build(x, s), []).append(b)
            return b
        s = self.new(); self.eps.setdefault(a, []).append(s)
        e = self.build(r[1], s); self.eps.setdefault(e, []).append(s)
        b = self.new(); self.eps.setdefault(s, []).append(b)
        return b
    def close(self, S):
        S, st = set(S), list(S)
        while st:
            for t in self.eps.get(st.pop(), []):
                if t not in S: S.add(t); st.append(t)
        return frozenset(S)
    def step(self, S, c):
        return self.close({b for a in S for s, b in self.tr.get(a, []) if c in s})
    def label(self, S):
        l = [self.acc[a] for a in S if a in self.acc]
        return min(l) if l else None

def spec_nfa(sc):
    n = NFA(); start = n.new()
    for i, (name, r) in enumerate(SPEC[sc]):
        s = n.new(); n.eps.setdefault(start, []).append(s)
        n.acc[n.build(r, s)] = i
    return n, n.close({start})

# ---------------------------------------------------------------- the scanner's automaton
def tables(env):
    """Arrays of the generated scanner, as compiled."""
    t = open(os.path.join(env.src, 'projectm-eval', 'Scanner.c')).read()
    names = ['yy_accept', 'yy_ec', 'yy_meta', 'yy_base', 'yy_def', 'yy_nxt', 'yy_chk']
    if not all(re.search(r'\b%s\s*\[' % n, t) for n in names): raise ToolError('the scanner tables have another format')
    d = env.tmp('lextables')
    c = '#include "%s"\n#include <stdio.h>\nint main(void) {\n' % os.path.join(env.src, 'projectm-eval', 'Scanner.c')
    for n in names:
        c += '    printf("%s"); for (unsigned i = 0; i < sizeof %s / sizeof *%s; i++) printf(" %%d", (int) %s[i]); printf("\\n");\n' % (n, n, n, n)
    c += '    printf("SC INITIAL %d\\n", INITIAL);'
    scs = re.findall(r'^#define (\w+) (\d+)\s*$', t[t.index('#define INITIAL 0'):t.index('#define INITIAL 0') + 400], re.M)
    c += '\n#ifdef ML_COMMENT\n    printf("SC ML_COMMENT %d\\n", ML_COMMENT);\n#endif\n#ifdef IL_COMMENT\n    printf("SC IL_COMMENT %d\\n", IL_COMMENT);\n#endif\n'
    c += '    printf("END %d\\n", YY_END_OF_BUFFER);\n    return 0;\n}\n'
    f = os.path.join(d, 't.c'); open(f, 'w').write(c)
    exe = os.path.join(d, 't')
    lib = table.archive(env)
    open(os.path.join(d, 'l.c'), 'w').write('void projectm_eval_memory_host_lock_mutex(void) {}\nvoid projectm_eval_memory_host_unlock_mutex(void) {}\n')
    run(['gcc', '-w', '-O0'] + CFLAGS + ['-I', env.src, '-I', env.src + '/projectm-eval', f, os.path.join(d, 'l.c'), lib, '-lm', '-o', exe])
    _, out, _ = run([exe])
    T = {'SC': {}}
    for l in out.strip().split('\n'):
        p = l.split()
        if p[0] == 'SC': T['SC'][p[1]] = int(p[2])
        elif p[0] == 'END': T['END'] = int(p[1])
        else: T[p[0]] = [int(x) for x in p[1:]]
    m = re.search(r'while \( yy_current_state != (\d+) \)', t)
    m2 = re.search(r'while \( yy_base\[yy_current_state\] != (\d+) \)', t)
    if m: T['jam'] = lambda s, k=int(m.group(1)): s == k
    elif m2: T['jam'] = lambda s, k=int(m2.group(1)): T['yy_base'][s] == k
    else: raise ToolError('the scanner loop has another form')
    m = re.search(r'if \( yy_current_state >= (\d+) \)', t)
    T['limit'] = int(m.group(1)) if m else 1 << 30
    return T

def flex_step(T, s, c):
    k = T['yy_ec'][c]
    while T['yy_chk'][T['yy_base'][s] + k] != s:
        s = T['yy_def'][s]
        if s >= T['limit']: k = T['yy_meta'][k]
    return T['yy_nxt'][T['yy_base'][s] + k]

def compare(env):
    """Product of both automata for every start condition. Returns (rule -> documented token, pairs visited, differences)."""
    T = tables(env)
    rule, pairs, diff = {}, 0, []
    for sc in SPEC:
        if sc not in T['SC']: raise ToolError('start condition %s not found' % sc)
        n, q0 = spec_nfa(sc)
        s0 = 1 + 2 * T['SC'][sc]
        seen = {(s0, q0): ''}; todo = deque([(s0, q0)])
        while todo:
            s, q = todo.popleft(); w = seen[(s, q)]
            pairs += 1
            lf = T['yy_accept'][s] if s is not None and w else 0
            if lf == T['END']: lf = 0
            ls = n.label(q) if w else None
            if (lf != 0) != (ls is not None):
                diff.append((sc, w, 'scanner: %s, documented: %s' % ('rule %d' % lf if lf else 'no token', SPEC[sc][ls][0] if ls is not None else 'no token')))
            elif lf:
                tok = SPEC[sc][ls][0]
                rule.setdefault(lf, {}).setdefault((sc, tok), w)
            dead_f = s is None or (w and T['jam'](s))
            classes = {}
            for c in range(1, 256):
                ns = None if dead_f else flex_step(T, s, c)
                if ns is not None and T['jam'](ns): ns = None
                nq = n.step(q, c)
                if ns is None and not nq: continue
                classes.setdefault((ns, nq), c)
            for p, c in classes.items():
                if p not in seen:
                    seen[p] = w + chr(c); todo.append(p)
            if len(diff) > 20: break
    return rule, pairs, diff

def check_dfa(env):
    r = Result(C_DFA); r.solver = 'automaton equivalence (all strings)'
    rule, pairs, diff = compare(env)
    env.lexrules = rule
    r.obligations = pairs; r.discharged = pairs - len(diff)
    if diff: r.why = '; '.join('%s %r: %s' % d for d in diff[:6])
    else: r.status = 'ok'
    return [r]

# ---------------------------------------------------------------- actions
def action_units(env):
    rule, pairs, diff = compare(env)
    d = env.tmp('lex')
    t = open(os.path.join(env.src, 'projectm-eval', 'Scanner.c')).read()
    i = t.index('switch ( yy_act )'); b = t.index('{', i)
    body = t[b + 1:match(t, b) - 1]
    i = re.search(r'^\s*case 1:', body, re.M).start()
    k = body.index('case YY_STATE_EOF(INITIAL)')
    body = body[i:k]
    src = t + '''
int vk_act(int yy_act, YYSTYPE* yylval_param, YYLTYPE* yylloc_param, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner)
{
    struct yyguts_t* yyg = (struct yyguts_t*) yyscanner;
    char *yy_cp = 0, *yy_bp = 0; (void) yy_cp; (void) yy_bp;
    yylval = yylval_param; yylloc = yylloc_param;
    switch (yy_act)
    {
''' + body + '''
    }
    return -1;
}
'''
    f = os.path.join(d, 'Scanner_actions.c'); open(f, 'w').write(src)
    cf = stubs.redirect(env, 'projectm-eval/CompilerFunctions.c', {'prjm_eval_compiler_name_is_function': 'vk_is_function'}, d)
    cases = sorted((r, sc, tok, w) for r, m in rule.items() for (sc, tok), w in m.items())
    h = ['#define NCASES %d' % len(cases), 'static const struct { int rule; int sc; int kind; int token; const char* text; } CASES[] = {']
    KIND = {'ml_start': 1, 'il_start': 2, 'ml_end': 3, 'il_end': 3, 'skip': 4, 'space': 4, 'hex': 5, 'char': 6, 'pi': 7, 'e': 8, 'phi': 9, 'gmem': 10, 'number': 11, 'name': 12, 'error': 13}
    for r, sc, tok, w in cases:
        kind = KIND.get(tok, 14)
        o = tok[3:] if kind == 14 else None
        token = (TOKNAME.get(o) or "'%s'" % o) if o else '0'
        h.append('    {%d, %s, %d, %s, "%s"},' % (r, sc, kind, token, ''.join('\\x%02x""' % ord(c) for c in w)))
    h.append('};')
    open(os.path.join(d, 'lexcases.h'), 'w').write('\n'.join(h) + '\n')
    out = []
    step = 12
    for lo in range(0, len(cases), step):
        u = Unit('scanner[actions %d to %d]' % (lo + 1, min(lo + step, len(cases))), 'lex.c', ['C19', 'C12', 'C13'], defs=['-DLO=%d' % lo, '-DHI=%d' % min(lo + step, len(cases)), '-DSRC="%s"' % f, '-DCF_SRC="%s"' % cf, '-I', d, '-I', os.path.join(env.src, 'projectm-eval')],
                 unwind=24, flags=['--no-malloc-may-fail'], builtin_tag='C19 C13', targets=['yylex (actions)'], cost=6)
        u.archive = True
        u.explore = (20000, 40)
        out.append(u)
    return out

def units(env):
    out, notes = [C_DFA], []
    try:
        out += action_units(env)
    except ToolError as e:
        notes.append(str(e))
    return out, notes

C_DFA = Custom('scanner automaton', check_dfa, ['C19'], cost=3)
C_DFA.targets = ['yylex (tables)']
