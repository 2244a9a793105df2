"""Loop cutting: rewrites every loop of a source file (scratch copy) so that one symbolic iteration from an arbitrary
state satisfying candidate invariants is checked (base and step asserted), and finds the inductive subset of the
candidates by elimination (Houdini). The loop's condition, increment and body text stay as they are."""
from core import *

_ast, _astlock = {}, threading.Lock()
def clang_ast(env, path, srcdir):
    with _astlock:
        if path not in _ast:
            _ast[path] = clang_ast1(env, path, srcdir)
        return _ast[path]

def clang_ast1(env, path, srcdir):
    _, out, _ = run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion'] + CFLAGS +
                    ['-I', srcdir, '-I', srcdir + '/projectm-eval', '-I', srcdir + '/projectm-eval/api', path], timeout=120, mem_gb=None)
    return json.loads(out[out.index('{'):])

def off(loc):
    if 'expansionLoc' in loc:
        loc = loc['expansionLoc']
    return loc.get('offset')

def skip_ws(s, i):
    while i < len(s):
        if s[i].isspace(): i += 1
        elif s.startswith('/*', i): i = s.index('*/', i) + 2
        elif s.startswith('//', i): i = s.index('\n', i)
        else: return i
    return i

def match(s, i):
    """index behind the bracket that closes the one at s[i]"""
    op, d = s[i], 0
    while i < len(s):
        c = s[i]
        if s.startswith('/*', i): i = s.index('*/', i) + 2; continue
        if s.startswith('//', i): i = s.index('\n', i); continue
        if c in '"\'':
            j = i + 1
            while s[j] != c: j += 2 if s[j] == '\\' else 1
            i = j + 1; continue
        if c in '([{': d += 1
        if c in ')]}':
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise ToolError('unbalanced')

def split_for(t):
    """init, cond, inc of the text between the parentheses"""
    parts, cur, d, i = [], '', 0, 0
    while i < len(t):
        if t.startswith('/*', i): i = t.index('*/', i) + 2; continue
        if t.startswith('//', i): i = t.index('\n', i); continue
        c = t[i]
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == ';' and d == 0: parts.append(cur); cur = ''
        else: cur += c
        i += 1
    parts.append(cur)
    if len(parts) != 3: raise ToolError('cannot split for loop')
    return parts

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', '_Bool', 'bool',
        'size_t', 'uint32_t', 'int32_t', 'uint64_t', 'int64_t', 'uint8_t'}
FS = {'double', 'PRJM_EVAL_F', 'float'}

def kind(q, desugared):
    for t in (q, desugared):
        t = t.strip()
        if t in INTS: return 'int'
        if t in FS: return 'F'
        u = t.replace(' ', '').replace('const', '').replace('struct', '')
        if u in ('PRJM_EVAL_F*', 'double*', 'float*'): return 'Fptr'
        if u in ('PRJM_EVAL_F**', 'double**', 'float**'): return 'Fpptr'
        if u.endswith('list_item*') or u.endswith('list_item_t*'): return 'item'
        if u in ('prjm_eval_exptreenode*', 'prjm_eval_exptreenode_t*'): return 'node'
    return None

ELS = {'prjm_eval_function_list_item': 'fitem', 'prjm_eval_variable_entry': 'vent', 'prjm_eval_compiler_arg_item': 'anode', 'prjm_eval_compiler_arg_node': 'anode', 'prjm_eval_exptreenode_list_item': 'item'}
def walk_kind(q, desugared):
    """List elements, other pointers (must not change), numbers."""
    for t in (q, desugared):
        u = re.sub(r'\b(const|struct)\b', '', t).replace(' ', '')
        if u.endswith('*'):
            e = ELS.get(re.sub(r'_t$', '', u[:-1]))
            return 'el_' + e if e else 'ptr' if '(' not in u else None
    k = kind(q, desugared)
    return k if k in ('int', 'F') else None

class Cutter:
    def __init__(self, text):
        self.s = text
        self.edits = []      # (pos, order, text) insertions; (start, end) removals are insertions with removal
        self.removals = []
        self.cands = []      # candidate texts by id
        self.loops = 0

    def cand(self, expr):
        self.cands.append(expr)
        return len(self.cands) - 1

    def walk_macros(self, vars_, mask):
        L = self.loops
        self.loops += 1
        decl, entry, havoc, ids, hard = '', [], [], [], []
        for v, ty, k in vars_:
            e = 'vk_e%d_%s' % (L, v)
            if k != 'F':
                decl += '%s %s; ' % (ty, e)
                entry.append('%s = %s' % (e, v))
                if k == 'ptr': hard.append('vk_same(%s == %s)' % (v, e))
                elif not k.startswith('el_') or k[3:] not in mask: ids.append(self.cand('%s == %s' % (v, e)))
            if k in ('int', 'F'):
                havoc.append('%s = %s' % (v, '(%s) nd_int()' % ty if k == 'int' else 'nd_F()'))
            if k == 'int':
                ids += [self.cand('vk_intc(%d, (long) %s, (long) %s)' % (i, v, e)) for i in range(4)]
            if k.startswith('el_'):
                havoc.append('%s = vk_nd_%s()' % (v, k[3:]))
                ids += [self.cand('vk_is_%s(%d, %s)' % (k[3:], i, v)) for i in range(4)]
        chk = lambda: ['VK_CHK(VK_EN_%d, %s, %d)' % (i, self.cands[i], i) for i in ids]
        asm = ['VK_ASM(VK_EN_%d, %s)' % (i, self.cands[i]) for i in ids]
        m = ' | '.join(sorted('VK_' + x for x in mask))
        base = ['VK_CAN("VKBASE %d")' % L, 'vk_loop_base(%s)' % m] + entry + chk() + ['VK_HAV(vk_loop_havoc(%s))' % m] + ['VK_HAV(%s)' % h for h in havoc] + asm
        step = ['vk_loop_step(%s)' % m] + chk() + hard + ['VK_CAN("VKREACH %d")' % L, 'VK_END']
        return decl, '(' + ', '.join(base) + ')', '(' + ', '.join(step) + ')'

    def macros(self, vars_, frozen):
        if self.mode == 'walk': return self.walk_macros(vars_, self.mask)
        """(declarations, BASE+HAVOC expression, STEP expression) for a loop over the given local variables"""
        L = self.loops
        self.loops += 1
        decl, entry, havoc, ids = '', [], [], []
        for v, ty, k in vars_:
            n = re.sub(r'\W', '_', v)
            e = 'vk_e%d_%s' % (L, n)
            if k != 'F':
                decl += '%s %s; ' % (ty, e)
                entry.append('%s = %s' % (e, v))
            havoc.append('%s = %s' % (v, {'int': '(%s) nd_int()' % ty, 'F': 'nd_F()', 'Fptr': 'vk_nd_Fptr()', 'item': 'vk_nd_item()', 'node': 'vk_nd_node()', 'Fpptr': 'vk_nd_Fpptr()'}[k]))
            if k != 'F':
                if k != 'Fptr' or self.mode == 'node' or self.ptrs: ids.append(self.cand('%s == %s' % (v, e)))
            if k == 'int' and self.mode == 'node':
                ids.append(self.cand('(long) %s - (long) %s == g_it' % (v, e)))
                ids.append(self.cand('(long) %s - (long) %s == g_it' % (e, v)))
                ids.append(self.cand('%s >= 0' % v)); ids.append(self.cand('%s > 0' % v))
                ids.append(self.cand('%s == g_cnt' % v)); ids.append(self.cand('%s >= g_it' % v))
            if k == 'int' and self.mode == 'mem':
                for i in range(self.ngc): ids.append(self.cand('vk_gc(%d, (long) %s)' % (i, v)))
            if k == 'Fptr' and self.mode == 'mem' and self.ptrs:
                ids.append(self.cand('vk_pin(%s)' % v))
                for i in range(6): ids.append(self.cand('vk_gc(%d, vk_pos(%s))' % (i, v)))
            if k == 'Fptr' and self.mode == 'node':
                for c in ('%s == g_last', 'g_n == 0 || %s == g_last', '%s == &CTX.value', '%s == &SLOT'):
                    ids.append(self.cand(c % v))
            if k == 'item':
                for c in ('%s == g_expect', '%s != 0'):
                    ids.append(self.cand(c % v))
        ints = [v for v, ty, k in vars_ if k == 'int'] + frozen
        if self.mode == 'mem':
            terms = [('(long) %s' % v, '(long) vk_e%d_%s' % (L, v)) for v, ty, k in vars_ if k == 'int'] + [('vk_pos(%s)' % v, 'vk_pos(vk_e%d_%s)' % (L, v)) for v, ty, k in vars_ if k == 'Fptr' and self.ptrs]
            for i, (a, ea) in enumerate(terms):
                for j, (b, eb) in enumerate(terms):
                    if i != j:
                        for q in range(9):
                            if i < j or q in (1, 2, 4): ids.append(self.cand('vk_rel(%d, %s, %s, %s, %s)' % (q, a, b, ea, eb)))
            if self.ptrs:
                for v, ty, k in vars_:
                    if k == 'Fptr': ids += [self.cand('vk_fit(%s, (long) %s)' % (v, w)) for w, _, kk in vars_ if kk == 'int']
            ints = []
        for a in ints:
            for b in ints:
                if a != b and not (a in frozen and b in frozen):
                    ids.append(self.cand('%s <= %s' % (a, b)))
        ghosts = [self.cand('vk_ghost_cand(%d)' % i) for i in range(self.NG)]
        ids += ghosts
        chk = lambda: ['VK_CHK(VK_EN_%d, %s, %d)' % (i, self.cands[i], i) for i in ids]
        asm = ['VK_ASM(VK_EN_%d, %s)' % (i, self.cands[i]) for i in ids]
        base = ['VK_CAN("VKBASE %d")' % L, 'vk_loop_base()'] + entry + chk() + ['VK_HAV(vk_loop_havoc())'] + ['VK_HAV(%s)' % h for h in havoc] + ['VK_HAV(vk_loop_assume())'] + asm
        step = ['vk_loop_step()'] + chk() + ['VK_CAN("VKREACH %d")' % L, 'VK_END']
        return decl, '(' + ', '.join(base) + ')', '(' + ', '.join(step) + ')'

    def loop(self, node, vars_, frozen):
        s = self.s
        b = off(node['range']['begin'])
        k = node['kind']
        if k == 'ForStmt':
            assert s.startswith('for', b)
            p = skip_ws(s, b + 3); q = match(s, p)
            init, cond, inc = split_for(s[p + 1:q - 1])
            d = node.get('inner', [{}])[0]
            vs = list(vars_)
            if d.get('kind') == 'DeclStmt':
                for v in d['inner']:
                    vs.append(local(v, self.kindf))
            if any(x is None for x in vs): return False
            decl, base, step = self.macros(vs, frozen)
            self.rep(b, q, '{ %s for (%s; (%s, (%s)); %s%s)' % (decl, init, base, cond.strip() or '1', (inc.strip() + ', ') if inc.strip() else '', step))
        elif k == 'WhileStmt':
            assert s.startswith('while', b)
            if any(x is None for x in vars_): return False
            p = skip_ws(s, b + 5); q = match(s, p)
            decl, base, step = self.macros(vars_, frozen)
            self.rep(b, q, '{ %s for (; (%s, (%s)); %s)' % (decl, base, s[p + 1:q - 1], step))
        else:
            assert s.startswith('do', b)
            if any(x is None for x in vars_): return False
            bod = [c for c in node['inner']][0]
            p0 = skip_ws(s, b + 2)
            if s[p0] != '{': return False
            e = match(s, p0)
            w = skip_ws(s, e)
            assert s.startswith('while', w)
            p = skip_ws(s, w + 5); q = match(s, p)
            decl, base, step = self.macros(vars_, frozen)
            self.rep(b, b + 2, '{ %s %s; do' % (decl, base))
            self.rep(p, q, '((%s) && (%s, 1))' % (s[p + 1:q - 1], step))
            end = skip_ws(s, q)
            self.rep(end, end + 1, '; }')
            return True
        # end of body
        bb = skip_ws(s, q)
        end = match(s, bb) if s[bb] == '{' else s.index(';', bb) + 1
        self.rep(end, end, ' }')
        return True

    def rep(self, a, b, t):
        self.edits.append((a, b, t))

    def apply(self):
        s = self.s
        for a, b, t in sorted(self.edits, key=lambda e: (-e[0], -e[1])):
            s = s[:a] + t + s[b:]
        return s

def local(v, kind=kind):
    """(name, type, kind) of a VarDecl; None if it cannot be made arbitrary; () if it needs not"""
    q = v['type']['qualType']; dq = v['type'].get('desugaredQualType', q)
    if v.get('storageClass') == 'static' or q.startswith('const ') and '*' not in q or q.endswith('const'):
        return ()
    k = kind(q, dq)
    return (v['name'], q, k) if k else None

def calls(fn):
    out = set()
    def w(n):
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl': out.add(n['referencedDecl']['name'])
        for x in n.get('inner', []): w(x)
    w(fn)
    return out

def cut_file(env, path, srcdir, ng, func, mode):
    """Returns (text, number of candidates)."""
    text = open(path).read()
    ast = clang_ast(env, path, srcdir)
    c = Cutter(text)
    c.NG, c.mode, c.ptrs, c.ngc = ng, mode.split(':')[0], ':noptr' not in mode, 6 if ':6' in mode else 14
    c.kindf, c.mask = (walk_kind if c.mode == 'walk' else kind), set()
    inmain = [None]
    def modified(fn):
        out = set()
        def ref(n):
            while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): n = n['inner'][0]
            if n.get('kind') == 'DeclRefExpr': out.add(n['referencedDecl'].get('id'))
        def w(n):
            k = n.get('kind')
            if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and n.get('opcode') == '=': ref(n['inner'][0])
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'): ref(n['inner'][0])
            for x in n.get('inner', []): w(x)
        w(fn)
        return out
    def walk_fn(fn):
        vars_, els = [], {}
        mod = modified(fn)
        def walk(n, depth):
            k = n.get('kind')
            if k in ('ParmVarDecl', 'VarDecl') and 'name' in n:
                v = local(n, c.kindf)
                if v and v[2].startswith('el_'): els[n['id']] = v[2][3:]
                if v and v[2] == 'Fpptr' and n['id'] not in mod and c.mode == 'mem':
                    return
                if v and v[2] == 'Fpptr' and n['id'] not in mod:
                    vars_.append(('(*%s)' % v[0], 'PRJM_EVAL_F *', 'Fptr'))
                elif n['id'] not in mod and v != () and (v or k == 'ParmVarDecl'):
                    if v and v[2] == 'int': vars_.append((v[0], v[1], 'frozen'))
                elif v != ():
                    vars_.append(v)
                    if v and v[2] == 'Fpptr':
                        vars_.append(('(*%s)' % v[0], 'PRJM_EVAL_F *', 'Fptr'))
                return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                keep = list(vars_)
                vs = [x for x in vars_ if x != ()]
                # assert() expands to do/while or an expression without loop: only loops written in the file itself
                c.mask = set()
                if c.mode == 'walk':
                    for d in n.get('inner', []):
                        for v in d.get('inner', []) if d.get('kind') == 'DeclStmt' else []:
                            v2 = local(v, c.kindf)
                            if v2 and v2[2].startswith('el_'): els[v['id']] = v2[2][3:]
                    c.mask = {els[i] for i in modified(n) if i in els}
                if 'expansionLoc' not in n['range']['begin'] and (c.mode != 'walk' or c.mask):
                    c.loop(n, [x for x in vs if not x or x[2] != 'frozen'], [x[0] for x in vs if x and x[2] == 'frozen'])
                for x in n.get('inner', []):
                    walk(x, depth + 1)
                del vars_[len(keep):]
                return
            if k == 'CompoundStmt':
                m = len(vars_)
                for x in n.get('inner', []):
                    walk(x, depth + 1)
                if depth > 1: del vars_[m:]
                return
            for x in n.get('inner', []):
                walk(x, depth + 1)
        walk(fn, 0)
    def stores(fn):
        """*p = v and p[i] = v for numbers become vk_store(&(*p), v)"""
        def w(n):
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l, r = n['inner'][0], n['inner'][1]
                t = l.get('type', {})
                if (l.get('kind') == 'UnaryOperator' and l.get('opcode') == '*' or l.get('kind') == 'ArraySubscriptExpr') and (t.get('qualType') in FS or t.get('desugaredQualType') in FS):
                    b, e = l['range']['begin'], l['range']['end']
                    re_ = r['range']['end']
                    if not any('expansionLoc' in x for x in (b, e, r['range']['begin'], re_)):
                        le, ree = off(e) + e['tokLen'], off(re_) + re_['tokLen']
                        q = skip_ws(text, le)
                        if text[q] == '=':
                            c.rep(off(b), off(b), 'vk_store(&('); c.rep(le, q + 1, '), '); c.rep(ree, ree, ')')
            for x in n.get('inner', []): w(x)
        w(fn)
    cg = {}
    for n in ast.get('inner', []):
        if n.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])):
            cg[n['name']] = calls(n)
    reach, todo = set(), [func]
    while todo:
        f = todo.pop()
        if f in reach: continue
        reach.add(f); todo += list(cg.get(f, ()))
    for n in ast.get('inner', []):
        loc = n.get('loc', {})
        e = loc.get('expansionLoc', loc)
        if 'file' in e: inmain[0] = e['file']
        elif 'file' in loc.get('spellingLoc', {}): pass
        if n.get('kind') == 'FunctionDecl' and n['name'] in reach and any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])) and inmain[0] == path:
            before = len(c.edits), len(c.cands), c.loops
            try:
                walk_fn(n)
                if c.mode == 'mem': stores(n)
            except (AssertionError, ValueError, KeyError, TypeError, IndexError) as ex:
                del c.edits[before[0]:]
    return MACROS + c.apply(), len(c.cands)

NG_LOOP = 14
MACROS = '''
#ifdef VK_FILTER
#define VK_CHK(en, e, i) vk_filter(i, (e) != 0)
#define VK_ASM(en, e) (void) 0
#define VK_HAV(e) (void) 0
#define VK_END (void) 0
#define VK_CAN(t) (void) 0
#else
#define VK_CHK(en, e, i) (en ? __CPROVER_assert(e, "VKINV " #i) : (void) 0)
#define VK_ASM(en, e) __CPROVER_assume(!en || (e))
#define VK_HAV(e) e
#define VK_END __CPROVER_assume(0)
#define VK_CAN(t) __CPROVER_assert(0, t)
#endif
'''


def filtered(u, f, d, srcdir, own):
    """Candidates which do not hold in some run of the compiled code (the harness' main with VK_FILTER)."""
    exe = os.path.join(d, 'filter')
    inc = ['-I', srcdir, '-I', HARNESS, '-I', own, '-I', srcdir + '/projectm-eval', '-I', srcdir + '/projectm-eval/api']
    run(['gcc', '-O1', '-w', '-DVK_FILTER', '-DCUTSRC="%s"' % f] + list(u.defs) + CFLAGS + inc + [os.path.join(HARNESS, u.harness), '-lm', '-o', exe])
    _, out, _ = run([exe], timeout=40, mem_gb=None)
    return set(map(int, out.split()))

def prove_cut(env, u):
    """Houdini: drops candidates until the rest is inductive, then returns the result of the last run."""
    srcdir = env.src
    rel = u.cut
    r = Result(u)
    t = time.time()
    try:
        d = env.tmp('cut')
        path = os.path.join(srcdir, rel)
        if u.cutstubs:
            import stubs
            path = stubs.redirect(env, rel, u.cutstubs, d)
        text, n = cut_file(env, path, srcdir, u.ng, u.cutfunc, u.cutmode)
        f = os.path.join(d, 'cut.c')
        open(f, 'w').write(text)
        dead = filtered(u, f, d, srcdir, os.path.dirname(os.path.join(srcdir, rel))) if u.filter else set()
        for rnd in range(25):
            v = Unit(u.name, u.harness, u.props, defs=list(u.defs) + ['-DCUTSRC="%s"' % f, '-I', os.path.dirname(os.path.join(srcdir, rel))] + ['-DVK_EN_%d=%d' % (i, i not in dead) for i in range(n)],
                     func=u.func, fp=u.fp, replace=u.replace, solver=u.solver, flags=u.flags, unwind=u.cutunwind, timeout=u.timeout, calls=u.calls, builtin_tag=u.builtin_tag, assigns_tag=u.assigns_tag)
            v.mem_gb = u.mem_gb
            r = prove(env, v)
            r.unit = u
            bad = set()
            for x in r.failed:
                m = re.match(r'VKINV (\d+)', x['text'])
                if m: bad.add(int(m.group(1)))
            for x in r.extra.get('vkinv', ()):
                bad.add(x)
            if not bad - dead:
                break
            dead |= bad
        r.extra['invariants'] = n - len(dead)
        r.extra['rounds'] = rnd + 1
    except ToolError as e:
        r.why = str(e)
    if r.status == 'fail':
        r.status = 'undecided'
        r.why = 'the inferred loop invariants do not suffice for: ' + '; '.join(x['text'] for x in r.failed[:3])
    r.seconds = time.time() - t
    return r
