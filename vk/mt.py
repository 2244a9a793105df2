"""C17: the random generator. Finds the generator (the function that owns the 624 word state) by clang's AST, moves its static
state to file scope in a scratch copy and proves one step of it from an arbitrary state."""
from core import *
from cut import clang_ast
import stubs

REL = 'projectm-eval/TreeFunctions.c'

def functions(ast):
    return {n['name']: n for n in ast.get('inner', []) if n.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', []))}

def walk(n):
    yield n
    for x in n.get('inner', []):
        if isinstance(x, dict):
            yield from walk(x)

def refs(fn):
    return {x['referencedDecl']['name'] for x in walk(fn) if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('kind') == 'FunctionDecl'}

def ty(n):
    t = n.get('type', {})
    return (t.get('desugaredQualType') or t.get('qualType') or '')

WORDS = re.compile(r'^(unsigned int|uint32_t|unsigned long|uint64_t|unsigned long long)\s*\[624\]$')
INTS = re.compile(r'^(int|unsigned int|unsigned|long|size_t|unsigned long|uint32_t|int32_t)$')

def locate(env):
    """(generator, owners of the state, all functions with their callees)"""
    ast = clang_ast(env, os.path.join(env.src, REL), env.src)
    fns = functions(ast)
    arr = {n['id'] for n in ast.get('inner', []) if n.get('kind') == 'VarDecl' and WORDS.match(n.get('type', {}).get('qualType', ''))}
    own = set()
    for name, f in fns.items():
        for x in walk(f):
            if x.get('kind') == 'VarDecl' and WORDS.match(x.get('type', {}).get('qualType', '')) and x.get('storageClass') == 'static':
                own.add(name)
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('id') in arr:
                own.add(name)
    calls = {n: refs(f) & set(fns) for n, f in fns.items()}
    gens = {o for o in own if any(o in c for n, c in calls.items() if n not in own)}
    return (gens.pop() if len(gens) == 1 else None), own, calls, fns

def sources_node(env):
    """TreeFunctions.c for the node contracts: calls of the generator go to its contract vk_genrand."""
    with env.lock2:
        if not hasattr(env, 'tf'):
            g = locate(env)[0]
            env.tf = (stubs.redirect(env, REL, {g: 'vk_genrand'}, env.tmp('tf')), g) if g else (os.path.join(env.src, REL), None)
        return env.tf

def hoisted(env):
    """Path of a copy in which the generator's static locals are at file scope, with their names."""
    g, own, calls, fns = locate(env)
    if not g: raise ToolError('the random generator was not found')
    path = os.path.join(env.src, REL)
    text = open(path).read()
    ast = clang_ast(env, path, env.src)
    edits, arr, idx, moved = [], [], [], []
    cone = {g} | own
    for f in cone:
        for x in walk(fns[f]):
            if x.get('kind') == 'DeclStmt':
                vs = [v for v in x.get('inner', []) if v.get('kind') == 'VarDecl' and v.get('storageClass') == 'static']
                if not vs: continue
                a, e = x['range']['begin'].get('offset'), x['range']['end'].get('offset')
                if a is None or e is None: 
                    raise ToolError('static state is declared by a macro')
                e += x['range']['end'].get('tokLen', 1)
                moved.append(text[a:e]); edits.append((a, e))
                for v in vs:
                    (arr if WORDS.match(v['type']['qualType']) else idx if INTS.match(ty(v)) and 'const' not in v['type']['qualType'] else []).append(v['name'])
    for n in ast.get('inner', []):
        if n.get('kind') == 'VarDecl' and any(y.get('kind') == 'DeclRefExpr' and y.get('referencedDecl', {}).get('id') == n['id'] for f in cone for y in walk(fns[f])):
            q = n.get('type', {}).get('qualType', '')
            if WORDS.match(q): arr.append(n['name'])
            elif INTS.match(ty(n)) and 'const' not in q: idx.append(n['name'])
    if len(arr) != 1 or len(idx) != 1:
        raise ToolError('generator state not recognised: arrays %s, counters %s' % (arr, idx))
    first = min(fns[f]['range']['begin'].get('offset', 0) for f in cone)
    for a, e in sorted(edits, reverse=True):
        text = text[:a] + ';' + text[e:]
    text = text[:first] + '\n'.join(m for m in moved) + '\n' + text[first:]
    p = os.path.join(env.tmp('mt'), 'TreeFunctions_mt.c')
    open(p, 'w').write(text)
    return p, g, arr[0], idx[0]

def reach(env):
    """Functions of the file that can reach the generator by direct calls."""
    g, own, calls, fns = locate(env)
    r = set([g]) if g else set()
    while True:
        n = {f for f, c in calls.items() if c & r} - r
        if not n: return r
        r |= n

def native(env):
    import table
    t = {e['name']: e for e in table.load(env)}
    u = Unit('rand sequence on the running library', 'randseq.c', ['C17'], targets=['rand'], bounded='300 programs and 20 million draws against a reference generator; 100 million in the thorough tier', bounded_only=True)
    u.archive = True
    u.explore = (300, 90)
    u.defs = ['-DDRAWS=%d' % (100000000 if TIER == 'thorough' else 20000000)]
    u.builtin_tag = 'C17'
    return u

def units(env):
    import table
    out, notes = [], []
    t = {e['name']: e for e in table.load(env)}
    nat = native(env)
    g = locate(env)[0]
    try:
        p, g, arr, idx = hoisted(env)
        for mode, what, lo, hi in [(0, 'initialisation', 0, 0), (2, 'regeneration', 0, 0)] + [(1, 'draw of word %d to %d' % (a, min(a + 104, 624) - 1), a, min(a + 104, 624)) for a in range(1, 624, 104)]:
            u = Unit('generator[%s](%s)' % (g, what), 'mt.c', ['C17'], defs=['-DMODE=%d' % mode, '-DLO=%d' % lo, '-DHI=%d' % hi, '-DSRC="%s"' % p, '-DGEN=' + g, '-DMT=' + arr, '-DMTI=' + idx, '-I', os.path.join(env.src, 'projectm-eval')],
                     unwind=626, flags=['--max-field-sensitivity-array-size', '1024'], builtin_tag='C17', targets=[g], native=False, cost=20 if mode != 1 else 15)
            u.fallback = nat
            out.append(u)
    except ToolError as e:
        notes.append(str(e))
    def reachable(env):
        r = Result(c); r.solver = 'call graph (clang AST)'
        bad = []
        if not g:
            r.why = 'generator not found'; return [r]
        rs = reach(env)
        for e in table.load(env):
            r.obligations += 1
            if e['func'] in rs and e['name'] != 'rand': bad.append(e['name'])
            elif e['name'] == 'rand' and e['func'] not in rs: bad.append('rand')
        r.discharged = r.obligations - len(bad)
        if bad:
            r.why = 'reach or miss the generator: ' + ', '.join(bad)
        else:
            r.status = 'ok'
        return [r]
    c = Custom('only rand draws', reachable, ['C17'], cost=1)
    c.targets = []
    out.append(c)
    out.append(nat)
    return out, notes
