"""Contracts of the expression node functions, by built-in name (the specification) and bound to the function the
built-in table maps that name to (read from the compiled library on every run)."""
from core import *
import table, mt

NONAN = '!ISNAN(V(0)) && !ISNAN(V(1))'
U_ORDER, B_ORDER, T_ORDER = 'g_n == 1 && g_log[0] == 0', 'g_n == 2 && g_log[0] == 0 && g_log[1] == 1', 'g_n == 3 && g_log[0] == 0 && g_log[1] == 1 && g_log[2] == 2'

def val(arity, expect, guard='1', heavy=False, order=None):
    return dict(cls='C_VALUE', arity=arity, expect=expect, guard=guard, heavy=heavy, order=order or {0: 'g_n == 0', 1: U_ORDER, 2: B_ORDER, 3: T_ORDER}[arity])

def pred(arity, ok, order=None):
    return dict(cls='C_PRED', arity=arity, expect=None, guard='1', heavy=False, ok=ok, order=order or {1: U_ORDER, 2: B_ORDER}[arity])

def asg(expect, guard='1', heavy=False):
    return dict(cls='C_ASSIGN', arity=2, expect=expect, guard=guard, heavy=heavy, order=B_ORDER)

def ref(arity, order, last):
    return dict(cls='C_REF', arity=arity, expect=None, guard='1', heavy=False, order=order, last=last)

EQ_G = 'FIN(V(0)) && FIN(V(1)) && fabs(V(0) - V(1)) != 1e-300'
TR1 = 'IS_F(V(0)) || IS_T(V(0))'
DIVG = 'V(1) == 0 || ISNAN(V(1)) || V(1) > 1e-300 || V(1) < -1e-300'
MOD = '(SPEC_F2I(V(1)) == 0 || SPEC_F2I(V(1)) == -1 ? 0.0 : (F) (SPEC_F2I(V(0)) % SPEC_F2I(V(1))))'
BIT01 = '(R == 0 || R == 1)'
F2 = ('((IS_F(V(0)) || IS_T%s(V(0))) && (IS_F(V(1)) || IS_T%s(V(1))))')

def m1(f):
    return val(1, 'U1(%s, V(0))' % f)

SPEC = {
    '/*const*/': dict(cls='C_CONST', arity=0, heavy=False), '/*var*/': dict(cls='C_VAR', arity=0, heavy=False, slot0='VARCELL'),
    '/*and*/': val(2, '(F) (SPEC_F2I(V(0)) & SPEC_F2I(V(1)))'), '/*or*/': val(2, '(F) (SPEC_F2I(V(0)) | SPEC_F2I(V(1)))'),
    'if': ref(3, 'g_n == 2 && g_log[0] == 0 && (g_log[1] == 1 || g_log[1] == 2) && IMPLIES(IS_T(AT(0)), g_log[1] == 1) && IMPLIES(IS_F(AT(0)), g_log[1] == 2)', 'g_log[1]'),
    'exec2': ref(2, B_ORDER, '1'), 'exec3': ref(3, T_ORDER, '2'),
    '_and': pred(2, BIT01 + ' && IMPLIES(IS_F(AT(0)), R == 0) && IMPLIES(IS_T(AT(0)) && IS_F(V(1)), R == 0) && IMPLIES(IS_T(AT(0)) && IS_T(V(1)), R == 1)',
                 'g_log[0] == 0 && (g_n == 1 || (g_n == 2 && g_log[1] == 1)) && IMPLIES(IS_T(AT(0)), g_n == 2) && IMPLIES(IS_F(AT(0)), g_n == 1)'),
    '_or': pred(2, BIT01 + ' && IMPLIES(IS_T(AT(0)), R == 1) && IMPLIES(IS_F(AT(0)) && IS_F(V(1)), R == 0) && IMPLIES(IS_F(AT(0)) && IS_T(V(1)), R == 1)',
                'g_log[0] == 0 && (g_n == 1 || (g_n == 2 && g_log[1] == 1)) && IMPLIES(IS_F(AT(0)), g_n == 2) && IMPLIES(IS_T(AT(0)), g_n == 1)'),
    '_not': val(1, 'V(0) == 0 ? 1.0 : 0.0', TR1),
    '_equal': val(2, 'fabs(V(0) - V(1)) < 1e-300 ? 1.0 : 0.0', EQ_G, heavy=True), '_noteq': val(2, 'fabs(V(0) - V(1)) > 1e-300 ? 1.0 : 0.0', EQ_G, heavy=True),
    '_below': val(2, 'V(0) < V(1) ? 1.0 : 0.0'), '_above': val(2, 'V(0) > V(1) ? 1.0 : 0.0'),
    '_beleq': val(2, 'V(0) <= V(1) ? 1.0 : 0.0'), '_aboeq': val(2, 'V(0) >= V(1) ? 1.0 : 0.0'),
    '_set': asg('V(1)'),
    '_add': val(2, 'V(0) + V(1)', heavy=True), '_sub': val(2, 'V(0) - V(1)', heavy=True), '_mul': val(2, 'V(0) * V(1)', heavy=True),
    '_div': val(2, 'V(1) == 0 ? 0.0 : V(0) / V(1)', DIVG, heavy=True), '_mod': val(2, MOD, heavy=True),
    # compound assignments: OLD is the target's value when the assignment is computed (after both operands)
    '_mulop': asg('T0 * V(1)', heavy=True), '_divop': asg('V(1) == 0 ? 0.0 : T0 / V(1)', DIVG, heavy=True),
    '_orop': asg('(F) (SPEC_F2I(T0) | SPEC_F2I(V(1)))'), '_andop': asg('(F) (SPEC_F2I(T0) & SPEC_F2I(V(1)))'),
    '_addop': asg('T0 + V(1)', heavy=True), '_subop': asg('T0 - V(1)', heavy=True),
    '_modop': asg('(SPEC_F2I(V(1)) == 0 || SPEC_F2I(V(1)) == -1 ? 0.0 : (F) (SPEC_F2I(T0) % SPEC_F2I(V(1))))', heavy=True),
    '_powop': asg('U2(pow, T0, V(1))'),
    'sin': m1('sin'), 'cos': m1('cos'), 'tan': m1('tan'), 'asin': m1('asin'), 'acos': m1('acos'), 'atan': m1('atan'),
    'atan2': val(2, 'U2(atan2, V(0), V(1))'), 'sqr': val(1, 'V(0) * V(0)', heavy=True), 'sqrt': m1('sqrt'),
    'pow': val(2, 'U2(pow, V(0), V(1))'), 'exp': m1('exp'), '_neg': val(1, '-V(0)'), 'log': m1('log'), 'log10': m1('log10'),
    'abs': val(1, 'SIGNBIT(V(0)) ? -V(0) : V(0)'),
    'min': pred(2, 'IMPLIES(%s, (R == V(0) || R == V(1)) && R <= V(0) && R <= V(1))' % NONAN),
    'max': pred(2, 'IMPLIES(%s, (R == V(0) || R == V(1)) && R >= V(0) && R >= V(1))' % NONAN),
    'sign': val(1, 'V(0) == 0 ? 0.0 : V(0) < 0 ? -1.0 : 1.0', '!ISNAN(V(0))'),
    'floor': m1('floor'), 'int': m1('floor'), 'ceil': m1('ceil'),
    'invsqrt': dict(val(1, 'spec_invsqrt(V(0))', '!ISNAN(V(0))', heavy=True), bounded_value='the bit trick and two floating point products: no installed solver discharges the equality within minutes; order, frame and memory safety are proved'), 'sigmoid': val(2, 'spec_sigmoid(V(0), V(1))', heavy=True),
    'band': pred(2, BIT01 + ' && IMPLIES(IS_F(V(0)) || IS_F(V(1)), R == 0) && IMPLIES(IS_TB(V(0)) && IS_TB(V(1)), R == 1)'),
    'bor': pred(2, BIT01 + ' && IMPLIES(IS_TB(V(0)) || IS_TB(V(1)), R == 1) && IMPLIES(IS_F(V(0)) && IS_F(V(1)), R == 0)'),
    '_mem': dict(cls='C_MEM', arity=1, heavy=True, mem=True),
    'rand': dict(val(1, 'RANDOM(V(0))', 'FIN(V(0))', heavy=True), rand=True),
    'freembuf': dict(cls='C_FREEMBUF', arity=1, heavy=False, mem=True),
    'memcpy': dict(cls='C_BLOCK', arity=3, heavy=False, mem=True, blockop=1), 'memset': dict(cls='C_BLOCK', arity=3, heavy=False, mem=True, blockop=2),
}
for a, b in {'_if': 'if', 'bnot': '_not', 'equal': '_equal', 'below': '_below', 'above': '_above', 'assign': '_set',
             'megabuf': '_mem', '_gmem': '_mem', 'gmegabuf': '_mem'}.items():
    SPEC[a] = dict(SPEC[b], alias=b)

def unit(env, name, fn, s, case=None, props=None, with_expect=True, tag=''):
    tf, gen = mt.sources_node(env)
    defs = ['-DTF="%s"' % tf] + ([] if gen else ['-DNOGEN']) + ['-DABS_F2I', '-DFN=' + fn, '-D' + s['cls'], '-DARITY=%d' % s['arity']]
    if s.get('order'): defs.append('-DORDER=(%s)' % s['order'])
    if with_expect and s.get('expect'): defs += ['-DEXPECT=(%s)' % s['expect'], '-DGUARD=(%s)' % s['guard']]
    if s.get('rand'): defs.append('-DC_RAND')
    if s.get('ok'): defs.append('-DRESULT_OK=(%s)' % s['ok'])
    if s.get('last'): defs.append('-DLAST=(%s)' % s['last'])
    if s.get('slot0'): defs.append('-DSLOT0=' + s['slot0'])
    if s.get('mem'): defs.append('-DENV_MEM')
    if s.get('blockop'): defs.append('-DBLOCKOP=%d' % s['blockop'])
    solver = 'sat'
    n = 'node[%s]' % name
    if case:
        defs += ['-DK%d=%d' % (i, k) for i, k in enumerate(case + (0,) * (3 - len(case)))]
        solver = s.get('solver', 'cvc5')
        n += '(operand kinds %s)' % ','.join(map(str, case))
    if not with_expect:
        n += '(frame)'
    mk = lambda n, defs, calls: Unit(n, 'node.c', props or [], defs=defs, func=fn, fp=('child',), solver=solver, timeout=s.get('timeout', 120), group=name,
                calls=calls)
    u = mk(n, defs, [('prjm_eval_float_to_int', 'vk_f2i')])
    if 'SPEC_F2I' in ' '.join(defs) or s['cls'] == 'C_MEM':
        u.fallback = mk(n + '(conversion inlined)', [d for d in defs if d != '-DABS_F2I'], [])
    if s.get('rand'):
        u.fallback = mk(n + '(generated operands)', defs, [])
        u.fallback.bounded_only, u.fallback.bounded = True, 'generated operands and numbers'
    return u

# operand kinds: 0..2 reference to a program-visible cell, 3 own scratch, 4 value
CASES1 = [(0,), (3,), (4,)]
CASES2 = [(a, b) for a in (4, 3, 0) for b in (4, 3, 0, 1)]

def units(env, values=True):
    """Units for all node functions. values: including the functional results (otherwise order and frame only)."""
    t = {e['name']: e for e in table.load(env)}
    out, missing, seen = [Unit('prjm_eval_float_to_int', 'f2i.c', ['C01', 'C05', 'C06', 'C07'], func='prjm_eval_float_to_int', assigns_tag='C07')], [], {}
    for name, s in SPEC.items():
        e = t.get(name)
        if not e:
            missing.append(name)
            continue
        key = (e['func'], s.get('alias', name))
        if key in seen:
            continue
        seen[key] = name
        if values and s.get('bounded_value'):
            out.append(unit(env, name, e['func'], s, with_expect=False))
            u = unit(env, name, e['func'], s)
            u.name += '(value)'
            u.bounded, u.bounded_only = s['bounded_value'], True
            out.append(u)
        elif (values or s['cls'] == 'C_MEM') and s['heavy']:
            for c in (CASES1 if s['arity'] == 1 else CASES2):
                out.append(unit(env, name, e['func'], s, c))
        else:
            out.append(unit(env, name, e['func'], s, with_expect=not s['heavy']))
    return out, missing

def twice_units(env):
    """C20: product programs, each node function executed twice with the same operand results and different leftovers."""
    t = {e['name']: e for e in table.load(env)}
    out, missing, seen = [], [], set()
    tf, gen = mt.sources_node(env)
    for name, s in SPEC.items():
        e = t.get(name)
        if not e:
            missing.append(name); continue
        if s['cls'] in ('C_CONST', 'C_VAR') or e['func'] in seen: continue
        seen.add(e['func'])
        defs = ['-DTWICE', '-DTF="%s"' % tf] + ([] if gen else ['-DNOGEN']) + ['-DABS_F2I', '-DFN=' + e['func'], '-D' + s['cls'], '-DARITY=%d' % s['arity']]
        if s.get('rand'): defs.append('-DC_RAND')
        if s.get('mem'): defs.append('-DENV_MEM')
        cases = [None]
        if s.get('heavy') and s['cls'] in ('C_VALUE', 'C_ASSIGN'):
            cases = CASES1 if s['arity'] == 1 else CASES2
        if name == 'invsqrt': cases = [None]
        for c in cases:
            u = Unit('node[%s](executed twice%s)' % (name, '' if c is None else ', operand kinds ' + ','.join(map(str, c))), 'node.c', ['C20'],
                     defs=defs + ([] if c is None else ['-DK%d=%d' % (i, k) for i, k in enumerate(c + (0,) * (3 - len(c)))]), targets=[e['func']], fp=('child',),
                     group=name, builtin_tag='C07', calls=[('prjm_eval_float_to_int', 'vk_f2i')], cost=2, solver='sat' if c is None else 'cvc5', timeout=60)
            if name == 'invsqrt': # single precision steps on both sides: no solver decides the product
                u.bounded, u.bounded_only = 'operands over the corner values', True
            out.append(u)
    return out, missing

LOOPS = {'/*list*/': 'C_LIST', 'loop': 'C_LOOP', 'while': 'C_WHILE'}

def loop_units(env, props=('C02', 'C03', 'C07', 'C20')):
    import cut
    t = {e['name']: e for e in table.load(env)}
    out, missing, seen = [], [], set()
    for name, cls in LOOPS.items():
        if name not in t:
            missing.append(name); continue
        fn = t[name]['func']
        if (fn, cls) in seen: continue
        seen.add((fn, cls))
        def mk(n, defs, **kw):
            return Unit(n, 'loop.c', props, defs=['-DFN=' + fn, '-D' + cls] + defs, func=fn, fp=('child',), group=name, **kw)
        u = mk('loop node[%s]' % name, ['-DABS_F2I'], calls=[('prjm_eval_float_to_int', 'vk_f2i')], cut='projectm-eval/TreeFunctions.c', cost=20)
        u.ng, u.cutfunc, u.cutmode = cut.NG_LOOP, fn, 'node'
        u.fallback = mk('loop node[%s](bounded)' % name, ['-DBOUNDED'], unwind=6, bounded='lists up to 5 instructions, up to 3 iterations; native runs up to 2^20 + 2 iterations')
        out.append(u)
    return out, missing
