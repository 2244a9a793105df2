"""Contracts of the compiler functions, contexts, variables, trees and the API (harness/comp.c)."""
from core import *
import stubs, table

CF, CTX, TV, ET, API = ('projectm-eval/CompilerFunctions.c', 'projectm-eval/CompileContext.c', 'projectm-eval/TreeVariables.c',
                        'projectm-eval/ExpressionTree.c', 'projectm-eval/api/projectm-eval.c')
P = 'prjm_eval_compiler_'
STUBS = {'prjm_eval_destroy_exptreenode': 'vk_destroy_exptree', P + 'destroy_node': 'vk_destroy_node', P + 'destroy_arglist': 'vk_destroy_arglist',
         P + 'get_function': 'vk_get_function', P + 'create_expression': 'vk_create_expression', 'prjm_eval_register_variable': 'vk_register',
         'prjm_eval_memory_create_buffer': 'vk_create_buffer', 'prjm_eval_memory_global': 'vk_global', 'prjm_eval_intrinsic_functions': 'vk_intrinsics',
         'prjm_eval_memory_destroy_buffer': 'vk_destroy_buffer', 'prjm_eval_lex_init': 'vk_lex_init', 'prjm_eval__scan_string': 'vk_scan_string', 'prjm_eval_parse': 'vk_parse',
         'prjm_eval__delete_buffer': 'vk_delete_buffer', 'prjm_eval_lex_destroy': 'vk_lex_destroy', 'prjm_eval_memory_destroy_global': 'vk_destroy_global',
         'prjm_eval_create_compile_context': 'vk_create_ctx', 'prjm_eval_destroy_compile_context': 'vk_destroy_ctx', 'prjm_eval_memory_free': 'vk_memory_free',
         'prjm_eval_reset_context_vars': 'vk_reset', 'prjm_eval_compile_code': 'vk_compile', 'prjm_eval_destroy_code': 'vk_destroy_code'}
def st(*names):
    return {n: STUBS[n] for n in STUBS if n in names or n.replace(P, '') in names}

# mode, source, function under contract, properties, stubs, unwind, tags of undefined behaviour
UNITS = [
    ('U_EXPR', CF, P + 'create_expression', 'C08 C11 C12 C13 C14', st('destroy_arglist', 'get_function', 'prjm_eval_destroy_exptreenode'), 13, 'C12 C13'),
    ('U_EMPTY', CF, P + 'create_expression_empty', 'C08 C12', {}, 13, 'C12'),
    ('U_CONST', CF, P + 'create_constant', 'C08 C12', st('get_function'), 13, 'C12'),
    ('U_VAR', CF, P + 'create_variable', 'C08 C09 C12', st('get_function', 'prjm_eval_register_variable'), 13, 'C12'),
    ('U_FUNC', CF, P + 'create_function', 'C12 C13 C14', st('get_function', 'destroy_arglist', 'create_expression'), 13, 'C12 C13'),
    ('U_ADDI', CF, P + 'add_instruction', 'C08 C13 C14', st('get_function', 'prjm_eval_destroy_exptreenode', 'destroy_node'), 13, 'C08 C13'),
    ('U_ADDARG', CF, P + 'add_argument', 'C12 C13 C14 C03', {}, 13, 'C12 C13'),
    ('U_DARG', CF, P + 'destroy_arglist', 'C13 C14', st('destroy_node'), 13, 'C13 C14'),
    ('U_DNODE', CF, P + 'destroy_node', 'C13 C14', st('prjm_eval_destroy_exptreenode'), 13, 'C13 C14'),
    ('U_GETF', CF, P + 'get_function', 'C12 C19', {}, 13, 'C12'),
    ('U_ERROR', CF, 'prjm_eval_error', 'C13', {}, 13, 'C13'),
    ('U_DTREE', ET, 'prjm_eval_destroy_exptreenode', 'C14', {'prjm_eval_destroy_exptreenode': 'vk_rec'}, 13, 'C14'),
    ('U_REG', TV, 'prjm_eval_register_variable', 'C09 C11', {}, 13, 'C09'),
    ('U_RESET', CTX, 'prjm_eval_reset_context_vars', 'C10 C11', {}, 13, 'C10'),
    ('U_CREATE', CTX, 'prjm_eval_create_compile_context', 'C08 C09 C11 C12 C14', st('prjm_eval_memory_create_buffer', 'prjm_eval_memory_global', 'prjm_eval_intrinsic_functions'), 13, 'C11'),
    ('U_DESTROY', CTX, 'prjm_eval_destroy_compile_context', 'C13 C14 C11', st('prjm_eval_destroy_exptreenode', 'prjm_eval_memory_destroy_buffer'), 13, 'C14'),
    ('U_COMPILE', CTX, 'prjm_eval_compile_code', 'C11 C12 C13 C14', st('prjm_eval_destroy_exptreenode', 'prjm_eval_lex_init', 'prjm_eval__scan_string', 'prjm_eval_parse', 'prjm_eval__delete_buffer', 'prjm_eval_lex_destroy'), 13, 'C13'),
    ('U_DCODE', CTX, 'prjm_eval_destroy_code', 'C13 C14', st('prjm_eval_destroy_exptreenode'), 13, 'C14'),
    ('U_GETERR', CTX, P + 'get_error', 'C13', {}, 13, 'C13'),
    ('U_API', API, 'projectm_eval_*', 'C03 C09 C10 C11 C13 C14 C20 C02', st('prjm_eval_memory_create_buffer', 'prjm_eval_memory_destroy_buffer', 'prjm_eval_memory_destroy_global', 'prjm_eval_create_compile_context',
        'prjm_eval_destroy_compile_context', 'prjm_eval_memory_free', 'prjm_eval_reset_context_vars', 'prjm_eval_register_variable', 'prjm_eval_compile_code', 'prjm_eval_destroy_code'), 13, 'C07 C13'),
]
BOUNDED = {'U_ADDI': 'lists of up to 4 instructions', 'U_ADDARG': 'up to 5 arguments', 'U_DARG': 'up to 4 arguments', 'U_GETF': 'up to 3 functions, names of 3 characters',
           'U_DTREE': 'up to 3 operands and 3 instructions', 'U_REG': 'up to 2 variables, names of up to 6 characters', 'U_RESET': 'up to 4 variables',
           'U_DESTROY': 'up to 3 functions and variables'}

def comp_units(pid):
    def f(env):
        out, notes = [], []
        for mode, src, fn, props, sb, unw, ub in UNITS:
            if pid not in props.split():
                continue
            u = unit(env, mode, src, fn, props, sb, unw, ub)
            ws = walks(u, mode, src, fn, props, sb, ub)
            out += ws
            if not ws: out.append(u)
            if mode == 'U_ADDI':
                u = unit(env, mode, src, fn, props, sb, unw, ub)
                u.name, u.bounded = 'compiler[%s](a single expression)' % fn, None
                u.defs += ['-DNL=1', '-DSINGLE']
                out.append(u)
        return out, notes
    return f

def unit(env, mode, src, fn, props, sb, unw, ub):
    d = env.tmp(mode)
    sb = {k: v for k, v in sb.items() if mode != 'U_DARG' or k}
    path = stubs.redirect(env, src, sb, d)
    u = Unit('compiler[%s]' % fn, 'comp.c' if src == CF else 'ctx.c', props.split(), defs=['-D' + mode, '-DSRC="%s"' % path, '-I', os.path.dirname(os.path.join(env.src, src))],
             fp=(), unwind=unw, flags=['--no-malloc-may-fail'], builtin_tag=ub, targets=[fn], cost=10)
    u.bounded = BOUNDED.get(mode)
    if mode == 'U_FUNC': u.flags = list(u.flags) + ['--unwindset', 'vk_snprintf.0:120']
    if mode == 'U_CREATE':
        # the whole table: its size and names are those of the current tree, its contents arbitrary
        names = [e['name'] for e in table.load(env)]
        h = os.path.join(d, 'names.h')
        open(h, 'w').write('#define NAMES %s\n' % ', '.join('"%s"' % n for n in names))
        u.defs += ['-include', h]
        u.unwind = max([len(names)] + [len(n) for n in names]) + 2
        u.flags = u.flags + ['--sat-solver', 'cadical', '--max-field-sensitivity-array-size', '128']
    if mode == 'U_API':
        u.fp = ('fn_root',)
    u.archive = True
    u.explore = (20000, 40)
    return u

# functions that walk a list: proved for lists of any length (harness/walk.c); the bounded unit is the fallback
WALKS = {'U_GETF': [('W_GETF', P + 'get_function'), ('W_ISF', P + 'name_is_function')], 'U_REG': [('W_REG', None), ('W_REG -DREGN', 'register names')], 'U_RESET': [('W_RESET', None)], 'U_DARG': [('W_DARG', None)],
         'U_DTREE': [('W_DTREE', None)], 'U_DESTROY': [('W_DESTROY', None)], 'U_ADDARG': [('W_ADDARG', None)], 'U_ADDI': [('W_ADDI', None)]}
def walks(b, mode, src, fn, props, sb, ub):
    out = []
    for m, f in WALKS.get(mode, ()):
        sub, f = f, f if f in (P + 'get_function', P + 'name_is_function') else fn
        u = Unit('compiler[%s](%s)' % (f, sub if sub == 'register names' else 'lists of any length'), 'walk.c', props.split(), defs=('-D' + m).split(), flags=['--no-malloc-may-fail', '--sat-solver', 'cadical'], builtin_tag=ub, targets=[f], cost=12,
                 cut=src, native=False)
        u.cutfunc, u.cutmode, u.cutunwind, u.cutstubs, u.fallback, u.alsorun = f, 'walk', 9, sb or None, b, not out
        out.append(u)
    return out

A = 'projectm_eval_'
SHIM = {A + 'memory_global_destroy': 'vk_global_destroy', 'prjm_eval_memory_destroy_global': 'vk_global_destroy', A + 'context_create': 'vk_ctx_create', 'prjm_eval_create_compile_context': 'vk_ctx_create',
        A + 'context_destroy': 'vk_ctx_destroy', 'prjm_eval_destroy_compile_context': 'vk_ctx_destroy', A + 'context_reset_variables': 'vk_reset_vars', 'prjm_eval_reset_context_vars': 'vk_reset_vars',
        A + 'context_register_variable': 'vk_reg', 'prjm_eval_register_variable': 'vk_reg', A + 'context_free_memory': 'vk_free_mem', A + 'memory_buffer_destroy': 'vk_buf_destroy',
        'prjm_eval_memory_destroy_buffer': 'vk_buf_destroy', A + 'code_compile': 'vk_code_compile', A + 'get_error': 'vk_get_err', A + 'code_execute': 'vk_exec', A + 'code_destroy': 'vk_code_destroy',
        'prjm_eval_memory_free': 'vk_mem_free', 'prjm_eval_compile_code': 'vk_compile2', 'prjm_eval_destroy_code': 'vk_destroy2', 'prjm_eval_compiler_get_error': 'vk_get_err2'}

def shim_units(env):
    src = 'ns-eel2-shim/ns-eel.c'
    path = stubs.redirect(env, src, SHIM, env.tmp('shim'))
    u = Unit('ns-eel2[NSEEL_*]', 'shim.c', ['C18'], defs=['-DSRC="%s"' % path, '-I', os.path.join(env.src, 'ns-eel2-shim')], unwind=13, flags=['--no-malloc-may-fail'], builtin_tag='C18',
             targets=['NSEEL_quit', 'NSEEL_VM_alloc', 'NSEEL_VM_free', 'NSEEL_VM_resetvars', 'NSEEL_VM_regvar', 'NSEEL_VM_freeRAM', 'NSEEL_VM_SetGRAM', 'NSEEL_VM_FreeGRAM', 'NSEEL_code_compile',
                      'NSEEL_code_getcodeerror', 'NSEEL_code_execute', 'NSEEL_code_free', A + 'memory_host_lock_mutex', A + 'memory_host_unlock_mutex'])
    u.archive = True
    u.explore = (20000, 40)
    return [u], []
