"""Which units decide which property."""
from core import *
import table, nodes, mem, comp, mt, grammar, lexer, tablecheck, refparse, refrun

MATH = 'C math library functions are deterministic functions of their arguments (uninterpreted); only their use is proved'
TOOLS = 'CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc), cvc5 1.1.2, MiniSat, CaDiCaL, clang 18 (AST for loop cutting), gcc 13, bison, flex'
COMPOSE = 'composition over expression trees: every node function is proved against operands that render the common node contract; the induction over the tree is by hand (DESIGN.md)'
F8 = 'PRJM_EVAL_F is double (the default build, PRJM_F_SIZE=8)'

INFO = {}
NOT = {}   # property -> why it is not claimed
def info(pid, level, *trusted):
    INFO[pid] = {'level': level, 'trusted': [TOOLS, F8] + list(trusted)}

def only(us, pid):
    return us

def node_units(values, names=None):
    def f(env):
        us, missing = nodes.units(env, values)
        if names:
            us = [u for u in us if u.group in names]
        return us, ['no built-in named ' + m for m in missing]
    return f

def loop_units(env):
    return nodes.loop_units(env)

ASSIGN = {n for n, s in nodes.SPEC.items() if s['cls'] == 'C_ASSIGN'}
REFS = {n for n, s in nodes.SPEC.items() if s['cls'] in ('C_REF', 'C_VAR', 'C_CONST', 'C_MEM')}

R = refrun.units
PROVIDERS = {
    'C01': [node_units(True, {n for n, s in nodes.SPEC.items() if s['cls'] != 'C_ASSIGN'} | {None}), R('value')],
    'C02': [node_units(False), loop_units, R('order')],
    'C03': [node_units(False), loop_units, R('order')],
    'C04': [node_units(True, ASSIGN | REFS | {None}), R('assign')],
    'C05': [node_units(True, {'_mem', 'megabuf', '_gmem', 'gmegabuf', None}), mem.block_units, R('index')],
    'C06': [node_units(True, {'memcpy', 'memset', None}), mem.range_units, R('range')],
    'C07': [node_units(False), loop_units, mem.block_units, R('order'), R('value'), R('index'), R('range')],
    'C08': [comp.comp_units('C08'), tablecheck.units, refparse.diff_units],
    'C09': [comp.comp_units('C09')],
    'C10': [comp.comp_units('C10'), mem.block_units],
    'C11': [comp.comp_units('C11'), mem.block_units],
    'C12': [comp.comp_units('C12'), tablecheck.units, grammar.units, lexer.units, refparse.tree_units, R('value')],
    'C13': [comp.comp_units('C13'), grammar.units, lexer.units, refparse.tree_units],
    'C14': [comp.comp_units('C14'), mem.block_units, refparse.tree_units],
    'C15': [grammar.units, refparse.tree_units],
    'C16': [mem.block_units],
    'C17': [mt.units, node_units(True, {'rand'})],
    'C18': [comp.shim_units],
    'C19': [lexer.units, comp.comp_units('C19'), refparse.tree_units],
    'C20': [node_units(False), nodes.twice_units, loop_units, R('order')],
}
TREEIND = 'composition: the contracts of the single functions are combined by hand (DESIGN.md); whole programs are compared with a reference on generated inputs (bounded)'
GHOST = 'callees are represented by their contracts (stubs vk_*), expression trees by opaque tokens with ghost purity/effect flags'
OOM = 'memory allocation succeeds'
info('C01', 'proof', MATH, 'invsqrt value: bounded')
info('C02', 'proof', MATH, COMPOSE)
info('C03', 'proof', MATH, COMPOSE)
info('C04', 'proof', MATH, COMPOSE)
info('C05', 'proof', MATH)
info('C06', 'proof', MATH)
info('C07', 'proof', MATH, COMPOSE)
info('C08', 'proof', GHOST, OOM, TREEIND)
info('C09', 'proof', GHOST, OOM)
info('C10', 'proof', GHOST)
info('C11', 'proof', GHOST, OOM)
info('C12', 'proof', GHOST, OOM, TREEIND)
info('C13', 'proof', GHOST, OOM, TREEIND, 'bison skeleton (LALR driver loop)')
info('C14', 'proof', GHOST, OOM, TREEIND)
info('C15', 'proof', GHOST, OOM, TREEIND, 'bison skeleton (LALR driver loop)')
info('C16', 'proof', 'host lock functions are a mutex; C11 memory model not considered (double-checked read is unsynchronised by design)')
info('C17', 'proof', MATH)
info('C18', 'proof', GHOST)
info('C19', 'proof', TREEIND, 'flex skeleton (longest-match loop); atof, strtoul of the C library in the C locale')
info('C20', 'proof', MATH, COMPOSE)

def units_for(env, pid):
    us, notes = [], []
    for p in PROVIDERS[pid]:
        u, n = p(env)
        us += u; notes += n
    return us, notes, []
