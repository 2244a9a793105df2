"""Resolves the built-in functions: name -> implementing function, as the compiled library has them."""
import os, re
from core import *

PROG = r'''
#include <stdio.h>
#include "projectm-eval/TreeFunctions.h"
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
int main(void)
{
    prjm_eval_intrinsic_function_list l; int n = 0;
    prjm_eval_intrinsic_functions(&l, &n);
    for (int i = 0; i < n; i++) printf("%s %p %d %d %d\n", l[i].name, (void*) l[i].func, l[i].arg_count, l[i].is_const_eval, l[i].is_state_changing);
    return 0;
}
'''
def sources(env):
    r = os.path.join(env.src, 'projectm-eval')
    return sorted([f for f in os.listdir(r) if f.endswith('.c')] + ['api/' + f for f in os.listdir(r + '/api') if f.endswith('.c')])

def archive(env):
    """A static library of everything, from which harnesses take what they do not define themselves."""
    with env.lock2:
        if not hasattr(env, 'arch'):
            objs = build_lib(env, ['-O1'], 'archive')
            env.arch = os.path.join(os.path.dirname(objs[0]), 'lib.a')
            run(['ar', 'rcs', env.arch] + objs)
        return env.arch

def build_lib(env, flags=(), name='lib', only=None):
    """Objects of the whole library, compiled from the mirror."""
    d = env.tmp(name)
    objs = []
    jobs = []
    for s in (only or sources(env)):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        jobs.append(['gcc', '-g', '-w', '-c'] + CFLAGS + list(flags) + ['-I', env.src, '-I', env.src + '/projectm-eval', '-I', env.src + '/projectm-eval/api',
             os.path.join(env.src, 'projectm-eval', s), '-o', o])
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c, timeout=120), jobs))
    return objs

def load(env):
    if hasattr(env, 'table'):
        return env.table
    objs = build_lib(env, ['-fno-pie'], 'table')
    d = env.tmp('tableprog')
    c = os.path.join(d, 't.c')
    open(c, 'w').write(PROG)
    exe = os.path.join(d, 't')
    run(['gcc', '-no-pie', '-g', '-w'] + CFLAGS + ['-I', env.src, '-I', env.src + '/projectm-eval/api', c] + objs + ['-lm', '-o', exe])
    _, out, _ = run([exe])
    _, nm, _ = run(['nm', exe])
    sym = {}
    for l in nm.split('\n'):
        p = l.split()
        if len(p) == 3 and p[1] in 'tT':
            sym.setdefault(int(p[0], 16), p[2])
    t = []
    for l in out.strip().split('\n'):
        name, addr, ac, ce, sc = l.rsplit(' ', 4)
        t.append({'name': name, 'func': sym.get(int(addr, 16)), 'arity': int(ac), 'const': bool(int(ce)), 'state': bool(int(sc))})
    env.table = t
    return t
