"""Contracts of MemoryBuffer.c."""
from core import *

def block_units(env):
    out = []
    for m, fn, tags, unw in (('M_ALLOC', 'prjm_eval_memory_allocate', 'C05 C16 C07', 129), ('M_FREE', 'prjm_eval_memory_free', 'C10 C14 C16 C07', 129),
                        ('M_CREATE', 'prjm_eval_memory_create_buffer', 'C05 C11 C14', 129), ('M_DESTROY', 'prjm_eval_memory_destroy_buffer', 'C14', 129),
                        ('M_GLOBAL', 'prjm_eval_memory_global', 'C11 C16', 129)):
        out.append(Unit('memory[%s]' % fn, 'mem.c', tags.split(), defs=['-D' + m], unwind=unw, flags=['--max-field-sensitivity-array-size', '128'], targets=[fn], cost=8))
    return out, []

def range_units(env):
    out = []
    for m, fn in (('M_SET', 'prjm_eval_memory_set'), ('M_COPY', 'prjm_eval_memory_copy')):
        def mk(n, defs, **kw):
            return Unit(n, 'memrange.c', ['C06'], defs=['-D' + m] + defs, targets=[fn], cost=30, builtin_tag='C06 C07', **kw)
        b = mk('memory[%s](running code)' % fn, [], bounded='generated ranges on real buffers, a sample of cells', bounded_only=True)
        b.explore = (4000, 40)
        u = mk('memory[%s]' % fn, [], solver='sat', flags=['--sat-solver', 'cadical'], cut='projectm-eval/MemoryBuffer.c', timeout=450, calls=[('prjm_eval_float_to_int', 'vk_f2i')])
        u.ng, u.cutfunc, u.cutmode, u.filter, u.fallback, u.native = 4, fn, 'mem:6' if m == 'M_SET' else 'mem:noptr', True, b, False
        u.cutstubs = {'prjm_eval_memory_allocate': 'vk_alloc'}
        out += [b, u]
    return out, []
