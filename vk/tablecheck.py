"""C08, C12: the table of built-in functions, completely: names, argument counts, and flags against the class of every function's
contract (vk/nodes.py: what a function that satisfies its contract can read and change)."""
from core import *
import table, nodes

READS = {'C_VAR', 'C_MEM', 'C_BLOCK', 'C_ASSIGN'}            # not the same value every time
WRITES = {'C_ASSIGN', 'C_BLOCK'}                            # changes variables, registers or memory

def spec():
    s = {n: (v['arity'], v['cls'] in READS or bool(v.get('rand')), v['cls'] in WRITES) for n, v in nodes.SPEC.items()}
    s.update({'/*list*/': (None, False, False), 'loop': (2, False, False), 'while': (1, False, False)})
    return s

def spec_table(env):
    """The specified names and argument counts, with the functions the library has for them; then whatever else it has."""
    tab = table.load(env)
    have = {}
    for e in tab: have.setdefault(e['name'].lower(), e)
    out = [dict(have.get(n.lower(), {'func': None}), name=n, arity=a) for n, (a, _, _) in spec().items()]
    known = {n.lower() for n in spec()}
    out += [dict(e) for e in tab if e['name'].lower() not in known]
    first = {}
    for e in tab: first.setdefault(e['func'], e['name'])
    for e in out: e['first'] = first.get(e['func'], e['name'])   # the name driver.c prints
    return out

def check(env):
    import refparse
    r = Result(TABLE); r.solver = 'complete enumeration of the table'
    have = {}
    for e in table.load(env): have.setdefault(e['name'].lower(), e)
    bad = []   # tags, text, texts that show it
    for n, (arity, reads, writes) in spec().items():
        r.obligations += 3
        e = have.get(n.lower())
        if not e or (arity is not None and e['arity'] != arity and not n.startswith('/')):
            call = '%s(%s)' % (n, ', '.join('abc'[:arity or 0]))
            bad.append(({'C12'}, '%s: %s' % (n, 'no such function' if not e else 'takes %d arguments, documented: %d' % (e['arity'], arity)), 'tree', [call]))
            continue
        args = [['a', '3', '1'], ['2', '5', '2'], ['(0)', '1', '1']]
        calls = ['%s(%s)' % (n, ', '.join(a[:arity or 0])) for a in args] if not n.startswith('/') else ['a']
        if e['const'] and not e['state'] and reads:
            bad.append(({'C08'}, '%s is evaluated at compile time' % n, 'rand' if n == 'rand' else 'diff', ['b=%s' % c for c in calls] + calls + ['a=1;' + c for c in calls]))
        if not e['state'] and writes:
            bad.append(({'C08'}, '%s is dropped from lists' % n, 'diff', [c + '; 0' for c in calls]))
    r.discharged = r.obligations - len(bad)
    for tags, text, how, ts in bad:
        ok, log = False, ''
        try:
            if how == 'rand':
                rc, out = refparse.run_driver(env, 'run', [b'rand(1000000000)'])
                v = out.split()[1:]
                ok, log = len(set(v[::len(v) // 3][:3])) == 1, 'rand(1000000000) executed 3 times: ' + ' '.join(v[::max(1, len(v) // 3)][:3])
            else:
                rc, out = refparse.run_driver(env, how, [t.encode() for t in ts])
                ok = '\tR\t' in out if how == 'tree' else any(re.match(r'\d+\t(?!ok|rejected)', l) for l in out.split('\n'))
                log = '\n'.join('%s: %s' % x for x in zip(ts, out.split('\n')))
        except ToolError as e: log = str(e)
        r.failed.append({'tags': sorted(tags), 'text': text, 'property': 'table', 'loc': {}, 'confirmed': ok, 'log': log})
    r.status = 'fail' if bad else 'ok'
    return [r]

TABLE = Custom('table of built-in functions', check, ['C08', 'C12'], cost=8)
TABLE.targets = ['prjm_eval_intrinsic_functions']
def units(env): return [TABLE], []
