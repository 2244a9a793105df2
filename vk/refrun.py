"""Bounded runs of whole programs: the compiled library (harness/driver.c, mode run) against a reference interpreter. It connects
the contracts of the single functions (parser, compiler, nodes, memory) on the running code, and binds names to meanings (C12)."""
from core import *
import ctypes, math, random, struct, table, tablecheck
import refparse
from refparse import Lex, Parser, Reject, run_driver

M = ctypes.CDLL('libm.so.6')
for n in 'sin cos tan asin acos atan sqrt exp log log10 floor ceil'.split():
    getattr(M, n).restype = ctypes.c_double; getattr(M, n).argtypes = [ctypes.c_double]
for n in ('pow', 'atan2', 'fmod'):
    getattr(M, n).restype = ctypes.c_double; getattr(M, n).argtypes = [ctypes.c_double] * 2

class Unspec(Exception): pass
CELLS = 8388608
def f2i(v):
    if v != v: return 0
    if v >= 2147483647: return 2147483647
    if v <= -2147483648: return -2147483648
    return int(v)
def idx(v): return -2**31 if v != v else f2i(v - 0.0001 if v < 0 else v + 0.0001)
def truth(v, eps=1e-300):
    if v != v or abs(v) == math.inf or (v != 0 and abs(v) <= eps * 1.001): raise Unspec
    return v != 0
def div(a, b):
    if b == 0: return 0.0
    if abs(b) <= 1e-300: raise Unspec
    try: return a / b
    except OverflowError: return math.inf
def mod(a, b):
    a, b = f2i(a), f2i(b)
    if b in (0, -1): return 0.0
    r = abs(a) % abs(b)
    return float(-r if a < 0 else r)
def eq(a, b):
    if a != a or b != b or math.inf in (abs(a), abs(b)): raise Unspec
    d = abs(a - b)
    if 0 < d <= 1.001e-300: raise Unspec
    return d == 0
def nonan(*v):
    for x in v:
        if x != x: raise Unspec
def mul(a, b): return a * b
def invsqrt(x):
    nonan(x)
    i = (0x5fe6eb50c7b537a9 - (struct.unpack('<Q', struct.pack('<d', x))[0] >> 1)) & (2**64 - 1)
    y = struct.unpack('<d', struct.pack('<Q', i))[0]
    return y * (1.5 - ((x * .5) * y * y))
def sigmoid(a, b):
    t = 1 + M.exp(-a * b)
    return div(1.0, t) if abs(t) > 0.00001 else 0.0
B = lambda c: 1.0 if c else 0.0
def mn(a, b):
    nonan(a, b)
    if a == b == 0: raise Unspec
    return min(a, b)
def mx(a, b):
    nonan(a, b)
    if a == b == 0: raise Unspec
    return max(a, b)
def sign(a): nonan(a); return 0.0 if a == 0 else math.copysign(1.0, a)
def add(a, b): return a + b
PURE = {'_add': add, '_sub': lambda a, b: a - b, '_mul': mul, '_div': div, '_mod': mod, 'pow': M.pow, '/*or*/': lambda a, b: float(f2i(a) | f2i(b)), '/*and*/': lambda a, b: float(f2i(a) & f2i(b)),
        '_neg': lambda a: -a, '_not': lambda a: B(not truth(a)), 'bnot': lambda a: B(not truth(a)), '_equal': lambda a, b: B(eq(a, b)), 'equal': lambda a, b: B(eq(a, b)), '_noteq': lambda a, b: B(not eq(a, b)),
        '_below': lambda a, b: B(a < b), 'below': lambda a, b: B(a < b), '_above': lambda a, b: B(a > b), 'above': lambda a, b: B(a > b), '_beleq': lambda a, b: B(a <= b), '_aboeq': lambda a, b: B(a >= b),
        'band': lambda a, b: B(truth(a, 1e-5) & truth(b, 1e-5)), 'bor': lambda a, b: B(truth(a, 1e-5) | truth(b, 1e-5)), 'atan2': M.atan2, 'sqr': lambda a: a * a, 'abs': abs, 'min': mn, 'max': mx, 'sign': sign,
        'int': M.floor, 'invsqrt': invsqrt, 'sigmoid': sigmoid}
for n in 'sin cos tan asin acos atan sqrt exp log log10 floor ceil'.split(): PURE[n] = getattr(M, n)
OPS = {'_addop': '_add', '_subop': '_sub', '_mulop': '_mul', '_divop': '_div', '_modop': '_mod', '_orop': '/*or*/', '_andop': '/*and*/', '_powop': 'pow'}

class State:
    def __init__(self, init):
        self.vars = dict(init)
        self.mem = {'L': {}, 'G': {}}
        self.steps = 0
    # a reference is (dict, key); a temporary a fresh dict
    def get(self, r): return r[0].get(r[1], 0.0)
    def tmp(self, v): return ({0: float(v)}, 0)
    def cell(self, buf, v):
        i = idx(v)
        return (self.mem[buf], i) if 0 <= i < CELLS else self.tmp(0.0)
    def ev(self, e):
        self.steps += 1
        if self.steps > 4000: raise Unspec
        k = e[0]
        if k == 'n': return self.tmp(e[1])
        if k == 'v': return (self.vars, e[1])
        if k == 'l':
            for x in e[1:]: r = self.ev(x)
            return r
        f, a = e[1].split(':')[0], e[2:]
        if f in PURE:
            rs = [self.ev(x) for x in a]
            return self.tmp(PURE[f](*[self.get(r) for r in rs]))
        if f in ('_set', 'assign') or f in OPS:
            t, s = self.ev(a[0]), self.ev(a[1])
            v = self.get(s)
            if f in OPS: v = PURE[OPS[f]](self.get(t), v)
            t[0][t[1]] = v
            return t
        if f in ('if', '_if'): return self.ev(a[1] if truth(self.get(self.ev(a[0]))) else a[2])
        if f in ('_and', '_or'):
            c = truth(self.get(self.ev(a[0])))
            if c == (f == '_or'): return self.tmp(c)
            return self.tmp(truth(self.get(self.ev(a[1]))))
        if f == 'loop':
            r = self.ev(a[0])
            for _ in range(min(1048576, f2i(self.get(r)))): r = self.ev(a[1])
            return r
        if f == 'while':
            while True:
                r = self.ev(a[0])
                if not truth(self.get(r)): return r
        if f in ('exec2', 'exec3'):
            for x in a: r = self.ev(x)
            return r
        if f in ('_mem', 'megabuf'): return self.cell('L', self.get(self.ev(a[0])))
        if f in ('_gmem', 'gmegabuf'): return self.cell('G', self.get(self.ev(a[0])))
        if f in ('memset', 'memcpy'):
            rs = [self.ev(x) for x in a]
            d, v, n = [self.get(r) for r in rs]
            m = self.mem['L']; di, n = idx(d), f2i(n + 0.0001)
            if n > 200000: raise Unspec   # not run: too long
            if f == 'memset':
                for i in range(max(0, di), min(CELLS, di + max(0, n))): m[i] = v
            else:
                si = idx(v)
                new = {di + i: m.get(si + i, 0.0) for i in range(max(0, -di, -si), max(0, min(n, CELLS - di, CELLS - si)))}
                m.update(new)
            return rs[0]
        raise Unspec

VARS = {'a': 1.5, 'b': -2.0, 'c': 0.0, 'd': 3.0, 'reg00': 7.0, 'reg07': 0.25}
WATCH = list(range(24)) + list(range(65530, 65542)) + list(range(8388602, 8388608))
EXECS = 3
def expect(e):
    st = State(VARS)
    for b, g in (('L', 0), ('G', 1)):
        for i in WATCH: st.mem[b][i] = float(i % 5 - 1 + g)
    out = []
    for _ in range(EXECS):
        r = 0.0 if e is None else st.get(st.ev(e))
        out += [r] + [st.vars[v] for v in VARS] + [st.mem[b].get(i, 0.0) for b in 'LG' for i in WATCH]
    return out

# ---------------------------------------------------------------- programs, by what they exercise
VALS = ['0', '1', '-1', '2', '.5', '-.5', '3', '7.9', '-7.9', '100', '1e9', '3e9', '-3e9', '1e300', '1e-5', '2.5e-5', '1e-6', '1e-200', '(0/1)', '(-0)', 'a', 'b', 'c', 'd', 'log(-1)', '(1e300*1e300)', '(-1e300*1e300)', '0.1', '65', '255', '2147483647', '2147483648', '-2147483648', '-2147483649', '1.00001']
BINOPS = ['+', '-', '*', '/', '%', '^', '|', '&', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
ASG = ['=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=']
IDX = ['0', '1', '5.99995', '5.9998', '5.5', '-1', '-.5', '-.00005', '23', '65535', '65536', '65535.5', '8388607', '8388607.5', '8388608', '1e10', '-1e10', 'log(-1)', '1e300*1e300', 'b', 'd', '2147483648', '8388606.99995']
def programs(tab, rnd, kind, n):
    fns = [e for e in tab if not e['name'].startswith('/') and e['name'].lower() in PURE]
    v = lambda: rnd.choice(VALS)
    lv = lambda: rnd.choice(['a', 'b', 'c', 'd', 'reg00', 'reg07', 'gmem[%d]' % rnd.randrange(4), 'megabuf(%d)' % rnd.randrange(4), 'd[1]', 'gmegabuf(a)', '_mem(2)', '_gmem(3)'])
    out = []
    def order(d):
        r = rnd.random()
        if d <= 0: return rnd.choice(['a', 'b', 'c', 'd', '0', '1', '2', 'reg00', 'megabuf(1)', 'gmem[2]'])
        if r < .25: return '(%s %s %s)' % (order(d - 1), rnd.choice(['+', '-', '*', '<', '==', '&&', '||', '|']), order(d - 1))
        if r < .50: return '(%s %s %s)' % (rnd.choice([lv(), order(d - 1)]), rnd.choice(['=', '+=', '-=']), order(d - 1))
        if r < .60: return rnd.choice(['(%s ? %s : %s)', 'if(%s, %s, %s)']) % (order(d - 1), order(d - 1), order(d - 1))
        if r < .68: return 'loop(%s, %s)' % (rnd.choice(['0', '1', '2', '3', 'd', 'c', '-1', '2.9']), lst(d - 1))
        if r < .74: return '(d=%d; while(%s; d=d-1; %s))' % (rnd.randrange(1, 4), order(d - 2), rnd.choice(['d>0', 'd', 'd&&c']))
        if r < .80: return 'exec2(%s, %s)' % (order(d - 1), order(d - 1))
        if r < .85: return 'exec3(%s, %s, %s)' % (order(d - 1), order(d - 1), order(d - 1))
        if r < .93: return '(' + lst(d - 1) + ')'
        return rnd.choice(['min(%s, %s)', 'max(%s, %s)', 'atan2(%s,%s)', 'band(%s, %s)', 'bor(%s, %s)', 'pow(%s,%s)', 'sigmoid(%s,%s)', 'assign(%s,%s)']) % (order(d - 1), order(d - 1))
    def lst(d): return '; '.join(order(d) for _ in range(rnd.choice([1, 1, 2, 3])))
    while len(out) < n:
        if kind == 'value':
            r = rnd.random()
            if r < .55:
                f = fns[len(out) % len(fns)]
                out.append('%s(%s)' % (f['name'], ', '.join(v() for _ in range(f['arity']))))
            elif r < .9: out.append('(%s) %s (%s)' % (v(), rnd.choice(BINOPS), v()))
            elif r < .95: out.append('%s(%s)' % (rnd.choice('-!+'), v()))
            else: out.append('(%s) ? %s : %s' % (v(), v(), v()))
        elif kind == 'assign': out.append('%s%s %s (%s)' % (rnd.choice(['', '', 'b=1.5;', 'c=']), rnd.choice([lv(), lv(), '(%s)' % v(), '(a=3)', '(c?a:b)', '(c;d)']), rnd.choice(ASG), v()))
        elif kind == 'order': out.append(lst(rnd.randrange(1, 4)))
        elif kind == 'index':
            g = rnd.choice(['megabuf(%s)', 'gmem[%s]', '(%s)[]', 'gmegabuf(%s)', '_mem(%s)'])
            out.append('%s = %s; %s + 10*%s' % (g % rnd.choice(IDX), rnd.choice(['5', 'a', '-1']), g % rnd.choice(IDX), rnd.choice(['megabuf(%s)', 'gmem[%s]', 'c[%s]']) % rnd.choice(IDX)) if rnd.random() < .8 else
                       '%s; a = %s; b[1-b]=d; c=d[2]; %s' % (g % rnd.choice(IDX), g % rnd.choice(IDX), g % rnd.choice(IDX)))
        else:
            o = lambda: rnd.choice(['0', '1', '2', '5', '10', '-1', '-3', '65533', '65535', '65536', '8388604', '8388607', '8388608', '-1e10', '1e10', '2.99995', 'log(-1)', 'a', 'd', '65530', '8388600', '-2147483648', '2147483647'])
            c = lambda: rnd.choice(['0', '1', '2', '3', '7', '10', '16', '-1', '-5', '2.9999', '3.99995', 'd', 'log(-1)', '70000', '65536', '5.5'])
            out.append(rnd.choice(['x=megabuf(3);', '', '', 'megabuf(2)=9; ', 'megabuf(65537)=9;']) + ('memset(%s, %s, %s)' % (o(), rnd.choice(['a', '5', '-.5', 'b']), c()) if rnd.random() < .4 else 'memcpy(%s, %s, %s)' % (o(), o(), c())))
    return out

KINDS = {'value': ({'C01', 'C12'}, 5000), 'assign': ({'C04'}, 2500), 'order': ({'C02', 'C03', 'C20'}, 5000), 'index': ({'C05'}, 2000), 'range': ({'C06'}, 1500)}
def same(a, b): return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
def check(kind):
    tags, n = KINDS[kind]
    def f(env):
        r = Result(UNITS[kind]); r.solver = 'reference interpreter'
        tab = tablecheck.spec_table(env)
        rnd = random.Random(SEED * 7 + len(kind))
        lex, par = Lex([e['name'] for e in tab]), Parser(tab)
        par.alias = {}
        ts = []
        for t in programs(tab, rnd, kind, n * (1 if TIER == 'quick' else 10)):
            try: ts.append((t, expect(par.parse(lex.tokens(t.encode())))))
            except (Unspec, ZeroDivisionError, OverflowError): continue
        k = (len(ts) + 7) // 8
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda p: run_driver(env, 'run', [t.encode() for t, _ in p]), [ts[i:i + k] for i in range(0, len(ts), k)]))
        cases = 0
        for p, (rc, out) in enumerate(outs):
            part = ts[p * k:(p + 1) * k]
            lines = [l for l in out.split('\n') if l.startswith('R')]
            if rc != 0 and not r.failed:
                m = re.search(r'(runtime error:[^\n]*|ERROR: AddressSanitizer:[^\n]*|Assertion[^\n]*)', out)
                t = part[len(lines)][0] if len(lines) < len(part) else '?'
                r.failed.append({'tags': sorted(tags | {'C07'}), 'text': 'running breaks: ' + (m.group(1) if m else 'rc=%d' % rc), 'property': 'native', 'loc': {}, 'confirmed': True, 'log': 'program: %s\n%s' % (t, out[-1500:])})
            for (t, want), l in zip(part, lines):
                cases += 1
                if r.failed: continue
                got = [float('nan') if 'nan' in x else float.fromhex(x) for x in l.split()[1:]]
                if len(got) == len(want) and all(map(same, got, want)): continue
                w = 'not compiled'
                per = 1 + len(VARS) + 2 * len(WATCH)
                for i, (a, b) in enumerate(zip(got, want)):
                    if not same(a, b):
                        x, j = divmod(i, per)
                        what = 'result' if j == 0 else list(VARS)[j - 1] if j <= len(VARS) else '%s memory cell %d' % (('local', 'global')[(j - 1 - len(VARS)) // len(WATCH)], WATCH[(j - 1 - len(VARS)) % len(WATCH)])
                        w = 'execution %d: %s is %r, documented: %r' % (x + 1, what, a, b)
                        break
                r.failed.append({'tags': sorted(tags), 'text': '%s: %s' % (t, w), 'property': 'native', 'loc': {}, 'confirmed': True, 'log': 'program: %s\nvariables %r, memory cells i = i %% 5 - 1 (global: i %% 5)\n%s' % (t, VARS, w)})
        r.extra['cases'] = cases
        r.status = 'fail' if r.failed else 'explored'
        return [r]
    return f
UNITS = {}
for k, (tags, n) in KINDS.items():
    c = Custom('whole programs: %s' % k, check(k), tags | {'C07'}, cost=10)
    c.bounded = 'generated programs'
    UNITS[k] = c
def units(kind):
    return lambda env: ([UNITS[kind]], [])
