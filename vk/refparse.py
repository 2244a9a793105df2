"""Bounded comparison of the compiled library with a reference scanner and parser on generated source texts (harness/driver.c).
It decides - with a failing input - when a proof about the tables or the actions cannot be had, and replays what a proof reports."""
from core import *
import random, table, tablecheck
from lexer import SPEC as LEXSPEC, TOKNAME, spec_nfa
from grammar import BIN, LEVEL

# ---------------------------------------------------------------- reference scanner
class Lex:
    def __init__(self, names):
        self.nfa = {sc: spec_nfa(sc) for sc in LEXSPEC}
        self.memo = {}
        self.names = {n.lower() for n in names}
    def step(self, sc, q, c):
        k = (sc, q, c)
        if k not in self.memo:
            n = self.nfa[sc][0]
            s = n.step(q, c)
            self.memo[k] = (s, n.label(s))
        return self.memo[k]
    def tokens(self, data):
        """[(kind, value)] of a byte string; kind: N V F gmem error or the operator"""
        out, i, sc = [], 0, 'INITIAL'
        while i < len(data):
            q, j, best = self.nfa[sc][1], i, None
            while j < len(data):
                q, lab = self.step(sc, q, data[j])
                if not q: break
                j += 1
                if lab is not None: best = (j, lab)
            if best is None: out.append(('error', None)); i += 1; continue
            name = LEXSPEC[sc][best[1]][0]; s = data[i:best[0]]; i = best[0]
            if name == 'ml_start': sc = 'ML_COMMENT'
            elif name == 'il_start': sc = 'IL_COMMENT'
            elif name in ('ml_end', 'il_end'): sc = 'INITIAL'
            elif name in ('skip', 'space'): pass
            elif name == 'hex': out.append(('N', float(min(int(s[2:], 16), 2**64 - 1))))
            elif name == 'char': out.append(('N', float(s[2])))
            elif name == 'pi': out.append(('N', 3.141592653589793))
            elif name == 'e': out.append(('N', 2.71828183))
            elif name == 'phi': out.append(('N', 1.61803399))
            elif name == 'gmem': out.append(('gmem', None))
            elif name == 'number': out.append(('N', float(s)))
            elif name == 'name':
                t = s.decode(); out.append(('F' if t.lower() in self.names else 'V', t))
            elif name == 'error': out.append(('error', None))
            else: out.append((name[3:], None))
        return out

class Reject(Exception):
    def __init__(self, kind, *a):
        self.kind, self.args_ = kind, a

INV = {v: k for k, v in TOKNAME.items()}
OPLEVEL = {}
for t, l in LEVEL.items():
    for x in t.split():
        OPLEVEL[INV.get(x, x.strip("'"))] = l
BINNAME = {INV.get(t, t.strip("'")): n for t, n in BIN.items()}
NEG, NOT, TERN, IDX = LEVEL['sign'][0], LEVEL["'!'"][0], LEVEL["'?'"], LEVEL["'['"][0]

class Parser:
    def __init__(self, tab):
        self.arity, self.alias = {}, {}
        for e in tab:
            if e['name'].lower() not in self.arity:
                self.arity[e['name'].lower()] = e['arity']
                self.alias[e['name'].lower()] = e['first']
    def node(self, name, *args):
        buf = ':L' if name in ('_mem', 'megabuf', 'freembuf', 'memcpy', 'memset') else ':G' if name in ('_gmem', 'gmegabuf') else ''
        return ('c', self.alias.get(name, name) + buf) + args
    def parse(self, toks):
        self.t, self.i = toks + [('end', None)], 0
        if self.peek() == 'end': return None
        r = self.list()
        if self.peek() != 'end': raise Reject('syntax')
        return r
    def peek(self): return self.t[self.i][0]
    def next(self): self.i += 1; return self.t[self.i - 1]
    def want(self, k):
        if self.peek() != k: raise Reject('syntax')
        self.i += 1
    def list(self):
        items = [self.expr(0)]
        while self.peek() == ';':
            self.i += 1
            if self.peek() in (')', ',', ';', 'end'): continue
            if self.peek() == '(' and self.t[self.i + 1][0] == ')': self.i += 2; continue
            items.append(self.expr(0))
            if self.peek() == '(': raise Reject('syntax')
        return items[0] if len(items) == 1 else ('l',) + tuple(items)
    def expr(self, lo):
        k, v = self.next()
        if k == 'N': e = ('n', v)
        elif k == 'V': e = ('v', v.lower())
        elif k == 'F':
            self.want('(')
            args = [self.list()]
            while self.peek() == ',': self.i += 1; args.append(self.list())
            self.want(')')
            n = v.lower()
            if self.arity[n] != len(args): raise Reject('arity', v, self.arity[n], len(args))
            e = self.node(n, *args)
        elif k == 'gmem':
            self.want('[')
            if self.peek() == ']': self.i += 1; e = self.node('_gmem', ('n', 0.0))
            else: e = self.node('_gmem', self.expr(0)); self.want(']')
        elif k == '(': e = self.list(); self.want(')')
        elif k == '-': e = self.node('_neg', self.expr(NEG + 1))
        elif k == '+': e = self.expr(NEG + 1)
        elif k == '!': e = self.node('_not', self.expr(NOT))
        else: raise Reject('syntax')
        while True:
            k = self.peek()
            if k == '[' and IDX >= lo:
                self.i += 1
                if self.peek() == ']': self.i += 1; e = self.node('_mem', e)
                else:
                    o = self.expr(0); self.want(']'); e = self.node('_mem', self.node('_add', e, o))
            elif k == '?' and TERN[0] >= lo:
                self.i += 1
                a = self.expr(0); self.want(':'); b = self.expr(TERN[0])
                e = self.node('_if', e, a, b)
            elif k in BINNAME and OPLEVEL[k][0] >= lo:
                self.i += 1
                l, assoc = OPLEVEL[k]
                e = self.node(BINNAME[k], e, self.expr(l if assoc == 'R' else l + 1))
            else: return e

def canon(e):
    """Lists within lists flattened; a constant or variable that is not the last instruction has no meaning."""
    if e is None: return None
    if e[0] == 'n': return ('n', float(e[1]))
    if e[0] == 'c': return e[:2] + tuple(canon(x) for x in e[2:])
    if e[0] == 'l':
        items = []
        for x in e[1:]:
            x = canon(x)
            items += x[1:] if x[0] == 'l' else [x]
        items = [x for x in items[:-1] if x[0] not in 'nv'] + items[-1:]
        return items[0] if len(items) == 1 else ('l',) + tuple(items)
    return e

def read(s):
    """Tree printed by driver.c"""
    if s == 'NULL': return None
    toks = re.findall(r'[(){}]|[^\s(){}]+', s)
    pos = [0]
    def one():
        t = toks[pos[0]]; pos[0] += 1
        if t == '(':
            n = toks[pos[0]]; pos[0] += 1
            a = []
            while toks[pos[0]] != ')': a.append(one())
            pos[0] += 1
            return ('c', n) + tuple(a)
        if t == '{':
            a = []
            while toks[pos[0]] != '}': a.append(one())
            pos[0] += 1
            return ('l',) + tuple(a)
        if t[0] == '#': return ('n', float('nan') if t[1:] == 'nan' else float.fromhex(t[1:]))
        return ('v', t[1:])
    return one()

def show(e):
    if e is None: return '(nothing)'
    if e[0] == 'n': return repr(e[1])
    if e[0] == 'v': return e[1]
    if e[0] == 'l': return '{' + '; '.join(show(x) for x in e[1:]) + '}'
    return e[1] + '(' + ', '.join(show(x) for x in e[2:]) + ')'

def nodes_of(e):
    if e is None: return []
    if e[0] in 'nv': return [e]
    r = [(e[0], e[1] if e[0] == 'c' else '', len(e))]
    for x in e[2 if e[0] == 'c' else 1:]: r += nodes_of(x)
    return r

# ---------------------------------------------------------------- source texts
def texts(tab, seed, n):
    rnd = random.Random(seed)
    ops = list(BINNAME)
    pre = ['-', '!', '+']
    out = []
    for a in ops + ['?']:
        for b in ops + ['?']:
            f = lambda x, y, o: '%s?%s:%s' % (x, y, 'q') if o == '?' else '%s%s%s' % (x, o, y)
            out.append(f('a', f('b', 'c', b), a)); out.append('(%s)' % f('x', 'y', a) + ('?z:w' if b == '?' else b + 'z'))
            if a != '?': out.append('a%s b?c:d%s e' % (a, b if b != '?' else '?f:g '))
    for p in pre:
        for a in ops + ['?', '[']:
            t = '?y:z' if a == '?' else '[y]' if a == '[' else a + 'y'
            out.append(p + 'x' + t)
            for b in ops:
                out.append('w' + b + ' ' + p + 'x' + t)
            for q in pre: out.append(p + q + 'x' + t)
    names = sorted({e['name'] for e in tab if not e['name'].startswith('/')})
    var = lambda nm: ''.join(c.upper() if rnd.random() < .5 else c for c in nm)
    for e in tab:
        if e['name'].startswith('/'): continue
        for k in range(1, 6):
            for nm in (e['name'], e['name'].upper(), var(e['name'])):
                out.append(nm + '(' + ','.join('abcde'[:k]) + ')')
        out += [e['name'] + '()', e['name'], e['name'] + '=1', e['name'] + 'x', 'x' + e['name'], e['name'] + '0(1)', 'a=' + e['name'] + '(1', e['name'] + '(1,)', e['name'] + '(,1)']
    out += ['', ';', ' ', '//x', '/*x', '/*x*/', '1', '1;', '1;;', ';1', '()', '1;()', '1;();2', '1;()[2]', '1;()+2', '(1;)', '(;1)', '((1;2);3)', '1;(2;3);(4;5)', 'a=1;(b=2;c=3);d', '(a=1;b=2);c', '1 2', 'a b',
            'a[]', 'a[1]', 'a[b][c]', 'gmem[]', 'gmem[1]', 'gmem', 'GMem[2]', 'gmem[1;2]', 'a[1;2]', 'gmem[1][2]', 'gmem1', 'gmem(1)', '(a;b)[c;]', 'sin(a;b)', 'sin(a;)', 'sin(;a)', 'sin(a;;)', 'if(a;b,c;d,e;f)',
            '1=2', 'a+b=c', '$PI', '$pi', '$Pi', '$E', '$e', '$phi', '$PHI', '$PhI', '$xff', '$XFF', '$xFFFFFFFFFFFFFFFFFF', '$x', '$xg', "$'a'", "$'''", "$'", "$''", "$'\n'", "$'ab'", '$', '$pix', '$ex', '$phix', '$p', '$ph',
            '1.', '.1', '.', '1.5.2', '1e5', '1e+5', '1e-5', '1e', '1e+', '1.e3', '.5e2', '1E5', '1x', '0x10', '00012', '1e400', '1e-400', '123456789012345678901234567890', '0.1', '1.7976931348623157e308', '4.9e-324', '2.2250738585072014e-308',
            'a/*b*/c', 'a/*b*/+/*c*/d', 'a//b\n+c', 'a//b', 'a/* * / */+b', 'a/***/+b', 'a/*/+b', 'a/*/*/+b', 'a//*\n+b', 'a/*//*/+b', 'a\t\n\r\v\f+ b', 'a@b', 'a#', '"a"', "'a'", 'a\\b', '\x01', 'a`', '~a', 'a\x7f',
            'reg00', 'REG99', 'reg100', 'reg0', 'rega0', 'Reg5x', 'reg42=reg42+1', '_x', 'x_1', '_', 'a<b>c', 'a<=b>=c', 'a!=b', 'a! =b', 'a==b==c', 'a&&b||c', 'a&b|c', 'a|b|c', 'a===b', 'a=+b', 'a=-b', 'a=!b', 'a--b', 'a-- b', 'a+-b', 'a+ +b', 'a++b', '!!a', 'a!b',
            'a<<b', 'a>>b', 'a**b', 'a%%b', 'a?b', 'a:b', 'a?b:c:d', 'a?b?c:d:e', 'a?b:c?d:e', 'a?b;c:d', 'a?(b;c):d', '(a', 'a)', '[a]', 'a[', 'a]', ',', 'a,b', '{a}', 'a;b,c']
    def ex(d):
        r = rnd.random()
        if d <= 0 or r < .2:
            return rnd.choice(['a', 'b', 'Var', 'reg0%d' % rnd.randrange(10), '%d' % rnd.randrange(20), '%g' % rnd.uniform(0, 9), '.5', '1e%d' % rnd.randrange(5), '$x%x' % rnd.randrange(4096), '$pi', "$'%s'" % rnd.choice('aZ+ ')])
        if r < .55: return ex(d - 1) + sp() + rnd.choice(ops) + sp() + ex(d - 1)
        if r < .63: return rnd.choice(pre) + sp() + ex(d - 1)
        if r < .70: return ex(d - 1) + '?' + ex(d - 1) + ':' + ex(d - 1)
        if r < .76: return rnd.choice([ex(d - 1), 'gmem', 'a']) + '[' + (ex(d - 1) if rnd.random() < .8 else '') + ']'
        if r < .86: return '(' + ls(d - 1) + ')'
        nm = rnd.choice(tab)
        while nm['name'].startswith('/'): nm = rnd.choice(tab)
        k = nm['arity'] + (rnd.random() < .04) - (rnd.random() < .04)
        return var(nm['name']) + sp() + '(' + ','.join(ls(d - 1) for _ in range(max(0, k))) + ')'
    def ls(d):
        r = ex(d)
        while rnd.random() < .25: r += sp() + ';' + sp() + (ex(d) if rnd.random() < .9 else rnd.choice(['', '()']))
        return r
    def sp(): return rnd.choice(['', '', '', ' ', '\n', '/* c */', '// x\n', '\t']) if rnd.random() < .4 else ''
    frag = ops + pre + list('()[]?:;,') + ['a', 'gmem', 'sin', '1', '.5', '$x1', "$'", '$pi', '/*', '*/', '//', '\n', ' ', '@', '1e', '"', 'if', 'memcpy', '_set', '\xff', 'e', '.']
    n += len(out)
    while len(out) < n:
        r = rnd.random()
        s = ls(rnd.randrange(1, 5))
        if r < .2:
            k = rnd.randrange(len(s) + 1); s = s[:k] + rnd.choice(frag) + s[k + (rnd.random() < .5):]
        elif r < .3: s = ''.join(rnd.choice(frag) for _ in range(rnd.randrange(1, 12)))
        elif r < .34: s = ''.join(chr(rnd.randrange(1, 256)) for _ in range(rnd.randrange(1, 12)))
        elif r < .38: k = rnd.randrange(len(s) + 1); s = s[:k]
        if len(s) < 2000: out.append(s)
    return [s.encode('latin-1') for s in out]

DIFF_OPS = ['+', '-', '*', '/', '%', '^', '|', '&', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
def diff_texts(tab, seed, n):
    """Programs without rand whose loops end quickly."""
    rnd = random.Random(seed)
    fns = [e for e in tab if not e['name'].startswith('/') and e['name'].lower() not in ('rand', 'loop', 'while', 'memset', 'memcpy', 'freembuf')]
    def leaf(c): return rnd.choice(['1', '0', '2', '.5', '3', '-1', '7']) if c or rnd.random() < .4 else rnd.choice(['a', 'b', 'c', 'd', 'reg00', 'reg07', 'gmem[%d]' % rnd.randrange(8), 'megabuf(%d)' % rnd.randrange(8)])
    def lv(): return rnd.choice(['a', 'b', 'c', 'd', 'reg00', 'reg07', 'gmem[%d]' % rnd.randrange(8), 'megabuf(%d)' % rnd.randrange(8)])
    def ex(d, c=False):
        r = rnd.random()
        c = c or rnd.random() < .1
        if d <= 0 or r < .12: return leaf(c)
        if r < .32: return '(%s %s %s)' % (ex(d - 1, c), rnd.choice(DIFF_OPS), ex(d - 1, c))
        if r < .48 and not c: return '(%s %s %s)' % (lv(), rnd.choice(['=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=']), ex(d - 1, c))
        if r < .52: return '(%s%s)' % (rnd.choice('-!+'), ex(d - 1, c))
        if r < .57: return '(%s ? %s : %s)' % (ex(d - 1, c), ex(d - 1, c), ex(d - 1, c))
        if r < .63: return '(' + ls(d - 1, c) + ')'
        if r < .68: return 'loop(%d, %s)' % (rnd.randrange(0, 4), ls(d - 1, c))
        if r < .70 and not c: return '(d=%d; while(%s; d=d-1; d>0))' % (rnd.randrange(0, 4), ex(d - 2, c).replace('d', 'a'))
        if r < .76 and not c: return 'memset(%s,%s,%d)' % (ex(0, True), ex(d - 1), rnd.randrange(4))
        if r < .79 and not c: return 'memcpy(%d,%d,%d)' % (rnd.randrange(8), rnd.randrange(8), rnd.randrange(4))
        if r < .81: return 'freembuf(%s)' % ex(d - 1, c)
        f = rnd.choice(fns)
        if c and f['name'].lower() in ('assign', 'megabuf', '_mem', '_gmem', 'gmegabuf') or f['name'].endswith('op') and f['name'] not in ('_sub',):
            return leaf(c)
        if f['name'] in ('_set', 'assign'): return '%s(%s,%s)' % (f['name'], lv(), ex(d - 1, c))
        if f['name'] in ('megabuf', '_mem', '_gmem', 'gmegabuf'): return '%s(%d)' % (f['name'], rnd.randrange(8))
        return '%s(%s)' % (f['name'], ','.join(ls(d - 1, c) for _ in range(f['arity'])))
    def ls(d, c=False):
        return '; '.join(ex(d, c) for _ in range(rnd.choice([1, 1, 1, 2, 2, 3, 4])))
    out = []
    while len(out) < n:
        s = ls(rnd.randrange(1, 4))
        if len(s) < 1500: out.append(s.encode())
    return out

# ---------------------------------------------------------------- running
def driver(env):
    with env.lock2:
        if hasattr(env, 'driver_exe'): return env.driver_exe
    import props
    d = env.tmp('driver')
    san = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fwrapv', '-fno-builtin']
    objs = table.build_lib(env, ['-O1'] + san, 'driverlib')
    exe = os.path.join(d, 'driver')
    run(['gcc', '-g', '-O1', '-w', '-Werror=implicit-function-declaration'] + san + CFLAGS + ['-I', env.src, '-I', env.src + '/projectm-eval', '-I', env.src + '/projectm-eval/api', os.path.join(HARNESS, 'driver.c')] + objs +
        ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup')), '-lm', '-o', exe], timeout=200)
    with env.lock2: env.driver_exe = exe
    return exe

def run_driver(env, mode, ts, timeout=200):
    """Lines printed for the texts; shorter if the driver died."""
    exe = driver(env)
    d = env.tmp('texts')
    f = os.path.join(d, 'in')
    open(f, 'wb').write(b''.join(b'%d\n%s' % (len(t), t) for t in ts))
    rc, out, _ = run([exe, mode, f], timeout=timeout, check=False, mem_gb=None, env={'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'})
    return rc, out

NT = {'quick': 6000, 'thorough': 60000}
def check_tree(env):
    r = Result(TREE); r.solver = 'reference scanner and parser'
    tab = tablecheck.spec_table(env)
    ts = texts(tab, SEED, NT.get(TIER, 6000))
    lex, par = Lex([e['name'] for e in tab]), Parser(tab)
    # in parallel pieces
    k = (len(ts) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: run_driver(env, 'tree', p), [ts[i:i + k] for i in range(0, len(ts), k)]))
    bad = []
    def report(t, tags, text): bad.append((t, tags, text))
    n = 0
    for p, (rc, out) in enumerate(outs):
        part = ts[p * k:(p + 1) * k]
        lines = [l for l in out.split('\n') if l.count('\t') >= 4]
        if rc != 0:
            if len(lines) >= len(part): raise ToolError('driver rc=%d %s' % (rc, out[-300:]))
            m = re.search(r'(runtime error:[^\n]*|ERROR: AddressSanitizer:[^\n]*|Assertion[^\n]*)', out)
            report(part[len(lines)], {'C13', 'C07', 'C15', 'C19', 'C12', 'C14'}, 'compiling breaks: ' + (m.group(1) if m else 'rc=%d' % rc))
        for t, l in zip(part, lines):
            n += 1
            f = l.split('\t')
            toks, verdict, err, tree, leak = f[0].split(' ')[:-1], f[1], f[2], f[3], f[-1]
            if 'BADNULL' in f: report(t, {'C13'}, 'executing a null program gives no 0')
            if leak != '0': report(t, {'C13', 'C14'}, '%s objects not released' % leak)
            want = lex.tokens(t)
            wt = [k if k != 'N' else 'N' + float(v).hex() for k, v in want]
            wt = [('V' + v if k == 'V' else 'F' + v if k == 'F' else x) for x, (k, v) in zip(wt, want)]
            got = [('N' + float.fromhex(x[1:]).hex() if x[0] == 'N' else x) for x in toks]
            if got != wt:
                kinds = {'C19'} | ({'C12'} if [x[1:] if x[:1] in 'FV' else x for x in got] == [x[1:] if x[:1] in 'FV' else x for x in wt] else set())
                report(t, kinds, 'tokens: %s; documented: %s' % (' '.join(got)[:300], ' '.join(wt)[:300]))
                continue
            try:
                e, rej = canon(par.parse(want)), None
            except Reject as x: rej = x
            except RecursionError: continue
            if (verdict == 'A') != (rej is None):
                report(t, {'C12'} if rej is not None and rej.kind == 'arity' else {'C15', 'C12'}, 'accepted' if verdict == 'A' else 'rejected: ' + err)
                continue
            if (err != '-') != (verdict == 'R') or err == 'E':
                report(t, {'C13'}, ('rejected without an error message' if verdict == 'R' else 'accepted with the error ' + err))
            if rej is None:
                g = canon(read(tree)) if tree not in ('-',) else None
                if g != e and not (repr(g) == repr(e)):
                    A, B = sorted(map(repr, nodes_of(g))), sorted(map(repr, nodes_of(e)))
                    report(t, {'C15'} if A == B else {'C15', 'C12', 'C11'}, 'compiled to %s; documented: %s' % (show(g)[:300], show(e)[:300]))
            elif rej.kind == 'arity':
                nm, a, b = rej.args_
                nums = re.findall(r'\d+', err.lower().replace(nm.lower(), '', 1))
                if nm.lower() not in err.lower() or str(a) not in nums or str(b) not in nums:
                    report(t, {'C12'}, 'error message does not name function and counts: ' + err)
    r.extra['cases'] = n
    r.status = 'explored'
    if bad:
        r.status = 'fail'
        seen = {}
        for t, tags, text in bad:
            for tag in tags: seen.setdefault((tag,), (t, text))
        bytag = {}
        for (tag,), (t, text) in seen.items(): bytag.setdefault((t, text), set()).add(tag)
        for (t, text), tags in bytag.items():
            r.failed.append({'tags': sorted(tags), 'text': text, 'property': 'native', 'loc': {}, 'confirmed': True, 'log': 'source text: %r\n%s' % (t, text)})
    return [r]

def check_diff(env):
    r = Result(DIFF); r.solver = 'differential run'
    tab = tablecheck.spec_table(env)
    ts = diff_texts(tab, SEED, {'quick': 12000}.get(TIER, 100000))
    k = (len(ts) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: run_driver(env, 'diff', p), [ts[i:i + k] for i in range(0, len(ts), k)]))
    n = 0
    for p, (rc, out) in enumerate(outs):
        part = ts[p * k:(p + 1) * k]
        lines = [l for l in out.split('\n') if re.match(r'\d+\t.', l)]
        n += len(lines)
        for t, l in zip(part, lines):
            if not l.endswith('ok') and not r.failed:
                r.failed.append({'tags': ['C08'], 'text': l.split('\t', 1)[1], 'property': 'native', 'loc': {}, 'confirmed': True, 'log': 'source text: %r\n%s' % (t, l)})
        if rc != 0 and not r.failed:
            m = re.search(r'(runtime error:[^\n]*|ERROR: AddressSanitizer:[^\n]*|Assertion[^\n]*)', out)
            t = part[len(lines)] if len(lines) < len(part) else b'?'
            r.failed.append({'tags': ['C08'], 'text': 'running breaks: ' + (m.group(1) if m else 'rc=%d' % rc), 'property': 'native', 'loc': {}, 'confirmed': True, 'log': 'source text: %r\n%s' % (t, out[-1500:])})
    r.extra['cases'] = n
    r.status = 'fail' if r.failed else 'explored'
    return [r]

TREE = Custom('whole source texts against a reference scanner and parser', check_tree, ['C12', 'C13', 'C14', 'C15', 'C19'], cost=50)
TREE.bounded = 'generated source texts'
DIFF = Custom('programs with and without optimisation', check_diff, ['C08'], cost=40)
DIFF.bounded = 'generated programs'
def tree_units(env): return [TREE], []
def diff_units(env): return [DIFF], []
