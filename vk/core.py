"""Machinery shared by all checks: mirror of /repo, the verifier pipeline (CBMC contracts), native replay."""
import os, re, sys, json, time, shutil, subprocess, tempfile, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
REPO = os.environ.get('VK_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()
BUDGET = float(os.environ.get('VK_BUDGET', '700' if TIER == 'quick' else '3000'))

class ToolError(Exception):
    pass

def left():
    return BUDGET - (time.time() - T0)

def run(cmd, timeout=120, cwd=None, check=True, env=None, mem_gb=6):
    """Runs a command in its own process group, with a memory limit; returns (rc, stdout+stderr, seconds)."""
    import resource, signal
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lim,
                         env=dict(os.environ, LC_ALL='C.UTF-8', **(env or {})))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise ToolError('timeout after %ds: %s' % (timeout, ' '.join(cmd)[:300]))
    out = out.decode('utf-8', 'replace')
    if check and p.returncode != 0:
        raise ToolError('rc=%d: %s\n%s' % (p.returncode, ' '.join(cmd)[:400], out[-1500:]))
    return p.returncode, out, time.time() - t

class Env:
    """Scratch directory with a mirror of the sources as the build compiles them."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vk.')
        self.src = os.path.join(self.dir, 'src')
        os.makedirs(self.src)
        for d in ('projectm-eval', 'ns-eel2-shim'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.src, d), symlinks=True)
        self.assumptions = set()
        pe = os.path.join(self.src, 'projectm-eval')
        # The build regenerates parser and scanner because their sources differ from the ones the committed
        # files were generated from (see build.sh); so do we.
        for stem, cmd in (('Compiler', ['bison', '--defines=Compiler.h', '--no-lines', '-o', 'Compiler.c', 'Compiler.y']),
                          ('Scanner', ['flex', '--noline', '--prefix=prjm_eval_', '--header-file=Scanner.h', '-o', 'Scanner.c', 'Scanner.l'])):
            run(cmd, cwd=pe)
        self.lock, self.lock2 = threading.Lock(), threading.Lock()
        self.n = 0

    def tmp(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, 'u%04d_%s' % (self.n, re.sub(r'\W', '_', name)[:40]))
        os.makedirs(d)
        return d

    def close(self):
        if not os.environ.get('VK_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

CFLAGS = ['-DPRJM_F_SIZE=8']

class Unit:
    """One proof: a harness, the contract it enforces and how to discharge it."""
    def __init__(self, name, harness, props, defs=(), func=None, fp=(), replace=(), solver='sat', flags=(), unwind=None,
                 timeout=150, assigns_tag='C02 C20', builtin_tag='C07', bounded=None, native=True,
                 targets=(), srcdir=None, cost=1.0, checks=True, cut=None, group=None, nlib=(), calls=(), bounded_only=False):
        self.__dict__.update(locals())
        self.mem_gb = 6
        self.cutstubs, self.filter, self.cutunwind, self.ng = None, False, 2, 0   # see cut.prove_cut
        self.archive = False   # link the rest of the library natively
        self.explore = (100000, 60)   # cases and seconds of a bounded run
        self.alsorun = False   # the fallback is also run on the compiled code
        self.fallback = None   # unit without abstraction, decides when this one fails
        self.props = set(props)
        self.targets = list(targets) or ([func] if func else [])

class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'undecided'; self.why = ''
        self.obligations = 0; self.discharged = 0; self.failed = []; self.seconds = 0.0; self.solver = ''
        self.raw = ''; self.extra = {}

TAGRE = re.compile(r'^((?:C\d\d\s*)+):')

def tags_of(text):
    m = TAGRE.match(text or '')
    return set(m.group(1).split()) if m else set()

_src_cache = {}
def src_line(path, line):
    if path not in _src_cache:
        try:
            _src_cache[path] = open(path, errors='replace').read().split('\n')
        except OSError:
            _src_cache[path] = []
    l = _src_cache[path]
    return l[line - 1] if 0 < line <= len(l) else ''

def fp_calls(gb, d):
    """Names of all function pointer call sites in a goto binary."""
    _, out, _ = run(['goto-instrument', '--show-goto-functions', gb], timeout=60)
    sites, fn, n = [], None, 0
    for line in out.split('\n'):
        m = re.match(r'^(\S+) /\* (\S+) \*/$', line)
        if m:
            fn, n = m.group(2), 0
            continue
        if re.search(r'^\s+CALL (?:[^:]*:= )?\*', line) or re.search(r'^\s+CALL .*:= \(?\*', line):
            n += 1
            sites.append('%s.function_pointer_call.%d' % (fn, n))
    return sites

def cbmc_json(cmd, timeout, mem_gb=6):
    rc, out, sec = run(cmd + ['--json-ui'], timeout=timeout, check=False, mem_gb=mem_gb)
    try:
        data = json.loads(out)
    except Exception:
        i = out.find('[')
        try:
            data = json.loads(out[i:out.rindex(']') + 1])
        except Exception:
            raise ToolError('cbmc rc=%d: %s' % (rc, out[-800:]))
    res = None
    for x in data:
        if isinstance(x, dict) and 'result' in x:
            res = x['result']
    if res is None:
        msgs = [x.get('messageText', '') for x in data if isinstance(x, dict) and x.get('messageType') == 'ERROR']
        raise ToolError('cbmc gave no result: ' + ' | '.join(msgs)[-800:] + (out[-300:] if not msgs else ''))
    return res, sec

def build_goto(env, u, d, srcdir):
    gb = os.path.join(d, 'a.gb')
    inc = ['-I', srcdir, '-I', HARNESS, '-I', os.path.join(srcdir, 'projectm-eval'), '-I', os.path.join(srcdir, 'projectm-eval', 'api')]
    run(['goto-cc'] + CFLAGS + list(u.defs) + inc + ['--function', 'harness', os.path.join(HARNESS, u.harness), '-o', gb], timeout=60)
    if u.fp:
        sites = fp_calls(gb, d)
        args = []
        for s in sites:
            args += ['--restrict-function-pointer', s + '/' + ','.join(u.fp)]
        if args:
            run(['goto-instrument'] + args + [gb, gb], timeout=60)
    run(['goto-instrument', '--remove-function-pointers', gb, gb], timeout=60)
    for f, g in u.calls:
        # replace calls to a function which has its own contract (proved in its own unit) by that contract
        rc, out, _ = run(['goto-instrument', '--replace-calls', '%s:%s' % (f, g), gb, gb + '2'], timeout=60, check=False)
        if rc == 0:
            os.replace(gb + '2', gb)
    run(['goto-instrument', '--drop-unused-functions', gb, gb], timeout=60)
    if u.func or u.replace:
        out = os.path.join(d, 'b.gb')
        cmd = ['goto-instrument', '--dfcc', 'harness']
        if u.func:
            cmd += ['--enforce-contract', u.func]
        for r in u.replace:
            cmd += ['--replace-call-with-contract', r]
        run(cmd + [gb, out], timeout=120)
        gb = out
    return gb

def cbmc_cmd(u, gb):
    cmd = ['cbmc', gb, '--conversion-check', '--slice-formula']
    if u.solver == 'cvc5':
        cmd += ['--cvc5', '--fpa']
    elif u.solver == 'z3':
        cmd += ['--z3', '--fpa']
    elif u.solver == 'cvc5int':
        cmd += ['--cvc5']
    if u.unwind:
        cmd += ['--unwind', str(u.unwind), '--unwinding-assertions']
    return cmd + list(u.flags)

def classify(u, r, srcdir):
    """(tags, text) of a failed obligation; tags empty = not one of ours (tool-internal)."""
    prop, desc = r['property'], r.get('description', '')
    loc = r.get('sourceLocation', {}) or {}
    f, line = loc.get('file', ''), int(loc.get('line', 0) or 0)
    path = f if os.path.isabs(f) else os.path.join(HARNESS, f)
    insrc = not os.path.realpath(path).startswith(HARNESS) and not path.startswith('<') and not path.endswith('rules.h')
    if desc.startswith('VKINV'):
        return {'INV'}, desc
    t = tags_of(desc)
    if t:
        return t, desc
    if '.postcondition.' in prop:
        m = re.search(r'ENSURES\("([^"]*)"', src_line(path, line))
        text = m.group(1) if m else desc
        return tags_of(text) or set(u.props), text
    if '.precondition.' in prop or 'requires clause' in desc:
        return set(u.props), 'precondition of a callee: ' + desc
    if '.assigns.' in prop or 'is assignable' in desc or 'is freeable' in desc:
        if not insrc:
            return set(), desc
        return set(u.assigns_tag.split()), 'frame: %s (%s:%d)' % (desc, os.path.basename(path), line)
    if '.unwind.' in prop or 'unwinding assertion' in desc or 'recursion' in desc:
        return {'UNWIND'}, desc
    if '__CPROVER_contracts' in prop or 'builtin-library-__CPROVER' in path:
        return set(), desc
    if not insrc and not path.startswith('<builtin-library'):
        return set(), desc
    if 'type conversion' in desc and 'float' not in desc:
        return set(), desc
    if 'overflow on' in desc and 'unsigned' in desc and 'conversion' not in desc:
        return set(), desc
    if re.search(r'arithmetic overflow on signed (\+|-|\*|unary minus) in', desc):
        return set(), desc   # two's complement machine arithmetic: wraps around (C07), as in the verifier's semantics
    return set(u.builtin_tag.split()), 'undefined behaviour: %s (%s:%d, %s)' % (desc, os.path.basename(path), line, loc.get('function', ''))

def prove(env, u):
    """Discharges all obligations of a unit."""
    r = Result(u)
    t = time.time()
    try:
        if left() < 20:
            raise ToolError('time budget used up')
        d = env.tmp(u.name)
        srcdir = u.srcdir(env) if callable(u.srcdir) else (u.srcdir or env.src)
        gb = build_goto(env, u, d, srcdir)
        cmd = cbmc_cmd(u, gb)
        res, _ = cbmc_json(cmd, min(u.timeout, max(20, left())), u.mem_gb)
        r.solver = {'sat': 'CBMC 6.11 SAT (%s)' % ('CaDiCaL' if 'cadical' in cmd else 'MiniSat'), 'cvc5': 'cvc5 1.1.2 (FP)', 'cvc5int': 'cvc5 1.1.2', 'z3': 'z3'}[u.solver]
        canary = [x for x in res if x.get('description') == 'VACUITY']
        probes = {x['description']: x['status'] for x in res if re.match(r'VK(BASE|REACH) ', x.get('description', ''))}
        obls = [x for x in res if x.get('description') != 'VACUITY' and x.get('description') not in probes]
        bad = [x for x in obls if x['status'] != 'SUCCESS']
        r.obligations = len(obls)
        ign = 0
        unknown = False
        for x in bad:
            tg, text = classify(u, x, srcdir)
            if 'UNWIND' in tg:
                unknown = True
                r.why = 'not all paths covered: ' + text
                continue
            if not tg:
                ign += 1
                continue
            if x['status'] == 'FAILURE':
                r.failed.append({'tags': sorted(tg), 'text': text, 'property': x['property'], 'loc': x.get('sourceLocation', {})})
            else:
                unknown = True
                r.why = 'solver returned %s for %s' % (x['status'], x['property'])
        r.obligations -= ign
        r.discharged = r.obligations - len(r.failed)
        r.extra['gb'] = gb
        r.extra['cmd'] = cmd
        r.extra['srcdir'] = srcdir
        if r.failed:
            r.status = 'fail'
        elif unknown:
            r.status = 'undecided'
        elif not canary or any(x['status'] != 'FAILURE' for x in canary):
            r.status, r.why = 'undecided', 'vacuous: the reachability probe behind the precondition did not fail'
        elif any(st == 'FAILURE' and probes.get('VKREACH' + k[6:]) != 'FAILURE' for k, st in probes.items() if k.startswith('VKBASE')):
            r.status, r.why = 'undecided', 'vacuous: no iteration of a loop reaches its end under the inferred invariants'
        elif r.obligations == 0:
            r.status, r.why = 'undecided', 'no obligations'
        else:
            r.status = 'ok'
    except ToolError as e:
        r.why = str(e)
    r.seconds = time.time() - t
    return r

# ---------------------------------------------------------------- replay of counterexamples on the running code

def trace_inputs(r, prop):
    """Values of the nondeterministic inputs in the verifier's counterexample, in order."""
    cmd = r.extra['cmd'] + ['--property', prop, '--trace']
    res, _ = cbmc_json(cmd, 120)
    for x in res:
        if x['property'] == prop and x.get('trace'):
            vals = []
            for s in x['trace']:
                if s.get('stepType') == 'assignment' and re.search(r'(^|::)vk_nd$', s.get('lhs', '')):
                    v = s.get('value', {})
                    b = v.get('binary')
                    if v.get('name') == 'float' and b and len(b) == 64:
                        import struct
                        d = struct.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0]
                        vals.append(repr(d) if d == d and abs(d) != float('inf') else ('nan' if d != d else ('inf' if d > 0 else '-inf')))
                    elif b:
                        n = int(b, 2)
                        if v.get('type', '').startswith('unsigned') is False and b[0] == '1' and v.get('name') == 'integer':
                            n -= 1 << len(b)
                        vals.append(str(n))
                    else:
                        vals.append(str(v.get('data', '0')))
            # declarations without value come as an assignment with an unknown value first: keep the last per step
            return vals, x['trace']
    return None, None

def native_build(env, u, srcdir, d, san=True):
    exe = os.path.join(d, 'replay')
    inc = ['-I', srcdir, '-I', HARNESS, '-I', os.path.join(srcdir, 'projectm-eval'), '-I', os.path.join(srcdir, 'projectm-eval', 'api')]
    cmd = ['gcc', '-g', '-O1', '-w', '-DVK_NATIVE', '-fno-builtin'] + CFLAGS + list(u.defs) + inc
    if san:
        cmd += ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fwrapv']
    lib = list(u.nlib)
    if u.archive:
        import table
        lib.append(table.archive(env))
    cmd += [os.path.join(HARNESS, u.harness), os.path.join(HARNESS, 'native.c')] + lib + ['-lm', '-o', exe]
    run(cmd, timeout=120)
    return exe

def native_run(exe, args, timeout=60):
    try:
        rc, out, _ = run([exe] + args, timeout=timeout, check=False, mem_gb=None,
                         env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0'})
    except ToolError as e:
        return None, str(e)
    return rc, out

def native_tags(out, u):
    t = set()
    texts = []
    for m in re.finditer(r'^FAIL (.*)$', out, re.M):
        if m.group(1).startswith('sanitizer'):
            t |= set(u.builtin_tag.split())
            e = re.search(r'(runtime error:.*|ERROR: AddressSanitizer:[^\n]*)', out)
            texts.append(e.group(1) if e else 'sanitizer report')
        else:
            t |= tags_of(m.group(1))
            texts.append(m.group(1))
    if 'Assertion' in out and 'failed' in out:
        t |= set(u.builtin_tag.split()); texts.append(re.search(r'[^\n]*Assertion[^\n]*', out).group(0))
    return t, texts

def replay(env, r, pid, fails):
    """Tries to show a failed obligation on the running code. Returns (confirmed, text)."""
    u = r.unit
    log = []
    if not u.native:
        return False, 'no native replay for this unit'
    try:
        d = env.tmp(u.name + '_replay')
        exe = native_build(env, u, r.extra.get('srcdir', env.src), d)
    except ToolError as e:
        return False, 'native build failed: %s' % e
    for f in fails[:3]:
        try:
            vals, _ = trace_inputs(r, f['property'])
        except ToolError as e:
            log.append('no trace: %s' % e)
            continue
        if not vals:
            continue
        fn = os.path.join(d, 'inputs.txt')
        open(fn, 'w').write('\n'.join(vals) + '\n')
        rc, out = native_run(exe, ['replay', fn])
        log.append('verifier counterexample inputs: %s\nnative run rc=%s:\n%s' % (' '.join(vals), rc, (out or '')[-1500:]))
        if rc not in (0, None):
            tg, texts = native_tags(out, u)
            if pid in tg:
                return True, '\n'.join(log)
    rc, out = native_run(exe, ['search', '200000', str(SEED)], timeout=60)
    log.append('native search rc=%s:\n%s' % (rc, (out or '')[-1500:]))
    if rc not in (0, None):
        tg, texts = native_tags(out, u)
        if pid in tg:
            return True, '\n'.join(log)
    return False, '\n'.join(log)

def explore(env, u, n=100000, timeout=60):
    """Bounded stand-in: runs the contract on generated inputs. Returns a Result (status ok = nothing found)."""
    r = Result(u)
    t = time.time()
    try:
        d = env.tmp(u.name + '_explore')
        srcdir = u.srcdir(env) if callable(u.srcdir) else (u.srcdir or env.src)
        exe = native_build(env, u, srcdir, d)
        rc, out = native_run(exe, ['search', str(n), str(SEED)], timeout)
        r.raw = out
        if rc is None:
            r.why = out
        elif rc == 0:
            r.status = 'explored'
            m = re.search(r'OK (\d+) cases', out)
            r.extra['cases'] = int(m.group(1)) if m else 0
        else:
            tg, texts = native_tags(out, u)
            if tg:
                r.status = 'fail'
                m = re.search(r'^INPUTS(.*)$', out, re.M)
                r.failed = [{'tags': sorted(tg), 'text': '; '.join(texts), 'property': 'native', 'loc': {}, 'confirmed': True, 'log': out[-3000:]}]
            else:
                r.why = 'native run: ' + out[-500:]
    except ToolError as e:
        r.why = str(e)
    r.seconds = time.time() - t
    return r


class Custom:
    """A check which is no contract proof by CBMC: fn(env) returns a list of Results."""
    def __init__(self, name, fn, props, cost=5.0):
        self.name, self.fn, self.props, self.cost = name, fn, set(props), cost
        self.bounded = None

def settle(env, u):
    """Decides a unit: proof, or - if it stays undecided - a bounded run of the same contract."""
    if isinstance(u, Custom):
        t = time.time()
        try:
            rs = u.fn(env)
        except ToolError as e:
            r = Result(u); r.why = str(e); rs = [r]
        except Exception as e:
            import traceback
            r = Result(u); r.why = 'error: ' + traceback.format_exc()[-600:]; rs = [r]
        for r in rs:
            if not r.seconds: r.seconds = (time.time() - t) / max(1, len(rs))
        return rs
    if u.bounded_only:
        return [explore(env, u, *u.explore)]
    if u.cut:
        import cut
        r = cut.prove_cut(env, u)
        if r.status == 'ok':
            if u.alsorun and left() > 60:
                e = explore(env, u.fallback, *u.fallback.explore)
                if e.status == 'fail':
                    return [e]
                r.extra['also run'] = e.extra.get('cases', 0)
            return [r]
        b = Result(u.fallback) if u.fallback.bounded_only else prove(env, u.fallback)
        if b.status == 'fail':
            return [b]
        e = explore(env, u.fallback, *u.fallback.explore)
        if e.status == 'undecided':
            e.status = 'explored' if b.status == 'ok' else 'undecided'
        e.extra['undecided'] = r.why
        e.extra['bound'] = u.fallback.bounded
        return [e]
    r = prove(env, u)
    if r.status == 'ok' and u.archive and u.native and left() > 60:
        # the verifier's models of library functions are not trusted alone: the same contract is evaluated on the compiled code
        e = explore(env, u, *u.explore)
        if e.status == 'fail':
            return [e]
        r.extra['also run'] = e.extra.get('cases', 0)
    if r.status == 'fail' and u.fallback is not None:
        if u.fallback.bounded_only:
            e = explore(env, u.fallback, *u.fallback.explore)
            e.extra['undecided'] = 'proof failed: ' + '; '.join(f['text'] for f in r.failed[:3])
            return [e]
        r2 = prove(env, u.fallback)
        r2.extra['abstract'] = r
        r = r2
    if r.status == 'undecided' and u.fallback is not None and u.fallback.bounded_only and left() > 30:
        e = explore(env, u.fallback, *u.fallback.explore)
        e.extra['undecided'] = r.why
        return [e]
    if r.status == 'undecided' and u.native and left() > 30:
        e = explore(env, u, *u.explore)
        e.extra['undecided'] = r.why
        if e.status in ('explored', 'fail'):
            return [e]
        r.why += ' | ' + e.why
    return [r]
