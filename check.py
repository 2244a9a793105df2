#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree. See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vk'))
from core import *
import props

def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'open: property=(C\d\d) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    pid = sys.argv[1]
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    env = None
    results, notes, violations, confirmed = [], [], [], {}
    try:
        try:
            env = Env()
            units, notes, early = props.units_for(env, pid)
            # longest first
            units.sort(key=lambda u: -u.cost)
            with ThreadPoolExecutor(int(os.environ.get('VK_JOBS', '8'))) as ex:
                for rs in ex.map(lambda u: settle(env, u), units):
                    results += rs
            results += early
        except ToolError as e:
            notes.append('setup: ' + str(e))
        known = known_findings(pid)
        seen = set()
        n = 0
        for r in results:
            fails = [f for f in r.failed if pid in f['tags']]
            if r.status != 'fail' or not fails:
                continue
            key = re.sub(r'\W+', '_', r.unit.name).strip('_')
            k = [d for kk, d in known if kk == key]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
                continue
            n += 1
            path = os.path.join(rdir, '%s_%s.txt' % (pid, key[:80]))
            ok, log = False, ''
            if any(f.get('confirmed') for f in fails):
                ok, log = True, '\n'.join(f.get('log', '') for f in fails)
            elif isinstance(r.unit, Unit) and n <= 6:
                try:
                    ok, log = replay(env, r, pid, fails)
                except Exception as e:
                    log = 'replay failed: %r' % e
            else:
                log = '\n'.join(f.get('log', '') for f in fails)
            with open(path, 'w') as f:
                f.write('property %s\nunit: %s\nfunction under contract: %s\n' % (pid, r.unit.name, getattr(r.unit, 'func', None)))
                for x in fails:
                    f.write('failed obligation: %s\n  %s\n  at %s\n' % (x['property'], x['text'], json.dumps(x.get('loc', {}))))
                f.write('decided by: %s\n' % (' '.join(r.extra.get('cmd', [])) or r.solver))
                f.write('replay on the running code: %s\n%s\n' % ('confirmed' if ok else 'no failing input found', log))
            violations.append((path, ok, r, fails))
        violations.sort(key=lambda v: not v[1])
        evidence(pid, results, notes, violations, props.INFO[pid])
        for path, ok, r, fails in violations:
            print('%s: %s' % (r.unit.name, fails[0]['text']))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if ok else ' no-failing-input-found'))
        return 1 if violations else 0
    finally:
        if env:
            env.close()

def evidence(pid, results, notes, violations, info):
    proofs = [r for r in results if r.status in ('ok', 'fail') and r.obligations and not r.unit.bounded]
    bnd = [r for r in results if r.status == 'explored' or (r.unit.bounded and r.status != 'undecided')]
    und = [r for r in results if r.status == 'undecided']
    by = {}
    for r in proofs:
        k = by.setdefault(r.solver or 'other', {'units': 0, 'obligations': 0, 'discharged': 0, 'solver_seconds': 0.0})
        k['units'] += 1; k['obligations'] += r.obligations; k['discharged'] += r.discharged
        k['solver_seconds'] = round(k['solver_seconds'] + r.seconds, 1)
    cov = {
        'obligations': sum(r.obligations for r in proofs),
        'discharged': sum(r.discharged for r in proofs),
        'checker_cmd': 'goto-cc; goto-instrument --dfcc harness --enforce-contract <function>; cbmc --conversion-check --slice-formula [--cvc5 --fpa] (per unit, on a mirror of /repo made on this run)',
        'trusted_base': info['trusted'],
        'by_back_end': by,
        'functions_under_contract': sorted({t for r in proofs for t in getattr(r.unit, 'targets', [])}),
        'units': [{'unit': r.unit.name, 'status': r.status, 'obligations': r.obligations, 'seconds': round(r.seconds, 1)} for r in proofs],
        'bounded_stand_ins': [{'unit': r.unit.name, 'reason': r.unit.bounded or r.extra.get('undecided', ''), 'cases': r.extra.get('cases', 0), 'bound': r.extra.get('bound', 'generated inputs')} for r in bnd],
        'undecided': [{'unit': r.unit.name, 'why': r.why[:400]} for r in und],
        'notes': notes,
    }
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': info['level'], 'coverage': cov,
          'assumptions': info['trusted'], 'wall_s': round(time.time() - T0, 1),
          'violations': [{'replay': p, 'confirmed': ok, 'unit': r.unit.name, 'obligation': f[0]['text']} for p, ok, r, f in violations]}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
