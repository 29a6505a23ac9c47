#!/usr/bin/env python3
"""One property check:  python3 check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. deductive part: vc/ generates the obligations of the property's contracts from /repo's current source and discharges them;
2. concrete part: conc/ runs the same contracts on the real code (replay of failed obligations, CPython cross-check, bounded stand-in).
Verdicts: see DESIGN.md."""
import json
import os
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EV = os.path.join(V, 'evidence')


def sh_conc(args, timeout):
    cmd = '. /opt/vp/env.sh; export PYTHONPATH="%s:%s" PYTHONDONTWRITEBYTECODE=1; exec python -W ignore -m conc.main "$@"' % (REPO, V)
    return subprocess.run(['bash', '-c', cmd, 'conc'] + args, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def run_conc(pid, seed, budget, procs):
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    try:
        p = sh_conc([pid, '--budget', str(budget), '--procs', str(procs), '--seed', str(seed), '--out', out], budget + 200)
        try:
            return json.load(open(out))
        except Exception:
            return dict(pid=pid, evaluations=0, distinct=0, fails=[], errs=[p.stderr[-3000:]], nerr=1, samples=[], wall=0.0)
    except subprocess.TimeoutExpired:
        return dict(pid=pid, evaluations=0, distinct=0, fails=[], errs=['timeout'], nerr=1, samples=[], wall=budget)
    finally:
        os.unlink(out)


def run_vc(pid, tier, timeout):
    if not os.path.exists(os.path.join(V, 'vc', 'main.py')):
        return None
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    try:
        p = subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-m', 'vc.main', pid, '--tier', tier, '--out', out], cwd=V, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        try:
            r = json.load(open(out))
            return r
        except Exception:
            return dict(pid=pid, error=(p.stderr or p.stdout)[-3000:])
    except subprocess.TimeoutExpired:
        return dict(pid=pid, error='timeout of the verifier')
    finally:
        os.unlink(out)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    thorough = tier == 'thorough'
    vc = run_vc(pid, tier, 700 if thorough else 420)
    conc = run_conc(pid, seed, 90 if thorough else 12, 8 if thorough else 6)
    failed_obl = list((vc or {}).get('failed', []))
    if failed_obl and not conc['fails']:
        # an obligation fails and the cross-check found no input: search longer for one
        conc2 = run_conc(pid, seed + 17, 200 if thorough else 60, 8)
        for k in ('evaluations', 'distinct', 'nerr'): conc[k] += conc2[k]
        conc['fails'] += conc2['fails']; conc['errs'] += conc2['errs']
    known = known_findings(pid)
    new = [f for f in conc['fails'] if not any(k in m for k in known for m in f[1])]
    rc = 0
    lines = []
    nviol = 0
    for k in known:
        lines.append(f'KNOWN-FINDING: property={pid} {k}')
    if new:
        path = os.path.join(EV, f'replay_{pid}.json')
        json.dump(dict(property=pid, case=new[0][0], messages=new[0][1], failed_obligations=failed_obl[:20],
                       how=f'. /opt/vp/env.sh; cd /verif; PYTHONPATH=/repo:/verif python -m conc.main {pid} --replay {path}'), open(path, 'w'), indent=1, default=str)
        for m in new[0][1][:4]: print('  ', m)
        lines.append(f'VIOLATION property={pid} replay={path}')
        rc = 1; nviol = 1
    elif failed_obl:
        path = os.path.join(EV, f'replay_{pid}.json')
        json.dump(dict(property=pid, failed_obligations=failed_obl[:50], note='no failing input was found on the real code', concrete_cases=conc['evaluations']), open(path, 'w'), indent=1, default=str)
        for o in failed_obl[:5]: print('   failed obligation:', str(o)[:400])
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        rc = 1; nviol = 1
    elif conc['evaluations'] - conc['nerr'] <= 0:
        print('concrete part did not run:', conc['errs'][:1]); rc = 2
    evidence(pid, tier, seed, vc, conc, time.time() - t0, nviol)
    for l in lines: print(l)
    if rc == 0:
        print(f'{pid}: ok; obligations {(vc or {}).get("discharged", 0)}/{(vc or {}).get("obligations", 0)} discharged, '
              f'{conc["evaluations"]} concrete cases, {time.time() - t0:.1f}s')
    sys.exit(rc)


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'finding: property={pid} '):
                out.append(l.split(' ', 2)[2].strip())
    return out


def evidence(pid, tier, seed, vc, conc, wall, nviol):
    level = level_of(pid)
    vc = vc or {}
    if level == 'proof' and (vc.get('error') or vc.get('undecided') or not vc.get('obligations') or vc.get('discharged') != vc.get('obligations')):
        level = 'exploration'          # this run did not discharge everything: what remains is the bounded concrete part
    cov = dict(evaluations=conc['evaluations'], distinct_nontrivial=conc['distinct'],
               rule='seeded random well-formed user problems (model, ocp, options) for this property; a case counts when its JSON description is new in this run; every case builds the real objects and compares them with an independent reading of the contract',
               samples=conc['samples'] or ['none'],
               obligations=vc.get('obligations', 0), discharged=vc.get('discharged', 0),
               checker_cmd=f'/opt/veriftools/pyvenv/bin/python -m vc.main {pid}',
               trusted_base=vc.get('trusted', ['no deductive part in this run']),
               functions_under_contract=vc.get('functions', []), obligations_by_backend=vc.get('by_backend', {}),
               solver_seconds=vc.get('solver_s', 0.0), undecided=vc.get('undecided', []), failed=vc.get('failed', []),
               vacuity=vc.get('vacuity', {}), bounded=vc.get('bounded', []),
               obligation_samples=vc.get('samples', []), verifier_error=vc.get('error'), concrete_errors=conc['errs'][:2])
    cov['explanation'] = 'obligations generated from the current source and discharged; concrete cases are the CPython cross-check / bounded stand-in'
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=vc.get('assumptions', []), wall_s=round(wall, 2), violations=nviol),
              open(os.path.join(EV, f'{pid}.json'), 'w'), indent=1, default=str)


def level_of(pid):
    m = json.load(open(os.path.join(V, 'MANIFEST.json')))
    for c in m['checks']:
        if c['property'] == pid: return c['level']
    return 'other'


if __name__ == '__main__':
    main()
