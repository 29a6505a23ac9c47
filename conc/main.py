"""Concrete side of a check: runs the property's contract checks on the real code (CPython, real casadi).

usage: python -m conc.main PID --budget SECONDS --procs N --seed S --out OUT.json
       python -m conc.main PID --replay FILE.json
Used as the replayer of failed obligations, as the CPython cross-check of the proofs, and as the (labelled) bounded
stand-in for functions that are outside the verifier's reach."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import nosnoc
REPO = os.environ.get('VERIF_REPO', '/repo')
assert os.path.realpath(nosnoc.__file__).startswith(os.path.realpath(REPO) + '/'), nosnoc.__file__
from . import checks


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def worker(a):
    pid, seed, k, budget, q = a
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    rng = random.Random(seed * 1000003 + k * 7919 + int(pid[1:]))
    t0 = time.time()
    n, keys, fails, errs, sample = 0, set(), [], [], None
    rounds = 0
    while True:
        batch = checks.CASES[pid](rng, 6)
        fixed = len(batch) > 6            # exhaustive / handwritten families come first, shared between workers
        if rounds:
            batch = batch[-6:] if pid != 'C04' else []
        else:
            head, tail = (batch[:-6], batch[-6:]) if pid != 'C04' else (batch, [])
            batch = head[k::NPROC] + tail
        if not batch:
            break
        rounds += 1
        for case in batch:
            try:
                f = checks.run_case(pid, case)
            except Exception:
                errs.append(traceback.format_exc()[-1500:])
                f = None
            n += 1
            keys.add(key(case))
            if sample is None:
                sample = case
            if f:
                fails.append([case, f[:6]])
                break
            if time.time() - t0 > budget:
                break
        if fails or time.time() - t0 > budget or len(errs) > 20:
            break
    q.put(dict(n=n, keys=sorted(keys), fails=fails, errs=errs[:3], nerr=len(errs), sample=sample))


NPROC = 1


def main():
    global NPROC
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--budget', type=float, default=20); ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--out'); ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        f = checks.run_case(a.pid, r['case'])
        print('property', a.pid, 'VIOLATED' if f else 'holds on this case')
        for m in f: print('  ', m)
        sys.exit(1 if f else 0)
    NPROC = a.procs
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=((a.pid, a.seed, k, a.budget, q),)) for k in range(a.procs)]
    for p in ps: p.start()
    rs = []
    t0 = time.time()
    while len(rs) < len(ps) and time.time() - t0 < a.budget + 120:
        try: rs.append(q.get(timeout=1))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty(): break
    for p in ps:
        if p.is_alive(): p.kill()
    keys = set()
    for r in rs: keys.update(r['keys'])
    out = dict(pid=a.pid, evaluations=sum(r['n'] for r in rs), distinct=len(keys), workers=len(rs), wanted=a.procs,
               fails=[f for r in rs for f in r['fails']], errs=[e for r in rs for e in r['errs']], nerr=sum(r['nerr'] for r in rs),
               samples=[r['sample'] for r in rs][:2], wall=time.time() - t0)
    json.dump(out, open(a.out, 'w'), default=str)


if __name__ == '__main__':
    main()
