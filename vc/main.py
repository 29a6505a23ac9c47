"""python -m vc.main C03 --tier quick --out f.json : generates and discharges the obligations of one property."""
import argparse, importlib, json, os, re, sys, time, traceback

AV, AC = ('specs_base', 'spec_addvar'), ('specs_base', 'spec_addcon')
MP = ('specs_base', 'spec_mpcc')
FW, CP, CV, SE = (('specs_fe', x) for x in ('spec_forward', 'spec_comp', 'spec_compvec', 'spec_stepeq'))
AH, FE0, FI = (('specs_prob', x) for x in ('spec_addh', 'spec_fe0', 'spec_feinit'))
NP = ('specs_nlp', 'spec_problem')
OP = ('specs_opts', 'spec_opts')
SG, PV, IN, ST, SO, AK, PO = (('specs_solver', 'spec_' + x) for x in ('sigma', 'pval', 'init', 'set', 'solve', 'accept', 'polish'))
LA, CN, CT, MD, OC = (('specs_pre', f) for f in ('spec_lam00', 'spec_construct', 'spec_ctor', 'spec_modelpre', 'spec_ocppre'))
MN = ('specs_pre', 'spec_modelnew')
UI, UF, UE, UP = (('specs_util', 'spec_' + x) for x in ('increment', 'flatten', 'empty', 'primal'))
REG = {
    'C01': [AV, AC, AH, FI, NP, UI, UE, UP],
    'C02': [AV, AH, FI, NP, OC, MN, MD, CN, CT, UP],
    'C03': [FW, FE0, FI, NP],
    'C04': [('specs_rk', 'spec_butcher'), ('specs_rk', 'spec_butcher_int'), OP],
    'C05': [CP, CV, FE0, FI, NP],
    'C06': [MP, AC, NP],
    'C07': [AH, FI, NP, OP, MD],
    'C08': [SE, FI, NP],
    'C09': [FE0, NP, PV, IN, LA, MN, MD, CN],
    'C10': [FE0, FI, NP, PV, ST, IN, LA, MN, MD, CT, SO],
    'C11': [NP, SG, PV, IN, SO, AK, CT],
    'C12': [('specs_solver', 'spec_valsys'), ('specs_solver', 'spec_results'), SO, CT],
    'C13': [ST, IN, LA, MD, SO, UF],
    'C14': [('specs_loop', 'spec_issim'), ('specs_loop', 'spec_looper'), ('specs_solver', 'spec_results'), SO],
    'C15': [FW, CP, NP, OC],
    'C16': [('specs_auto', 'spec_' + x) for x in ('smoothq', 'additiveq', 'comps', 'rebuild', 'reform')],
    'C17': [OP, CN, CT],
    'C18': [NP, MN, MD, OC, CN, CT],
    'C19': [NP, CT],
    'C21': [('specs_smooth', 'spec_smooth'), ('specs_smooth', 'spec_rk4'), ('specs_smooth', 'spec_initrk4'), CN],
    'C20': [PV, AK, SO, PO, UF],
}
ASSUME = [
    'machine arithmetic is treated as exact rational/real arithmetic; infinities as a symbol larger than every number is not assumed, only its identity',
    'numpy and CasADi functions behave as the models in vc/libs.py (listed under trusted_base when used)',
    'the Python subset executed by vc/interp.py has the semantics of CPython 3.12 (cross-checked on every run by evaluating the contracts on the real code)',
    'objects reachable by two names are only those built so by the code (no caller keeps an alias into internal lists)',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out')
    a = ap.parse_args()
    t0 = time.time()
    r = dict(pid=a.pid, failed=[], obligations=0, discharged=0, trusted=[], functions=[], by_backend={}, solver_s=0.0, undecided=[], vacuity=[],
             bounded=[], samples=[], assumptions=[], error=None)
    try:
        from .spec import Session, tags_of
        from .interp import Program
        from . import libs, solve
        import sys as _s
        _s.setrecursionlimit(20000)
        S = Session(a.pid); S.prog = Program()
        S.tier = a.tier
        for m, f in REG.get(a.pid, []):
            getattr(importlib.import_module('vc.' + m), f)(S, a.pid)
        obls = [o for o in S.obls if not tags_of(o['name']) or a.pid in tags_of(o['name'])]
        for o in obls:
            r['obligations'] += 1
            if o['status'] == 'proved':
                r['discharged'] += 1; r['by_backend'][o['backend']] = r['by_backend'].get(o['backend'], 0) + 1
        seen = set()
        for o in obls:
            if o['status'] == 'proved': continue
            k = (o['fn'], o['name'])
            if k in seen: continue
            seen.add(k)
            r['failed'].append(dict(function=o['fn'], obligation=o['name'], verifier_output=o['detail'][:2500]))
        und = S.undecided
        r['undecided'] = und[:20]
        und_fns = {u['fn'] for u in und}
        r['vacuity'] = S.vacuity
        r['functions'] = sorted(f'{q} ({f}:{x}-{y})' for q, (f, x, y) in S.prog.touched.items())
        r['trusted'] = sorted(libs.USED) + sorted(S.trusted) or ['none']
        r['solver_s'] = round(solve.STATS['seconds'], 2)
        r['bounded'] = S.bounded
        r['samples'] = [f'{o["fn"]}: {o["name"]}' for o in obls[:400:40]]
        r['assumptions'] = (ASSUME + S.assumptions) if REG.get(a.pid) else []
        if REG.get(a.pid) and not obls and not und: r['failed'].append(dict(function='-', obligation='obligations generated', verifier_output='none were generated'))
    except Exception:
        r['error'] = traceback.format_exc()[-3000:]
    r['wall'] = round(time.time() - t0, 2)
    js = json.dumps(r, indent=1, default=str)
    if a.out: open(a.out, 'w').write(js)
    else: print(js)


if __name__ == '__main__': main()
