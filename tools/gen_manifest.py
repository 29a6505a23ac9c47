import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = dict(
    C22='Convergence order on a given ODE is a limit statement about floating-point NLP solutions; no contract over one call or data structure expresses it. The order conditions behind it are decided as C04, the equations as C03.',
    C23='Plots are visual output of matplotlib; there is no postcondition on observable data a deductive verifier could discharge.')
LEVEL = json.load(open(V + '/tools/levels.json')) if os.path.exists(V + '/tools/levels.json') else {}
TECH = 'contract-based deductive verification of the real Python source (own VC generator, z3), concrete replay'
checks = []
for p in props:
    if p['id'] in NA: continue
    lv = LEVEL.get(p['id'], {})
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p["id"]}',
                       evidence_file=f'evidence/{p["id"]}.json', technique=lv.get('technique', TECH), level=lv.get('level', 'exploration'),
                       level_note=lv.get('note', 'Contracts evaluated on the real code for seeded random problems (bounded); deductive part under construction.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='NOSNOC_VERIF', enable='no hooks are needed: the checks read /repo as it is', source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='See DESIGN.md. Exit 1 with VIOLATION line; no-failing-input-found when an obligation fails and no concrete input was found.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
