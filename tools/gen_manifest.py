"""Writes levels.json and MANIFEST.json."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
exec(open(os.path.join(H, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
json.dump(L, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
checks = []
for p in props:
    i = p['id']
    if i not in L: continue
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {i}',
        technique=L[i]['technique'], level=L[i]['level'], level_note=L[i]['note']))
na = [dict(property=i, reason=r) for i, r in NA.items()]
assert set(L) | set(NA) == set(p['id'] for p in props) and not set(L) & set(NA)
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, sympy; print(z3.get_version_string())"', checks=checks, not_applicable=na,
   notes='Contracts in contracts/, verifier (VC generator over /repo sources) in pyvc/, replay of the contracts on the real code in replay/. No hooks in /repo.'),
   open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
