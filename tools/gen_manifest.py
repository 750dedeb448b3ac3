#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in props/."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C32': 'compilation cannot be switched on here: with NUMBA_DISABLE_JIT unset "import lom" already fails in the installed numba, so '
           'there is no compiled code to encode; the Python source that runs instead is what the other checks decide.',
    'C33': 'an unbounded statement about limits of distributions over infinite histories; bounded symbolic execution can decide the '
           'one-step facts it rests on (C05, C07-C09: exact full conditionals and detailed balance), not convergence itself.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'props', i + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    t = ast.parse(open(f).read())
    b = ''
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            b = ast.literal_eval(n.value)
    checks.append({
        'property': i,
        'quick_cmd': './run.sh %s' % i,
        'thorough_cmd': './run.sh %s --tier=thorough' % i,
        'technique': 'symbolic execution of the Python source + SMT (z3)',
        'level': 'model_checking',
        'level_note': 'Solver verdict over all values within the bounds: ' + b + '  Counterexamples are replayed on the real code before '
                      'being reported.  Assumes exact real arithmetic for floats, the models of numpy/scipy functions in sx/npm.py '
                      '(cross-checked natively on every case) and NUMBA_DISABLE_JIT=1.',
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo. Solver: z3 (python bindings of /opt/veriftools/pyvenv). Bounds and assumptions: evidence files and DESIGN.md.',
}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
