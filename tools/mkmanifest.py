"""Write MANIFEST.json from the rule modules that exist."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C40': 'Numerical accuracy of amplitudes, probabilities and expectation values is a statement about floating-point run-time results of the '
           'native and Python kernels for unbounded circuits; no static argument in reach bounds it.',
    'C42': 'Whether routing succeeds depends on run-time search (random assignments, graph placements) over all circuits and devices.',
    'C43': 'The distribution of measurement outcomes is a statistical property of random number streams at run time.',
    'C45': 'Data races of the OpenMP / intrinsics kernels are bounded by run-time index arithmetic (bit masks of qubit ids) that no static '
           'argument available here resolves without false alarms.',
}
TECH = {}
LEVEL_NOTE = 'Decided from the current source on every run by whole-program static analysis (no execution, no solver); see DESIGN.md for bounds and assumptions.'
PY = 'python3 -m pqsa'
checks = []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'pqsa', 'rules', pid.lower() + '.py')
    if not os.path.exists(f):
        NA.setdefault(pid, 'No check has been built yet.')
        continue
    tech = 'interprocedural path-sensitive value-flow (abstract interpretation) over the Python syntax tree'
    for st in ast.parse(open(f).read()).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'TECHNIQUE':
            tech = ast.literal_eval(st.value)
    checks.append({'property': pid, 'quick_cmd': f'{PY} {pid} --tier quick', 'thorough_cmd': f'{PY} {pid} --tier thorough',
                   'evidence_file': f'evidence/{pid}.json', 'technique': 'static analysis: ' + tech, 'level': 'other', 'level_note': LEVEL_NOTE})
done = {c['property'] for c in checks}
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q pqsa', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in done],
       'notes': 'Static analysis of /repo/projectq; nothing of the repository is executed.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(man['not_applicable']), 'not applicable')
