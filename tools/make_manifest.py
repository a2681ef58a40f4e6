#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(root, 'vmon', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    tree = ast.parse(open(path).read())
    info = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') \
                in ('TECHNIQUE', 'LEVEL_NOTE'):
            info[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=p['id'],
        quick_cmd='bash check.sh %s --tier quick' % p['id'],
        thorough_cmd='bash check.sh %s --tier thorough' % p['id'],
        technique=info.get('TECHNIQUE', 'runtime monitoring: generated '
            'workloads on the real code, online oracles against independent '
            'reference computations'),
        level='exploration',
        level_note=info.get('LEVEL_NOTE', 'Holds on every execution explored; '
            'the oracles are independent re-implementations or exact '
            'invariants with floating-point tolerances. Trusts NumPy/SciPy '
            'and the reference formulas in the check.')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
    hooks=dict(guard='none', enable='no hooks in /repo: monitors attach at '
        'run time from /verif (wrapped functions, sys.monitoring, MPI '
        'communicator subclass)', source_commits=[]),
    not_applicable=na)
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
