"""writes MANIFEST.json from the contract modules present"""
import json, os, sys, glob, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(ROOT, 'contracts', pid + '.py')
    if os.path.exists(f):
        m = importlib.import_module('contracts.' + pid)
        checks.append({
            'property': pid, 'quick_cmd': 'python3-vt check.py %s' % pid, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the real source (own VC generator; polynomial normal form + z3)'),
            'level': getattr(m, 'LEVEL', 'proof'),
            'level_note': getattr(m, 'NOTE', 'All obligations are generated from the current source and discharged for all inputs; floats as reals, '
                                  'numpy/scipy/pandas by assumed contracts; engine in the trusted base. Run-time contract checks on the real code replay counterexamples.')})
    else:
        na.append({'property': pid, 'reason': 'contracts not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Evidence and replay files are written to evidence/.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
