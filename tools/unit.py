"""developer tool: run the units of one property and print the results"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc.unit import run_units
pid = sys.argv[1]
filt = sys.argv[2] if len(sys.argv) > 2 else ''
root = os.environ.get('REPO', '/repo')
m = importlib.import_module('contracts.' + pid)
for r in run_units([s for s in (m.UNITS() if callable(m.UNITS) else m.UNITS) if filt in s.name], root, float(os.environ.get("TL","600"))):
    print('%-50s %-10s %s %d/%d paths=%d %.1fs %s' % (r['unit'], r['status'], r['mode'], r['discharged'], r['obligations'], r['paths'], r['wall'], r['stats'].get('z3_calls')))
    for e in r['errors']:
        print('    ERR', e)
    for b in r["bad"][:int(os.environ.get("NB","2"))]:
        print('    ', json.dumps(b, default=str)[:int(os.environ.get("LB","300"))])
    if '-v' in sys.argv: print(r)
