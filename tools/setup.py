"""nothing to build: checks that the interpreters and solvers the checks need are there"""
import os, subprocess, sys
import z3, sympy, numpy  # noqa
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, pandas, matplotlib'], check=True, env=dict(os.environ, MPLBACKEND='Agg'))
# the engine itself: differential test against CPython
r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'selftest.py')], capture_output=True, text=True)
print(r.stdout)
if r.returncode:
    sys.exit('the engine disagrees with CPython')
print('ok')
