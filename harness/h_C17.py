from common import *
from plates import *
import copy


def gen(rng, pool):
    return dict(cons=g_cons(rng, pool), m=rng.randint(1, 6), n=rng.randint(1, 6), full=rng.random() < .3, twice=rng.random() < .5)


def run(c):
    import composipy
    cons = c['cons']
    snap = copy.deepcopy(cons)
    p = composipy.PlateStructure(mk_prop(LAM), 3., 2., cons, Nxx=-1, m=c['m'], n=c['n'])
    small = c['m'] * c['n'] <= 9
    S = bases(cons, c['m'], c['n'])
    for _ in range(2 if c['twice'] else 1):
        if c['full'] and small:
            p.calc_K_KG_ABD()
        else:
            p.calc_K_KG_D()
        for nm, f in (('su_idx', 'u'), ('sv_idx', 'v'), ('sw_idx', 'w')):
            got = [tuple(int(y) for y in x) for x in getattr(p, nm)]
            need(got == S[f], nm + ' for constraints %r' % (cons,), got, S[f])
        need(cons == snap and p.constraints == snap, 'constraints modified', cons)


FIXED = [dict(cons={'x0': 'clamped', 'xa': ['TZ'], 'y0': 'FREE', 'yb': 'Simply_Supported'}, m=2, n=3, full=False, twice=False)]
for e in EDGES:
    for d in DOF:
        k = {x: [] for x in EDGES}
        k[e] = [d]
        FIXED.append(dict(cons=k, m=2, n=3, full=False, twice=True))
    for nm in NAMED:
        k = {x: 'free' for x in EDGES}
        k[e] = nm.capitalize()
        FIXED.append(dict(cons=k, m=2, n=5, full=False, twice=False))
FIXED += [dict(cons=x, m=m, n=n, full=False, twice=True) for x in ('PINNED', 'CLAMPED', FREE) for m in (1, 4) for n in (1, 5)]
