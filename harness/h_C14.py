from common import *
from bardell import poly, I, fval, If


def noise(i, x):
    """rounding of the monomial form at x"""
    return sum(abs(float(c)) * abs(x)**k for k, c in enumerate(poly(i)))

TAB = {'ii_ff': (0, 0), 'ii_fxi_f': (1, 0), 'ii_f_fxi': (0, 1), 'ii_fxi_fxi': (1, 1), 'ii_fxixi_f': (2, 0), 'ii_f_fxixi': (0, 2),
       'ii_fxixi_fxi': (2, 1), 'ii_fxi_fxixi': (1, 2), 'ii_fxixi_fxixi': (2, 2)}


def gen(rng, pool):
    r = rng.random()
    if r < .5:
        return dict(kind='ii', t=rng.choice(sorted(TAB)), i=rng.randrange(30))
    if r < .65:
        return dict(kind='f', i=rng.randrange(50), x=rng.choice([-1.0, 1.0, 0.0, rng.uniform(-1, 1)]))
    return dict(kind='s', idx=[[rng.randrange(50), rng.randrange(50)] for _ in range(rng.choice([1, 2, 60, 200]))], x=rng.uniform(-1, 1), y=rng.uniform(-1, 1))


def run(case):
    import composipy.pre_integrated_component.functions as F
    if case['kind'] == 'ii':
        f, (d1, d2), i = getattr(F, case['t']), TAB[case['t']], case['i']
        for k in range(30):
            v = float(f((i, k)))
            need(abs(v - If(d1, d2, i, k)) <= 1.0001e-8, '%s(%d, %d)' % (case['t'], i, k), v, If(d1, d2, i, k))
    elif case['kind'] == 'f':
        w = fval(case['i'], case['x'])
        g = float(F.fxi(case['i'], case['x']))
        need(abs(g - w) <= 1e-9 + 1e-13 * noise(case['i'], case['x']), 'f_%d(%r)' % (case['i'], case['x']), g, w)
    else:
        s = F.sxieta([tuple(p) for p in case['idx']], case['x'], case['y'])
        need(len(s) == len(case['idx']), 'length', len(s))
        for v, (i, j) in zip(s, case['idx']):
            w = fval(i, case['x']) * fval(j, case['y'])
            need(abs(float(v) - w) <= 1e-9 + 1e-13 * noise(i, case['x']) * noise(j, case['y']), 's_%d,%d(%r, %r)' % (i, j, case['x'], case['y']), float(v), w)


FIXED = [dict(kind='ii', t=t, i=i) for t in sorted(TAB) for i in range(30)]
FIXED += [dict(kind='f', i=i, x=x) for i in range(50) for x in (-1.0, 1.0, 0.3)]
