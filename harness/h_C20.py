from common import *
from optim import *


def gen(rng, pool):
    return g_opt(rng, pool)


def run(c):
    from composipy.optimize import maximize_buckling_load
    m = c['m']
    kw = dict(E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=c['N'][0], Nyy=c['N'][1], Nxy=c['N'][2], m=c['mm'], n=c['nn'], panel_constraint=c['cons'], penalty=c['penalty'])
    if c['mm'] * c['nn'] < 4:
        raise Skip()
    g, res = capture(lambda: maximize_buckling_load(c['a'], c['b'], c['T'], **kw))
    need(len(g['x0']) == 2, 'x0', list(g['x0']))
    L, mx = norm(c['N'])
    pts = list(c['pts'])
    for x1, x3, _ in list(c['pts']):      # near the boundaries of the region
        lo = (2 * abs(x1) - 1) if c['penalty'] else 2 * x1 * x1 - 1
        pts += [[x1, lo + 1e-6, 0], [x1, lo - 9e-5, 0], [x1, lo - 2e-4, 0], [x1, 1.001, 0], [1.001, 1., 0], [x1, 1., 0], [-1., 1., 0], [1., 1., 0], [-1.001, 1, 0],
                [x1, 2 * x1 * x1 - 1 + 1e-6, 0], [x1, 2 * x1 * x1 - 1 - 2e-4, 0]]
    n = 0
    for x1, x3, _ in pts:
        lo = (2 * abs(x1) - 1) if c['penalty'] else 2 * x1 * x1 - 1
        box = abs(x1) <= 1 and abs(x3) <= 1
        f = feasible(g, np.array([x1, x3]))
        if box and x3 >= lo:
            need(f, 'admissible point rejected', x1, x3, c['penalty'])
        elif not box or x3 < lo - 1.5e-4:
            need(not f, 'inadmissible point accepted', x1, x3, c['penalty'])
        if box and x3 > 2 * x1 * x1 - 1 + .05 and n < 3:
            n += 1
            w = lp_crit(c, c['T'], x1, x3, L)
            if w is None:
                continue
            v = float(g['fun'](np.array([x1, x3])))
            need(abs(v + w) <= 1e-5 * abs(w), 'objective is not minus the critical load factor at (%g, %g)' % (x1, x3), v, -w)


FIXED = [FX, dict(FX, penalty=False, N=[0, -2., 0]), dict(FX, cons='CLAMPED', N=[.5, -.2, -.9], mm=4, nn=3, a=200.)]
