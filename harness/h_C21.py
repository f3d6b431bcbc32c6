from common import *
from optim import *


def gen(rng, pool):
    return g_opt(rng, pool)


def run(c):
    from composipy.optimize import minimize_panel_weight
    m = c['m']
    if c['mm'] * c['nn'] < 4:
        raise Skip()
    kw = dict(E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=c['N'][0], Nyy=c['N'][1], Nxy=c['N'][2], m=c['mm'], n=c['nn'], panel_constraint=c['cons'])
    g, res = capture(lambda: minimize_panel_weight(c['a'], c['b'], **kw))
    need(len(g['x0']) == 3, 'x0', list(g['x0']))
    L, mx = norm(c['N'])
    n = 0
    for x1, x3, T in c['pts']:
        for t in (T, 1e-3, 7.5):
            v = float(g['fun'](np.array([t, x1, x3])))
            need(abs(v - t**3) <= 1e-9 * t**3, 'objective is not T^3', t, v)
        if x3 < 2 * abs(x1) - 1 + 1e-3:
            x3 = min(1., 2 * abs(x1) - 1 + .2)
        if x3 > 1 or x3 < 2 * abs(x1) - 1 + 1e-3:
            continue
        n += 1
        if n > 3:
            break
        w = lp_crit(c, 1.0, x1, x3, L)
        if w is None:
            continue
        Tc = (mx / w)**(1 / 3)      # the factor grows with T^3
        if not 0.002 < Tc < 9e5:
            continue
        hi, lo = Tc * 1.003, Tc * .997
        F = lambda *y: feasible(g, np.array(y, dtype=float))
        need(F(hi, x1, x3), 'point that carries the load rejected', hi, x1, x3, w * hi**3, mx)
        need(not F(lo, x1, x3), 'point that buckles under the load accepted', lo, x1, x3, w * lo**3, mx)
        Tb = max(Tc * 50, 100.)
        need(Tb > 9e5 or F(Tb, x1, x3), 'thick admissible panel rejected', Tb, x1, x3)
        b = 2 * abs(x1) - 1
        if b > -1 + 1e-3:
            need(F(Tb, x1, b + 1e-6), 'point on the penalty line rejected', x1, b)
            need(not F(Tb, x1, b - 2e-4), 'point beyond the penalty line accepted', x1, b - 2e-4)
            need(not F(Tb, -x1, b - 2e-4), 'point beyond the penalty line accepted', -x1, b - 2e-4)
        need(not F(Tb, x1, 1.001) and not F(1.1e6, x1, x3) and not F(-1., x1, x3), 'point out of the bounds accepted')


FIXED = [FX, dict(FX, N=[0, -2., 0]), dict(FX, cons='CLAMPED', N=[.5, -.2, -.9], mm=4, nn=3, a=200.), dict(FX, N=[-300., 100., 0])]
