from common import *


def gen(rng, pool):
    if rng.random() < .7:
        return dict(kind='o', m=g_mat(rng, pool))
    d = dict(e=pool.real(rng, 1., 3e5), v=pool.real(rng, -0.5, 0.5), g=pool.real(rng, 1., 2e5), thickness=pool.real(rng, 0.01, 10.))
    for k in 'tcs':
        if rng.random() < .4:
            d[k] = pool.real(rng, 0., 3000.)
    return dict(kind='i', m=d)


def run(case):
    import composipy
    m = case['m']
    if case['kind'] == 'o':
        o = composipy.OrthotropicMaterial(**m)
        for k, v in m.items():
            if k != 'name':
                same(k, getattr(o, k), float(v))
        if 'name' in m:
            need(o.name == m['name'], 'name', o.name)
        for k in ('t1', 'c1', 't2', 'c2', 's'):
            if k not in m:
                same('default ' + k, getattr(o, k), 0.)
        Q = mat_Q(m)
        same('v21', o.v21, m['v12'] * m['e2'] / m['e1'])
        same('Q_0', o.Q_0, Q, 1e-7)
        same('Q_0 again', o.Q_0, Q, 1e-7)
        same('Invariants', o.Invariants(), oracle_inv(Q), 1e-7)
    else:
        o = composipy.IsotropicMaterial(**m)
        for k, v in m.items():
            same(k, getattr(o, k), float(v))
        same('Q_0', o.Q_0, oracle_Q(m['e'], m['e'], m['v'], m['g']), 1e-7)


FIXED = [dict(kind='o', m=dict(e1=129500, e2=9370, v12=0.38, g12=5240, thickness=0.2)),
         dict(kind='o', m=dict(e1=1000, e2=1000, v12=0.0, g12=10, thickness=1)),
         dict(kind='i', m=dict(e=70000, v=0.3, g=26900, thickness=1))]
