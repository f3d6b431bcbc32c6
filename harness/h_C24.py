from common import *
import h_C06

OK = ['e1', 'e2', 'v12', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's']
IK = ['e', 'v', 'g', 'thickness', 't', 'c', 's']


def g_o(rng, pool):
    return g_mat(rng, pool, True)


def g_i(rng, pool):
    return dict(e=7e4, v=.3, g=2.7e4, thickness=1., t=100., c=200., s=50.)


def tweak(rng, d, keys):
    d = dict(d)
    for k in rng.sample(keys, rng.choice([1, 1, 1, 2])):
        d[k] = d[k] + rng.choice([1e-3, .01, -1e-3, 1e-9]) * (1 if abs(d[k]) < 1 else abs(d[k]))
        if k.startswith('v'):
            d[k] = max(-.5, min(.5, d[k]))
    return d


def gen(rng, pool):
    r = rng.random()
    if r < .3:
        a = g_o(rng, pool)
        b = dict(a) if rng.random() < .4 else tweak(rng, a, OK)
        b['name'] = rng.choice(['x', 'y', a.get('name', 'z')])
        return dict(kind='o', a=a, b=b)
    if r < .45:
        a = g_i(rng, pool)
        b = dict(a) if rng.random() < .4 else tweak(rng, a, IK)
        b['name'] = rng.choice(['x', 'y'])
        return dict(kind='i', a=a, b=b)
    if r < .55:
        return dict(kind='x', w=rng.choice(['o', 'i']), o=rng.choice(['o', 'i', 'none', 'int', 'str', 'lam', 'array']))
    if r < .8:
        a = g_lam(rng, pool, 5, single=False)
        b = dict(a)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            j = rng.randrange(len(b['stacking']))
            q = rng.random()
            if q < .4:
                s = list(b['stacking'])
                s[j] = rng.choice([s[j] + 1, -s[j], s[j] + 180, s[j] + 1e-9, s[j]])
                b['stacking'] = s
            elif q < .7:
                p = list(b['plies'])
                p[j] = rng.randrange(len(a['mats']))
                b['plies'] = p
            elif q < .85:
                i = rng.randrange(len(b['stacking']))
                s, p = list(b['stacking']), list(b['plies'])
                s[i], s[j], p[i], p[j] = s[j], s[i], p[j], p[i]
                b['stacking'], b['plies'] = s, p
            else:
                b['stacking'], b['plies'] = b['stacking'][:-1] or [0], b['plies'][:-1] or [0]
        return dict(kind='l', a=a, b=b)
    a = dict(m=g_mat(rng, pool), xiA=h_C06.gx(rng, pool) if rng.random() < .5 else None, xiD=h_C06.gx(rng, pool), T=pool.real(rng, .1, 9))
    b = dict(a)
    for _ in range(rng.choice([0, 1, 1, 2])):
        q = rng.choice(['xiA', 'xiD', 'T', 'm', 'none', 'same'])
        if q in ('xiA', 'xiD') and b[q]:
            x = list(b[q])
            x[rng.randrange(4)] += rng.choice([.01, -.02, 1e-6])
            b[q] = x
        elif q == 'none':
            b['xiA'] = None if b['xiA'] else [.1, .2, .3, .4]
        elif q == 'T':
            b['T'] = b['T'] * 1.001
        elif q == 'm':
            b['m'] = dict(b['m'], e2=b['m']['e2'] * 1.01)
    return dict(kind='p', a=a, b=b)


def thing(k):
    import composipy
    if k == 'o':
        return composipy.OrthotropicMaterial(1000., 1000., .3, 200., 1.)
    if k == 'i':
        return composipy.IsotropicMaterial(1000., .3, 200., 1.)
    return {'none': None, 'int': 3, 'str': 'ply', 'lam': composipy.LaminateProperty([0], thing('o')) if k == 'lam' else 0, 'array': np.eye(3)}[k]


def eq(msg, x, y, want):
    for p, q in ((x, y), (y, x)):
        g = (p == q)
        need(isinstance(g, (bool, np.bool_)) and bool(g) == want, msg + ' ==', g, want)
        g = (p != q)
        need(isinstance(g, (bool, np.bool_)) and bool(g) == (not want), msg + ' !=', g, not want)
    need(x == x and y == y, msg + ' reflexive')


def data(d, i, keys):
    return tuple(float(d[i].get(k, 0)) for k in keys)


def run(c):
    import composipy
    k = c['kind']
    if k in 'oi':
        keys, cls = (OK, composipy.OrthotropicMaterial) if k == 'o' else (IK, composipy.IsotropicMaterial)
        x, y = cls(**c['a']), cls(**c['b'])
        eq('materials', x, y, data(c, 'a', keys) == data(c, 'b', keys))
    elif k == 'x':
        if c['w'] == c['o'] or (c['o'] == 'array'):
            raise Skip()
        x, y = thing(c['w']), thing(c['o'])
        for f in (lambda: x == y, lambda: x != y):
            try:
                f()
            except ValueError:
                continue
            raise Fail('comparing a material with %s does not raise ValueError' % type(y).__name__)
    elif k == 'l':
        x, y = mk_lam(c['a']), mk_lam(c['b'])
        f = lambda d: [(float(a), tuple(float(d['mats'][p].get(q, 0)) for q in OK)) for a, p in zip(d['stacking'], d['plies'])]
        eq('laminates', x, y, f(c['a']) == f(c['b']))
        lp = composipy.LaminateProperty({'xiD': [0., 0., 0., 0.], 'T': 1.}, thing('o'))
        eq('stacking and lamination parameters', x, lp, False)
    else:
        def mk(d):
            st = {'xiD': list(d['xiD']), 'T': d['T']}
            if d['xiA']:
                st['xiA'] = list(d['xiA'])
            return composipy.LaminateProperty(st, mk_mat(d['m']))
        f = lambda d: ([float(v) for v in d['xiA']] if d['xiA'] else None, [float(v) for v in d['xiD']], float(d['T']), tuple(float(d['m'].get(q, 0)) for q in OK))
        eq('lamination-parameter laminates', mk(c['a']), mk(c['b']), f(c['a']) == f(c['b']))


MO = dict(e1=1000., e2=900., v12=.3, g12=200., thickness=1., t1=10., c1=20., t2=3., c2=4., s=5.)
MI = dict(e=1000., v=.3, g=200., thickness=1., t=10., c=20., s=5.)
FIXED = [dict(kind='o', a=MO, b=dict(MO, name='q'))] + [dict(kind='o', a=MO, b=dict(MO, **{k: MO[k] * .9})) for k in OK]
FIXED += [dict(kind='i', a=MI, b=dict(MI, name='q'))] + [dict(kind='i', a=MI, b=dict(MI, **{k: MI[k] * .9})) for k in IK]
FIXED += [dict(kind='x', w=w, o=o) for w in 'oi' for o in ('o', 'i', 'none', 'int', 'str', 'lam')]
LA = dict(stacking=[0, 45, 90], mats=[MO, dict(MO, e2=800.), dict(MO, name='n')], plies=[0, 1, 0])
FIXED += [dict(kind='l', a=LA, b=b) for b in (LA, dict(LA, stacking=[0, -45, 90]), dict(LA, plies=[0, 0, 0]), dict(LA, plies=[2, 1, 0]), dict(LA, stacking=[0, 45], plies=[0, 1]),
                                              dict(LA, stacking=[90, 45, 0]))]
