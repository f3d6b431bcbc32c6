from common import *
import h_C06

LQ = ['z_position', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD']
PQ = ['Q_0', 'Invariants', 'e1', 'e2', 'v12', 'v21', 'g12', 'thickness', 'name']
IQ = ['Q_0', 'e', 'v', 'g', 'thickness', 'name']


def gen(rng, pool):
    r = rng.random()
    if r < .2:
        return dict(kind='mat', m=g_mat(rng, pool), seq=[rng.choice(PQ) for _ in range(6)])
    if r < .3:
        return dict(kind='iso', m=dict(e=pool.real(rng, 1, 100), v=.3, g=pool.real(rng, 1, 50), thickness=.2), seq=[rng.choice(IQ) for _ in range(6)])
    if r < .5:
        d = h_C06.gen(rng, pool)
        while d['kind'] != 'lp':
            d = h_C06.gen(rng, pool)
        q = ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'z_position', 'Q_layup', 'T_layup']
        if d['xiA'] is None:
            q.remove('xiA')
        d = dict(kind='lp', m=d['m'], xiA=d['xiA'], xiD=d['xiD'], T=d['T'], seq=[rng.choice(q) for _ in range(rng.randint(2, 12))])
        return d
    return dict(kind='lam', lam=g_lam(rng, pool), seq=[rng.choice(LQ) for _ in range(rng.randint(2, 14))])


def make(case):
    import composipy
    if case['kind'] == 'mat':
        return mk_mat(case['m'])
    if case['kind'] == 'iso':
        return composipy.IsotropicMaterial(**case['m'])
    if case['kind'] == 'lp':
        st = {'xiD': list(case['xiD']), 'T': case['T']}
        if case['xiA'] is not None:
            st['xiA'] = list(case['xiA'])
        return composipy.LaminateProperty(st, mk_mat(case['m']))
    return mk_lam(case['lam'])


def rd(o, q):
    v = getattr(o, q)
    return v() if q == 'Invariants' else v


def copyv(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [copyv(x) for x in v]
    return v


def eqv(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and (bool(np.array_equal(np.asarray(a), np.asarray(b))) or close(a, b, 1e-12))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def observe(o, kind):
    if kind in ('mat', 'iso'):
        return {}
    out = {'stacking': copyv(dict(o.stacking) if isinstance(o.stacking, dict) else list(o.stacking))}
    pl = o.plies if isinstance(o.plies, list) else [o.plies]
    out['plies'] = [id(p) for p in pl]
    out['consts'] = [(p.e1, p.e2, p.v12, p.g12, p.thickness) for p in pl]
    out['layup'] = [(t, id(p)) for t, p in o.layup]
    return out


def run(case):
    k = case['kind']
    o = make(case)
    snap = observe(o, k)
    got = []
    for q in case['seq']:
        fresh = rd(make(case), q)
        v = rd(o, q)
        if q == 'name' and case['m'].get('name') is None:
            fresh = v
        need(eqv(v, fresh), '%s after %s differs from the fresh value' % (q, [g[0] for g in got]), v, fresh)
        for q0, v0, c0 in got:
            need(eqv(v0, c0), 'the %s read earlier changed when %s was read' % (q0, q), v0, c0)
        got.append((q, v, copyv(v)))
        now = observe(o, k)
        for f in snap:
            need(eqv(snap[f], now[f]) if f != 'stacking' or not isinstance(snap[f], dict) else snap[f].keys() == now[f].keys() and all(eqv(snap[f][x], now[f][x]) for x in snap[f]),
                 '%s changed by reading %s' % (f, q), now[f])


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
L = dict(stacking=[30, -45, 90, 10], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1, 0])
FIXED = [dict(kind='lam', lam=L, seq=[a, b, a]) for a in LQ for b in LQ]
FIXED += [dict(kind='lp', m=M, xiA=[.1, .2, -.3, .4], xiD=[-.5, .3, .2, .1], T=2.5, seq=[a, b, a]) for a in ('A', 'B', 'D', 'ABD', 'xiA', 'xiD') for b in ('A', 'B', 'D', 'ABD', 'xiA', 'xiD')]
