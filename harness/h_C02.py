from common import *
import math
from fractions import Fraction
from decimal import Decimal


class FloatLike:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


VALS = ['1.5', 'abc', '', 'nan', 'inf', '-inf', ' 2 ', '1e3', '-0.5', '0.5', '0.50000001', '-0.1', '10', '7', '7.5']


def dec(x):
    """JSON-able description -> argument"""
    k, v = x
    if k == 'f':
        return float(v)
    if k == 'i':
        return int(v)
    if k == 's':
        return v
    if k == 'np':
        return np.float64(v)
    if k == 'npi':
        return np.int64(v)
    if k == 'fr':
        return Fraction(v)
    if k == 'de':
        return Decimal(v)
    if k == 'none':
        return None
    if k == 'list':
        return [v]
    if k == 'cplx':
        return complex(v, 1)
    if k == 'obj':
        return FloatLike(float(v))
    if k == 'bool':
        return bool(v)
    if k == 'arr':
        return np.array([v, v])
    if k == 'dict':
        return {}
    return object()


def expect(x):
    """the real number, or None"""
    v = dec(x)
    try:
        f = float(v)
    except Exception:
        return None
    return None if math.isnan(f) else f


def g_val(rng, pool, lo=None, hi=None):
    r = rng.random()
    if r < .35:
        b = rng.choice([x for x in (lo, hi, 0.0, 1.0) if x is not None])
        return ['f', repr(b + rng.choice([0, 0, 1e-9, -1e-9, 1e-3, -1e-3, 1e-15, -1e-15, 1, -1, -1e-300, 1e-300, -5e-324]))]
    if r < .5:
        return [rng.choice(['f', 'np']), repr(pool.real(rng, -2, 2) if rng.random() < .6 else pool.real(rng, 0.001, 1e5))]
    if r < .62:
        return [rng.choice(['i', 'npi']), rng.choice([0, 1, 2, 5, -1, 10, 12, 100])]
    if r < .75:
        return ['s', rng.choice(VALS)]
    if r < .82:
        return ['f', rng.choice(['nan', 'inf', '-inf'])]
    return rng.choice([['none', 0], ['list', 1], ['cplx', 1], ['obj', '0.25'], ['obj', 'nan'], ['obj', '-3'], ['bool', 1], ['bool', 0], ['arr', 1.], ['dict', 0],
                       ['object', 0], ['fr', '1/3'], ['de', '0.3'], ['de', '7'], ['fr', '-2/3'], ['fr', '-1/2']])


OP = [('e1', 0, None), ('e2', 0, None), ('v12', -0.5, 0.5), ('g12', 0, None), ('thickness', 0, None), ('t1', 0, None), ('c1', 0, None),
      ('t2', 0, None), ('c2', 0, None), ('s', 0, None)]
IP = [('e', 0, None), ('v', -0.5, 0.5), ('g', 0, None), ('thickness', 0, None), ('t', 0, None), ('c', 0, None), ('s', 0, None)]


def gen(rng, pool):
    k = rng.choice('oippplL')
    if k in 'oi':
        ps = OP if k == 'o' else IP
        bad = rng.sample([p[0] for p in ps], rng.choice([0, 1, 1, 1, 2]))
        args = {}
        for p, lo, hi in ps:
            if p in bad:
                args[p] = g_val(rng, pool, lo, hi)
            elif p in ('t1', 'c1', 't2', 'c2', 's', 't', 'c') and rng.random() < .4:
                continue
            else:
                args[p] = ['f', repr(rng.choice([0.3, 0.1, 0.5, -0.5]) if hi else rng.choice([1.0, 10.0, 0.25, 129500.0, 0.0 if p != 'e1' else 3.0]))]
        return dict(kind=k, args=args, positional=rng.random() < .3)
    if k == 'p':
        args = dict(a=['f', '100.0'], b=['i', 50], Nxx=['f', '-1.0'], Nyy=['i', 0], Nxy=['f', '0.5'], m=['i', 4], n=['i', 3])
        for p in rng.sample(sorted(args), rng.choice([0, 1, 1, 2])):
            if p in 'mn':
                args[p] = rng.choice([['i', 1], ['i', 0], ['i', -3], ['f', '2.0'], ['f', '2.5'], ['f', '0.5'], ['s', '6'], ['s', '6.5'], ['f', 'inf'], ['f', 'nan'],
                                      ['f', '1.0'], ['f', '0.9999999'], g_val(rng, pool, 1)])
            else:
                args[p] = g_val(rng, pool, 0 if p in 'ab' else None)
        prop = rng.choice(['lam', 'lam', 'lam', 'mat', 'none', 'str', 'array', 'class'])
        return dict(kind='p', args=args, prop=prop)
    if k == 'l':
        return dict(kind='l', n=rng.randint(0, 6), m=rng.randint(0, 6), st=rng.choice(['list', 'tuple']))
    return dict(kind='L', keys=[x for x in ('xiA', 'xiB', 'xiD', 'T') if rng.random() < .7])


def prop_of(k):
    import composipy
    ply = composipy.OrthotropicMaterial(129500., 9370., .38, 5240., .2)
    if k == 'lam':
        return composipy.LaminateProperty([0, 90], ply)
    return {'mat': ply, 'none': None, 'str': 'x', 'array': np.eye(3), 'class': composipy.LaminateProperty}[k]


def run(case):
    import composipy
    k = case['kind']
    if k in 'oi':
        ps = OP if k == 'o' else IP
        args = {p: dec(v) for p, v in case['args'].items()}
        want, ok = {}, True
        for p, lo, hi in ps:
            if p not in case['args']:
                want[p] = 0.0
                continue
            e = expect(case['args'][p])
            if e is None or e < lo or (hi is not None and e > hi):
                ok = False
            want[p] = e
        if ok and (k == 'o' and want['e1'] == 0):
            raise Skip()
        cls = composipy.OrthotropicMaterial if k == 'o' else composipy.IsotropicMaterial
        with np.errstate(all='ignore'):
            try:
                if case.get('positional'):
                    names = [p[0] for p in ps]
                    pos = []
                    for p in names:
                        if p not in args:
                            break
                        pos.append(args.pop(p))
                    o = cls(*pos, **args)
                else:
                    o = cls(**args)
            except ValueError as e:
                need(not ok, 'rejected although all parameters are in range (%s)' % e, case['args'])
                return
        need(ok, 'accepted an out-of-range parameter', case['args'])
        for p, v in want.items():
            g = getattr(o, p)
            need(isinstance(g, float) and g == v, 'stored value of ' + p, g, v)
    elif k == 'p':
        ok = case['prop'] == 'lam'
        want = {}
        for p, v in case['args'].items():
            e = expect(v)
            if e is None or (p in 'ab' and e < 0):
                ok = False
            if p in 'mn' and e is not None:
                if math.isinf(e) or not e.is_integer() or e < 1:
                    ok = False
            want[p] = e
        try:
            o = composipy.PlateStructure(prop_of(case['prop']), **{p: dec(v) for p, v in case['args'].items()})
        except ValueError as e:
            need(not ok, 'plate rejected although valid (%s)' % e, case)
            return
        need(ok, 'plate accepted an invalid argument', case)
        for p, v in want.items():
            g = getattr(o, p)
            need(g == v and (isinstance(g, int) if p in 'mn' else isinstance(g, float)), 'stored ' + p, g, v)
    elif k == 'l':
        ply = composipy.OrthotropicMaterial(129500., 9370., .38, 5240., .2)
        st = [0.] * case['n']
        st = tuple(st) if case['st'] == 'tuple' else st
        try:
            composipy.LaminateProperty(st, [ply] * case['m'])
        except ValueError:
            need(case['n'] != case['m'], 'matching plies rejected', case)
            return
        need(case['n'] == case['m'], 'plies that do not match the stacking accepted', case)
    else:
        ply = composipy.OrthotropicMaterial(129500., 9370., .38, 5240., .2)
        d = {q: [0.1, 0., 0.2, 0.] for q in case['keys']}
        if 'T' in d:
            d['T'] = 1.0
        ok = 'xiD' in d and 'T' in d
        try:
            composipy.LaminateProperty(d, ply)
        except KeyError:
            need(not ok, 'complete dictionary rejected', case)
            return
        need(ok, 'dictionary without xiD or T accepted', case)


B = dict(e1=['f', '10.0'], e2=['f', '5.0'], v12=['f', '0.3'], g12=['f', '2.0'], thickness=['f', '0.1'])
FIXED = [dict(kind='o', args=dict(B, v12=['f', v]), positional=False) for v in ('0.5', '-0.5', '0.5000001', '-0.5000001', 'nan')]
FIXED += [dict(kind='o', args=dict(B, **{p: ['f', v]}), positional=False) for p in ('e1', 'e2', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's')
          for v in (('-1e-9', 'nan') + (('0.0',) if p != 'e1' else ()))]
PB = dict(a=['f', '10.0'], b=['f', '5.0'], Nxx=['f', '-1.0'], Nyy=['f', '0.0'], Nxy=['f', '0.0'], m=['i', 3], n=['i', 3])
FIXED += [dict(kind='p', prop='lam', args=dict(PB, **{p: v})) for p in 'mn' for v in (['i', 1], ['i', 0], ['f', '2.5'], ['f', '2.0'], ['f', 'inf'], ['s', '4'], ['none', 0])]
FIXED += [dict(kind='p', prop='lam', args=dict(PB, **{p: v})) for p in 'ab' for v in (['i', 0], ['f', '-1e-9'], ['f', 'nan'], ['f', 'inf'])]
FIXED += [dict(kind='L', keys=list(k)) for k in (['xiD', 'T'], ['xiA', 'xiD'], ['xiA', 'T'], ['xiA', 'xiB', 'xiD', 'T'], [])]
FIXED += [dict(kind='l', n=3, m=2, st='list'), dict(kind='l', n=2, m=3, st='list'), dict(kind='l', n=2, m=2, st='tuple')]
