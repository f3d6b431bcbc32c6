"""Runtime contract checks on the real package: input generation and independent numpy oracles."""
import ast
import glob
import copy
import math
import os
import random
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
import numpy as np

REPO = os.environ.get('REPO', '/repo')
SKIP = ('_ii_F.py', '_S.py', 'theoretical', 'write_', 'tests')


def mined():
    """numbers and strings written in the package's source"""
    nums, strs = set(), set()
    for f in glob.glob(os.path.join(REPO, 'composipy', '**', '*.py'), recursive=True):
        if any(s in f for s in SKIP):
            continue
        try:
            t = ast.parse(open(f, encoding='utf-8').read())
        except SyntaxError:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, (int, float)) and math.isfinite(v) and abs(v) < 1e9:
                    nums.add(v)
                elif isinstance(v, str) and len(v) < 24:
                    strs.add(v)
    return sorted(nums), sorted(strs)


class Pool:
    def __init__(self, hints=()):
        self.nums, self.strs = mined()
        h = [x for x in hints if isinstance(x, (int, float)) and math.isfinite(x)]
        self.hints = h
        self.ints = sorted({int(c) + d for c in list(self.nums) + h if float(c).is_integer() and abs(c) < 400 for d in (-1, 0, 1)})
        vals = set()
        for c in list(self.nums) + h:
            for d in (0.0, 1.0, -1.0, 0.01, -0.01, 1e-7, -1e-7):
                vals.add(float(c) + d)
                vals.add(-float(c) + d)
            vals.add(c * 2.0)
            vals.add(c / 2.0)
        self.vals = sorted(vals)
        self.anglesp = [v for v in self.vals if -400 <= v <= 400]

    def angle(self, rng):
        k = rng.random()
        if k < 0.45:
            return rng.choice([0, 90, 45, -45, 30, 60, 15, 75, -30, -60, 0.0, 90.0, 45.0, -45.0])
        if k < 0.7:
            return round(rng.uniform(-180, 180), 3)
        if k < 0.75:
            return rng.choice([180, -90, 135, -135, 360, 270, 225, -270, 0.001, 89.999, 400, -1000])
        if k < 0.9 and self.anglesp:
            return rng.choice(self.anglesp)
        return rng.randint(-90, 90)

    def real(self, rng, lo, hi, p=0.3):
        """a real in [lo, hi], often an interesting one"""
        if rng.random() < p:
            c = [v for v in self.vals if lo <= v <= hi]
            if c:
                return rng.choice(c)
        if lo > 0 and hi / lo > 100:
            return math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return rng.uniform(lo, hi)

    def int(self, rng, lo, hi, p=0.3):
        if rng.random() < p:
            c = [v for v in self.ints if lo <= v <= hi]
            if c:
                return rng.choice(c)
        return rng.randint(lo, hi)


# ------------------------------------------------------------------ oracles (from textbook definitions)
def oracle_Q(e1, e2, v12, g12):
    S = np.array([[1 / e1, -v12 / e1, 0.], [-v12 / e1, 1 / e2, 0.], [0., 0., 1 / g12]], dtype=float)
    return np.linalg.inv(S)


def T_stress(th):
    c, s = math.cos(math.radians(th)), math.sin(math.radians(th))
    return np.array([[c * c, s * s, 2 * c * s], [s * s, c * c, -2 * c * s], [-c * s, c * s, c * c - s * s]])


def T_strain(th):
    c, s = math.cos(math.radians(th)), math.sin(math.radians(th))
    return np.array([[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]])


def oracle_Qbar(Q, th):
    c, s = math.cos(math.radians(th)), math.sin(math.radians(th))
    q11, q12, q22, q66 = Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]
    b11 = q11 * c**4 + 2 * (q12 + 2 * q66) * c * c * s * s + q22 * s**4
    b12 = (q11 + q22 - 4 * q66) * c * c * s * s + q12 * (c**4 + s**4)
    b22 = q11 * s**4 + 2 * (q12 + 2 * q66) * c * c * s * s + q22 * c**4
    b16 = (q11 - q12 - 2 * q66) * c**3 * s + (q12 - q22 + 2 * q66) * c * s**3
    b26 = (q11 - q12 - 2 * q66) * c * s**3 + (q12 - q22 + 2 * q66) * c**3 * s
    b66 = (q11 + q22 - 2 * q12 - 2 * q66) * c * c * s * s + q66 * (c**4 + s**4)
    return np.array([[b11, b12, b16], [b12, b22, b26], [b16, b26, b66]])


def oracle_inv(Q):
    q11, q12, q22, q66 = Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]
    return np.array([(3 * q11 + 3 * q22 + 2 * q12 + 4 * q66) / 8, (q11 - q22) / 2, (q11 + q22 - 2 * q12 - 4 * q66) / 8,
                     (q11 + q22 + 6 * q12 - 4 * q66) / 8, (q11 + q22 - 2 * q12 + 4 * q66) / 8])


def close(a, b, rtol=1e-7, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sc = scale if scale is not None else max(np.max(np.abs(b)), np.max(np.abs(a)), 1e-300)
    with np.errstate(all='ignore'):
        return bool(np.all(np.abs(a - b) <= rtol * sc) and not np.any(np.isnan(a)))


class Fail(Exception):
    """the contract is broken by this case"""


class Skip(Exception):
    """the case is outside the property's precondition"""


def need(cond, msg, *vals):
    if not cond:
        raise Fail(msg + (': ' + ' | '.join(repr(v)[:300] for v in vals) if vals else ''))


def same(msg, got, want, rtol=1e-7, scale=None):
    try:
        ok = close(got, want, rtol, scale)
    except Exception as e:
        raise Fail('%s: not numeric (%r): %r' % (msg, e, got))
    if not ok:
        raise Fail('%s: got %s, expected %s' % (msg, np.array2string(np.asarray(got, dtype=float), precision=9, threshold=40).replace('\n', ''),
                                               np.array2string(np.asarray(want, dtype=float), precision=9, threshold=40).replace('\n', '')))


# ------------------------------------------------------------------ case pieces
def g_mat(rng, pool, allow=None):
    """an orthotropic material with a positive definite stiffness; sometimes one that shares most constants with an earlier one"""
    d = g_mat1(rng, pool, allow)
    old = pool.__dict__.setdefault('oldmats', [])
    c = [m for m in old if allow is not True or 't1' in m]
    if c and rng.random() < .15:
        m = dict(rng.choice(c))
        for k in rng.sample(['e2', 'v12', 'g12', 'thickness', 'name'], rng.choice([1, 1, 2])):
            if k in d and k == 'e2':
                m[k] = m['e1'] * rng.uniform(0.05, 1.5)
            elif k in d and k == 'g12':
                m[k] = m['e1'] * rng.uniform(0.02, .6)
            elif k in d:
                m[k] = d[k]
        if m['e1'] - m['e2'] * m['v12']**2 > 1e-3 * m['e1']:
            if allow is False:
                for k in ('t1', 'c1', 't2', 'c2', 's'):
                    m.pop(k, None)
            d = m
    old.append(dict(d))
    del old[:-12]
    return d


def g_mat1(rng, pool, allow=None):
    e1 = pool.real(rng, 1e3, 2e5) if rng.random() < .8 else pool.real(rng, 0.5, 10)
    e2 = e1 * pool.real(rng, 0.05, 1.5)
    v = pool.real(rng, -0.5, 0.5) if rng.random() < .5 else rng.choice([0.3, 0.25, 0, 0.5, -0.5, 0.38, 0.1])
    if e1 - e2 * v * v <= 1e-3 * e1:
        v = 0.3
    g = e1 * pool.real(rng, 0.02, 0.6)
    t = rng.choice([0.2, 0.127, 1, 0.1, 0.25]) if rng.random() < .5 else pool.real(rng, 0.01, 5.)
    d = dict(e1=e1, e2=e2, v12=v, g12=g, thickness=t)
    if allow or (allow is None and rng.random() < .5):
        for k in ('t1', 'c1', 't2', 'c2', 's'):
            d[k] = pool.real(rng, 10, 3000)
    if rng.random() < .3:
        d['name'] = rng.choice(['ply', 'x', '', 'ply_1', 'name'])
    return d


def mk_mat(d):
    import composipy
    return composipy.OrthotropicMaterial(**d)


def mat_Q(d):
    return oracle_Q(d['e1'], d['e2'], d['v12'], d['g12'])


def g_lam(rng, pool, nmax=9, nmin=1, single=None, allow=None):
    """a laminate; sometimes one that shares most of its data with an earlier one"""
    d = g_lam1(rng, pool, nmax, nmin, single, allow)
    old = pool.__dict__.setdefault('oldlams', [])
    key = (nmax, nmin, single, allow)
    c = [l for k, l in old if k == key]
    if c and rng.random() < .12:
        m = copy.deepcopy(rng.choice(c))
        k = rng.random()
        if k < .4:
            m['mats'] = [g_mat(rng, pool, allow) for _ in m['mats']]
        elif k < .7:
            m['stacking'][rng.randrange(len(m['stacking']))] = pool.angle(rng)
        elif k < .85:
            i, j = rng.randrange(len(m['stacking'])), rng.randrange(len(m['stacking']))
            m['stacking'][i], m['stacking'][j] = m['stacking'][j], m['stacking'][i]
        elif m['plies'] is not None:
            m['plies'][rng.randrange(len(m['plies']))] = rng.randrange(len(m['mats']))
        d = m
    old.append((key, copy.deepcopy(d)))
    del old[:-12]
    return d


def g_lam1(rng, pool, nmax=9, nmin=1, single=None, allow=None):
    n = pool.int(rng, nmin, nmax) if rng.random() < .85 else pool.int(rng, nmin, max(nmax, 24))
    st = [pool.angle(rng) for _ in range(n)]
    if rng.random() < .25:
        st = st + st[::-1]
    one = rng.random() < .5 if single is None else single
    if one:
        return dict(stacking=st, mats=[g_mat(rng, pool, allow)], plies=None)
    k = rng.randint(1, 3)
    mats = [g_mat(rng, pool, allow) for _ in range(k)]
    if rng.random() < .3:
        for m in mats[1:]:
            for q in ('e1', 'e2', 'v12', 'g12'):
                m[q] = mats[0][q]
    return dict(stacking=st, mats=mats, plies=[rng.randrange(k) for _ in st])


def mk_lam(d):
    import composipy
    ms = [mk_mat(m) for m in d['mats']]
    pl = ms[0] if d['plies'] is None else [ms[i] for i in d['plies']]
    return composipy.LaminateProperty(list(d['stacking']), pl)


def lam_data(d):
    """(thickness, Qbar, angle, material) of each ply, and interfaces"""
    n = len(d['stacking'])
    ms = [d['mats'][0 if d['plies'] is None else d['plies'][i]] for i in range(n)]
    t = [float(m['thickness']) for m in ms]
    Q = [oracle_Qbar(mat_Q(m), th) for m, th in zip(ms, d['stacking'])]
    h = sum(t)
    z = [-h / 2]
    for x in t:
        z.append(z[-1] + x)
    return ms, t, Q, z


def oracle_ABD(d):
    ms, t, Q, z = lam_data(d)
    A, B, D = np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))
    for k, q in enumerate(Q):
        A += q * (z[k + 1] - z[k])
        B += q * (z[k + 1]**2 - z[k]**2) / 2
        D += q * (z[k + 1]**3 - z[k]**3) / 3
    return A, B, D


def scaleB(A, d):
    return np.max(np.abs(A)) * sum(lam_data(d)[1])
