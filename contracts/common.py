"""Shared specification vocabulary."""
from fractions import Fraction
from pyvc.terms import *
from pyvc import terms as T
from pyvc.values import *
from pyvc.interp import *
from pyvc import ops, arrays, execx
from pyvc.unit import UnitSpec, U, Stop
from pyvc.execx import OneOf

F = Fraction


def V(n):
    return T.var(n)


def VI(n):
    return T.var(n, 'int')


PI = T.PI() if callable(T.PI) else T.PI


def pos(*names):
    return lambda rng, *i: round(rng.uniform(0.2, 5.0), 3)


def dom_pos(rng, *i):
    return round(rng.uniform(0.2, 5.0), 3)


def dom_pois(rng, *i):
    return round(rng.uniform(-0.45, 0.45), 3)


def dom_ang(rng, *i):
    return rng.choice([0, 15, 30, 45, 60, 90, -45, 37.5, -12.25, rng.uniform(-180, 180)])


MATDOM = {'e1': dom_pos, 'e2': dom_pos, 'g12': dom_pos, 'v12': dom_pois, 't': dom_pos, 'e': dom_pos, 'v': dom_pois, 'g': dom_pos,
          't1': dom_pos, 'c1': dom_pos, 't2': dom_pos, 'c2': dom_pos, 's': dom_pos, 'th': dom_ang, 'c': dom_pos, 'a': dom_pos, 'b': dom_pos}


def Q_ortho(e1, e2, v12, g12):
    """plane-stress stiffness from the compliance [[1/e1,-v12/e1,0],[-v12/e1,1/e2,0],[0,0,1/g12]], inverted by cofactors"""
    s11, s12, s22, s66 = inverse(e1), -P(v12) * inverse(e1), inverse(e2), inverse(g12)
    d = inverse(s11 * s22 - s12 * s12)
    return [[s22 * d, -s12 * d, ZERO], [-s12 * d, s11 * d, ZERO], [ZERO, ZERO, P(g12)]]


def invariants(Q):
    """Tsai-Pagano invariants of a plane stiffness"""
    q11, q12, q22, q66 = P(Q[0][0]), P(Q[0][1]), P(Q[1][1]), P(Q[2][2])
    return [(q11 * 3 + q22 * 3 + q12 * 2 + q66 * 4) * F(1, 8), (q11 - q22) * F(1, 2),
            (q11 + q22 - q12 * 2 - q66 * 4) * F(1, 8), (q11 + q22 + q12 * 6 - q66 * 4) * F(1, 8),
            (q11 + q22 - q12 * 2 + q66 * 4) * F(1, 8)]


def stress_matrix(c, s):
    return [[c * c, s * s, c * s * 2], [s * s, c * c, c * s * -2], [-(c * s), c * s, c * c - s * s]]


def strain_matrix(c, s):
    return [[c * c, s * s, c * s], [s * s, c * c, -(c * s)], [c * s * -2, c * s * 2, c * c - s * s]]


def Qbar(Q, c, s):
    """classical closed form of the rotated stiffness in powers of cos and sin"""
    q11, q12, q22, q66 = P(Q[0][0]), P(Q[0][1]), P(Q[1][1]), P(Q[2][2])
    c2, s2, c4, s4, cs = c * c, s * s, c ** 4, s ** 4, c * s
    b11 = q11 * c4 + (q12 + q66 * 2) * c2 * s2 * 2 + q22 * s4
    b12 = (q11 + q22 - q66 * 4) * c2 * s2 + q12 * (c4 + s4)
    b22 = q11 * s4 + (q12 + q66 * 2) * c2 * s2 * 2 + q22 * c4
    b16 = (q11 - q12 - q66 * 2) * c2 * cs + (q12 - q22 + q66 * 2) * s2 * cs
    b26 = (q11 - q12 - q66 * 2) * s2 * cs + (q12 - q22 + q66 * 2) * c2 * cs
    b66 = (q11 + q22 - q12 * 2 - q66 * 2) * c2 * s2 + q66 * (c4 + s4)
    return [[b11, b12, b16], [b12, b22, b26], [b16, b26, b66]]


def rad(th):
    return P(th) * PI * F(1, 180)
