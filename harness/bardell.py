"""Bardell's shape functions from their definition, exact rationals"""
from fractions import Fraction as Fr
from functools import lru_cache
from math import factorial


def dfact(k):
    r = 1
    while k > 1:
        r *= k
        k -= 2
    return r


@lru_cache(None)
def poly(i, d=0):
    """coefficients (lowest first) of the d-th derivative of f_i"""
    if d:
        p = poly(i, d - 1)
        return tuple(c * k for k, c in enumerate(p))[1:] or (Fr(0),)
    if i < 4:
        return tuple(Fr(x, 8) for x in ((4, -6, 0, 2), (1, -1, -1, 1), (4, 6, 0, -2), (-1, -1, 1, 1))[i])
    r = i + 1
    c = [Fr(0)] * r
    for n in range(r // 2 + 1):
        p = r - 2 * n - 1
        if p >= 0:
            c[p] += Fr((-1)**n * dfact(2 * r - 2 * n - 7), 2**n * factorial(n) * factorial(p))
    return tuple(c)


@lru_cache(None)
def I(d1, d2, i, k):
    """exact integral over [-1, 1] of f_i^(d1) f_k^(d2)"""
    p, q = poly(i, d1), poly(k, d2)
    s = Fr(0)
    for x, a in enumerate(p):
        if a:
            for y, b in enumerate(q):
                if b and (x + y) % 2 == 0:
                    s += a * b * Fr(2, x + y + 1)
    return s


@lru_cache(None)
def If(d1, d2, i, k):
    return float(I(d1, d2, i, k))


def fval(i, x, d=0):
    """value at a float, exactly summed"""
    x = Fr(x)
    s = Fr(0)
    for c in reversed(poly(i, d)):
        s = s * x + c
    return float(s)
