"""Exact symbolic terms: Laurent polynomials with rational coefficients over interned atoms,
and conditions over them.  Real arithmetic (machine floats are treated as reals)."""
from fractions import Fraction
import math

_ATOMS = {}


class Atom:
    __slots__ = ('kind', 'args', 'id', 'sort', 'level', 'vars')

    def __repr__(self):
        return atom_str(self)


def _vars_of(x):
    if isinstance(x, Poly):
        return x.vars()
    if isinstance(x, Cond):
        return x.vars()
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= _vars_of(y)
        return s
    return frozenset()


def _level_of(x):
    if isinstance(x, Poly):
        return x.level()
    if isinstance(x, Cond):
        return _level_of(x.args)
    if isinstance(x, tuple):
        return max([_level_of(y) for y in x], default=0)
    return 0


def atom(kind, args, sort='real'):
    key = (kind, args, sort)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort = kind, args, sort
        a.id = len(_ATOMS)
        if kind == 'var':
            a.vars = frozenset([args[0]])
            a.level = 0
        elif kind == 'sum':
            upper, lvl, body = args
            a.vars = (_vars_of(upper) | _vars_of(body)) - {bname(lvl)}
            a.level = max(lvl, _level_of(upper), _level_of(body))
        else:
            a.vars = _vars_of(args)
            a.level = _level_of(args)
        _ATOMS[key] = a
    return a


def bname(lvl):
    return '#%d' % lvl


def atom_str(a):
    k = a.kind
    if k == 'var':
        return str(a.args[0])
    if k == 'el':
        return '%s[%s]' % (a.args[0], ','.join(map(str, a.args[1])))
    if k == 'sum':
        return 'Sum(%s<%s: %s)' % (bname(a.args[1]), a.args[0], a.args[2])
    if k == 'ite':
        return 'Ite(%s, %s, %s)' % a.args
    if k == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(map(str, a.args[1])))
    return '%s(%s)' % (k, ', '.join(map(str, a.args)))


def _frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(x)


class Poly:
    __slots__ = ('t', '_h', '_v', '_k', '_l')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._v = None
        self._k = None
        self._l = None

    # -- basic
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def vars(self):
        if self._v is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= a.vars
            self._v = frozenset(s)
        return self._v

    def level(self):
        if self._l is None:
            self._l = max([a.level for m in self.t for a, e in m], default=0)
        return self._l

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def const_part(self):
        return self.t.get((), Fraction(0))

    def is_int(self):
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != 'int' or e < 0:
                    return False
        return True

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for a, e in m:
                fs.append(str(a) if e == 1 else '%s^%d' % (a, e))
            out.append('*'.join(fs))
        return ' + '.join(out)

    __str__ = __repr__

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        c = _frac(c)
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: c * d for m, d in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, rew = _mono_mul(m1, m2)
                c = c1 * c2
                if rew:
                    p = _reduce_mono(m).scale(c)
                    extra = p if extra is None else extra + p
                else:
                    n = t.get(m, 0) + c
                    if n == 0:
                        t.pop(m, None)
                    else:
                        t[m] = n
        r = Poly(t)
        if extra is not None:
            r = r + extra
        return r

    __rmul__ = __mul__

    def __pow__(self, k):
        if isinstance(k, Poly):
            k = k.const()
        k = int(k)
        if k < 0:
            return inverse(self ** (-k))
        r = ONE
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    def __truediv__(self, o):
        o = P(o)
        return self * inverse(o)

    def __rtruediv__(self, o):
        return P(o) * inverse(self)


def _mono_mul(m1, m2):
    """merge two monomials; rew True when a rewrite is needed"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    rew = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            g = e + f
            if g:
                if g >= 2 and a.kind in ('sin', 'par', 'sqrt'):
                    rew = True
                out.append((a, g))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), rew


def _reduce_mono(m):
    r = ONE
    rest = []
    for a, e in m:
        if e >= 2 and a.kind == 'sin':
            c = atom('cos', a.args)
            q = e // 2
            r = r * ((ONE - apoly(c, 2)) ** q)
            if e % 2:
                rest.append((a, 1))
        elif e >= 2 and a.kind == 'par':
            if e % 2:
                rest.append((a, 1))
        elif e >= 2 and a.kind == 'sqrt':
            r = r * (a.args[0] ** (e // 2))
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    return Poly({tuple(rest): Fraction(1)}) * r


def apoly(a, e=1):
    return Poly({((a, e),): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    c = _frac(x)
    return Poly({(): c}) if c else ZERO


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def var(name, sort='real'):
    return apoly(atom('var', (name,), sort))


_fresh = [0]


def fresh(prefix='v', sort='real'):
    _fresh[0] += 1
    return var('%s$%d' % (prefix, _fresh[0]), sort)




def el(name, *idx, sort='real'):
    return apoly(atom('el', (name, tuple(P(i) for i in idx)), sort))


def app(name, *args, sort='real'):
    return apoly(atom('app', (name, tuple(P(a) if not isinstance(a, (str, tuple)) else a for a in args)), sort))


def opq(name, key, sort='real'):
    """an atom determined by an arbitrary hashable key"""
    return apoly(atom('opq', (name, key), sort))


# ---------------------------------------------------------------- division
def _content(p):
    """split p = mono * primitive, where mono is a (Laurent) monomial with rational coefficient"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                common[a] = min(common[a], 0)
        for a, e in d.items():
            if a not in common and e < 0:
                common[a] = e
    common = {a: e for a, e in common.items() if e}
    mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
    invm = tuple((a, -e) for a, e in mono)
    t = {}
    for m, d in p.t.items():
        mm, rew = _mono_mul(m, invm)
        t[mm] = d
    # the sign and scale are fixed by the primitive part alone
    c = t[min(t, key=lambda m: [(a.id, e) for a, e in m] if m else [(-1, 0)])]
    return Poly({mono: c}), Poly({m: d / c for m, d in t.items()})


class DivByZero(Exception):
    pass


def _mono_inverse(p):
    (m, c), = p.t.items()
    r = Poly({tuple((a, -e) for a, e in m if a.kind not in ('recip', 'par')): 1 / c})
    for a, e in m:
        if a.kind == 'recip':
            r = r * (a.args[0] ** e) if e > 0 else r * apoly(a, -e)
        elif a.kind == 'par':
            r = r * (apoly(a, abs(e)) if e % 2 else ONE)
    # negative exponents of sin/sqrt are fine (Laurent)
    return r


def inverse(p):
    if not p.t:
        raise DivByZero()
    if len(p.t) == 1:
        return _mono_inverse(p)
    mono, prim = _content(p)
    if len(prim.t) == 1:
        return _mono_inverse(mono) * _mono_inverse(prim)
    return _mono_inverse(mono) * apoly(atom('recip', (prim,)))


def clear_denoms(p):
    """multiply p by nonzero factors so that no recip atom and no negative exponent is left"""
    for _ in range(200):
        rec = {}
        neg = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'recip':
                    rec[a] = max(rec.get(a, 0), e)
                elif e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = Poly({tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda x: x[0].id)): Fraction(1)})
            p = _mul_clear(p, f)
            continue
        if not rec:
            return p
        # eliminate the recip with the largest id first (may contain other recips inside)
        a = max(rec, key=lambda x: x.id)
        q = a.args[0]
        k = rec[a]
        r = ZERO
        groups = {}
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            mm = tuple(x for x in m if x[0] is not a)
            groups.setdefault(e, {})[mm] = c
        for e, t in groups.items():
            r = r + Poly(t) * (q ** (k - e))
        p = r
    return p


def _mul_clear(p, f):
    r = ZERO
    (fm, fc), = f.t.items()
    t = {}
    extra = ZERO
    for m, c in p.t.items():
        mm, rew = _mono_mul(m, fm)
        if any(e >= 2 and a.kind in ('sin', 'par', 'sqrt') for a, e in mm):
            extra = extra + _reduce_mono(mm).scale(c * fc)
        else:
            t[mm] = t.get(mm, 0) + c * fc
    return Poly({m: c for m, c in t.items() if c}) + extra


def is_zero(p):
    p = P(p)
    if not p.t:
        return True
    return not clear_denoms(p).t


# ---------------------------------------------------------------- trig
def _trig_units(arg):
    """split arg into [(k, base)] with integer k, plus a rational multiple of pi"""
    units = []
    pim = ((next(iter(PI.t))[0][0], 1),)
    pic = Fraction(0)
    for m, c in sorted(arg.t.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
        if m == pim:
            pic = c
            continue
        if m == ():
            units.append((1, Poly({m: c})))
            continue
        haspi = any(a.kind == 'pi' for a, e in m)
        u = Fraction(1, 180) if haspi else Fraction(1)
        k = c / u
        if k.denominator == 1 and abs(k) <= 24:
            units.append((int(k), Poly({m: u})))
        else:
            units.append((1, Poly({m: c})) if c > 0 else (-1, Poly({m: -c})))
    return units, pic


def _cs_multiple(k, base):
    """(cos(k*base), sin(k*base)) as polynomials"""
    C = apoly(atom('cos', (base,)))
    S = apoly(atom('sin', (base,)))
    neg = k < 0
    k = abs(k)
    c, s = ONE, ZERO
    for _ in range(k):
        c, s = c * C - s * S, s * C + c * S
    return (c, -s) if neg else (c, s)


def cossin(arg):
    arg = P(arg)
    units, pic = _trig_units(arg)
    pic = pic - 2 * math.floor(pic / 2)
    if pic == 0:
        c, s = ONE, ZERO
    elif pic == 1:
        c, s = -ONE, ZERO
    elif pic == Fraction(1, 2):
        c, s = ZERO, ONE
    elif pic == Fraction(3, 2):
        c, s = ZERO, -ONE
    elif pic == Fraction(1, 4):
        r = sqrt(P(2)).scale(Fraction(1, 2))
        c, s = r, r
    else:
        c, s = _cs_multiple(1, PI.scale(pic))
    for k, b in units:
        cc, ss = _cs_multiple(k, b)
        c, s = c * cc - s * ss, s * cc + c * ss
    return c, s


def cos(x):
    return cossin(x)[0]


def sin(x):
    return cossin(x)[1]


def sqrt(p):
    p = P(p)
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(Fraction(n, d))
    return apoly(atom('sqrt', (p,)))


def parity(e):
    """(-1)**e for an integer term e"""
    e = P(e)
    r = ONE
    for m, c in e.t.items():
        if c.denominator != 1:
            return apoly(atom('app', ('pow', (P(-1), e)), 'real'))
    for m, c in e.t.items():
        if int(c) % 2 == 0:
            continue
        if m == ():
            r = -r
        else:
            r = r * apoly(atom('par', (Poly({m: Fraction(1)}),), 'int'))
    return r


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'args', '_h', '_v')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = None
        self._v = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.args == o.args

    def vars(self):
        if self._v is None:
            if self.op == 'forall':
                self._v = (_vars_of(self.args[0]) | _vars_of(self.args[2])) - {bname(self.args[1])}
            else:
                self._v = _vars_of(self.args)
        return self._v

    def __repr__(self):
        o = self.op
        if o == 'eq':
            return '(%s == 0)' % self.args[0]
        if o == 'lt':
            return '(%s < 0)' % self.args[0]
        if o == 'le':
            return '(%s <= 0)' % self.args[0]
        if o == 'not':
            return 'not %s' % self.args[0]
        if o in ('and', 'or'):
            return '(' + (' %s ' % o).join(map(str, self.args)) + ')'
        if o == 'forall':
            return 'forall %s<%s: %s' % (bname(self.args[1]), self.args[0], self.args[2])
        return '%s%s' % (self.args[0], self.args[1] if self.args[1] else '')


PI = apoly(atom('pi', ()))


def _sign_norm(p):
    """scale by a positive rational to make p primitive-ish"""
    if not p.t:
        return p
    from math import gcd
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in p.t.values():
        num = gcd(num, int(c * den))
    return p.scale(Fraction(den, num))


def lens_bound(p):
    """(min, max) of a sum of text lengths and written repeat counts (None: unbounded), or None for any other term"""
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'el':
            return None
        n = str(m[0][0].args[0])
        if n.startswith('len:'):
            b = 0 if n.startswith('len:ws') else 1
        elif n.startswith('cnt:'):
            b = 0
        else:
            return None
        if c > 0:
            lo, hi = (None if lo is None else lo + c * b), None
        else:
            lo, hi = None, (None if hi is None else hi + c * b)
    return lo, hi


def c_lt(a, b=0):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return c < 0
    r = lens_bound(p)
    if r is not None:
        if r[1] is not None and r[1] < 0:
            return True
        if r[0] is not None and r[0] >= 0:
            return False
    p = _sign_norm(p)
    if p.is_int():
        return Cond('le', (p + 1,))
    return Cond('lt', (p,))


def c_le(a, b=0):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return c <= 0
    r = lens_bound(p)
    if r is not None:
        if r[1] is not None and r[1] <= 0:
            return True
        if r[0] is not None and r[0] > 0:
            return False
    return Cond('le', (_sign_norm(p),))


def c_eq(a, b=0):
    p = P(a) - P(b)
    if is_zero(p):
        return True
    c = p.const()
    if c is not None:
        return c == 0
    p = _sign_norm(p)
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m] if m else [(1 << 60, 0)])
    if p.t[lead] < 0:
        p = -p
    return Cond('eq', (p,))


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        return c_le(-c.args[0])
    if c.op == 'le':
        return c_lt(-c.args[0])
    if c.op == 'and':
        return c_or(*[c_not(x) for x in c.args])
    if c.op == 'or':
        return c_and(*[c_not(x) for x in c.args])
    return Cond('not', (c,))


def c_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c.op == 'and':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c.op == 'or':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond('or', tuple(out))


def c_bool(name, *args):
    """uninterpreted boolean atom"""
    return Cond('batom', (name, tuple(P(a) if not isinstance(a, (str, tuple)) else a for a in args)))


def c_forall(upper, v, body):
    """forall 0 <= v < upper : body   (v a variable name)"""
    if isinstance(body, bool):
        return True if body else c_le(upper, 0)
    u = P(upper)
    if v not in body.vars():
        return c_or(c_le(u, 0), body)
    k = u.const()
    if k is not None and k <= 12:
        return c_and(*[subst_cond(body, {v: P(i)}) for i in range(int(k))])
    lvl = 1 + _level_of(body.args)
    b = subst_cond(body, {v: var(bname(lvl), 'int')})
    return Cond('forall', (u, lvl, b))


def point_eq(c):
    """v == constant -> {v: constant}"""
    p = c.args[0]
    if not isinstance(p, Poly) or len(p.t) > 2:
        return None
    vn, cf, k = None, None, Fraction(0)
    for m, co in p.t.items():
        if not m:
            k = co
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and vn is None:
            vn, cf = m[0][0].args[0], co
        else:
            return None
    if vn is None:
        return None
    return {vn: P(-k / cf)}


def implied_eq(c, d):
    return c == d


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    a, b = P(a), P(b)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'lt':  # canonical: use le
        return ite(c_not(c), b, a)
    if c.op == 'eq':
        pv = point_eq(c)
        if pv is not None:
            # the then-branch only matters at that point
            a2 = subst(a, pv)
            if a2 == b or a2 == subst(b, pv):
                return b
    sort = 'int' if a.is_int() and b.is_int() else 'real'
    return apoly(atom('ite', (c, a, b), sort))


# ---------------------------------------------------------------- sums
def _faulhaber(u, p):
    """sum_{j=0}^{u-1} j**p as polynomial in u"""
    # interpolate
    from functools import lru_cache
    coefs = _faul_coefs(p)
    r = ZERO
    for k, c in enumerate(coefs):
        if c:
            r = r + (u ** k).scale(c)
    return r


_fc = {}


def _faul_coefs(p):
    if p in _fc:
        return _fc[p]
    n = p + 2
    xs = list(range(n))
    ys = []
    s = 0
    for x in xs:
        ys.append(Fraction(s))
        s += x ** p
    # solve vandermonde by Newton interpolation
    coef = ys[:]
    for j in range(1, n):
        for i in range(n - 1, j - 1, -1):
            coef[i] = (coef[i] - coef[i - 1]) / (xs[i] - xs[i - j])
    res = [Fraction(0)] * n
    basis = [Fraction(1)]
    for k in range(n):
        for i, b in enumerate(basis):
            res[i] += coef[k] * b
        nb = [Fraction(0)] * (len(basis) + 1)
        for i, b in enumerate(basis):
            nb[i + 1] += b
            nb[i] -= b * xs[k]
        basis = nb
    _fc[p] = res
    return res


def mk_sum(upper, v, body):
    """sum of body for v = 0..upper-1 ; v is a variable name"""
    upper, body = P(upper), P(body)
    if not body.t:
        return ZERO
    k = upper.const()
    if k is not None:
        if k.denominator != 1:
            raise ValueError('non-integer sum bound')
        k = int(k)
        if 0 <= k <= 200:
            r = ZERO
            for i in range(k):
                r = r + subst(body, {v: P(i)})
            return r
    cp = upper.const_part()
    if cp != 0 and cp.denominator == 1 and abs(cp) <= 40 and k is None:
        u = upper - cp
        c = int(cp)
        r = mk_sum(u, v, body)
        if c > 0:
            for t in range(c):
                r = r + subst(body, {v: u + t})
        else:
            for t in range(1, -c + 1):
                r = r - subst(body, {v: u - t})
        return r
    # split off factors not depending on v
    res = ZERO
    groups = {}
    for m, c in body.t.items():
        out, inn = [], []
        for a, e in m:
            (inn if v in a.vars else out).append((a, e))
        groups.setdefault(tuple(inn), {})
        g = groups[tuple(inn)]
        g[tuple(out)] = g.get(tuple(out), 0) + c
    for inn, outs in groups.items():
        o = Poly({m: c for m, c in outs.items() if c})
        if not o.t:
            continue
        if not inn:
            res = res + o * upper
            continue
        if len(inn) == 1 and inn[0][0].kind == 'var' and inn[0][1] > 0:
            res = res + o * _faulhaber(upper, inn[0][1])
            continue
        b = Poly({inn: Fraction(1)})
        lvl = 1 + b.level()
        bb = subst(b, {v: var(bname(lvl), 'int')})
        # the substitution may renormalise; require a single monomial
        if len(bb.t) != 1:
            res = res + o * apoly(atom('sum', (upper, lvl, bb)))
            continue
        (mm, cc), = bb.t.items()
        sort = 'int' if bb.is_int() and upper.is_int() else 'real'
        res = res + (o * apoly(atom('sum', (upper, lvl, Poly({mm: Fraction(1)})), sort))).scale(cc)
    return res


# ---------------------------------------------------------------- floor div / mod
def fdiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P(math.floor(ca / cb))
    if a.is_int() and cb is not None and cb.denominator == 1 and cb > 0:
        q = {}
        r = {}
        for m, c in a.t.items():
            k = math.floor(c / cb)
            if k:
                q[m] = Fraction(k)
            rr = c - k * cb
            if rr:
                r[m] = rr
        rp = Poly(r)
        if rp.is_const():
            return Poly(q)  # 0 <= r < b
        if q:
            return Poly(q) + apoly(atom('app', ('fdiv', (rp, b)), 'int'))
    return apoly(atom('app', ('fdiv', (a, b)), 'int'))


def fmod(a, b):
    a, b = P(a), P(b)
    return a - b * fdiv(a, b)


# ---------------------------------------------------------------- substitution
class Env(dict):
    """a substitution with the results found so far"""
    __slots__ = ('memo',)


_envs = {}


def as_env(env):
    if type(env) is Env:
        return env
    try:
        key = tuple(sorted(((k, v.key()) for k, v in env.items()), key=lambda x: x[0]))
        e = _envs.get(key)
    except (AttributeError, TypeError):
        key, e = None, None
    if e is None:
        e = Env(env)
        e.memo = {}
        if key is not None:
            if len(_envs) > 400:
                _envs.clear()
            _envs[key] = e
    return e


def subst(p, env):
    """env: variable name -> Poly"""
    if not isinstance(p, Poly):
        return subst_any(p, env)
    keys = env.keys()
    if p.vars().isdisjoint(keys):
        return p
    env = as_env(env)
    res = {}

    def add(t):
        for m, c in t.items():
            n = res.get(m, 0) + c
            if n:
                res[m] = n
            else:
                res.pop(m, None)
    for m, c in p.t.items():
        hit = False
        for a, e in m:
            if not a.vars.isdisjoint(keys):
                hit = True
                break
        if not hit:
            n = res.get(m, 0) + c
            if n:
                res[m] = n
            else:
                res.pop(m, None)
            continue
        r = P(c)
        rest = []
        for a, e in m:
            if a.vars.isdisjoint(keys):
                rest.append((a, e))
            else:
                r = r * subst_pow(a, e, env)
        if rest:
            r = r * Poly({tuple(rest): Fraction(1)})
        add(r.t)
    return Poly(res)


def subst_pow(a, e, env):
    k = (a, e)
    r = env.memo.get(k)
    if r is None:
        r = subst_atom(a, env)
        if e != 1:
            r = r ** e
        env.memo[k] = r
    return r


def subst_any(x, env):
    if isinstance(x, Poly):
        return subst(x, env)
    if isinstance(x, Cond):
        return subst_cond(x, env)
    if isinstance(x, tuple):
        return tuple(subst_any(y, env) for y in x)
    return x


def rebuild(a, f):
    """rebuild atom a with f applied to its argument polys/conds"""
    k = a.kind
    if k == 'cos':
        return cos(f(a.args[0]))
    if k == 'sin':
        return sin(f(a.args[0]))
    if k == 'recip':
        return inverse(f(a.args[0]))
    if k == 'sqrt':
        return sqrt(f(a.args[0]))
    if k == 'par':
        return parity(f(a.args[0]))
    if k == 'ite':
        c = f(a.args[0])
        return ite(c, f(a.args[1]), f(a.args[2]))
    if k == 'el':
        return apoly(atom('el', (a.args[0], tuple(f(x) for x in a.args[1])), a.sort))
    if k == 'app':
        name = a.args[0]
        args = tuple(f(x) for x in a.args[1])
        if name == 'fdiv':
            return fdiv(*args)
        if name == 'I':
            return ii_atom(*args)
        return apoly(atom('app', (name, args), a.sort))
    if k == 'opq':
        return apoly(atom('opq', (a.args[0], f(a.args[1])), a.sort))
    return apoly(a)


def subst_atom(a, env):
    if a.kind == 'var':
        return env[a.args[0]]
    if a.kind == 'sum':
        upper, lvl, body = a.args
        nv = fresh('b', 'int')
        (nn,) = nv.vars()
        b = subst(body, {bname(lvl): nv})
        b = subst(b, env)
        return mk_sum(subst(upper, env), nn, b)
    return rebuild(a, lambda x: subst_any(x, env))


def subst_cond(c, env):
    if isinstance(c, bool):
        return c
    if c.vars().isdisjoint(env.keys()):
        return c
    env = as_env(env)
    r = env.memo.get(c)
    if r is None:
        r = env.memo[c] = _subst_cond(c, env)
    return r


def _subst_cond(c, env):
    if c.op == 'eq':
        return c_eq(subst(c.args[0], env))
    if c.op == 'lt':
        return c_lt(subst(c.args[0], env))
    if c.op == 'le':
        return c_le(subst(c.args[0], env))
    if c.op == 'not':
        return c_not(subst_cond(c.args[0], env))
    if c.op == 'and':
        return c_and(*[subst_cond(x, env) for x in c.args])
    if c.op == 'or':
        return c_or(*[subst_cond(x, env) for x in c.args])
    if c.op == 'forall':
        upper, lvl, body = c.args
        nv = fresh('b', 'int')
        (nn,) = nv.vars()
        b = subst_cond(subst_cond(body, {bname(lvl): nv}), env)
        return c_forall(subst(upper, env), nn, b)
    if c.op == 'batom':
        return Cond('batom', (c.args[0], tuple(subst_any(x, env) for x in c.args[1])))
    raise ValueError(c.op)


def map_poly(p, fatom):
    """replace atoms: fatom(atom) returns Poly or None (keep)"""
    keep = {}
    acc = {}
    for m, c in p.t.items():
        hit = [(a, e, fatom(a)) for a, e in m]
        if all(x[2] is None for x in hit):
            keep[m] = c
            continue
        t = P(c)
        for a, e, q in hit:
            t = t * ((q if q is not None else apoly(a)) ** e)
        for m2, c2 in t.t.items():
            n = acc.get(m2, 0) + c2
            if n:
                acc[m2] = n
            else:
                acc.pop(m2, None)
    return Poly(keep) + Poly(acc)


def all_atoms(x, acc=None, into_sums=True):
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m:
                if a not in acc:
                    acc.add(a)
                    if a.kind == 'sum' and not into_sums:
                        continue
                    all_atoms(a.args, acc, into_sums)
    elif isinstance(x, Cond):
        all_atoms(x.args, acc, into_sums)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc, into_sums)
    return acc


# the integral of d^d1 f_i * d^d2 f_k : symmetric
def ii_atom(d1, d2, i, k):
    d1, d2 = int(P(d1).const()), int(P(d2).const())
    i, k = P(i), P(k)
    if d1 > d2 or (d1 == d2 and _okey(i) > _okey(k)):
        d1, d2, i, k = d2, d1, k, i
    return apoly(atom('app', ('I', (P(d1), P(d2), i, k)), 'real'))


def _okey(p):
    return sorted(([(a.id, e) for a, e in m], c) for m, c in p.t.items())
