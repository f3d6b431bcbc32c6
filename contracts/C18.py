"""buckling analysis: load factors and modes of the pencil (K, KG), the smallest positive factor first"""
from .C15 import *


def mat_atoms(ip, o):
    """calc_K_KG_D returns the square matrices of order m*n of the plate (C15); its frame: only the index lists are written"""
    mn = P(ip.getattr(o, 'm')) * P(ip.getattr(o, 'n'))

    def sym(nm):
        return SymArr((mn, mn), ('p', 'q'), el(nm, VI('p'), VI('q')))
    return sym('K'), sym('KG')


def kg_contract():
    def h(ip, d):
        return mat_atoms(ip, d['self'])
    return {'composipy.core.structure:PlateStructure.calc_K_KG_D': h}


class Pencil:
    """record of one call of eigsh and the law of its result:
    A x_j = mu_j M x_j, the mu_j ascending; 'SA': no eigenvalue of the pencil lies below mu_0; 'LA': none above mu_(k-1)"""

    def __init__(self):
        self.calls = []

    def handler(self, ip, a, kw):
        names = ('A', 'k', 'M', 'sigma', 'which', 'v0', 'ncv', 'maxiter', 'tol', 'return_eigenvectors')
        d = dict(zip(names, a))
        d.update(kw)
        if d.get('return_eigenvectors', True) is not True or d.get('sigma') is not None or d.get('mode', 'normal') != 'normal':
            raise Unsupported('eigsh options')
        A, M = d['A'], d.get('M')
        k = P(ops.cidx(d.get('k', 6)))
        n = A.shape[0]
        self.calls.append(dict(A=A, M=M, k=k, which=d.get('which', 'LM'), tol=d.get('tol', 0)))
        self.k = k
        return (SymArr((k,), ('j',), el('mu', VI('j'))), SymArr((n, k), ('p', 'j'), el('X', VI('p'), VI('j'))))


def the_el(v, name):
    """indices of the only entry of family `name` in v"""
    s = {a for a in all_atoms(v) if a.kind == 'el' and a.args[0] == name}
    return next(iter(s)) if len(s) == 1 else None


def s_buckle(silent):
    def s(u):
        ip = u.ip
        lam = lam_for(u)
        pl = plate(u, lam)
        mn = VI('m') * VI('n')
        num_ = VI('num')
        u.pre(c_le(3, mn), c_le(1, num_))
        pen = Pencil()
        ip.hooks['eigsh'] = pen.handler
        r = u.meth(pl, 'buckling_analysis', silent, num_)
        if not u.fact('one eigenvalue problem is solved', len(pen.calls) == 1, '%d calls' % len(pen.calls)):
            return
        c = pen.calls[0]
        if not u.fact('returns a pair of arrays', isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SymArr) for x in r), str(r)[:80]):
            return
        lam_, vec = r
        K, KG = u.meth(pl, 'calc_K_KG_D')
        p, q = VI('row'), VI('col')
        u.pre(c_le(0, p), c_lt(p, mn), c_le(0, q), c_lt(q, mn))
        A, M = entry(u, c['A'], p, q), entry(u, c['M'], p, q) if c['M'] is not None else None
        kg, k = entry(u, KG, p, q), entry(u, K, p, q)
        sgn = next((t for t in (1, -1) if is_zero(P(A) - P(kg) * t)), None)
        if sgn is None:
            return u.zero('A is the geometric matrix', P(A) - P(kg))
        u.fact('A is the geometric matrix', True)
        if not u.fact('M is the stiffness matrix', M is not None, 'no M') or not u.zero('M is the stiffness matrix', P(M) - P(k)):
            return
        u.cond('number of requested eigenvalues is admissible', c_and(c_le(1, c['k']), c_lt(c['k'], mn)))
        tol = c['tol']
        u.cond('eigenvalues are asked for to at least 1e-8 (0: machine precision)', c_le(P(ops.topoly(tol)), P(Fraction(1, 10**8))))
        # generic returned pair
        j = VI('pair')
        u.pre(c_le(0, j), c_lt(j, P(lam_.shape[0])))
        if not (u.zero('one mode per factor', P(vec.shape[1]) - P(lam_.shape[0])) and u.zero('mode length', P(vec.shape[0]) - mn)):
            return
        L, X = ops.getitem(ip, lam_, j), ops.getitem(ip, vec, (p, j))
        a = the_el(P(X), 'X')
        if a is None:
            return u.unknown('pair satisfies (K + lambda KG) c = 0', 'mode is not one eigenvector of the pencil')
        xp, xj = a.args[1]
        u.zero('mode entry belongs to its row', P(xp) - p)
        mu = el('mu', P(xj))
        cf = P(X) * inverse(T.apoly(a))
        u.fact('mode is a multiple of the eigenvector', the_el(cf, 'X') is None and not cf.vars() & {'row'}, str(X)[:80])
        u.pre(c_not(c_eq(mu, 0)))
        u.zero('pair satisfies (K + lambda KG) c = 0', P(L) * mu * sgn + 1)
        # smallest positive factor first: mu* is any eigenvalue of (KG, K); a factor -1/mu* is positive when mu* < 0
        star = V('mu*')
        k_ = P(c['k'])
        first, last = el('mu', ZERO), el('mu', k_ - 1)
        u.pre(c_lt(star, 0), c_le(first, last), c_not(c_eq(first, 0)), c_not(c_eq(last, 0)))
        if c['which'] == 'SA':
            u.pre(c_le(first, star * sgn))
        elif c['which'] == 'LA':
            u.pre(c_le(star * sgn, last))
        l0 = ops.getitem(ip, lam_, 0)
        l0 = P(ops.topoly(l0))
        u.cond('first factor is positive when the loads can buckle the plate', c_lt(0, l0))
        u.cond('no positive factor is smaller than the first', c_le(l0 * star * -1, 1))
        u.fact('results are kept', u.attr(pl, 'eigenvalue') is lam_ and u.attr(pl, 'eigenvector') is vec, 'attributes differ from the result')
    return s


def s_scale(u):
    """lemma: KG x = mu K x and KG' = s KG (C15) give KG' x = (s mu) K x, so the factor -1/(s mu) is the old one divided by s"""
    s, mu, kx = V('s'), V('mu'), V('(K x)_p')
    u.pre(c_lt(0, s), c_not(c_eq(mu, 0)))
    kgx = mu * kx
    u.zero('scaled pencil', s * kgx - (s * mu) * kx)
    u.zero('scaled factor', inverse(s * mu) * -1 - inverse(mu) * -1 * inverse(s))
    u.cond('sign and order of factors are kept', c_or(c_lt(0, s), False))


DOM18 = dict(DOM, num=lambda r: r.randint(1, 8), m=lambda r: r.randint(2, 3), n=lambda r: r.randint(2, 3))
UNITS = [UnitSpec('C18/buckling analysis, silent=%s' % x, s_buckle(x), kg_contract(), dom=DOM18, nonempty=12, limit=90, base=II) for x in (True, False)]
UNITS += [UnitSpec('C18/scaling the loads (lemma)', s_scale, nonempty=3)]
DEPS = ('C15', 'C05', 'C14', 'C17q')
ASSUME = ['scipy.sparse.linalg.eigsh: A x = mu M x, ascending mu, which=SA/LA selects the algebraically smallest/largest',
          'K positive definite (the plate is adequately supported); m*n >= 3']
