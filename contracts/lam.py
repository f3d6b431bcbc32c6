"""Symbolic laminates built by the real constructors, and closed-form laminate theory over them."""
from .common import *
from pyvc.terms import mk_sum, c_forall

LAMDOM = dict(MATDOM)


def lam_dom(rng, *i):
    return rng.choice([1, 2, 3, 4, 5])


LAMDOM['n'] = lam_dom


def ply_template(u, k, sfx=''):
    """the ply at generic position k, built by the real constructor from constants e1(k), e2(k), ..."""
    ip = u.ip
    e = {q: el(q + sfx, k) for q in ('e1', 'e2', 'v12', 'g12', 't', 't1', 'c1', 't2', 'c2', 's')}
    mark = len(ip.pc)
    u.pre(*[c_lt(0, e[q]) for q in ('e1', 'e2', 'g12', 't')])
    u.pre(*[c_le(0, e[q]) for q in ('t1', 'c1', 't2', 'c2', 's')])
    u.pre(c_le(F(-1, 2), e['v12']), c_le(e['v12'], F(1, 2)))
    o = u.call(u.cls('OrthotropicMaterial'), e['e1'], e['e2'], e['v12'], e['g12'], e['t'],
               e['t1'], e['c1'], e['t2'], e['c2'], e['s'])
    del ip.pc[mark:]
    return ip.freeze(o, -1)


def facts(u, n, sfx='', allow=False):
    k = VI('k')
    for q in ('e1', 'e2', 'g12', 't'):
        u.pre(c_forall(n, 'k', c_lt(0, el(q + sfx, k))))
    if allow:
        for q in ('t1', 'c1', 't2', 'c2', 's'):
            u.pre(c_forall(n, 'k', c_lt(0, el(q + sfx, k))))


def stack_args(u, n=None, sfx='', single=False, allow=False):
    """(stacking list, plies, n) with n symbolic plies; single: one ply object for all"""
    if n is None:
        n = VI('n')
        u.pre(c_le(1, n))
    k = VI('k')
    st = ListV(mkseq([G_(n, 'k', (I_(el('th' + sfx, k)),))]))
    if single:
        pl = single_ply(u, sfx, allow)
    else:
        facts(u, n, sfx, allow)
        pl = ListV(mkseq([G_(n, 'k', (I_(ply_template(u, k, sfx)),))]))
    return st, pl, n


def single_ply(u, sfx='', allow=False):
    v = {q: V(q + sfx) for q in ('e1', 'e2', 'v12', 'g12', 't')}
    u.pre(*[c_lt(0, v[q]) for q in ('e1', 'e2', 'g12', 't')])
    u.pre(c_le(F(-1, 2), v['v12']), c_le(v['v12'], F(1, 2)))
    al = [V(q + sfx) for q in ('t1', 'c1', 't2', 'c2', 's')] if allow else []
    u.pre(*[c_le(0, x) for x in al])
    return u.call(u.cls('OrthotropicMaterial'), v['e1'], v['e2'], v['v12'], v['g12'], v['t'], *al)


def laminate(u, n=None, sfx='', single=False, allow=False):
    st, pl, n = stack_args(u, n, sfx, single, allow)
    return u.call(u.cls('LaminateProperty'), st, pl), n


class Spec:
    """closed forms of the statement over the same atoms"""

    def __init__(self, n, sfx='', single=False, qsym=False):
        self.n, self.sfx, self.single, self.qsym = P(n), sfx, single, qsym

    def p(self, q, k):
        return V(q + self.sfx) if self.single else el(q + self.sfx, k)

    def th(self, k):
        return el('th' + self.sfx, k)

    def t(self, k):
        return self.p('t', k)

    def T(self):
        return mk_sum(self.n, 'k', self.t(VI('k')))

    def z(self, k):
        """interface k, 0..n"""
        return -self.T() * F(1, 2) + mk_sum(P(k), 'kz', self.t(VI('kz')))

    def Q0(self, k):
        if self.qsym:
            q = lambda s: el(s + self.sfx, k)
            return [[q('q11'), q('q12'), ZERO], [q('q12'), q('q22'), ZERO], [ZERO, ZERO, q('q66')]]
        return Q_ortho(self.p('e1', k), self.p('e2', k), self.p('v12', k), self.p('g12', k))

    def cs(self, k):
        return T.cos(rad(self.th(k))), T.sin(rad(self.th(k)))

    def Qb(self, k):
        c, s = self.cs(k)
        return Qbar(self.Q0(k), c, s)

    def mat(self, w):
        """sum over plies of Qbar_k * (z_{k+1}^w - z_k^w)/w"""
        k = VI('k')
        d = (self.z(k + 1) ** w - self.z(k) ** w) * F(1, w)
        Qb = self.Qb(k)
        return [[mk_sum(self.n, 'k', Qb[i][j] * d) for j in range(3)] for i in range(3)]

    def trig(self, k):
        a = rad(self.th(k))
        return [T.cos(a * 2), T.sin(a * 2), T.cos(a * 4), T.sin(a * 4)]

    def xi(self, w):
        k = VI('k')
        d = self.z(k + 1) ** w - self.z(k) ** w
        pre = inverse(self.T()) if w == 1 else inverse(self.T()) ** 3 * 4
        return [mk_sum(self.n, 'k', d * x) * pre for x in self.trig(k)]


def at(u, seq, k):
    """element k of a python list value"""
    return u.ip.call_method if False else ops.getitem(u.ip, seq, k)


# ------------------------------------------------------------------ contracts of helper functions (established by C01, C03, C04)
def q0_contract(sfx=''):
    """OrthotropicMaterial.Q_0: the inverse of the plane-stress compliance of the object's constants (C01)"""
    def h(ip, d):
        o = d['self']
        g = lambda q: ip.getattr(o, q)
        e1, e2, v12, g12 = g('e1'), g('e2'), g('v12'), g('g12')
        Q = Q_ortho(e1, e2, v12, g12)
        return ArrV((3, 3), tuple(P(x) for r in Q for x in r))
    return {'composipy.core.material:OrthotropicMaterial.Q_0': h}
