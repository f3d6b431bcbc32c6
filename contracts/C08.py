"""results do not depend on the order of queries"""
from .lam import *
from .fix import *
from .C06 import lp_stack
from .C05 import mat_contract
from .C01 import ortho, iso

LQ = ['z_position', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD']


def getter(n):
    return (n, lambda o, n=n: None)


def lam_queries(u, names=LQ):
    qs = [(n, (lambda o, n=n: u.attr(o, n))) for n in names]
    return qs


def mat_queries(u, iso=False):
    names = ['Q_0', 'thickness'] + (['e', 'v', 'g', 't', 'c', 's'] if iso else
                                    ['name', 'e1', 'e2', 'v12', 'v21', 'g12', 't1', 'c1', 't2', 'c2', 's'])
    qs = [(n, (lambda o, n=n: u.attr(o, n))) for n in names]
    if not iso:
        qs.append(('Invariants()', lambda o: u.meth(o, 'Invariants')))
    return qs


def mk_stack(u, single=False):
    return lambda: laminate(u, single=single)[0]


def q0_light(ip, d):
    """Q_0 is a function of the ply's constants only (C01, C08/material invariant): one orthotropic matrix per ply"""
    k = ip.getattr(d['self'], 'e1')
    q = lambda s: T.app(s, k)
    return ArrV((3, 3), (q('q11'), q('q12'), ZERO, q('q12'), q('q22'), ZERO, ZERO, ZERO, q('q66')))


def mk_lp(u, xa=True):
    def f():
        d = lp_stack(xa)[0]
        return u.call(u.cls('LaminateProperty'), d, single_ply(u))
    return f


def s_fix(mk, qs):
    return lambda u: fixpoint(u, mk(u), qs(u))


def s_pairs(mk, qs):
    return lambda u: pairs(u, mk(u), qs(u))


LPQ = [q for q in LQ if q not in ('xiA',)]
C = q0_contract()
CL = {'composipy.core.material:OrthotropicMaterial.Q_0': q0_light}
DOM = dict(LAMDOM, Tt=dom_pos)
UNITS = [
    UnitSpec('C08/material invariant', s_fix(lambda u: (lambda: ortho(u)), mat_queries), dom=MATDOM, nonempty=12),
    UnitSpec('C08/isotropic material invariant', s_fix(lambda u: (lambda: iso(u)), lambda u: mat_queries(u, True)), dom=MATDOM, nonempty=8),
    UnitSpec('C08/laminate invariant, n plies', s_fix(mk_stack, lambda u: lam_queries(u, [q for q in LQ if q != 'ABD'])), CL, dom=LAMDOM,
             nonempty=10, limit=280),
    # reading ABD is reading A, B and D (whose effects the unit above covers) and writing the block
    UnitSpec('C08/laminate invariant, ABD', s_fix(mk_stack, lambda u: lam_queries(u, ['ABD'])), dict(CL, **mat_contract()), dom=LAMDOM,
             nonempty=10, limit=100),
    UnitSpec('C08/laminate invariant, lamination parameters', s_fix(mk_lp, lam_queries), C, dom=DOM, nonempty=10, limit=200),
    UnitSpec('C08/laminate invariant, bending lamination parameters only', s_fix(lambda u: mk_lp(u, False), lambda u: lam_queries(u, LPQ)),
             C, dom=DOM, nonempty=10, limit=200),
]
DEPS = ('C01',)
ASSUME = ['ply moduli positive with e1 != e2*v12^2']
