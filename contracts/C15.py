"""bending stiffness and geometric matrices are the Ritz energy forms"""
from .lam import *
from .C05 import mat_contract
from pyvc.interp import simp_divs

MOD = 'composipy.pre_integrated_component.functions'
TAB = {'ii_ff': (0, 0), 'ii_fxi_f': (1, 0), 'ii_f_fxi': (0, 1), 'ii_fxi_fxi': (1, 1), 'ii_fxixi_f': (2, 0), 'ii_f_fxixi': (0, 2),
       'ii_fxixi_fxi': (2, 1), 'ii_fxi_fxixi': (1, 2), 'ii_fxixi_fxixi': (2, 2)}


def ii_contract():
    """ii_*((i, k)) is the exact integral over [-1, 1] of the product of derivatives of f_i and f_k (C14)"""
    def mk(d1, d2):
        def h(ip, d):
            ik = d['ik']
            return T.ii_atom(d1, d2, ops.topoly(ops.getitem(ip, ik, 0)), ops.topoly(ops.getitem(ip, ik, 1)))
        return h
    return {MOD + ':' + f: mk(*o) for f, o in TAB.items()}


def idx(name, k):
    return el(name, k, sort='int')


def idx_contract():
    """_compute_constraints: the retained functions are products um x un (vm x vn, wm x wn) of lists of m and n indices (C17);
    it stores the index pairs and returns the quadruples (i, j, k, l)"""
    def h(ip, d):
        o = d['self']
        m, n = P(ip.getattr(o, 'm')), P(ip.getattr(o, 'n'))
        res = []
        for f in 'uvw':
            A, B = f + 'm', f + 'n'
            pairs = mkseq([G_(m, 'i', mkseq([G_(n, 'j', (I_((idx(A, VI('i')), idx(B, VI('j')))),))]))])
            ip.setattr(o, 's%s_idx' % f, ListV(pairs))
            quad = (idx(A, VI('i')), idx(B, VI('j')), idx(A, VI('k')), idx(B, VI('l')))
            q = mkseq([G_(m, 'i', mkseq([G_(n, 'j', mkseq([G_(m, 'k', mkseq([G_(n, 'l', (I_(quad),))]))]))]))])
            res.append(ListV(q))
        return tuple(res)
    return {'composipy.core.structure:PlateStructure._compute_constraints': h}


# ------------------------------------------------------------------ the energy forms
def strain_ops(a, b):
    """generalised strains (exx, eyy, gxy, kxx, kyy, kxy) of u, v, w as lists of (coefficient, order in xi, order in eta):
    x = a (xi + 1)/2, y = b (eta + 1)/2; exx = u,x; eyy = v,y; gxy = u,y + v,x; kxx = -w,xx; kyy = -w,yy; kxy = -2 w,xy"""
    x, y = inverse(a) * 2, inverse(b) * 2
    return {'u': [[(x, 1, 0)], [], [(y, 0, 1)], [], [], []],
            'v': [[], [(y, 0, 1)], [(x, 1, 0)], [], [], []],
            'w': [[], [], [], [(-x * x, 2, 0)], [(-y * y, 0, 2)], [(-x * y * 2, 1, 1)]]}


def prod_int(o1, o2, p, q, jac):
    """integral over the plate of (o1 phi_p)(o2 phi_q); p, q = (index in xi, index in eta)"""
    r = ZERO
    for c1, d1, e1 in o1:
        for c2, d2, e2 in o2:
            r = r + c1 * c2 * T.ii_atom(d1, d2, p[0], q[0]) * T.ii_atom(e1, e2, p[1], q[1])
    return r * jac


def energy(f, g, M, a, b, p, q):
    """second variation of 1/2 int [e, k]^T ABD [e, k] for function p of field f and q of field g"""
    L = strain_ops(a, b)
    r = ZERO
    for i in range(6):
        for j in range(6):
            if L[f][i] and L[g][j]:
                r = r + P(M[i][j]) * prod_int(L[f][i], L[g][j], p, q, a * b * F(1, 4))
    return r


def load_form(a, b, p, q, Nxx, Nyy, Nxy):
    """second variation of 1/2 int Nxx w,x^2 + Nyy w,y^2 + 2 Nxy w,x w,y"""
    dx, dy = [(inverse(a) * 2, 1, 0)], [(inverse(b) * 2, 0, 1)]
    j = a * b * F(1, 4)
    return (P(Nxx) * prod_int(dx, dx, p, q, j) + P(Nyy) * prod_int(dy, dy, p, q, j)
            + P(Nxy) * (prod_int(dx, dy, p, q, j) + prod_int(dy, dx, p, q, j)))


# ------------------------------------------------------------------ scenario
def plate(u, lam, cons='PINNED', **kw):
    m, n = VI('m'), VI('n')
    a, b = V('a'), V('b')
    u.pre(c_le(1, m), c_le(1, n), c_lt(0, a), c_lt(0, b))
    if u.inline:        # the constraint code inlined: the family of plates with free edges
        cons = DictV([(k, 'free') for k in ('x0', 'xa', 'y0', 'yb')])
        u.ip.notes.add('inlined constraint code: free edges')
    args = dict(constraints=cons, Nxx=V('Nxx'), Nyy=V('Nyy'), Nxy=V('Nxy'), m=m, n=n)
    args.update(kw)
    return u.call(u.cls('PlateStructure'), lam, a, b, **args)


def digits(u, names):
    """generic index (i, j) of an m x n family"""
    out = []
    for i, j in names:
        i, j = VI(i), VI(j)
        u.pre(c_le(0, i), c_lt(i, VI('m')), c_le(0, j), c_lt(j, VI('n')))
        out.append((i, j, i * VI('n') + j))
    return out


def entry(u, K, p, q):
    """K[p, q]; quotients and remainders of the flat indices resolved with the ranges of the digits"""
    K = K if not isinstance(K, BlockArr) or len(K.rows) > 1 or len(K.rows[0]) > 1 else K.rows[0][0]
    v = ops.getitem(u.ip, K, (p, q))
    return simp_divs(v, u.ip.pc) if isinstance(v, Poly) else v


def pair(u, lst, p):
    v = ops.getitem(u.ip, lst, p)
    return [simp_divs(P(ops.topoly(ops.getitem(u.ip, v, k))), u.ip.pc) for k in (0, 1)]


def lam_for(u):
    lam, n = laminate(u, VI('np'), single=True)
    return lam


def shape_ok(u, name, K, mn):
    if not u.fact(name + ' is a matrix', arrays.is_arr(K) and len(K.shape) == 2, 'not a matrix: %s' % type(K).__name__):
        return False
    return u.zero(name + ' rows', P(K.shape[0]) - mn) and u.zero(name + ' columns', P(K.shape[1]) - mn)


def s_bend(u):
    lam = lam_for(u)
    p = plate(u, lam)
    K, KG = u.meth(p, 'calc_K_KG_D')
    D = u.attr(lam, 'D')
    M = [[ZERO] * 6 for _ in range(6)]
    for i in range(3):
        for j in range(3):
            M[3 + i][3 + j] = P(D.flat[3 * i + j])
    a, b, mn = V('a'), V('b'), VI('m') * VI('n')
    ok = shape_ok(u, 'K', K, mn) and shape_ok(u, 'KG', KG, mn)
    if not ok:
        return
    (i, j, pq), (k, l, rs) = digits(u, (('i', 'j'), ('k', 'l')))
    lst = u.attr(p, 'sw_idx')
    u.eq('as many retained functions as rows', seq_len(ops.as_seq(u.ip, lst)), mn)
    P1, P2 = pair(u, lst, pq), pair(u, lst, rs)
    v, g = entry(u, K, pq, rs), entry(u, KG, pq, rs)
    u.eq('K[p,q] is the bending energy form', v, energy('w', 'w', M, a, b, P1, P2))
    u.eq('KG[p,q] is the load potential', g, load_form(a, b, P1, P2, V('Nxx'), V('Nyy'), V('Nxy')))
    u.eq('K symmetric', v, entry(u, K, rs, pq))
    u.eq('KG symmetric', g, entry(u, KG, rs, pq))
    free = P(ops.topoly(v)).vars() if ops.is_num(v) else set()
    u.fact('K is independent of the loads', not {'Nxx', 'Nyy', 'Nxy'} & set(free), 'K depends on a load')


def s_kernel(u):
    """lemma: the load form is linear in the loads"""
    a, b = V('a'), V('b')
    p, q = (VI('i'), VI('j')), (VI('k'), VI('l'))
    N, N2, s = [V(x) for x in ('Nxx', 'Nyy', 'Nxy')], [V(x + "'") for x in ('Nxx', 'Nyy', 'Nxy')], V('s')
    u.zero('linear', load_form(a, b, p, q, *[x * s + y for x, y in zip(N, N2)]) - s * load_form(a, b, p, q, *N) - load_form(a, b, p, q, *N2))


def dom_small(rng, *i):
    return rng.randint(1, 3)


def dom_idx(rng, *i):
    return rng.randint(0, 9)


DOM = dict(LAMDOM, m=dom_small, n=dom_small, np=dom_small, **{f + x: dom_idx for f in 'uvw' for x in 'mn'})
II = dict(ii_contract(), **mat_contract())
CALL = idx_contract()
UNITS = [UnitSpec('C15/bending and geometric matrices', s_bend, CALL, dom=DOM, nonempty=11, limit=90, base=II),
         UnitSpec('C15/load form is linear (lemma)', s_kernel, dom=DOM, nonempty=1)]
DEPS = ('C05', 'C14', 'C17q')
ASSUME = ['the tabulated integrals are taken exact (C14: within 1e-8)', 'a, b > 0']
