"""z_position"""
from .lam import *


def s_z(u, single=False):
    lam, n = laminate(u, single=single)
    sp = Spec(n, single=single)
    z = u.attr(lam, 'z_position')
    u.eq('n + 1 interfaces', u.call(Ext('len'), z) if False else ops.seq_len(ops.as_seq(u.ip, z)), n + 1)
    k = VI('i')
    u.pre(c_le(0, k), c_lt(k, n))
    u.zero('z_0 = -T/2', P(at(u, z, 0)) + sp.T() * F(1, 2))
    u.zero('z_n = T/2', P(at(u, z, n)) - sp.T() * F(1, 2))
    u.zero('z_{k+1} - z_k = thickness of ply k', P(at(u, z, k + 1)) - P(at(u, z, k)) - sp.t(k))
    u.zero('z_k', P(at(u, z, k)) - sp.z(k))


UNITS = [UnitSpec('C04/list of plies', s_z, dom=LAMDOM, nonempty=5),
         UnitSpec('C04/one ply material', lambda u: s_z(u, True), dom=LAMDOM, nonempty=5)]
ASSUME = ['plies of positive moduli; at least one ply']
