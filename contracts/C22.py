"""stacking notation"""
from .common import *


def tok(kind, name, *idx):
    return Tok(kind, name, tuple(P(i) for i in idx))


def unit(pre, idx, ws=True):
    """text of a unit: optional blanks, optional \\pm, angle, optional repeat count, optional blanks"""
    f = lambda nm: c_eq(el(pre + nm, *idx, sort='int'), 1)
    cnt = tok('count', pre + 'k', *idx)
    t = []
    if ws:
        t.append(tok('ws', pre + 'w1', *idx))
    t.append(('C', f('pm'), SStr(['\\pm']), SStr([])))
    t.append(tok('angle', pre + 'th', *idx))
    t.append(('C', f('many'), SStr([('C', f('br'), SStr(['_{', cnt, '}']), SStr(['_', cnt]))]), SStr([])))
    if ws:
        t.append(tok('ws', pre + 'w2', *idx))
    return t


def unit_seq(pre, idx):
    """plies of the unit"""
    f = lambda nm: c_eq(el(pre + nm, *idx, sort='int'), 1)
    k = T.ite(f('many'), el('cnt:' + pre + 'k', *idx, sort='int'), ONE)
    a = el('ang:' + pre + 'th', *idx)
    i = fresh('i', 'int')
    return G_(k, next(iter(i.vars())), (I_(T.ite(f('pm'), a * T.parity(i), a)),))


def block(idx, M, ws=True):
    q = fresh('q', 'int')
    qn = next(iter(q.vars()))
    last = P(M) - 1
    c = tok('count', 'bk', *idx)
    return ['(', ('G', last, qn, SStr(unit('b', idx + (q,), ws) + ['/']))] + unit('b', idx + (last,), ws) + [')', ('C', c_eq(el('bbr', *idx, sort='int'), 1), SStr(['_{', c, '}']), SStr(['_', c]))]


def block_seq(idx, M):
    q, r = fresh('q', 'int'), fresh('r', 'int')
    return G_(el('cnt:bk', *idx, sort='int'), next(iter(r.vars())), (G_(P(M) - 1, next(iter(q.vars())), (unit_seq('b', idx + (q,)),)), unit_seq('b', idx + (P(M) - 1,))))


BLK = lambda j: c_eq(el('blk', j, sort='int'), 1)
TEXT = {'units': lambda j, ws: unit('u', (j,), ws), 'blocks': lambda j, ws: block((j,), el('M', j, sort='int'), ws),
        'both': lambda j, ws: [('C', BLK(j), SStr(TEXT['blocks'](j, ws)), SStr(TEXT['units'](j, ws)))]}
PLIES = {'units': lambda j: unit_seq('u', (j,)), 'blocks': lambda j: block_seq((j,), el('M', j, sort='int')),
         'both': lambda j: ('C', BLK(j), (PLIES['blocks'](j),), (PLIES['units'](j),))}


def s_seq(sfx, kinds, last, outer):
    def s(u):
        ip = u.ip
        N = VI('N')
        j = VI('j')
        u.pre(c_le(1, N), c_forall(N, 'j', c_le(1, el('M', j, sort='int'))), c_le(1, el('M', N - 1, sort='int')))
        body = ['[', ('G', N - 1, 'j', SStr(TEXT[kinds](j, True) + ['/']))] + TEXT[last](N - 1, True) + [']', sfx]
        txt = SStr([tok('ws', 'o1')] + body + [tok('ws', 'o2')] if outer else body)
        got = u.call(u.get('composipy.nastranapi', 'build_sequence'), txt)
        seq = [G_(N - 1, 'j', (PLIES[kinds](j),)), PLIES[last](N - 1)]
        if sfx:
            seq = seq + list(ops.seq_rev(mkseq(seq)))
        u.seq_eq('plies of the sequence', ops.as_seq(ip, got), mkseq(seq))
    return s


def s_unit(u):
    """a text of one unit"""
    got = u.call(u.get('composipy.nastranapi', 'build_sequence'), SStr(['['] + unit('u', (ZERO,)) + [']']))
    u.seq_eq('plies of a single unit', ops.as_seq(u.ip, got), mkseq([unit_seq('u', (ZERO,))]))


_r = lambda a, b: (lambda r, *i: r.randint(a, b))
DOM = {'N': _r(1, 4), 'M': _r(1, 3), 'blk': _r(0, 1), 'upm': _r(0, 1), 'umany': _r(0, 1), 'ubr': _r(0, 1),
       'bpm': _r(0, 1), 'bmany': _r(0, 1), 'bbr': _r(0, 1), 'cnt:uk': _r(0, 3), 'cnt:bk': _r(0, 3)}
FN = ('build_sequence', '_build_stack_unit', '_build_pm_unit')
UNITS = [UnitSpec('C22/single unit', s_unit, nonempty=1, dom=DOM)] + [
    UnitSpec('C22/units and blocks, last a %s%s%s' % (l[:-1], ', symmetric %s' % x if x else '', ', spaces around' if o else ''),
             s_seq(x, 'both', l, o), limit=420, nonempty=1, dom=DOM)
    for l in ('units', 'blocks') for x in ('', 's', 'S') for o in ((False, True) if x != 'S' else (False,))]
DEPS = ()
