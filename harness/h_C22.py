from common import *


def g_unit(rng, pool):
    a = rng.choice([0, 90, 45, 30, -45, 22.5, 15, 60, 0.0, 135, -90, round(rng.uniform(0, 180), 2), pool.int(rng, -90, 90)])
    return dict(a=a, pm=rng.random() < .35, k=rng.choice([None, None, 1, 2, 3, 5, 12]), br=rng.random() < .4)


def gen(rng, pool):
    items = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        if rng.random() < .35:
            items.append(dict(block=[g_unit(rng, pool) for _ in range(rng.choice([1, 2, 3, 4]))], k=rng.choice([1, 2, 3, 10]), br=rng.random() < .5))
        else:
            items.append(g_unit(rng, pool))
    return dict(items=items, sym=rng.choice(['', '', 's', 's', 'S']), sp=rng.choice([0, 0, 1, 2]), outer=rng.random() < .2)


def u_str(u, sp):
    a = u['a']
    s = ('\\pm' if u['pm'] else '') + ('%r' % a)
    if u['k'] is not None:
        s += '_{%d}' % u['k'] if u['br'] else '_%d' % u['k']
    return ' ' * sp + s + ' ' * sp


def u_exp(u):
    k = 1 if u['k'] is None else u['k']
    a = float(u['a'])
    return [a if (not u['pm'] or i % 2 == 0) else -a for i in range(k)]


def run(c):
    from composipy.nastranapi import build_sequence
    out, parts = [], []
    for it in c['items']:
        if 'block' in it:
            s = '(' + '/'.join(u_str(u, c['sp']) for u in it['block']) + ')_'
            s += '{%d}' % it['k'] if it['br'] else '%d' % it['k']
            parts.append(s)
            out += it['k'] * [x for u in it['block'] for x in u_exp(u)]
        else:
            parts.append(u_str(it, c['sp']))
            out += u_exp(it)
    s = '[' + '/'.join(parts) + ']' + c['sym']
    if c['outer']:
        s = ' ' + s + ' '
    if c['sym']:
        out = out + out[::-1]
    g = build_sequence(s)
    need(list(g) == out, 'build_sequence(%r)' % s, list(g), out)


U = dict(a=45, pm=True, k=3, br=True)
V = dict(a=30, pm=False, k=None, br=False)
W = dict(a=0, pm=False, k=2, br=False)
FIXED = [dict(items=i, sym=s, sp=sp, outer=False) for s in ('', 's', 'S') for sp in (0, 1)
         for i in ([U, W, V], [dict(block=[V, U], k=2, br=True), W], [W, dict(block=[V], k=3, br=False)], [dict(block=[W, V, U], k=1, br=False), dict(block=[U], k=2, br=False), V], [V])]
