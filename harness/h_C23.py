from common import *


def gen(rng, pool):
    n = pool.int(rng, 1, 14) if rng.random() < .9 else rng.randint(1, 40)
    seq = [rng.choice([0, 90, 45.0, -45.0, 30, 12.5, pool.int(rng, -90, 90)]) for _ in range(n)]
    mid = rng.randint(1, 9999) if rng.random() < .5 else [rng.randint(1, 99) for _ in range(n)]
    ti = rng.choice([0.2, 0.127, 1, 1e-5]) if rng.random() < .5 else [rng.choice([0.1, 0.2, 0.25, 1]) for _ in range(n)]
    bad = rng.choice([None] * 5 + ['mid', 'ti', 'sout'])
    so = rng.choice(['FIBER', 'FIBER', 'YES', 'NO', None, 'list'])
    if so == 'list':
        so = [rng.choice(['YES', 'NO']) for _ in range(n)]
    k = rng.choice([-1, 1, 2])
    if n + k < 0:
        k = 1
    if bad == 'mid':
        mid = [3] * (n + k)
    elif bad == 'ti':
        ti = [.2] * (n + k)
    elif bad == 'sout':
        so = rng.choice(['fiber', 'MAYBE', ['YES'] * (n + k)])
        if isinstance(so, str) and len(so) == n:
            so = ['YES'] * (n + 1)
    return dict(seq=seq, mid=mid, ti=ti, sout=so, pid=rng.choice([None, 7, '12', 100000]), z0=rng.choice([None, -0.5, '', 0, 1.25]), bad=bad, np=rng.random() < .15)


def run(c):
    from composipy.nastranapi import build_pcomp
    n = len(c['seq'])
    kw = {}
    for k in ('pid', 'z0', 'sout'):
        if c[k] is not None:
            kw[k] = c[k]
    seq, mid, ti = list(c['seq']), c['mid'], c['ti']
    if c['np'] and isinstance(ti, list):
        ti = np.array(ti)
    try:
        txt = build_pcomp(seq, mid, ti, **kw)
    except ValueError:
        need(c['bad'] is not None, 'valid data rejected', c)
        return
    need(c['bad'] is None, 'lists that do not match the number of plies accepted', c)
    need(seq == c['seq'], 'sequence modified')
    lines = txt.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    z0 = '' if c['z0'] is None else str(c['z0'])
    pid = 1 if c['pid'] is None else int(c['pid'])
    head = lines[0].split(',')
    need(head[0].strip() == 'PCOMP' and head[1].strip() == str(pid) and head[2].strip() == z0, 'header', lines[0])
    need(len(lines) == 1 + (n + 1) // 2, 'number of continuation lines', txt)
    so = kw.get('sout', 'FIBER')
    want = []
    for k in range(n):
        s = so[k] if isinstance(so, list) else 'YES' if so == 'YES' or (so == 'FIBER' and k in (0, n - 1)) else 'NO'
        want.append((str(mid if not isinstance(mid, list) else mid[k]), str(ti if not isinstance(c['ti'], list) else c['ti'][k]), str(c['seq'][k]), s))
    got = []
    for i, l in enumerate(lines[1:]):
        f = l.split(',')
        need(f[0] == '+', 'continuation mark', l)
        f = f[1:]
        if f and f[-1].strip() in ('+', ''):
            f = f[:-1]
        if f[-1].endswith('+'):
            f[-1] = f[-1][:-1]
        need(len(f) in (4, 8) and (len(f) == 8 or i == len(lines) - 2), 'fields of a line', l)
        for k in range(0, len(f), 4):
            got.append(tuple(x.strip() for x in f[k:k + 4]))
    need(len(got) == n, 'number of plies', len(got), n)
    for k, (g, w) in enumerate(zip(got, want)):
        ok = g[0] == w[0] and g[3] == w[3] and float(g[1]) == float(w[1]) and float(g[2]) == float(w[2])
        need(ok, 'ply %d' % (k + 1), g, w)


FIXED = [dict(seq=[0, 45, -45, 90, 30][:n], mid=m, ti=t, sout=s, pid=7, z0=-.5, bad=None, np=False) for n in (1, 2, 3, 4, 5) for s in ('FIBER', 'YES', 'NO')
         for m, t in ((3, .2), ([1, 2, 3, 4, 5][:n], [.1, .2, .3, .4, .5][:n]))]
