"""PCOMP card: header and one entry per ply"""
from .common import *
from pyvc.prove import all_atoms

MODS = ('composipy.nastranapi', 'composipy.nastranapi.pcomp_generator')


def seq_of(u, kind, name, n, sort='real', scalar=None):
    """a list of n generic numbers, or one number for all plies"""
    if kind == 'scalar':
        return V(name)
    return ListV(mkseq([G_(n, 'k', (I_(el(name, VI('k'), sort=sort)),))]))


def s_card(par, mid, ti, sout, dflt=False):
    def s(u):
        ip = u.ip
        h = VI('h')
        if par == 'odd':
            n = h * 2 + 1
            u.pre(c_le(0, h))
        else:
            n = h * 2
            u.pre(c_le(1, h))
        st = ListV(mkseq([G_(n, 'k', (I_(el('th', VI('k'))),))]))
        q = VI('q')
        m, t = seq_of(u, mid, 'mid', n), seq_of(u, ti, 'ti', n)
        kw = {} if dflt else {'pid': VI('pid'), 'z0': V('z0')}
        if dflt != 'sout':
            kw['sout'] = ListV(mkseq([G_(n, 'k', (I_(T_sout(u)),))])) if sout == 'list' else sout
        txt = u.call(u.get('composipy.nastranapi', 'build_pcomp'), st, m, t, **kw)
        lines = ip.call(ip.getattr(txt, 'split'), ['\n'], {})
        L = ops.as_seq(ip, lines)
        nl = (n + 1) * F(1, 2) if par == 'odd' else h      # continuation lines
        last = seq_len(L)
        extra = P(last) - 1 - nl
        if ip.entails(c_eq(extra, 1)):
            u.fact('text ends with the last line', ops.compare(ip, 'Eq', ip.seq_at(L, P(last) - 1), '') is True, 'more text')
        else:
            u.zero('number of continuation lines', extra)
        u.pre(c_le(0, q), c_lt(q, n))
        u.zero('sequence not modified', P(ip.seq_at(ops.as_seq(ip, st), q)) - el('th', q))
        u.zero('length of the sequence not modified', P(seq_len(ops.as_seq(ip, st))) - n)
        # header
        head = fields(ip, ip.seq_at(L, ZERO))
        want = ['PCOMP', P(1) if dflt else VI('pid'), '' if dflt else V('z0')]
        if u.fact('header fields', len(head) >= 3, str(head)[:100]):
            u.fact('header starts with PCOMP', head[0] == 'PCOMP', str(head)[:100])
            same(u, 'header pid', head[1], want[1])
            same(u, 'header z0', head[2], want[2])
            u.fact('header has nothing else', all(strip_cont(x) == '' for x in head[3:]), str(head)[:100])
        # a generic line
        k = VI('line')
        u.pre(c_le(1, k), c_le(k, nl))
        f = fields(ip, ip.seq_at(L, k))
        full = True if par == 'even' else not ip.decide(c_eq(k, nl))
        if not u.fact('line starts with the continuation mark', f[0] == '+', str(f)[:100]):
            return
        f = f[1:]
        while f and f[-1] in ('', '+'):
            f = f[:-1]
        if f:
            f = f[:-1] + [strip_cont(f[-1])]
        if not u.fact('fields of a line', len(f) == (8 if full else 4), '%d fields' % len(f)):
            return
        for c in (P(1), P(nl)):
            if ip.entails(c_eq(k, c)):
                k = c
                break
        for j in range(2 if full else 1):
            p = (k - 1) * 2 + j
            sfx = ' (%s ply of the line)' % ('first', 'second')[j]
            same(u, 'material id' + sfx, f[4 * j], V('mid') if mid == 'scalar' else el('mid', p))
            same(u, 'thickness' + sfx, f[4 * j + 1], V('ti') if ti == 'scalar' else el('ti', p))
            same(u, 'angle' + sfx, f[4 * j + 2], el('th', p))
            if sout == 'list':
                w = 'YES' if ip.decide(c_eq(el('flag', p), 1)) else 'NO'
            elif sout == 'FIBER':
                w = 'YES' if ip.decide(c_or(c_eq(p, 0), c_eq(p, n - 1))) else 'NO'
            else:
                w = sout
            got = ops.resolve_c(ip, f[4 * j + 3])
            u.fact('stress output' + sfx, got == w, '%s instead of %s' % (str(got)[:60], w))
    return s


def T_sout(u):
    return SStr([('C', c_eq(el('flag', VI('k')), 1), SStr(['YES']), SStr(['NO']))])


def fields(ip, line):
    return [ops.str_strip(ip, x) if isinstance(x, str) else x for x in ops.str_split(ip, line, ',')]


def strip_cont(x):
    """field without the trailing continuation mark"""
    if isinstance(x, str):
        return x[:-1] if x.endswith('+') else x
    ps = list(x.p)
    if isinstance(ps[-1], str) and ps[-1].endswith('+'):
        ps[-1] = ps[-1][:-1]
    return mkstr(ps)


def same(u, name, got, want):
    """the field is the text of the number"""
    if isinstance(want, str):
        return u.fact(name, got == want, '%s instead of %s' % (str(got)[:60], want))
    if isinstance(got, str):
        if P(want).const() is not None:
            return u.fact(name, got == str(P(want).const()), '%s instead of %s' % (got, want))
        return u.fact(name, False, 'fixed text %r' % got)
    got = ops.resolve_c(u.ip, got)
    if isinstance(got, SStr) and len(got.p) == 1 and isinstance(got.p[0], Tok) and got.p[0].kind == 'fmt' and ops.is_num(got.p[0].data):
        return u.zero(name, P(got.p[0].data) - want)
    return u.unknown(name, 'text %s' % str(got)[:100])


def s_mismatch(which):
    def s(u):
        ip = u.ip
        n, k = VI('n'), VI('k2')
        u.pre(c_le(1, n), c_le(0, k), c_not(c_eq(n, k)))
        st = ListV(mkseq([G_(n, 'k', (I_(el('th', VI('k'))),))]))
        bad = ListV(mkseq([G_(k, 'k', (I_(el('q', VI('k'))),))]))
        m, t = (bad, V('ti')) if which == 'material ids' else (V('mid'), bad)
        r = u.attempt(lambda: u.call(u.get('composipy.nastranapi', 'build_pcomp'), st, m, t))
        u.fact('ValueError', r[0] == 'raise' and r[1].cls is ValueError, 'accepted' if r[0] == 'ok' else repr(r[1]))
    return s


DOM = {'h': lambda r: r.randint(1, 4), 'n': lambda r: r.randint(1, 5), 'k2': lambda r: r.randint(0, 6), 'line': lambda r: r.randint(1, 4), 'flag': lambda r, *i: r.randint(0, 1)}
UNITS = [UnitSpec('C23/%s number of plies, %s ids, %s thicknesses, sout %s' % (p, m, t, o), s_card(p, m, t, o), dom=DOM, nonempty=10, limit=100)
         for p in ('even', 'odd') for m, t, o in (('scalar', 'scalar', 'FIBER'), ('list', 'list', 'FIBER'), ('scalar', 'list', 'YES'), ('list', 'scalar', 'NO'), ('list', 'list', 'YES'),
                                                  ('scalar', 'scalar', 'NO'), ('list', 'list', 'list'))]
UNITS += [UnitSpec('C23/%s number of plies, default %s' % (p, d), s_card(p, 'scalar', 'list', 'FIBER', d), dom=DOM, nonempty=10, limit=100) for p in ('even', 'odd') for d in ('sout',)]
UNITS += [UnitSpec('C23/%s of the wrong length' % w, s_mismatch(w), dom=DOM, nonempty=1, limit=60) for w in ('material ids', 'thicknesses')]
DEPS = ()
