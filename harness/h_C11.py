from common import *
from h_C10 import gen, exact, layout, FIXED


def run(case):
    d, st, e, z, rows = exact(case)
    df = st.calculate_stress()
    layout(df, d, z)
    ms, t, Q, zz = lam_data(d)
    se = max(np.max(np.abs(e[:3])), np.max(np.abs(e[3:])) * z[-1], 1e-300)
    sc = se * max(np.max(np.abs(q)) for q in Q)
    for j, nm in enumerate(('sigmax', 'sigmay', 'tauxy')):
        same(nm, list(df[nm]), [r[2][j] for r in rows], 1e-6, sc)
    for j, nm in enumerate(('sigma1', 'sigma2', 'tau12')):
        same(nm, list(df[nm]), [r[3][j] for r in rows], 1e-6, sc)
        same(nm + ' = Q_0 . material strain', list(df[nm]), [(mat_Q(ms[i // 2]) @ r[1])[j] for i, r in enumerate(rows)], 1e-6, sc)
