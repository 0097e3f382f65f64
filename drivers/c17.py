from driver import np, enc, encn, none
from active_subspaces.utils.response_surfaces import PolynomialApproximation


KEPT = []  # coefficients read so far, with copies


def op_new(c, env):
    env[c.get('obj')] = [PolynomialApproximation(N=c.get('N')), None]
    return dict()


def scaled(c, X):
    """Columns in other units: scaled by powers of two, some by 2^-cs."""
    cs, m = c.get('cs', 0), X.shape[1]
    if not cs: return X, np.ones(m)
    sc = np.array([2.0 ** (-cs * ((c.get('rs') + j) % 2)) for j in range(m)])
    return X * sc, sc


def op_train(c, env):
    e = env[c.get('obj')]
    X, sc = scaled(c, c.arr('X'))
    if c.get('weighted'): e[0].train(X, c.raw('f'), weights=c.raw('w'))
    else: e[0].train(X, c.raw('f'))
    e[1] = sc
    p = e[0]
    kept = int(all(np.array_equal(a, b) for a, b in KEPT[-12:]))
    KEPT.extend((a, np.array(a)) for a in (p.g, p.H, p.poly_weights) if a is not None)
    g = p.g * sc.reshape((-1, 1)) if p.g is not None else None
    H = p.H * np.outer(sc, sc) if p.H is not None else None
    return dict(i=dict(kept=kept), x=dict(g=encn(g), H=encn(H), r=enc(np.atleast_1d(p.Rsqr))))


def op_predict(c, env):
    p, sc = env[c.get('obj')]
    P = c.arr('P')[:, :len(sc)]
    if (sc != 1).any(): P = P * sc
    how = c.get('how')
    if how == 0:
        f, df = p.predict(P, compgrad=bool(c.get('cg')))
        return dict(x=dict(f=enc(f), df=encn(df if df is None else df * sc)))
    if how == 1: return dict(x=dict(df=enc(p.gradient(P) * sc)))
    return dict(x=dict(f=enc(p(P))))
