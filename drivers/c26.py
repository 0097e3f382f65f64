from driver import np, enc
from domutil import subspaces, D
from c25 import optfail
import active_subspaces as ac
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation
O, R = ac.optimizers, ac.response_surfaces


def ints(c, k):
    return np.array(c.x[k]['d'], dtype=float).reshape(c.x[k]['sh'])


def quad(c, Hk, gk, T):
    H, g = ints(c, Hk), ints(c, gk)
    return ((np.dot(T, H) * T).sum(1).reshape((-1, 1)) + np.dot(T, g)) / c.get('den')


def data(c, W, H='H', g='g'):
    X = c.raw('X')
    p = ints(c, H).shape[0]
    T = np.dot(X, W[:, :p])
    f, eps = quad(c, H, g, T), np.zeros((X.shape[0], 1))
    if c.get('noise'):
        B = np.hstack([np.ones((X.shape[0], 1)), T] + [(T[:, a] * T[:, b]).reshape((-1, 1)) for a in range(p) for b in range(a + 1)])
        eps = np.random.RandomState(c.get('rs') % 1000).normal(size=(X.shape[0], 1))
        for _ in range(2): eps = eps - np.dot(B, np.linalg.lstsq(B, eps, rcond=None)[0])
    return X, f + eps, eps


def domain(c, s):
    return (D.BoundedActiveVariableDomain if c.get('bd') else D.UnboundedActiveVariableDomain)(s)


def base(c, s, X, f, eps):
    return dict(W=enc(s.eigenvecs), eps=enc(eps), fX=enc(f))


def op_min(c, env):
    s = subspaces(c)
    dom = domain(c, s)
    X, f, eps = data(c, s.eigenvecs)
    mp = (D.BoundedActiveVariableMap if c.get('bd') else D.UnboundedActiveVariableMap)(dom)
    surf = R.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(N=2) if c.get('sk') == 0 else RadialBasisApproximation(N=2))
    fy = quad(c, 'Hy', 'gy', np.dot(X, s.W1))
    surf.train_with_data(X, fy)
    try:
        x, v = O.minimize(surf, X, f)
    except Exception as e:
        if type(e) is not Exception or 'failed with message' not in str(e): raise
        return dict(ok='optfail')
    fat = surf.predict(np.asarray(x).reshape((1, -1)))[0]
    return dict(x=dict(base(c, s, X, f, eps), x=enc(x), f=enc(np.atleast_1d(v)), fat=enc(fat)))


def mapping(c):
    s = subspaces(c)
    X, f, eps = data(c, s.eigenvecs)
    mp = (O.BoundedMinVariableMap if c.get('bd') else O.UnboundedMinVariableMap)(domain(c, s))
    if c.get('decoy'):
        mp.train(X[::-1], np.cos(f) + 3 * X[:, :1])
        mp.inverse(np.dot(X[:1], s.W1))
    mp.train(X, f)
    return s, X, f, eps, mp


def op_map(c, env):
    s, X, f, eps, mp = mapping(c)
    Y = np.dot(c.raw('P'), s.W1)
    x, ind = mp.inverse(Y)
    return dict(x=dict(base(c, s, X, f, eps), x=enc(x), ind=enc(ind)))


def op_many(c, env):
    s, X, f, eps, mp = mapping(c)
    mp.inverse(np.dot(c.raw('P'), s.W1), N=c.get('N'))
    return dict(x=base(c, s, X, f, eps))
