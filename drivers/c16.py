from driver import np, enc, none
from c15 import setup
import active_subspaces as ac
import active_subspaces.integrals as I
from active_subspaces.utils.simrunners import SimulationRunner
from active_subspaces.utils.response_surfaces import PolynomialApproximation


class Fun(object):
    def __init__(self, c, W1):
        self.seen, self.out, self.c, self.W1 = [], [], c, W1
        self.plan = c.raw('f').ravel() * c.get('sc')

    def value(self, x):
        p, k = self.plan, self.c.get('kind')
        if k == 0: return p[len(self.seen) % len(p)]
        if k == 1: return p[0]
        if k == 2 and x.shape[1] == self.W1.shape[0]: x = np.dot(x, self.W1)
        v = p[0] + np.dot(x, p[1:1 + x.shape[1]].reshape((-1, 1)))[0, 0]
        return v + np.sin(v) if k == 2 else v

    def __call__(self, x):
        v = float(self.value(x))
        self.seen.append(np.array(x, dtype=float).ravel())
        self.out.append(v)
        return v


def op_integrate(c, env):
    mp, x = setup(c)
    if x is None: return dict(ok='mmfail')
    np.random.seed(c.get('rs') % (2 ** 31))
    X, w, ind = I.quadrature_rule(mp, c.get('N'), NMC=c.get('NMC'))
    f = Fun(c, mp.domain.subspaces.W1)
    np.random.seed(c.get('rs') % (2 ** 31))
    g = SimulationRunner(f) if c.get('wrap') else f
    out = I.integrate(g, mp, c.get('N'), NMC=c.get('NMC')) if c.get('NMC') != 10 else I.integrate(g, mp, c.get('N'))
    return dict(x=dict(X=enc(X), w=enc(w), seen=enc(np.array(f.seen)), f=enc(np.array(f.out).reshape((-1, 1))), out=enc(out)))


def op_av(c, env):
    mp, x = setup(c)
    if x is None: return dict(ok='mmfail')
    np.random.seed(c.get('rs') % (2 ** 31))
    y, w = I.av_quadrature_rule(mp, c.get('N'))
    rs = c.get('wrap') == 2
    if rs:
        r = ac.response_surfaces.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(N=1))
        m = mp.domain.subspaces.W1.shape[0]
        P = np.random.RandomState(3).uniform(-1, 1, (12, m))
        r.train_with_data(P, np.sin(P[:, :1]))
        f, vals, seen = r, r.predict_av(y)[0], none()
    else: f = Fun(c, mp.domain.subspaces.W1)
    np.random.seed(c.get('rs') % (2 ** 31))
    out = I.av_integrate(f, mp, c.get('N'))
    if not rs: vals, seen = np.array(f.out).reshape((-1, 1)), enc(np.array(f.seen))
    return dict(i=dict(rs=int(rs)), x=dict(y=enc(y), w=enc(w), f=enc(vals), seen=seen, out=enc(np.atleast_1d(out))))
