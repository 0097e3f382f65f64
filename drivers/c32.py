from driver import np, enc
from c26 import ints
from c25 import optfail
import active_subspaces as ac
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner
from active_subspaces.utils.misc import BoundedNormalizer, UnboundedNormalizer
D, R, I, O = ac.domains, ac.response_surfaces, ac.integrals, ac.optimizers
SST = {0: 'AS', 1: 'AS', 2: 'OLS', 3: 'QPHD', 4: 'OPG'}


def op_model(c, env):
    a, c1, c2 = ints(c, 'a'), ints(c, 'c1'), ints(c, 'c2')
    c0, c12, m = c.get('c0'), c.get('c12'), ints(c, 'a').shape[1]
    lo, wd = c.raw('lo').ravel(), c.raw('wd').ravel()
    L = np.tril(c.raw('L'), -1) + np.diag(wd)
    # the user's model, in physical inputs
    if c.get('bd'): std = lambda p: 2.0 * (p.ravel() - lo) / wd - 1.0
    else: std = lambda p: np.linalg.solve(L, p.ravel() - lo)

    def weights(t):
        w = c1 + 2 * c2 * t
        return w + c12 * t[::-1] if t.size == 2 else w

    def phys(p):
        t = a.dot(std(p))
        return float(c0 + c1.dot(t) + c2.dot(t * t) + (c12 * t[0] * t[1] if t.size == 2 else 0))
    norm = BoundedNormalizer(lo.reshape((1, -1)), (lo + wd).reshape((1, -1))) if c.get('bd') else UnboundedNormalizer(lo.reshape((-1, 1)), L.dot(L.T))
    X = c.raw('X')
    P = norm.unnormalize(X)
    F = SimulationRunner(phys).run(P)
    fun = lambda x: phys(norm.unnormalize(x))
    dfun = lambda x: (weights(a.dot(x.ravel())).dot(a)).reshape((1, m))
    env.clear()
    env.update(X=norm.normalize(P), f=F, fun=fun, dfun=dfun, bd=c.get('bd'))
    return dict(x=dict(F=enc(F), back=enc(env['X'])))


def op_subspace(c, env):
    if 'X' not in env: return dict()
    how, X, f = c.get('how'), env['X'], env['f']
    s = ac.subspaces.Subspaces()
    kw = {}
    if how == 0: kw['df'] = SimulationGradientRunner(env['dfun']).run(X)
    elif how == 1: kw['df'] = ac.gradients.finite_difference_gradients(X, env['fun'])
    else: kw.update(X=X, f=f)
    s.compute(sstype=SST[how], nboot=c.get('nboot') if how < 2 else 0, **kw)
    n = s.W1.shape[1]
    if n != c.get('r'): s.partition(c.get('r'))
    env['map'] = D.BoundedActiveVariableMap(D.BoundedActiveVariableDomain(s)) if env['bd'] else D.UnboundedActiveVariableMap(D.UnboundedActiveVariableDomain(s))
    env.pop('surf', None)
    return dict(i=dict(n=n), x=dict(e=enc(s.eigenvals), W=enc(s.eigenvecs)))


def op_surface(c, env):
    if 'map' not in env: return dict()
    surf = R.ActiveSubspaceResponseSurface(env['map'], PolynomialApproximation(N=2) if c.get('sk') == 0 else RadialBasisApproximation(N=2))
    env.pop('surf', None)
    try:
        if c.get('how') == 0: surf.train_with_data(env['X'], env['f'])
        else: surf.train_with_interface(SimulationRunner(env['fun']) if c.get('wrap') else env['fun'], c.get('N'), NMC=c.get('NMC'))
    except Exception as e:
        if type(e) is not Exception or 'SLSQP failed' not in str(e): raise
        return dict(ok='mmfail')
    env['surf'] = surf
    return dict()


def op_predict(c, env):
    if 'surf' not in env: return dict()
    f, df = env['surf'].predict(c.raw('P'), compgrad=True)
    return dict(x=dict(f=enc(f), df=enc(df)))


def op_integrate(c, env):
    if c.get('av'):
        if 'surf' not in env: return dict()
        mu = I.av_integrate(env['surf'], env['map'], c.get('N'))
        mu = [mu, mu, mu]
    else:
        if 'map' not in env: return dict()
        mu = I.integrate(SimulationRunner(env['fun']) if c.get('wrap') else env['fun'], env['map'], c.get('N'), NMC=c.get('NMC'))
    return dict(x=dict(mu=enc(mu)))


def op_minimize(c, env):
    if 'surf' not in env: return dict()
    try:
        x, v = O.minimize(env['surf'], env['X'], env['f'])
    except Exception as e:
        if type(e) is not Exception or 'failed with message' not in str(e): raise
        return dict(ok='optfail')
    return dict(x=dict(x=enc(x), f=enc(np.atleast_1d(v))))
