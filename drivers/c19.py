from driver import np, enc, encn, none
from active_subspaces.utils.response_surfaces import RadialBasisApproximation, index_set, exponential_squared, grad_exponential_squared
from c17 import op_predict


KEPT = []  # parameters read so far, with copies


def op_new(c, env):
    N = c.get('N')
    env[c.get('obj')] = [RadialBasisApproximation(N=N) if N != 2 else RadialBasisApproximation(), None]
    return dict()


def op_train(c, env):
    e = env[c.get('obj')]
    X = c.arr('X')
    kw = {}
    if c.has('v'): kw['v'] = c.raw('v')
    if c.has('e'): kw['e'] = c.raw('e')
    e[0].train(X, c.raw('f'), **kw)
    e[1] = np.ones(X.shape[1])
    r = e[0]
    kept = int(all(np.array_equal(a, b) for a, b in KEPT[-12:]))
    KEPT.extend((a, np.array(a)) for a in (r.ell, r.K, r.radial_weights, r.poly_weights))
    return dict(i=dict(kept=kept), x=dict(ell=enc(np.reshape(r.ell, (-1, 1))), K=enc(r.K), a=enc(r.radial_weights), c=enc(r.poly_weights), I=enc(index_set(r.N, X.shape[1])), u=enc(np.linalg.solve(r.K, c.raw('f'))), rsqr=enc(np.reshape(r.Rsqr, (1,)))))


def op_kernel(c, env):
    X, Z, ell, sg = c.arr('X'), c.arr('Z'), c.raw('ell'), float(c.get('sigma'))
    C, D = exponential_squared(X, Z, sg, ell), grad_exponential_squared(X, Z, sg, ell)
    return dict(x=dict(C=enc(C), B=enc(np.ldexp(C, 60)), D=enc(np.reshape(D, (D.shape[0], -1)))))
