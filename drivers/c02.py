from driver import np, enc
import active_subspaces as ac

TYPES = dict(ols='OLS', qphd='QPHD', opg='OPG')


def run(c, env):
    X, f = c.arr('X'), c.arr('f')
    M = X.shape[0]
    w = np.ones((M, 1)) / M if c.get('wdef') else c.raw('w')
    if c.get('via'):
        s = ac.subspaces.Subspaces()
        kw = {} if c.get('wdef') else dict(weights=w)
        s.compute(X=X, f=f, sstype=TYPES[c.op], **kw)
        e, W = s.eigenvals, s.eigenvecs
    else:
        e, W = getattr(ac.subspaces, c.op + '_subspace')(X, f, w)
    return dict(e=enc(e), W=enc(W))


def op_ols(c, env):
    return dict(x=run(c, env))


op_qphd = op_ols


def op_opg(c, env):
    X, f = c.arr('X'), c.arr('f')
    w = np.ones((X.shape[0], 1)) / X.shape[0] if c.get('wdef') else c.raw('w')
    df = ac.gradients.local_linear_gradients(X, f, weights=w)
    np.random.seed(c.get('rs') % (2 ** 31))
    x = run(c, env)
    x['df'] = enc(df)
    return dict(x=x)
