from driver import np, enc
import active_subspaces as ac


def op_active(c, env):
    df = c.arr('df')
    w = np.ones((df.shape[0], 1)) / df.shape[0] if c.get('wdef') else c.raw('w')
    e, W = ac.subspaces.active_subspace(df, w)
    return dict(x=dict(e=enc(e), W=enc(W)))


def op_compute(c, env, X=None):
    s = ac.subspaces.Subspaces()
    kw = {} if c.get('wdef') else dict(weights=c.raw('w'))
    if X is not None:
        kw['X'] = X
    s.compute(df=c.arr('df'), **kw)
    return dict(x=dict(e=enc(s.eigenvals), W=enc(s.eigenvecs), W1=enc(s.W1), W2=enc(s.W2)))


def op_computeX(c, env):
    return op_compute(c, env, X=np.ones(c.arr('df').shape))
