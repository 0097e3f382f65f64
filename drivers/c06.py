from driver import np, enc, none
from domutil import D
import active_subspaces as ac


def op_setup(c, env):
    s = ac.subspaces.Subspaces()
    s.compute(df=c.raw('df'))
    # the domain is built while one variable is active (its boundary is not what is checked here)
    s.partition(1)
    dom = D.BoundedActiveVariableDomain(s) if c.get('bd') else D.UnboundedActiveVariableDomain(s)
    env['map'] = (D.BoundedActiveVariableMap if c.get('bd') else D.UnboundedActiveVariableMap)(dom)
    env['s'] = s
    s.partition(c.get('n'))
    return dict(i=dict(n=s.W1.shape[1]), x=dict(W=enc(s.eigenvecs)))


def op_recompute(c, env):
    s = env['s']
    s.compute(df=c.raw('df'))
    s.partition(c.get('n'))
    return dict(i=dict(n=s.W1.shape[1]), x=dict(W=enc(s.eigenvecs)))


def op_repart(c, env):
    env['s'].partition(c.get('n'))
    return dict(i=dict(n=env['s'].W1.shape[1]))


def op_fwd(c, env):
    y, z = env['map'].forward(c.arr('X'))
    return dict(x=dict(y=enc(y), z=enc(z)))


def op_inv(c, env):
    Y = np.dot(c.raw('X0'), env['s'].W1)
    X, ind = env['map'].inverse(Y.copy(), c.get('N'))
    return dict(x=dict(Y=enc(Y), X=enc(X), ind=enc(ind)))
