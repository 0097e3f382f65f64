from driver import np, enc
import active_subspaces as ac
from active_subspaces.utils.misc import BoundedNormalizer, UnboundedNormalizer


def shape(v, k):
    return v if k == 0 else v.ravel() if k == 1 else v.reshape((1, -1))


def run(c, nm):
    X, Z = c.arr('X'), c.arr('Z')
    n, u = nm.normalize(X), nm.unnormalize(Z)
    return dict(x=dict(n=enc(n), u=enc(u), un=enc(nm.unnormalize(n)), nu=enc(nm.normalize(u)), n1=enc(nm.normalize(X[:1, :]))))


def op_bounded(c, env):
    return run(c, BoundedNormalizer(shape(c.raw('lb'), c.get('shp')), shape(c.raw('ub'), c.get('shp'))))


def op_unbounded(c, env):
    G = c.raw('G')
    return run(c, UnboundedNormalizer(shape(c.raw('mu'), c.get('shp')), np.dot(G, G.T)))
