from driver import np, enc, encn
from domutil import subspaces, D


def op_sample(c, env):
    s = subspaces(c)
    y = np.dot(c.raw('X0'), s.W1).reshape((-1,))
    f = [D.sample_z, D.rejection_sampling_z, D.hit_and_run_z, D.random_walk_z][c.get('smp')]
    np.random.seed(c.get('rs') % (2 ** 31))
    z = f(c.get('N'), y.copy(), s.W1, s.W2)
    return dict(x=dict(W=enc(s.eigenvecs), y=enc(y), z=encn(z)))
