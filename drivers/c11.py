from driver import np, enc, fx
from active_subspaces.gradients import finite_difference_gradients
from active_subspaces.utils.simrunners import SimulationRunner


def op_fd(c, env):
    b, Q = c.raw('b'), c.raw('Q')
    ux = c.get('ux', 0)  # outputs in units of 2^-ux
    seen, vals = [], []

    def fun(x):
        x = np.array(x, dtype=float)
        seen.append(x.reshape((1, -1)))
        v = float(np.dot(x, b)[0, 0] + np.dot(np.dot(x, Q), x.T)[0, 0]) + 3.0
        vals.append(abs(v))
        v = float(np.ldexp(v, -ux))
        return [v, np.float64(v), np.array([[v]]), np.array([v])][c.get('form')]
    kw = {} if c.get('hdef') else dict(h=c.get('hn') / float(c.get('hd')))
    df = finite_difference_gradients(c.arr('X'), SimulationRunner(fun) if c.get('runner') else fun, **kw)
    return dict(i=dict(fmax=fx(max(vals or [0])), affine=int(not Q.any())), x=dict(df=enc(np.ldexp(df, ux)), seen=enc(np.vstack(seen))))
