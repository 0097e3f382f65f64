from driver import np, enc, none
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


KEPT = []  # results handed out, with copies


class Fun(object):
    """The user's function: returns the planned outputs, records what it is called with."""

    def __init__(self):
        self.plan, self.seen, self.shapes, self.fail, self.form, self.grad, self.exc = [], [], 1, -1, 0, 0, None
        self.hook = None

    def __call__(self, x):
        k = len(self.seen)
        if not (isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[0] == 1): self.shapes = 0
        self.seen.append(np.array(x, dtype=float).reshape((1, -1)))
        if self.hook is not None: self.hook(k)
        if k == self.fail: raise self.exc
        v = self.plan[k] if k < len(self.plan) else np.zeros(1)
        if self.grad: return [v.reshape((1, -1)), v.copy(), v.reshape((-1, 1))][self.form % 3]
        return [float(v[0]), np.float64(v[0]), v.reshape((1, 1)), v.copy(), np.array(v[0]), float(v[0])][self.form]


def setup(fun, c, out, fail=-1):
    fun.__init__()
    fun.plan, fun.fail, fun.form, fun.grad = list(c.raw(out)), fail, c.get('form'), c.get('grad')
    fun.exc = [Boom('boom'), BoomBase('boom'), KeyError('boom'), TypeError('boom'), ValueError('boom'), IndexError('boom')][c.get('exc')]


def go(fun, runner, X, sfx):
    i, x = {'raised' + sfx: 0, 'same' + sfx: 0}, {}
    try:
        r = runner.run(X)
        x['res' + sfx] = enc(r)
        KEPT.append((r, np.array(r)))
    except (Exception, Boom, BoomBase) as e:
        i['raised' + sfx] = 1
        i['same' + sfx] = int(e is fun.exc)
        x['res' + sfx] = none()
    x['seen' + sfx] = enc(np.vstack(fun.seen)) if fun.seen else enc(np.zeros((0, X.shape[1])))
    i['shapes' + sfx] = fun.shapes
    return i, x


def get(env, k, grad):
    if (k, grad) not in env:
        f = Fun()
        env[(k, grad)] = (f, (SimulationGradientRunner if grad else SimulationRunner)(f))
    return env[(k, grad)]


def op_run(c, env):
    g = c.get('grad')
    f, r = get(env, c.get('obj'), g)
    f2, r2 = get(env, (c.get('obj') + 1) % 3, g)
    setup(f, c, 'out', c.get('fail'))
    i2, x2 = {}, {}
    if c.get('nest') >= 0:
        def hook(k):
            if k == c.get('nest'):
                setup(f2, c, 'out2')
                a, b = go(f2, r2, c.raw('X2'), '2')
                i2.update(a)
                x2.update(b)
        f.hook = hook
    i, x = go(f, r, c.arr('X'), '')
    i.update(i2)
    x.update(x2)
    i['kept'] = int(all(np.array_equal(a, b) for a, b in KEPT[-12:]))
    return dict(i=i, x=x)
