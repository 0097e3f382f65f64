"""Every public operation of the package as (arguments, thunk): used by the history machines C27 and C28."""
from driver import np
import active_subspaces as ac
from active_subspaces.utils import designs, misc, quadrature, qp_solver, simrunners, plotters
from active_subspaces.utils import response_surfaces as rs
import matplotlib.pyplot as plt
S, D, G, I, O, R = ac.subspaces, ac.domains, ac.gradients, ac.integrals, ac.optimizers, ac.response_surfaces
OPS = {}


def op(*names):
    def reg(f):
        for n in names: OPS[n] = f
        return f
    return reg


class Data(object):
    """Arrays of instance a: the same in every run."""

    def __init__(self, a, lay):
        self.R, self.lay, self.args = np.random.RandomState(100 + a), lay, []
        self.m = 3 + a % 2

    def give(self, A):
        """An argument in the layout of the call."""
        A = np.asarray(A)
        if self.lay == 1: A = np.asfortranarray(A)
        elif self.lay == 2 and A.ndim == 2:
            big = np.full((2 * A.shape[0] + 1, 2 * A.shape[1] + 1), 77.0)
            big[::2, ::2][:A.shape[0], :A.shape[1]] = A
            A = big[::2, ::2][:A.shape[0], :A.shape[1]]
        else: A = A.copy()
        if self.lay == 3: A.flags.writeable = False
        self.args.append(A)
        return A

    def X(self, M=None): return self.give(self.R.uniform(-1, 1, (M or 12 + 4 * self.m, self.m)))

    def XN(self, M=None): return self.give(self.R.normal(size=(M or 12 + 4 * self.m, self.m)))

    def df(self): return self.give(self.R.normal(size=(3 * self.m, self.m)) * np.linspace(3, 0.5, self.m))

    def f(self, X):
        w = np.linspace(1, 0.2, X.shape[1])
        return self.give((np.sin(np.dot(X, w)) + 0.3 * (X * X).sum(1)).reshape((-1, 1)))

    def weights(self, M): return self.give(self.R.uniform(0.5, 1.5, (M, 1)) / M)


def fun(x): return float(np.sin(np.sum(x)) + 0.5 * np.sum(x ** 2))


def avfun(y): return float(np.sum((np.ravel(y) - 0.2) ** 2))


def avdfun(y): return 2 * (np.ravel(y) - 0.2)


def sub(P, d, n):
    """Subspaces of dimension n kept in the pool."""
    k = ('ss', d.m, n)
    if k not in P:
        s = S.Subspaces()
        R = np.random.RandomState(7 * d.m + n)
        s.compute(df=R.normal(size=(3 * d.m, d.m)) * np.linspace(3, 0.5, d.m))
        s.partition(n)
        P[k] = s
    return P[k]


def dom(P, d, kind):
    """kind: u1 u2 unbounded, b1 interval, b2 zonotope, b0 no inactive variables"""
    k = ('dom', d.m, kind)
    if k not in P:
        n = {'u1': 1, 'u2': 2, 'b1': 1, 'b2': 2, 'b0': None}[kind]
        if kind == 'b0':
            s = S.Subspaces()
            s.compute(df=np.random.RandomState(5).normal(size=(6, 2)))
            s.partition(2)
        else: s = sub(P, d, n)
        P[k] = (D.UnboundedActiveVariableDomain if kind[0] == 'u' else D.BoundedActiveVariableDomain)(s)
    return P[k]


def mp(P, d, kind):
    k = ('map', d.m, kind)
    if k not in P: P[k] = (D.UnboundedActiveVariableMap if kind[0] == 'u' else D.BoundedActiveVariableMap)(dom(P, d, kind))
    return P[k]


def surf(P, d, kind, poly=True, own=''):
    k = ('surf', d.m, kind, poly, own)
    if k not in P:
        P[k] = R.ActiveSubspaceResponseSurface(mp(P, d, kind), rs.PolynomialApproximation(N=2)) if poly else R.ActiveSubspaceResponseSurface(mp(P, d, kind))
        X = np.random.RandomState(3).uniform(-1, 1, (30, d.m))
        P[k].train_with_data(X, 0.3 * np.cos(np.sum(X, 1)).reshape((-1, 1)) + (X ** 2).sum(1).reshape((-1, 1)))
    return P[k]


def attrs(o, names): return [getattr(o, n) for n in names.split() if getattr(o, n) is not None]


SUB = 'eigenvals eigenvecs W1 W2 e_br sub_br'


def compute(**kw):
    def f(P, d):
        # the pool's object is reused: later computations must not disturb earlier results
        s = P.setdefault(('css', 0), S.Subspaces())
        k = dict(kw)
        wt = k.pop('weights', False)
        if k.get('sstype', 'AS') == 'AS':
            a = dict(df=d.df())
            M = a['df'].shape[0]
        else:
            X = d.X()
            a, M = dict(X=X, f=d.f(X)), X.shape[0]
        if wt: a['weights'] = d.weights(M)
        k.update(a)

        def run():
            s.compute(**k)
            return attrs(s, SUB)
        return run
    return f


OPS['compute_as'] = compute()
OPS['compute_as_w'] = compute(weights=True)
OPS['compute_ols'] = compute(sstype='OLS')
OPS['compute_qphd'] = compute(sstype='QPHD', weights=True)
OPS['compute_opg'] = compute(sstype='OPG')
OPS['compute_boot'] = compute(nboot=8)
OPS['compute_rs'] = compute(nboot=8, ptype='RS', weights=True)
OPS['compute_li'] = compute(nboot=8, ptype='LI', sstype='QPHD')


@op('partition')
def _(P, d):
    s = sub(P, d, 1)
    t = P.setdefault(('part', d.m), S.Subspaces())
    t.eigenvals, t.eigenvecs = s.eigenvals, s.eigenvecs
    n = 1 + d.R.randint(d.m)

    def run():
        t.partition(n)
        return attrs(t, 'W1 W2 eigenvecs')
    return run


@op('active_subspace')
def _(P, d):
    g = d.df()
    w = d.weights(g.shape[0])
    return lambda: S.active_subspace(g, w)


def xfw(fn):
    def f(P, d):
        X = d.X()
        a = (X, d.f(X), d.weights(X.shape[0]))
        return lambda: fn(*a)
    return f


OPS['ols_subspace'] = xfw(S.ols_subspace)
OPS['qphd_subspace'] = xfw(S.qphd_subspace)
OPS['opg_subspace'] = xfw(S.opg_subspace)


@op('eig_partition')
def _(P, d):
    e = d.give(np.sort(d.R.uniform(0, 5, (d.m, 1)), 0)[::-1])
    return lambda: S.eig_partition(e)


@op('errbnd_partition')
def _(P, d):
    e = d.give(np.sort(d.R.uniform(0, 5, (d.m, 1)), 0)[::-1])
    q = d.give(d.R.uniform(0, 1, (d.m - 1, 1)))
    return lambda: S.errbnd_partition(e, q)


@op('ladle_partition')
def _(P, d):
    e = d.give(np.sort(d.R.uniform(0, 5, (d.m, 1)), 0)[::-1])
    q = d.give(d.R.uniform(0, 1, (d.m, 1)))
    return lambda: S.ladle_partition(e, q)


@op('sorted_eigh')
def _(P, d):
    B = d.R.normal(size=(d.m, d.m))
    A = d.give(np.dot(B, B.T))
    return lambda: S.sorted_eigh(A)


DOM = 'vertY vertX'


@op('udomain')
def _(P, d):
    s = sub(P, d, 2)
    d.args += [s.W1, s.W2, s.eigenvecs]
    return lambda: attrs(D.UnboundedActiveVariableDomain(s), 'n m') + [s.W1]


def bdomain(n):
    def f(P, d):
        s = sub(P, d, n)
        d.args += [s.W1, s.W2, s.eigenvecs]
        return lambda: attrs(D.BoundedActiveVariableDomain(s), DOM)
    return f


OPS['bdomain1'] = bdomain(1)
OPS['bdomain2'] = bdomain(2)


def boundary(kind):
    def f(P, d):
        q = dom(P, d, kind)
        d.args += [q.vertY, q.vertX]

        def run():
            q.compute_boundary()
            return attrs(q, DOM)
        return run
    return f


OPS['boundary_b1'] = boundary('b1')
OPS['boundary_b2'] = boundary('b2')


@op('zonotope_vertices')
def _(P, d):
    W = d.give(sub(P, d, 2).W1)
    return lambda: sorted_rows(D.zonotope_vertices(W))


def sorted_rows(r):
    # the set of vertices is the result; their order depends on the samples
    return [A[np.lexsort(np.round(A, 9).T)] for A in r]


@op('interval_endpoints')
def _(P, d):
    W = d.give(sub(P, d, 1).W1)
    return lambda: D.interval_endpoints(W)


@op('nzv')
def _(P, d): return lambda: [D.nzv(d.m, 2)]


@op('unique_rows')
def _(P, d):
    A = d.R.randint(0, 2, (8, d.m)).astype(float)
    d.args.append(A)
    return lambda: [D.unique_rows(A)]


def forward(kind):
    def f(P, d):
        m = mp(P, d, kind)
        X = d.X() if kind[0] == 'b' else d.XN()
        return lambda: m.forward(X)
    return f


def inverse(kind, N=4):
    def f(P, d):
        m = mp(P, d, kind)
        k = m.domain.subspaces.W1.shape[0]
        Y = d.give(np.dot(0.5 * d.R.uniform(-1, 1, (2, k)), m.domain.subspaces.W1))
        return lambda: m.inverse(Y, N)
    return f


for k in ('b1', 'b2', 'u1', 'u2'):
    OPS['forward_' + k] = forward(k)
    OPS['inverse_' + k] = inverse(k)
OPS['inverse_b0'] = inverse('b0')


def sampler(fn, n):
    def f(P, d):
        s = sub(P, d, n)
        W1, W2 = d.give(s.W1), d.give(s.W2)
        y = d.give(np.dot(W1.T, 0.3 * d.R.uniform(-1, 1, (d.m, 1))).reshape((n,)))
        return lambda: [fn(5, y, W1, W2)]
    return f


for k, fn in (('sample_z', D.sample_z), ('rejection', D.rejection_sampling_z), ('hit_and_run', D.hit_and_run_z), ('random_walk', D.random_walk_z)):
    OPS[k] = sampler(fn, 1)


@op('local_linear')
def _(P, d):
    X = d.X()
    f = d.f(X)
    return lambda: [G.local_linear_gradients(X, f)]


@op('local_linear_w')
def _(P, d):
    X = d.X()
    f = d.f(X)
    w = d.weights(X.shape[0])
    return lambda: [G.local_linear_gradients(X, f, p=d.m + 2, weights=w)]


@op('fd_gradients')
def _(P, d):
    X = d.X(5)
    return lambda: [G.finite_difference_gradients(X, fun, h=1e-4)]


def on_map(call, kind, N):
    def f(P, d):
        m = mp(P, d, kind)
        return lambda: np.atleast_1d(call(m, N)) if np.isscalar(call) else call(m, N)
    return f


NN = dict(b1=5, b2=3, u1=5, u2=9)
for k in ('b1', 'b2', 'u1', 'u2'):
    OPS['integrate_' + k] = on_map(lambda m, N: list(I.integrate(fun, m, N, NMC=3)), k, NN[k])
    OPS['av_integrate_' + k] = on_map(lambda m, N: [I.av_integrate(avfun, m, N)], k, NN[k])
    OPS['rule_' + k] = on_map(lambda m, N: I.quadrature_rule(m, N, NMC=3), k, NN[k])
    OPS['av_rule_' + k] = on_map(lambda m, N: I.av_quadrature_rule(m, N), k, NN[k])
    OPS['av_design_' + k] = on_map(lambda m, N: R.av_design(m, N, NMC=3), k, NN[k])
OPS['interval_rule'] = on_map(lambda m, N: I.interval_quadrature_rule(m, N, NX=500), 'b1', 6)
OPS['zonotope_rule'] = on_map(lambda m, N: I.zonotope_quadrature_rule(m, N, NX=500), 'b2', 3)


def train_data(kind, poly):
    def f(P, d):
        s = surf(P, d, kind, poly, 'trained')
        X = d.X(30)
        f = d.f(X)
        Y = d.give(np.dot(0.5 * d.R.uniform(-1, 1, (3, d.m)), s.avmap.domain.subspaces.W1))

        def run():
            s.train_with_data(X, f)
            return s.predict_av(Y, compgrad=True)
        return run
    return f


def train_interface(kind, poly=True):
    def f(P, d):
        s = R.ActiveSubspaceResponseSurface(mp(P, d, kind), rs.PolynomialApproximation(N=1)) if poly else surf(P, d, kind, False)
        Y = d.give(np.dot(0.5 * d.R.uniform(-1, 1, (3, d.m)), s.avmap.domain.subspaces.W1))

        def run():
            s.train_with_interface(fun, NN[kind], NMC=2)
            return s.predict_av(Y, compgrad=True)
        return run
    return f


def predict(kind, how, poly=True):
    def f(P, d):
        s = surf(P, d, kind, poly)
        X = d.X(4)
        Y = d.give(np.dot(0.5 * d.R.uniform(-1, 1, (3, d.m)), s.avmap.domain.subspaces.W1))
        return {'predict': lambda: s.predict(X, compgrad=True), 'gradient': lambda: [s.gradient(X)], 'call': lambda: [s(X)],
                'predict_av': lambda: s.predict_av(Y, compgrad=True), 'gradient_av': lambda: [s.gradient_av(Y)]}[how]
    return f


for k in ('b1', 'b2', 'u1', 'u2'):
    OPS['train_data_' + k] = train_data(k, True)
    OPS['train_interface_' + k] = train_interface(k)
OPS['train_rbf'] = train_data('b1', False)
for how in ('predict', 'gradient', 'call', 'predict_av', 'gradient_av'):
    OPS['surf_' + how] = predict('b2', how)
    OPS['surf_rbf_' + how] = predict('u1', how, False)


def minimize(kind):
    def f(P, d):
        s = surf(P, d, kind)
        X = d.X(30)
        f = d.f(X)
        return lambda: O.minimize(s, X, f)
    return f


def av_minimize(kind, grad=True):
    def f(P, d):
        q = dom(P, d, kind)
        return lambda: O.av_minimize(avfun, q, avdfun=avdfun) if grad else O.av_minimize(avfun, q)
    return f


for k in ('b1', 'b2', 'u1', 'u2'):
    OPS['minimize_' + k] = minimize(k)
    OPS['av_minimize_' + k] = av_minimize(k)
    OPS['av_minimize_nograd_' + k] = av_minimize(k, False)


def minmap(kind):
    def f(P, d):
        q = P.setdefault(('min', d.m, kind), (O.UnboundedMinVariableMap if kind[0] == 'u' else O.BoundedMinVariableMap)(dom(P, d, kind)))
        X = d.X(30)
        f = d.f(X)
        Y = d.give(np.dot(0.5 * d.R.uniform(-1, 1, (3, d.m)), q.domain.subspaces.W1))

        def run():
            q.train(X, f)
            return q.inverse(Y)
        return run
    return f


OPS['minmap_b1'] = minmap('b1')
OPS['minmap_u1'] = minmap('u1')
OPS['interval_design'] = lambda P, d: lambda: [designs.interval_design(-1.5, 2.0, 6)]
OPS['gh_design'] = lambda P, d: lambda: [designs.gauss_hermite_design([2, 3])]


@op('maximin')
def _(P, d):
    v = d.give(np.array([[0.0, 0], [2, 0], [3, 2], [1, 3], [-1, 1.5]]) + d.R.uniform(-0.1, 0.1, (5, 2)))
    return lambda: [designs.maximin_design(v, 3)]


def normalizer(bounded, how):
    def f(P, d):
        if bounded:
            lb = d.give(d.R.uniform(-3, -1, (1, d.m)))
            q = misc.BoundedNormalizer(lb, d.give(d.R.uniform(1, 3, (1, d.m))))
        else:
            B = d.R.normal(size=(d.m, d.m))
            q = misc.UnboundedNormalizer(d.give(d.R.normal(size=(d.m, 1))), d.give(np.dot(B, B.T) + np.eye(d.m)))
        X = d.X()
        return lambda: [getattr(q, how)(X)]
    return f


for h in ('normalize', 'unnormalize'):
    OPS['bounded_' + h] = normalizer(True, h)
    OPS['unbounded_' + h] = normalizer(False, h)


@op('process_inputs')
def _(P, d):
    X = d.X()
    return lambda: misc.process_inputs(X)


@op('process_inputs_outputs')
def _(P, d):
    X = d.X()
    f = d.f(X)
    return lambda: misc.process_inputs_outputs(X, f)


@op('condexp')
def _(P, d):
    f = d.give(d.R.normal(size=(12, 1)))
    ind = np.arange(12).reshape((12, 1)) % 4
    d.args.append(ind)
    return lambda: misc.conditional_expectations(f, ind)


@op('atleast_2d')
def _(P, d):
    v = d.give(d.R.normal(size=(5,)))
    return lambda: [misc.atleast_2d_row(v), misc.atleast_2d_col(v), misc.atleast_2d(v)]


for nm, th in dict(r_hermite=lambda: [quadrature.r_hermite(6)], r_jacobi=lambda: [quadrature.r_jacobi(6, -1, 1, 0.5, -0.5)],
                   gl1d=lambda: quadrature.gl1d(6), gh1d=lambda: quadrature.gh1d(6), g1d=lambda: quadrature.g1d(5, 'Legendre'),
                   gauss_hermite=lambda: quadrature.gauss_hermite([3, 2]), gauss_legendre=lambda: quadrature.gauss_legendre([3, 2]),
                   index_set=lambda: [rs.index_set(3, 3)]).items():
    OPS[nm] = (lambda th: lambda P, d: th)(th)


@op('jacobi_matrix')
def _(P, d):
    ab = d.give(d.R.uniform(0.2, 1, (5, 2)))
    return lambda: [quadrature.jacobi_matrix(ab)]


def program(how):
    def f(P, d):
        q = P.setdefault('qp', qp_solver.QPSolver())
        n = 3
        c, A = d.give(d.R.normal(size=(n, 1))), d.give(d.R.normal(size=(2, n)))
        lb, ub = d.give(-np.ones((n, 1))), d.give(np.ones((n, 1)))
        b = d.give(np.dot(A, d.R.uniform(-0.5, 0.5, (n, 1))))
        B = d.R.normal(size=(n, n))
        Q = d.give(np.dot(B, B.T) + np.eye(n))
        Ai = d.give(np.vstack((np.eye(n), -np.eye(n))))
        bi = d.give(-np.ones((2 * n, 1)))
        return {'lp_eq': lambda: [q.linear_program_eq(c, A, b, lb, ub)], 'lp_ineq': lambda: [q.linear_program_ineq(c, Ai, bi)],
                'qp_bnd': lambda: [q.quadratic_program_bnd(c, Q, lb, ub)], 'qp_ineq': lambda: [q.quadratic_program_ineq(c, Q, Ai, bi)]}[how]
    return f


for h in ('lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq'): OPS[h] = program(h)


def model(kind, wt=False):
    def f(P, d):
        q = P.setdefault(('model', kind), rs.PolynomialApproximation(N=2) if kind == 'poly' else rs.RadialBasisApproximation(N=1))
        X = d.X(30)
        f = d.f(X)
        Z = d.X(4)
        kw = {}
        if wt and kind == 'poly': kw = dict(weights=d.weights(30))
        elif wt: kw = dict(v=d.give(d.R.uniform(0.01, 0.1, (30, 1))), e=d.give(np.sort(d.R.uniform(0.5, 3, (d.m, 1)), 0)[::-1]))

        def run():
            q.train(X, f, **kw)
            r = list(q.predict(Z, compgrad=True)) + [q.gradient(Z), q(Z)]
            return r + (attrs(q, 'poly_weights g H') if kind == 'poly' else attrs(q, 'radial_weights poly_weights K ell X'))
        return run
    return f


OPS['poly'], OPS['poly_w'], OPS['rbf'], OPS['rbf_ve'] = model('poly'), model('poly', True), model('rbf'), model('rbf', True)


@op('bases')
def _(P, d):
    X = d.X(4)
    return lambda: list(rs.polynomial_bases(X, 2)) + [rs.grad_polynomial_bases(X, 2)]


@op('exp_squared')
def _(P, d):
    X, Y = d.X(4), d.X(5)
    ell = d.give(d.R.uniform(0.5, 2, (d.m, 1)))
    return lambda: [rs.exponential_squared(X, Y, 1.5, ell), rs.grad_exponential_squared(X, Y, 1.5, ell)]


@op('runner')
def _(P, d):
    q = P.setdefault('runner', simrunners.SimulationRunner(fun))
    X = d.X()
    return lambda: [q.run(X)]


@op('grad_runner')
def _(P, d):
    q = P.setdefault('grunner', simrunners.SimulationGradientRunner(lambda x: np.cos(x)))
    X = d.X()
    return lambda: [q.run(X)]


def plot(how):
    def f(P, d):
        o = plotters.plot_opts(savefigs=False)
        m = d.m
        if how == 'eigenvalues': a = (d.give(d.R.uniform(1, 2, (m, 1))), d.give(d.R.uniform(1, 2, (m, 2))))
        elif how == 'subspace_errors': a = (d.give(d.R.uniform(0.1, 1, (m - 1, 3))),)
        elif how == 'eigenvectors':
            a = (d.give(d.R.uniform(-1, 1, (m, 2))), d.give(d.R.uniform(-1, 1, (m, 4))))
        elif how == 'sufficient_summary': a = (d.give(d.R.normal(size=(9, 2))), d.give(d.R.normal(size=(9, 1))))
        else: a = (d.give(np.array([[0.0, 0], [2, 0], [2, 2], [0, 2]])), d.give(d.R.uniform(0.5, 1.5, (3, 2))), d.give(d.R.uniform(0.5, 1.5, (4, 2))), d.give(d.R.normal(size=(4, 1))))

        def run():
            getattr(plotters, how)(*a, opts=o)
            plt.close('all')
            return []
        return run
    return f


for h in ('eigenvalues', 'subspace_errors', 'eigenvectors', 'sufficient_summary', 'zonotope_2d_plot'): OPS['plot_' + h] = plot(h)


# ---- calls that fail: the random state must be kept and nothing modified -------------------------------------
def failing(th):
    def f(P, d):
        t = th(P, d)

        def run():
            try: t()
            except Exception: return []
            raise AssertionError('accepted')
        return run
    return f


def _bad(fn): return failing(fn)


OPS['fail_compute'] = _bad(lambda P, d: (lambda s, g: lambda: s.compute(df=g, sstype='nope'))(S.Subspaces(), d.df()))
OPS['fail_rs'] = _bad(lambda P, d: (lambda s, g: lambda: s.compute(df=g, ptype='RS'))(S.Subspaces(), d.df()))
OPS['fail_ols'] = _bad(lambda P, d: (lambda s, g: lambda: s.compute(X=g, sstype='OLS'))(S.Subspaces(), d.X()))
OPS['fail_partition'] = _bad(lambda P, d: (lambda s: lambda: s.partition(d.m + 1))(sub(P, d, 1)))
OPS['fail_inverse'] = _bad(lambda P, d: (lambda q, Y: lambda: q.inverse(Y, 2.5))(mp(P, d, 'b1'), d.give(np.zeros((1, 1)))))
OPS['fail_integrate'] = _bad(lambda P, d: (lambda q: lambda: I.integrate(fun, q, 2.5))(mp(P, d, 'u1')))


def _raising(y): raise ValueError('planned')


OPS['fail_av_minimize_b2'] = _bad(lambda P, d: (lambda q: lambda: O.av_minimize(_raising, q))(dom(P, d, 'b2')))
OPS['fail_av_minimize_u2'] = _bad(lambda P, d: (lambda q: lambda: O.av_minimize(_raising, q))(dom(P, d, 'u2')))
OPS['fail_av_minimize_b1'] = _bad(lambda P, d: (lambda q: lambda: O.av_minimize(_raising, q))(dom(P, d, 'b1')))
OPS['fail_runner'] = _bad(lambda P, d: (lambda q, X: lambda: q.run(X))(simrunners.SimulationRunner(_raising), d.X()))
OPS['fail_train'] = _bad(lambda P, d: (lambda q, X: lambda: q.train(X, X))(rs.PolynomialApproximation(N=2), d.X()))
OPS['fail_maximin'] = _bad(lambda P, d: (lambda v: lambda: designs.maximin_design(v, 2.5))(d.give(np.array([[0.0, 0], [2, 0], [3, 2]]))))
NAMES = sorted(OPS)

if __name__ == '__main__':
    print(len(NAMES), NAMES)
