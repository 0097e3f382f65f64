from driver import np, enc
import active_subspaces as ac
from active_subspaces.utils import designs, misc, quadrature, qp_solver, simrunners
from active_subspaces.utils import response_surfaces as rs
from c15 import mmfail
S, D, G, I, O, R = ac.subspaces, ac.domains, ac.gradients, ac.integrals, ac.optimizers, ac.response_surfaces
nsim = [0]
OPS = {}


def fun(x):
    nsim[0] += 1
    return float(np.sum(np.sin(x)))


def gfun(x):
    nsim[0] += 1
    return np.cos(x)


class Callable(object):
    def __init__(self, f): self.f = f

    def __call__(self, x): return self.f(x)


class Duck(object):
    """Looks like subspaces, a domain or a map without being one."""

    def __init__(self, **k): self.__dict__.update(k)


def op(f):
    OPS[f.__name__] = f
    return f


def sub(m, n=1):
    s = S.Subspaces()
    s.compute(df=np.random.RandomState(m).normal(size=(4 * m, m)) * np.linspace(2, 0.5, m))
    s.partition(n)
    return s


def bdom(m, n=1): return D.BoundedActiveVariableDomain(sub(m, n))


def udom(m, n=1): return D.UnboundedActiveVariableDomain(sub(m, n))


def bmap(m, n=1): return D.BoundedActiveVariableMap(bdom(m, n))


def umap(m, n=1): return D.UnboundedActiveVariableMap(udom(m, n))


def value(c, k):
    """The argument: an array of the given shape, or the same as a list."""
    A = c.raw(k)
    return A.tolist() if c.get('list') else c.arr(k) if A.ndim == 2 else A


def good(c, M=20):
    r = np.random.RandomState(7)
    m = c.get('m')
    X = r.uniform(-1, 1, (M, m))
    return X, (np.sin(X.dot(np.linspace(1, .2, m))) + 0.2 * (X * X).sum(1)).reshape((-1, 1))


def surface(m, mp=None, rsf=None):
    X = np.random.RandomState(3).uniform(-1, 1, (30, m))
    a = R.ActiveSubspaceResponseSurface(umap(m) if mp is None else mp, rsf or rs.PolynomialApproximation(2))
    a.train_with_data(X, np.sum(X, axis=1, keepdims=True) ** 2)
    return a


def trained(cls, m):
    X = np.random.RandomState(3).uniform(-1, 1, (30, m))
    p = cls(1)
    p.train(X, np.sum(X, axis=1, keepdims=True) ** 2)
    return p


def bnorm(m): return misc.BoundedNormalizer(-2 * np.ones((m, 1)), 3 * np.ones((m, 1)))


def unorm(m): return misc.UnboundedNormalizer(np.ones((m, 1)), np.eye(m) + 0.1)


def active(v):
    """Values of one active variable."""
    if isinstance(v, list): return [r[:1] for r in v]
    return v[..., :1] / 4.0 if v.ndim == 2 else v / 4.0


IN = dict(
    in_process=lambda c, v: misc.process_inputs(v),
    in_process_out=lambda c, v: misc.process_inputs_outputs(v, c.raw('f')),
    in_forward_b=lambda c, v: bmap(c.get('m')).forward(v),
    in_forward_u=lambda c, v: umap(c.get('m')).forward(v),
    in_inverse_b=lambda c, v: bmap(c.get('m')).inverse(active(v), 1),
    in_inverse_u=lambda c, v: umap(c.get('m')).inverse(active(v), 2),
    in_normalize_b=lambda c, v: bnorm(c.get('m')).normalize(v),
    in_unnormalize_b=lambda c, v: bnorm(c.get('m')).unnormalize(v),
    in_normalize_u=lambda c, v: unorm(c.get('m')).normalize(v),
    in_unnormalize_u=lambda c, v: unorm(c.get('m')).unnormalize(v),
    in_run=lambda c, v: simrunners.SimulationRunner(fun).run(v),
    in_rungrad=lambda c, v: simrunners.SimulationGradientRunner(gfun).run(v),
    in_fd=lambda c, v: G.finite_difference_gradients(v, fun),
    in_fd_runner=lambda c, v: G.finite_difference_gradients(v, simrunners.SimulationRunner(fun)),
    in_loclin=lambda c, v: G.local_linear_gradients(v, c.raw('f')),
    in_poly_train=lambda c, v: rs.PolynomialApproximation(1).train(v, c.raw('f')),
    in_poly_predict=lambda c, v: trained(rs.PolynomialApproximation, c.get('m')).predict(v),
    in_poly_gradient=lambda c, v: trained(rs.PolynomialApproximation, c.get('m')).gradient(v),
    in_poly_call=lambda c, v: trained(rs.PolynomialApproximation, c.get('m'))(v),
    in_rbf_train=lambda c, v: rs.RadialBasisApproximation(1).train(v, c.raw('f')),
    in_rbf_predict=lambda c, v: trained(rs.RadialBasisApproximation, c.get('m')).predict(v),
    in_rbf_gradient=lambda c, v: trained(rs.RadialBasisApproximation, c.get('m')).gradient(v),
    in_rbf_call=lambda c, v: trained(rs.RadialBasisApproximation, c.get('m'))(v),
    in_as_train=lambda c, v: R.ActiveSubspaceResponseSurface(umap(c.get('m')), rs.PolynomialApproximation(2)).train_with_data(v, c.raw('f')),
    in_as_predict=lambda c, v: surface(c.get('m')).predict(v),
    in_as_gradient=lambda c, v: surface(c.get('m')).gradient(v),
    in_as_call=lambda c, v: surface(c.get('m'))(v),
    in_as_predict_av=lambda c, v: surface(c.get('m')).predict_av(active(v)),
    in_as_gradient_av=lambda c, v: surface(c.get('m')).gradient_av(active(v)),
    in_active_subspace=lambda c, v: S.active_subspace(v, np.ones((c.x['f']['sh'][0], 1))),
    in_ols=lambda c, v: S.ols_subspace(v, c.raw('f'), np.ones(c.x['f']['sh'])),
    in_qphd=lambda c, v: S.qphd_subspace(v, c.raw('f'), np.ones(c.x['f']['sh'])),
    in_opg=lambda c, v: S.opg_subspace(v, c.raw('f'), np.ones(c.x['f']['sh'])),
    in_compute_df=lambda c, v: S.Subspaces().compute(df=v),
    in_compute_xdf=lambda c, v: S.Subspaces().compute(X=good(c, c.x['f']['sh'][0])[0], df=v),
    in_compute_x=lambda c, v: S.Subspaces().compute(X=v, f=c.raw('f'), sstype=['OLS', 'QPHD', 'OPG'][c.get('v') % 3]),
    in_compute_boot=lambda c, v: S.Subspaces().compute(df=v, nboot=2),
    in_minimize=lambda c, v: O.minimize(surface(c.get('m'), bmap(c.get('m'))), v, c.raw('f')),
    in_minmap_b=lambda c, v: O.BoundedMinVariableMap(bdom(c.get('m'))).train(v, c.raw('f')),
    in_minmap_u=lambda c, v: O.UnboundedMinVariableMap(udom(c.get('m'))).train(v, c.raw('f')))
OUT = dict(
    out_process=lambda c, X, f: misc.process_inputs_outputs(X, f),
    out_poly_train=lambda c, X, f: rs.PolynomialApproximation(1).train(X, f),
    out_rbf_train=lambda c, X, f: rs.RadialBasisApproximation(1).train(X, f),
    out_as_train=lambda c, X, f: R.ActiveSubspaceResponseSurface(umap(c.get('m')), rs.PolynomialApproximation(2)).train_with_data(X, f),
    out_ols=lambda c, X, f: S.ols_subspace(X, f, np.ones((X.shape[0], 1))),
    out_qphd=lambda c, X, f: S.qphd_subspace(X, f, np.ones((X.shape[0], 1))),
    out_opg=lambda c, X, f: S.opg_subspace(X, f, np.ones((X.shape[0], 1))),
    out_compute_ols=lambda c, X, f: S.Subspaces().compute(X=X, f=f, sstype='OLS'),
    out_compute_qphd=lambda c, X, f: S.Subspaces().compute(X=X, f=f, sstype='QPHD'),
    out_compute_opg=lambda c, X, f: S.Subspaces().compute(X=X, f=f, sstype='OPG'),
    out_minimize=lambda c, X, f: O.minimize(surface(c.get('m'), bmap(c.get('m'))), X, f),
    out_minmap_b=lambda c, X, f: O.BoundedMinVariableMap(bdom(c.get('m'))).train(X, f),
    out_minmap_u=lambda c, X, f: O.UnboundedMinVariableMap(udom(c.get('m'))).train(X, f))


def count(c):
    v = c.get('v')
    return [v, float(v), v + 0.5, str(v), None, [v], (v,)][c.get('kind')]


def mp(c): return (bmap if c.get('rs') % 2 else umap)(c.get('m'))


def surf0(c): return R.ActiveSubspaceResponseSurface(mp(c), rs.PolynomialApproximation(0))


def minmap(c, b):
    m = c.get('m')
    a = O.BoundedMinVariableMap(bdom(m)) if b else O.UnboundedMinVariableMap(udom(m))
    a.train(*good(c))
    return a


Y0 = np.zeros((1, 1))
CNT = dict(
    int_integrate_N=lambda c, v: I.integrate(fun, mp(c), v, NMC=2),
    int_integrate_NMC=lambda c, v: I.integrate(fun, mp(c), 3, NMC=v),
    int_avintegrate_N=lambda c, v: I.av_integrate(fun, mp(c), v),
    int_rule_N=lambda c, v: I.quadrature_rule(mp(c), v),
    int_rule_NMC=lambda c, v: I.quadrature_rule(mp(c), 3, NMC=v),
    int_design_N=lambda c, v: R.av_design(mp(c), v),
    int_design_NMC=lambda c, v: R.av_design(mp(c), 3, NMC=v),
    int_interface_N=lambda c, v: surf0(c).train_with_interface(fun, v, NMC=2),
    int_interface_NMC=lambda c, v: surf0(c).train_with_interface(fun, 4, NMC=v),
    int_inverse_b=lambda c, v: bmap(c.get('m')).inverse(Y0, v),
    int_inverse_u=lambda c, v: umap(c.get('m')).inverse(Y0, v),
    int_sample_z=lambda c, v: D.sample_z(v, Y0[0], sub(c.get('m')).W1, sub(c.get('m')).W2),
    int_partition=lambda c, v: sub(c.get('m')).partition(v),
    int_nzv_m=lambda c, v: D.nzv(v, 1),
    int_nzv_n=lambda c, v: D.nzv(8, v),
    int_loclin_p=lambda c, v: G.local_linear_gradients(c.raw('X'), c.raw('f'), p=v),
    int_r_hermite=lambda c, v: quadrature.r_hermite(v),
    int_r_jacobi=lambda c, v: quadrature.r_jacobi(v, -1, 1, 0, 0),
    int_gauss_hermite=lambda c, v: quadrature.gauss_hermite(v),
    int_gauss_legendre=lambda c, v: quadrature.gauss_legendre(v),
    int_min_inverse_b=lambda c, v: minmap(c, 1).inverse(Y0, v),
    int_min_inverse_u=lambda c, v: minmap(c, 0).inverse(Y0, v))


def subs(c):
    s = sub(c.get('m'))
    k = c.get('kind')
    return [lambda: s, S.Subspaces, lambda: None, lambda: Duck(W1=s.W1, W2=s.W2, eigenvecs=s.eigenvecs, eigenvals=s.eigenvals), lambda: s.W1][k]()


SUB = dict(sub_bdomain=lambda c, v: D.BoundedActiveVariableDomain(v), sub_udomain=lambda c, v: D.UnboundedActiveVariableDomain(v))


def maps(c):
    m, k = c.get('m'), c.get('kind')
    return [lambda: bmap(m), lambda: umap(m), lambda: minmap(c, c.get('rs') % 2), lambda: bdom(m), lambda: sub(m), lambda: None,
            lambda: Duck(domain=bdom(m), inverse=bmap(m).inverse, forward=bmap(m).forward), lambda: 'map'][k]()


MAP = dict(
    map_surface=lambda c, v: R.ActiveSubspaceResponseSurface(v),
    map_integrate=lambda c, v: I.integrate(fun, v, 3, NMC=1),
    map_avintegrate=lambda c, v: I.av_integrate(fun, v, 3),
    map_rule=lambda c, v: I.quadrature_rule(v, 3, NMC=1),
    map_design=lambda c, v: R.av_design(v, 3, NMC=1))


def doms(c):
    m, k = c.get('m'), c.get('kind')
    base = D.ActiveVariableDomain()
    base.subspaces, base.m, base.n = sub(m), m, 1
    b = bdom(m)
    return [lambda: b, lambda: udom(m), lambda: base, lambda: sub(m), lambda: None, lambda: bmap(m),
            lambda: Duck(subspaces=b.subspaces, m=m, n=1, vertY=b.vertY, vertX=b.vertX, convhull=None, constraints=None)][k]()


def asmap(v):
    a = D.BoundedActiveVariableMap(v)
    return a


DOM = dict(
    dom_av_minimize=lambda c, v: O.av_minimize(lambda y: fun(y) * 0 + float(np.sum(np.ravel(y) ** 2)), v),
    dom_av_rule=lambda c, v: I.av_quadrature_rule(asmap(v), 3),
    dom_design=lambda c, v: R.av_design(asmap(v) if not isinstance(v, D.UnboundedActiveVariableDomain) else D.UnboundedActiveVariableMap(v), 3, NMC=1))


def funs(c):
    f = gfun if c.op == 'fun_gradrunner' else fun
    return [f, Callable(f), simrunners.SimulationRunner(f), None, 3, 'fun', [f]][c.get('kind')]


FUN = dict(
    fun_runner=lambda c, v: simrunners.SimulationRunner(v),
    fun_gradrunner=lambda c, v: simrunners.SimulationGradientRunner(v),
    fun_integrate=lambda c, v: I.integrate(v, mp(c), 3, NMC=2),
    fun_avintegrate=lambda c, v: I.av_integrate(v, mp(c), 3),
    fun_fd=lambda c, v: G.finite_difference_gradients(c.raw('X'), v),
    fun_interface=lambda c, v: surf0(c).train_with_interface(v, 4, NMC=2))


def solver(c, f):
    s = qp_solver.QPSolver(['SCIPY', 'GUROBI'][c.get('kind') % 2])
    if c.get('kind') > 1: s.solver = [None, 'scipy', 'CPLEX', ''][c.get('kind') - 2]
    o, Q = np.ones((2, 1)), np.eye(2)
    return f(s, o, Q)


NAM = dict(
    name_g1d=lambda c: quadrature.g1d(3, ['Hermite', 'Legendre', 'Jacobi', '', 'hermite', None][c.get('kind')]),
    name_atleast=lambda c: misc.atleast_2d(np.ones(3), oned_as=['row', 'col', 'rows', '', 'column', None][c.get('kind')]),
    name_lp_eq=lambda c: solver(c, lambda s, o, Q: s.linear_program_eq(o, o.T, o[:1], 0 * o, o)),
    name_lp_ineq=lambda c: solver(c, lambda s, o, Q: s.linear_program_ineq(o, Q, o)),
    name_qp_bnd=lambda c: solver(c, lambda s, o, Q: s.quadratic_program_bnd(o, Q, -o, o)),
    name_qp_ineq=lambda c: solver(c, lambda s, o, Q: s.quadratic_program_ineq(o, Q, Q, -o)))


def compute(c):
    kw = {}
    for k in ('X', 'f', 'df'):
        if c.get(k): kw[k] = c.raw(k)
    if c.get('nboot'): kw['nboot'] = c.get('nboot')
    S.Subspaces().compute(sstype=['AS', 'OLS', 'QPHD', 'OPG', 'as', 'ABC'][c.get('ss')], ptype=['EVG', 'RS', 'LI', 'evg', 'XYZ'][c.get('pt')], **kw)


def call(c):
    o = c.op
    if o in IN:
        v = value(c, 'X')
        return lambda: IN[o](c, v)
    if o in OUT:
        X, f = c.arr('X'), value(c, 'f')
        return lambda: OUT[o](c, X, f)
    for T, g in ((CNT, count), (SUB, subs), (MAP, maps), (DOM, doms), (FUN, funs)):
        if o in T:
            v = g(c)
            return lambda: T[o](c, v)
    if o in NAM: return lambda: NAM[o](c)
    if o == 'few_loclin': return lambda: G.local_linear_gradients(c.raw('X'), c.raw('f'))
    if o == 'few_opg': return lambda: S.opg_subspace(c.raw('X'), c.raw('f'), np.ones((c.x['X']['sh'][0], 1)))
    if o == 'few_poly': return lambda: rs.PolynomialApproximation(c.get('N')).train(c.raw('X'), c.raw('f'))
    if o == 'few_rbf': return lambda: rs.RadialBasisApproximation(c.get('N')).train(c.raw('X'), c.raw('f'))
    if o == 'jacobi':
        ab = c.raw('ab')
        return lambda: quadrature.jacobi_matrix(ab)
    if o == 'compute': return lambda: compute(c)
    raise AttributeError(o)


def run(c, env):
    np.random.seed(c.get('rs'))
    f = call(c)
    nsim[0] = 0
    try:
        f()
        r = 0
    except Exception as e:
        # an optimizer that reports failure had accepted its arguments
        r = 0 if 'failed with message' in str(e) else 1
    return dict(i=dict(raised=r, nsim=nsim[0]))


def __getattr__(nm):
    if nm.startswith('op_'): return run
    raise AttributeError(nm)
