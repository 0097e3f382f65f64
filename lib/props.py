"""Configuration of the checks: which specification, generator, driver and bounds decide each property."""


X_NOTE = ('Every call of the explored sample is decided exactly against the Quint specification (bigint arithmetic, stated tolerances); '
          'inputs outside the generator classes are not covered. Trusts the Quint evaluator and the driver that records results.')
NOT_YET = {}


def config(prop, tier):
    thorough = tier == 'thorough'
    return globals()['c_' + prop](lambda q, t: t if thorough else q)


def c_C01(n):
    return dict(spec='C01', driver='c01', level='exploration', note=X_NOTE,
                gen=[dict(module='C01g', traces=n(20, 60), steps=n(25, 50), procs=n(4, 6), split=True)],
                rule='one call per case: gradients of a random shape class, weights class and memory layout; non-trivial unless all gradients are zero',
                need=['active-default', 'active-weights', 'compute-default', 'compute-weights'])


def c_C02(n):
    return dict(spec='C02c', file='C02', driver='c02', level='exploration', note=X_NOTE,
                gen=[dict(module='C02g', traces=n(20, 48), steps=n(18, 50), procs=n(4, 6), split=True)],
                rule='one call per case: data set (affine, quadratic or arbitrary outputs; inputs within, on or beyond [-1,1]) under OLS, QPHD or OPG; non-trivial unless the least-squares problem is singular',
                need=['ols-affine', 'ols-general', 'qphd-boundary', 'qphd-uniform', 'qphd-gaussian', 'opg-affine', 'opg-general'])


M_NOTE = ('The abstract machine is explored exhaustively with TLC within the stated constants; the implementation is bound to it by replaying '
          'generated histories and checking every recorded step against the specification (bigint arithmetic, stated tolerances). Histories '
          'outside the sample are not covered. Trusts TLC, the Quint evaluator and the driver that records results.')


def c_C03(n):
    return dict(spec='C03', driver='c03', level='model_checking', note=M_NOTE,
                gen=[dict(module='C03g', traces=n(30, 96), steps=n(22, 40), procs=n(4, 6))],
                tlc=[dict(module='C03m', inv='inv')],
                rule='histories of new/compute/partition/overwrite-arguments calls over three objects; every event counts',
                need=['new', 'scribble', 'partition$', 'partition-rejected$', 'partition-rejected-new', 'compute-plain', 'compute-boot-EVG', 'compute-boot-RS', 'compute-boot-LI',
                      'compute-rejected$', 'compute-rejected-new'])


def c_C04(n):
    return dict(spec='C04', driver='c04', level='exploration', note=X_NOTE,
                gen=[dict(module='C04g', traces=n(25, 96), steps=n(30, 60), procs=n(4, 6), split=True)],
                rule='one call per case: spectrum and auxiliary metric (ties, plateaus, decades apart, zeros) under EVG, RS or LI',
                need=['evg$', 'evg-m2', 'rs', 'li'])


def c_C05(n):
    return dict(spec='C05', driver='c05', level='exploration', note=X_NOTE,
                gen=[dict(module='C05g', traces=n(15, 60), steps=n(16, 40), procs=n(4, 6), split=True)],
                rule='one compute per case: enum = all resamples of 2 or 3 samples enumerated by the specification; rec = replicates recorded; joint = exactly modelled data',
                need=['enum2', 'enum3', 'rec', 'joint'])


def c_C09(n):
    return dict(spec='C09', driver='c09', level='exploration', note=X_NOTE,
                gen=[dict(module='C09g', traces=n(20, 96), steps=n(25, 50), procs=n(4, 6), split=True)],
                rule='one normalizer per case (bounds or mean and covariance, 1 to 6 inputs) with points inside, on and outside the box', need=['bounded', 'unbounded'])


def c_C10(n):
    return dict(spec='C10', driver='c10', level='model_checking', note=M_NOTE,
                gen=[dict(module='C10g', traces=n(20, 96), steps=n(25, 40), procs=n(4, 6))], tlc=[dict(module='C10m', inv='inv')],
                rule='histories of runs on three runners sharing a process; the user function returns planned outputs, raises at a planned row or runs another runner',
                need=['exception', 'nested', 'gradient', 'value'])


def c_C13(n):
    return dict(spec='C13', driver='c13', level='exploration', note=X_NOTE,
                gen=[dict(module='C13g', traces=n(25, 96), steps=n(30, 60), procs=n(4, 6), split=True)],
                rule='one call per case: outputs and indices in any order, group sizes 1 to 21, four index types', need=['one-group', 'singletons', 'groups'])


def c_C11(n):
    return dict(spec='C11', driver='c11', level='exploration', note=X_NOTE,
                gen=[dict(module='C11g', traces=n(15, 96), steps=n(25, 40), procs=n(4, 6), split=True)],
                rule='one call per case: affine or quadratic simulation, 1 to 5 points in 1 to 4 inputs, default, dyadic, large or negative step, function or runner',
                need=['affine', 'default-step', 'runner', 'function'])


def c_C12(n):
    return dict(spec='C12', driver='c12', level='exploration', note=X_NOTE,
                gen=[dict(module='C12g', traces=n(15, 96), steps=n(25, 40), procs=n(4, 6), split=True)],
                rule='one call per case: samples, p (default, given, extreme or invalid) and weights; every returned row must be the exact least-squares gradient around some given point',
                need=['affine', 'default-p', 'all-points', 'given-p', 'rejected'])


def c_C08(n):
    return dict(spec='C08', driver='c08', level='exploration', note=X_NOTE,
                gen=[dict(module='C08g', traces=n(20, 60), steps=n(22, 40), procs=n(4, 6), split=True)],
                rule='one call per case: boundary of computed subspaces (m to 6, n to 4; repartitioned and recomputed), of given matrices with zero and parallel rows, vertex counts',
                need=['nzv$', 'nzv-rejected', 'interval-direct', 'zonotope-direct', 'unbounded', 'interval$', 'polygon', 'polyhedron', 'zonotope$'])


def c_C06(n):
    return dict(spec='C06', driver='c06', level='exploration', note=X_NOTE,
                gen=[dict(module='C06g', traces=n(50, 120), steps=n(14, 25), procs=n(4, 6))],
                rule='histories of recompute/repartition/forward/inverse calls on one map (m to 5, n to m; active points of interior, face and corner inputs)',
                need=['setup', 'recompute', 'repart', 'fwd$', 'fwd-full', 'inv-unbounded', 'inv-gauss', 'inv-interior', 'inv-edge', 'inv-full'])


def c_C07(n):
    return dict(spec='C07', driver='c07', level='exploration', note=X_NOTE,
                gen=[dict(module='C07g', traces=n(20, 60), steps=n(25, 40), procs=n(4, 6), split=True)],
                rule='one sampler call per case: active points of interior, boundary, corner and near-corner inputs (m to 6, one to five inactive variables)',
                need=['spread', 'interior', 'edge'])


def c_C14(n):
    return dict(spec='C14', driver='c14', level='exploration', note=X_NOTE,
                gen=[dict(module='C14g', traces=n(20, 40), steps=n(45, 60), procs=n(4, 6), split=True)],
                rule='one call per case: rules of 1 to 40 points by every entry point, tensor rules to 4 dimensions, Jacobi weights with half-integer parameters on any interval, Jacobi matrices',
                need=['hermite', 'legendre', 'tensor', 'rjac', 'rherm', 'jmat'])


def c_C15(n):
    return dict(spec='C15', driver='c15', level='exploration', note=X_NOTE,
                gen=[dict(module='C15g', traces=n(20, 48), steps=n(15, 40), procs=n(4, 6), split=True)],
                rule='one rule per case: interval (to 30 nodes), zonotope (n = 2, 3) and Gauss-Hermite (n to 4) rules, on the active variables or in full',
                need=['interval', 'zonotope', 'hermite', 'full-interval', 'full-zonotope', 'full-hermite'])


def c_C16(n):
    return dict(spec='C16', driver='c16', level='exploration', note=X_NOTE,
                gen=[dict(module='C16g', traces=n(20, 48), steps=n(20, 40), procs=n(4, 6), split=True)],
                rule='one integral per case: planned outputs, constants, active-only and affine functions over bounded and unbounded maps, by function, runner or surface',
                need=['planned', 'constant', 'active', 'affine', 'av$', 'av-surface'])


def c_C17(n):
    return dict(spec='C17c', file='C17', driver='c17', level='exploration', note=X_NOTE,
                gen=[dict(module='C17g', traces=n(30, 96), steps=n(26, 34), procs=n(4, 6))],
                rule='histories of new/train/predict calls on three models (degree 0 to 4, 1 to 5 inputs; exact, weighted, interpolating, too few and general data)',
                need=['too-few', 'train$', 'train-weighted', 'train-interpolate', 'predict', 'gradient', 'call'])


def c_C18(n):
    return dict(spec='C18', driver='c18', level='exploration', note=X_NOTE,
                gen=[dict(module='C18g', traces=n(20, 60), steps=n(25, 40), procs=n(4, 6), split=True)],
                rule='one call per case: index sets (to 6 variables, degree 12), basis values and derivatives at points with zero and negative coordinates', need=['index', 'bases'])


def c_C19(n):
    return dict(spec='C19', driver='c19', level='exploration', note=X_NOTE,
                gen=[dict(module='C19g', traces=n(44, 160), steps=n(24, 30), procs=n(4, 8))],
                rule='histories of new/train/predict calls on three models (degree 0 to 3, 1 to 3 inputs; with and without noise and eigenvalues; exact, too few and general data)',
                need=['too-few', 'train$', 'train-exact', 'train-e', 'train-v', 'predict', 'gradient', 'call', 'kernel'])


def c_C20(n):
    return dict(spec='C20', driver='c20', level='exploration', note=X_NOTE,
                gen=[dict(module='C20g', traces=n(45, 96), steps=n(24, 36), procs=n(4, 6))],
                rule='histories of new/train_with_data/train_with_interface/recompute or repartition/predict calls on two surfaces (bounded and unbounded domains, 1 to 3 active variables; stub, default and polynomial surrogates)',
                need=['data-stub', 'data-rbf', 'data-poly', 'interface-unbounded', 'interface-interval', 'interface-zonotope', 'interface-.*-rbf', 'predict$', 'gradient$', 'call', 'predict-av', 'gradient-av', 'resub$', 'resub-trained'])


def c_C21(n):
    return dict(spec='C21', driver='c21', level='exploration', note=X_NOTE,
                gen=[dict(module='C21g', traces=n(30, 96), steps=n(26, 36), procs=n(4, 6))],
                rule='one design per case: interval, Gauss-Hermite, maximin in integer polytopes (2 and 3 dimensions, to 14 vertices), designs on active variables, and injected optimizer failures',
                need=['interval', 'hermite', 'maximin2', 'maximin3', 'inject', 'av-hermite', 'av-interval', 'av-maximin'])


def c_C22(n):
    return dict(spec='C22', driver='c22', level='exploration', note=X_NOTE,
                gen=[dict(module='C22g', traces=n(30, 96), steps=n(36, 60), procs=n(4, 6), split=True)],
                rule='one linear program per case (to 4 variables and 4 rows; general, repeated or sparse rows; finite and infinite bounds), its outcome decided by exact vertex enumeration',
                need=['eq-optimal', 'eq-infeasible', 'eq-unbounded', 'ineq-optimal', 'ineq-infeasible', 'ineq-unbounded'])


def c_C23(n):
    return dict(spec='C23', driver='c23', level='exploration', note=X_NOTE,
                gen=[dict(module='C23g', traces=n(30, 96), steps=n(36, 60), procs=n(4, 6), split=True)],
                rule='one strictly convex quadratic program per case (to 4 variables and 5 rows; general, parallel and infeasible rows), its minimizer decided by exact KKT enumeration',
                need=['bnd-interior', 'bnd-face', 'bnd-vertex', 'ineq-interior', 'ineq-face', 'ineq-vertex', 'infeasible'])


def c_C24(n):
    return dict(spec='C24', driver='c24', level='model_checking', note=M_NOTE,
                gen=[dict(module='C24g', traces=n(30, 96), steps=n(30, 60), procs=n(4, 6))],
                tlc=[dict(module='C24m', inv='inv')],
                rule='histories of module load (with and without Gurobi), make, rename and solve calls over three solvers; Gurobi is a recording stand-in whose programs are compared with the documented ones',
                need=['load-gurobi', 'load-none', 'make', 'unknown', 'scipy', 'gurobi-failed', 'gurobi-eq', 'gurobi-ineq', 'gurobi-bnd', 'gurobi-qineq'])


def c_C25(n):
    return dict(spec='C25', driver='c25', level='exploration', note=X_NOTE,
                gen=[dict(module='C25g', traces=n(30, 96), steps=n(24, 40), procs=n(4, 6))],
                rule='one minimization per case (interval, zonotope in 2 and 3 dimensions, unbounded; strictly convex, semidefinite, quartic and nonconvex functions, with and without gradient) or one injected optimizer failure',
                need=['interval$', 'zonotope$', 'unbounded$', 'interval-nograd', 'zonotope-nograd', 'unbounded-nograd', 'nonconvex', 'inject-interval', 'inject-zonotope', 'inject-unbounded'])


def c_C26(n):
    return dict(spec='C26', driver='c26', level='exploration', note=X_NOTE,
                gen=[dict(module='C26g', traces=n(30, 96), steps=n(20, 40), procs=n(4, 6))],
                rule='one minimization or inverse map per case (interval, zonotope, unbounded; 0 to 3 inactive variables; exact or noisy data; convex, flat and concave quadratics; polynomial and radial surfaces)',
                need=['interval', 'zonotope', 'unbounded', 'rbf', 'map$', 'map-unbounded', 'many', 'nonconvex'])


def c_C29(n):
    return dict(spec='C29', driver='c29', level='exploration', note=X_NOTE,
                gen=[dict(module='C29g', traces=n(100, 600), steps=n(20, 30), procs=n(4, 6))],
                rule='calls at 100 argument sites of the public interface (inputs, outputs, counts, dimensions, objects, functions, names, sample sizes, combinations of compute) with well-formed values at the limits and malformed ones',
                need=['no', 'inputs', 'outputs', 'counts', 'subspaces', 'maps', 'domains', 'functions', 'names', 'compute', 'jacobi', 'few_'])


def c_C30(n):
    return dict(spec='C30', driver='c30', level='exploration', note=X_NOTE,
                gen=[dict(module='C30g', traces=n(24, 160), steps=n(15, 25), procs=n(6, 8))],
                rule='plotting sessions: every plot with and without ranges, designs, points, labels and options, 1 to 6 columns, saving or not in four file types, figures kept open or closed when shown, and malformed shapes; everything drawn, the texts, the limits, the pixels and the files are compared with the given data',
                need=['evals', 'errors', 'evecs', 'summary', 'zono', 'rejected', 'options'])


def c_C31(n):
    return dict(spec='C31', driver='c31', level='exploration', note=X_NOTE,
                gen=[dict(module='C31g', traces=n(20, 60), steps=n(20, 40), procs=n(4, 6), split=True)],
                rule='one call per case: 1 to 4 points of one of six models (corners, grid and general points; several memory layouts), compared with the formula in the specification',
                extra=[[dict(op='eval', i=dict(mod=0, den=1, lay=2), x=dict(X=dict(sh=[1, 8], d=[1, 0, -1, 1, 0, 1, -1, 0], fin=True)))]],      # the known finding
                need=['borehole', 'circuit', 'piston', 'robot', 'wing$', 'wing-physical'])


def c_C32(n):
    return dict(spec='C32', driver='c32', level='exploration', note=X_NOTE,
                gen=[dict(module='C32g', traces=n(50, 240), steps=n(24, 36), procs=n(4, 8))],
                rule='workflow sessions (model with normalizer, samples, exact or differenced gradients or none, subspace, surface from data or interface, predictions, integrals, minimization) for quadratic ridge functions of one or two directions in 2 to 5 inputs',
                need=['model', 'subspace-gradients', 'subspace-differences', 'subspace-ols', 'subspace-qphd', 'subspace-opg', 'surface-data', 'surface-interface', 'predict', 'integrate-bounded', 'integrate-unbounded', 'integrate-surface', 'minimize-bounded', 'minimize-unbounded'])


def c_C27(n):
    return dict(spec='C27', driver='c27', level='exploration', note=X_NOTE,
                gen=[dict(module='C27g', traces=n(240, 1200), steps=n(16, 24), procs=n(4, 6))],
                rule='histories over all public operations (130 operations, two argument sets, three memory layouts, new and reused objects) from two seeds; the random state before and after each call and every result is compared with the history',
                need=['seed', 'det$', 'det-again', 'sample$', 'sample-again', 'sample-other', 'search'])


def c_C28(n):
    return dict(spec='C28', driver='c28', level='exploration', note=X_NOTE,
                gen=[dict(module='C28g', traces=n(200, 1000), steps=n(12, 20), procs=n(4, 6))],
                rule='histories over all public operations (132 operations, two argument sets, contiguous, Fortran, strided and read-only arrays, new and reused objects); every array given or obtained is compared with its contents after each later call',
                need=['first', 'later', 'again', 'read-only'])
