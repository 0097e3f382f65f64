import os, sys, importlib.util
from driver import np, enc, REPO
DIRS = ['borehole/borehole_functions', 'otl_circuit/otlcircuit_functions', 'piston/piston_functions', 'robot/robot_functions', 'wing_weight/wing_functions', '../wing_functions']
NAMES = ['borehole', 'circuit', 'piston', 'robot', 'wing', 'wing']
WL = np.array([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025])
WU = np.array([200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])


def model(k):
    spec = importlib.util.spec_from_file_location('tut_' + NAMES[k], os.path.join(REPO, 'tutorials', 'test_functions', DIRS[k] + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    f, g = getattr(mod, NAMES[k]), getattr(mod, NAMES[k] + '_grad')
    if k < 5: return f, g
    unit = np.array([1, 1, 1, np.pi / 180] + 6 * [1])

    def keep(h):
        def run(x):
            y = WL + (WU - WL) * (x + 1) / 2.0
            z = y.copy()
            r = h(y)
            return r if np.array_equal(y, z) else None
        return run
    fk, gk = keep(f), keep(g)
    return fk, lambda x: gk(x) * unit * (WU - WL) / 2.0


def op_eval(c, env):
    k = c.get('mod')
    if k not in env: env[k] = model(k)
    f, g = env[k]
    X = c.arr('X')
    keep = np.array(X)
    fv, dv = f(X), g(X)
    same = np.array_equal(keep, X)
    M, n = X.shape
    fs, ds, st, flat = [], [], [], True
    Xf = keep.astype(float)
    for r in range(M):
        row = X[r:r + 1]
        fs.append(np.asarray(f(row)).ravel()[0])
        ds.append(np.asarray(g(row)).ravel())
        one = X[r].copy()
        f1, g1 = f(one), g(one)
        flat = flat and np.shape(f1) == (1, 1) and np.shape(g1) == (1, n) and np.allclose(f1, f(row), 1e-11, 0) and np.allclose(g1, g(row), 1e-9, 1e-12 * np.abs(g1).max())
        same = same and np.array_equal(one, keep[r])
        for i in range(n):
            P = np.tile(Xf[r], (7, 1))
            P[:, i] += np.arange(-3, 4) / 512.0
            st.append(np.asarray(f(P)).ravel())
    same = same and np.array_equal(keep, X)
    return dict(i=dict(same=int(same), flat=int(flat)), x=dict(f=enc(fv), df=enc(dv), f1=enc(np.reshape(fs, (-1, 1))), df1=enc(np.array(ds)), st=enc(np.array(st))))
