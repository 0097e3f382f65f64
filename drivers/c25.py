import scipy.optimize as so
from driver import np, enc
from domutil import subspaces, D
import active_subspaces as ac
O = ac.optimizers


def state():
    s = np.random.get_state()
    return (s[0], s[1].tolist()) + tuple(s[2:])


def functions(c):
    den = float(c.get('den')) / c.get('mul')
    I = lambda k: np.array(c.x[k]['d'], dtype=float).reshape(c.x[k]['sh'])
    H, g, d, q, non = I('H'), I('g').ravel(), I('d').ravel(), c.get('q'), 8.0 * (c.get('kind') == 3)

    def f(y):
        y = np.asarray(y, dtype=float).ravel()
        return float((np.dot(y, np.dot(H, y)) + np.dot(g, y) + q * np.dot(d, y) ** 4 + non * np.sin(2 * y).sum()) / den)

    def df(y):
        y = np.asarray(y, dtype=float).ravel()
        return (2 * np.dot(H, y) + g + 4 * q * d * np.dot(d, y) ** 3 + 2 * non * np.cos(2 * y)) / den
    return f, df


def optfail(e):
    return type(e) in (Exception, RuntimeError)


def call(c, f, dom, df):
    if c.get('nograd'): df = None
    if not c.get('direct'):
        return O.av_minimize(f, dom) if df is None else O.av_minimize(f, dom, avdfun=df)
    if not c.get('bd'): y, v = O.unbounded_minimize(f, dom, df)
    elif c.get('n') == 1: y, v = O.interval_minimize(f, dom)
    else: y, v = O.zonotope_minimize(f, dom, df)
    return np.asarray(y).reshape((1, -1)), v


def op_min(c, env):
    s = subspaces(c)
    dom = (D.BoundedActiveVariableDomain if c.get('bd') else D.UnboundedActiveVariableDomain)(s)
    f, df = functions(c)
    np.random.seed(c.get('rs') % (2 ** 31))
    s0 = state()
    try:
        y, v = call(c, f, dom, df)
    except Exception as e:
        if not optfail(e): raise
        return dict(ok='optfail')
    return dict(i=dict(same=int(state() == s0)), x=dict(W=enc(s.eigenvecs), y=enc(y), f=enc(np.atleast_1d(v)), fat=enc([f(y)])))


def op_inject(c, env):
    """The optimizer reports failure at one of its runs."""
    s = subspaces(c)
    dom = (D.BoundedActiveVariableDomain if c.get('bd') else D.UnboundedActiveVariableDomain)(s)
    f, df = functions(c)
    k = [0, 0]
    o1, o2 = so.minimize, so.fminbound

    def m1(*a, **kw):
        r = o1(*a, **kw)
        if k[0] == c.get('after'): r.success, r.message, k[1] = False, 'injected', 1
        k[0] += 1
        return r

    def m2(*a, **kw):
        r = o2(*a, **kw)
        if kw.get('full_output'):
            k[1] = 1
            r = (r[0], r[1], 1) + tuple(r[3:])
        return r
    so.minimize, so.fminbound = m1, m2
    np.random.seed(c.get('rs') % (2 ** 31))
    s0 = state()
    try:
        call(c, f, dom, df)
        ok = 'ok'
    except Exception:
        ok = 'raised'
    finally:
        so.minimize, so.fminbound = o1, o2
    if not k[1]: return dict(ok='skip')
    return dict(ok=ok, i=dict(same=int(state() == s0)))
