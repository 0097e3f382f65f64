from driver import np, enc, none
from c15 import setup, mmfail
import active_subspaces as ac
import active_subspaces.utils.designs as dn


def op_interval(c, env):
    den = float(c.get('den'))
    return dict(x=dict(Y=enc(dn.interval_design(c.get('a') / den, c.get('b') / den, c.get('N')))))


def op_hermite(c, env):
    return dict(x=dict(Y=enc(dn.gauss_hermite_design(c.ints('N')))))


def state():
    s = np.random.get_state()
    return (s[0], s[1].tolist()) + tuple(s[2:])


def op_maximin(c, env):
    V = c.raw('vert')
    V0 = V.copy()
    s0 = state()
    try:
        D = dn.maximin_design(V, c.get('N'))
    except Exception as e:
        if not mmfail(e): raise
        return dict(ok='mmfail')
    same = int(state() == s0)
    np.random.seed(7)
    D2 = dn.maximin_design(V, c.get('N'))
    return dict(i=dict(same=same, vsame=int(np.array_equal(V, V0))), x=dict(D=enc(D), D2=enc(D2)))


def op_inject(c, env):
    """The optimizer reports failure at its (after+1)-th run."""
    if not hasattr(dn, 'minimize'): return dict(ok='skip')
    orig, k = dn.minimize, [0]

    def minimize(*a, **kw):
        r = orig(*a, **kw)
        if k[0] == c.get('after'): r.success, r.message = False, 'injected'
        k[0] += 1
        return r
    dn.minimize = minimize
    s0 = state()
    try:
        dn.maximin_design(c.raw('vert'), c.get('N'))
        ok = 'ok'
    except Exception:
        ok = 'raised'
    finally:
        dn.minimize = orig
    if k[0] <= c.get('after'): return dict(ok='skip')
    return dict(ok=ok, i=dict(same=int(state() == s0)))


def op_av(c, env):
    mp, x = setup(c)
    if x is None: return dict(ok='mmfail')
    np.random.seed(c.get('rs') % (2 ** 31))
    Y, X, ind = ac.response_surfaces.av_design(mp, c.get('N'), NMC=c.get('NMC')) if c.get('NMC') != 10 else ac.response_surfaces.av_design(mp, c.get('N'))
    x.update(Y=enc(Y), X=enc(X), ind=enc(ind))
    return dict(x=x)
