from driver import np, enc, none
from domutil import subspaces, D
import active_subspaces.integrals as I
from active_subspaces.utils.designs import maximin_design


def mmfail(e):
    """A failure the optimizer reports, as opposed to a crash of the design itself."""
    return type(e) in (Exception, RuntimeError) or 'Qhull' in type(e).__name__


def setup(c):
    s = subspaces(c)
    dom = D.BoundedActiveVariableDomain(s) if c.get('bd') else D.UnboundedActiveVariableDomain(s)
    x = dict(W=enc(s.eigenvecs))
    mp = (D.BoundedActiveVariableMap if c.get('bd') else D.UnboundedActiveVariableMap)(dom)
    if c.get('bd') and c.get('n') > 1:
        try:
            x.update(vert=enc(dom.vertY), design=enc(maximin_design(dom.vertY, c.get('N'))))
        except Exception as e:
            if not mmfail(e): raise
            return mp, None
    return mp, x


def op_av(c, env):
    mp, x = setup(c)
    if x is None: return dict(ok='mmfail')
    np.random.seed(c.get('rs') % (2 ** 31))
    if c.get('bd') and c.get('direct'):
        y, w = (I.interval_quadrature_rule if c.get('n') == 1 else I.zonotope_quadrature_rule)(mp, c.get('N'), c.get('NX'))
    else: y, w = I.av_quadrature_rule(mp, c.get('N'))
    x.update(y=enc(y), w=enc(w))
    return dict(x=x)


def op_full(c, env):
    mp, x = setup(c)
    if x is None: return dict(ok='mmfail')
    np.random.seed(c.get('rs') % (2 ** 31))
    X, w, ind = I.quadrature_rule(mp, c.get('N'), NMC=c.get('NMC')) if c.get('NMC') != 10 else I.quadrature_rule(mp, c.get('N'))
    x.update(X=enc(X), w=enc(w), ind=enc(ind))
    return dict(x=x)
