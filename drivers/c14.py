from driver import np, enc, none
import active_subspaces.utils.quadrature as q


def rule1(kind, N, how):
    f1, ft = (q.gh1d, q.gauss_hermite) if kind == 0 else (q.gl1d, q.gauss_legendre)
    return f1(N) if how == 0 else q.g1d(N, ['Hermite', 'Legendre'][kind]) if how == 1 else ft(N) if how == 2 else ft([N])


def op_rule(c, env):
    x, w = rule1(c.get('kind'), c.get('N'), c.get('how'))
    return dict(i=dict(pos=int(np.all(w > 0))), x=dict(x=enc(x), w=enc(w)))


def op_tensor(c, env):
    Ns = c.ints('Ns')
    one = [rule1(c.get('kind'), n, 0) for n in Ns]
    x, w = (q.gauss_hermite if c.get('kind') == 0 else q.gauss_legendre)(list(Ns))
    return dict(x=dict(x=enc(x), w=enc(w), xs=enc(np.concatenate([a[0].ravel() for a in one])), ws=enc(np.concatenate([a[1].ravel() for a in one]))))


def op_rjac(c, env):
    d = float(c.get('den'))
    h = [c.get(k) / 2 if c.get(k) % 2 == 0 else c.get(k) / 2.0 for k in ('al', 'be')]
    return dict(x=dict(ab=enc(q.r_jacobi(c.get('N'), c.get('l') / d, c.get('r') / d, h[0], h[1]))))


def op_rherm(c, env):
    return dict(x=dict(ab=enc(q.r_hermite(c.get('N')))))


def op_jmat(c, env):
    return dict(x=dict(J=enc(q.jacobi_matrix(c.raw('ab')))))
