from driver import np, enc, none
import signal
from domutil import subspaces, none_flag, D


class Slow(BaseException):
    pass


def op_nzv(c, env):
    m, n = c.get('m'), c.get('n')
    k = c.get('kind')
    if k == 1: m = float(m)
    if k == 2: n = float(n)
    if k == 3: n = str(n)
    return dict(i=dict(n=D.nzv(m, n)))


def op_direct(c, env):
    W1 = c.raw('W1')
    f = D.interval_endpoints if W1.shape[1] == 1 else lambda W: D.zonotope_vertices(W, maxcount=3)
    vy, vx = f(W1)
    return dict(x=dict(vy=enc(vy), vx=enc(vx)))


def op_unbounded(c, env):
    d = D.UnboundedActiveVariableDomain(subspaces(c))
    return dict(i=dict(m=d.m, n=d.n, none=none_flag(d, ['vertY', 'vertX', 'convhull', 'constraints'])), x=dict(W=enc(d.subspaces.eigenvecs)))


def op_bounded(c, env):
    s = subspaces(c, n=c.get('n') if c.get('again') else c.get('n2'))
    def alarm(sig, frame): raise Slow()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        d = D.BoundedActiveVariableDomain(s)
        if c.get('again'):
            s.partition(c.get('n2'))
            d.compute_boundary()
    except Slow:
        return dict(ok='slow', x=dict(W=enc(s.eigenvecs)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(60)
    n = c.get('n2')
    x = dict(W=enc(s.eigenvecs), vy=enc(d.vertY), vx=enc(d.vertX))
    jac = 1
    if n >= 2 and d.n == n:
        # probes: images of cube points, and vertices pushed in and out
        P = np.dot(c.raw('pr'), s.W1)
        P = np.vstack((P, 1.3 * P, 0.999 * d.vertY[:8], 1.001 * d.vertY[:8], 1.0005 * d.vertY[1:4]))
        cons = d.constraints if isinstance(d.constraints, (list, tuple)) else [d.constraints]
        con = []
        z = np.zeros(n)
        for k in cons:
            if k['type'] != 'ineq': jac = 0
            if 'jac' in k and k['jac'] is not None:
                J = np.atleast_2d(k['jac'](z))
                F = np.array([k['fun'](e) - k['fun'](z) for e in np.eye(n)]).T
                if J.shape != F.shape or abs(J - F).max() > 1e-9: jac = 0
        con = np.array([min(np.min(k['fun'](p)) for k in cons) for p in P])
        E = d.convhull.equations
        hull = np.array([np.max(np.dot(E[:, :-1], p) + E[:, -1]) for p in P])
        x.update(pr=enc(P), con=enc(con), hull=enc(hull))
    return dict(i=dict(m=d.m, n=d.n, jac=jac, none=none_flag(d, ['convhull', 'constraints'])), x=x)
