from driver import np, enc, encn, none
from domutil import subspaces, D
from c15 import mmfail
import active_subspaces as ac
from active_subspaces.utils.designs import maximin_design
from active_subspaces.utils.simrunners import SimulationRunner
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation, ResponseSurface
R = ac.response_surfaces


class Stub(ResponseSurface):
    """A surrogate with a train/predict interface and nothing else: the value depends on the number of training points."""

    def train(self, X, f):
        self.k, self.f = float(X.shape[0]), f

    def predict(self, X, compgrad=False):
        i = np.arange(1, X.shape[1] + 1).reshape((1, -1))
        f = (np.sin(i * X) * self.k).sum(1).reshape((-1, 1)) + np.sum(X, 1).reshape((-1, 1))
        return f, self.k * i * np.cos(i * X) + 1.0 if compgrad else None


def op_new(c, env):
    s = subspaces(c)
    dom = D.BoundedActiveVariableDomain(s) if c.get('bd') else D.UnboundedActiveVariableDomain(s)
    mp = (D.BoundedActiveVariableMap if c.get('bd') else D.UnboundedActiveVariableMap)(dom)
    sk = c.get('sk')
    r = R.ActiveSubspaceResponseSurface(mp) if sk == 1 else R.ActiveSubspaceResponseSurface(mp, Stub() if sk == 0 else PolynomialApproximation(N=c.get('deg')))
    rec = []
    orig = r.respsurf.train
    if sk == 1:
        def train(X, f, v=None, e=None):
            rec.append((np.array(X), np.array(f), None if v is None else np.array(v)))
            return orig(X, f, v=v, e=e)
    else:
        def train(X, f):
            rec.append((np.array(X), np.array(f), None))
            return orig(X, f)
    r.respsurf.train = train
    env[c.get('obj')] = (r, rec, mp)
    return dict(x=dict(W=enc(s.eigenvecs), ev=enc(s.eigenvals)))


def op_resub(c, env):
    mp = env[c.get('obj')][2]
    s = mp.domain.subspaces
    if not c.get('only'): s.compute(df=c.raw('df'))
    s.partition(c.get('n'))
    if isinstance(mp.domain, D.BoundedActiveVariableDomain): mp.domain.compute_boundary()
    return dict(x=dict(W=enc(s.eigenvecs), ev=enc(s.eigenvals)))


def trained(r, rec, x, i):
    i['ntrain'] = len(rec)
    if rec: x.update(tY=enc(rec[-1][0]), tf=enc(rec[-1][1]), tv=encn(rec[-1][2]))
    if isinstance(r.respsurf, RadialBasisApproximation): x['ell'] = enc(np.reshape(r.respsurf.ell, (-1, 1)))
    return dict(x=x, i=i)


def op_traindata(c, env):
    r, rec, mp = env[c.get('obj')]
    del rec[:]
    kw = dict(v=c.raw('v')) if c.has('v') else {}
    r.train_with_data(c.arr('X'), c.raw('f'), **kw)
    return trained(r, rec, {}, {})


def op_traininterface(c, env):
    r, rec, mp = env[c.get('obj')]
    del rec[:]
    x = {}
    if isinstance(mp.domain, D.BoundedActiveVariableDomain):
        x['vert'] = enc(mp.domain.vertY)
        if mp.domain.subspaces.W1.shape[1] > 1:
            try: x['design'] = enc(maximin_design(mp.domain.vertY, c.get('N')))
            except Exception as e:
                if not mmfail(e): raise
                return dict(ok='mmfail')
    seen, out = [], []
    plan = c.raw('f').ravel()

    def fun(z):
        v = plan[len(out) % len(plan)] if c.get('kind') == 0 else float(np.sin(np.dot(z, mp.domain.subspaces.W1)).sum())
        seen.append(np.array(z).ravel()); out.append(v)
        return v
    g = SimulationRunner(fun) if c.get('wrap') else fun
    if c.get('NMC') == 10: r.train_with_interface(g, c.get('N'))
    else: r.train_with_interface(g, c.get('N'), NMC=c.get('NMC'))
    x.update(seen=enc(np.array(seen)), out=enc(np.array(out).reshape((-1, 1))))
    return trained(r, rec, x, {})


def op_predict(c, env):
    r, rec, mp = env[c.get('obj')]
    W1 = mp.domain.subspaces.W1
    how, cg = c.get('how'), bool(c.get('cg'))
    P = c.arr('P').ravel()
    M = c.x['P']['sh'][0]
    P = c.raw('P').ravel()
    k = W1.shape[1] if how >= 3 else W1.shape[0]
    P = P[:M * k].reshape((M, k))
    if c.get('lay') == 1: P = np.asfortranarray(P)
    Y = P.copy() if how >= 3 else np.dot(P, W1)
    x = {}
    if how == 0: f, df = r.predict(P, compgrad=cg) if cg else r.predict(P)
    elif how == 1: f, df = None, r.gradient(P)
    elif how == 2: f, df = r(P), None
    elif how == 3: f, df = r.predict_av(Y, compgrad=cg) if cg else r.predict_av(Y)
    else: f, df = None, r.gradient_av(Y)
    sf, sdf = r.respsurf.predict(Y, True)
    return dict(x=dict(f=encn(f), df=encn(df), Y=enc(Y), sf=enc(sf), sdf=enc(sdf)))
