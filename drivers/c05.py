from driver import np, enc
import active_subspaces as ac
SUB = ac.subspaces
SST = {0: 'AS', 1: 'OLS', 2: 'QPHD', 3: 'OPG'}
NAMES = {0: 'active_subspace', 1: 'ols_subspace', 2: 'qphd_subspace', 3: 'opg_subspace'}
PT = {0: 'EVG', 1: 'RS', 2: 'LI'}


class Record(object):
    """Records the replicates at the public estimation function, when compute goes through it."""

    def __init__(self, name):
        self.name, self.seen, self.li = name, [], []

    def __enter__(self):
        self.f = getattr(SUB, self.name)
        self.g = getattr(SUB, 'ladle_partition')

        def wrap(*a, **k):
            r = self.f(*a, **k)
            self.seen.append(([np.array(v) for v in a if isinstance(v, np.ndarray)], np.array(r[0]), np.array(r[1]), len(k)))
            return r

        def ladle(e, li_F):
            self.li.append(np.array(li_F))
            return self.g(e, li_F)
        setattr(SUB, self.name, wrap)
        SUB.ladle_partition = ladle
        return self

    def __exit__(self, *a):
        setattr(SUB, self.name, self.f)
        SUB.ladle_partition = self.g


def base(s):
    return dict(e=enc(s.eigenvals), W=enc(s.eigenvecs), br=enc(s.e_br), sb=enc(s.sub_br))


def op_enum(c, env):
    s = SUB.Subspaces()
    kw = dict(df=c.raw('df'), weights=c.raw('w'), nboot=c.get('nboot'))
    if c.get('giveX'): kw['X'] = np.arange(c.raw('df').size).reshape(c.raw('df').shape) * 1.0
    s.compute(**kw)
    return dict(x=base(s))


def op_joint(c, env):
    s = SUB.Subspaces()
    s.compute(X=c.raw('X'), f=c.raw('f'), weights=c.raw('w'), sstype=SST[c.get('sst')], nboot=c.get('nboot'))
    return dict(x=base(s))


def op_rec(c, env):
    k = c.get('sst')
    s = SUB.Subspaces()
    w = c.raw('w')
    if k == 2: w = np.ones(w.shape) / w.shape[0]
    with Record(NAMES[k]) as r:
        kw = dict(df=c.raw('df')) if k == 0 else dict(X=c.raw('X'), f=c.raw('f'))
        s.compute(weights=w, sstype=SST[k], ptype=PT[c.get('pt')], nboot=c.get('nboot'), **kw)
    x = base(s)
    seen = r.seen[1:]
    n = len(seen)
    try:
        data = np.hstack(([c.raw('df')] if k == 0 else [c.raw('X'), c.raw('f')]) + [w])
        x.update(re=enc(np.vstack([e.reshape((1, -1)) for a, e, W, z in seen])), rW=enc(np.vstack([W for a, e, W, z in seen])),
                 rows=enc(np.vstack([np.hstack(a) for a, e, W, z in seen])), base=enc(data))
        if not all(len(a) == (2 if k == 0 else 3) and z == 0 for a, e, W, z in r.seen): n = -1
    except Exception:
        n = -1
    if r.li: x['li'] = enc(r.li[-1])
    return dict(i=dict(nrec=n), x=x)
