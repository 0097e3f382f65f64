from driver import np, enc, encn
import active_subspaces as ac
SUB = ac.subspaces
SST = {0: 'AS', 1: 'OLS', 2: 'QPHD', 3: 'OPG', 4: 'XYZ', 5: 'as', 6: None}
PT = {0: 'EVG', 1: 'RS', 2: 'LI', 3: 'XYZ', 4: 'evg', 5: None}
li_seen = []
if hasattr(SUB, 'ladle_partition'):
    _orig = SUB.ladle_partition

    def _ladle(e, li_F):
        li_seen.append(np.array(li_F, dtype=float))
        return _orig(e, li_F)
    SUB.ladle_partition = _ladle


def snap(s, k):
    return {'e' + k: encn(s.eigenvals), 'W' + k: encn(s.eigenvecs), 'A' + k: encn(s.W1), 'B' + k: encn(s.W2), 'r' + k: encn(s.e_br), 's' + k: encn(s.sub_br)}


def finish(env, ok, extra=None):
    x = {}
    for k in range(3):
        x.update(snap(env['o'][k], str(k)))
    x.update(extra or {})
    return dict(ok=ok, x=x)


def objs(env):
    if 'o' not in env:
        env['o'] = [SUB.Subspaces() for _ in range(3)]
        env['args'] = []
    return env['o']


def op_new(c, env):
    objs(env)[c.get('obj')] = SUB.Subspaces()
    return finish(env, 'ok')


def op_scribble(c, env):
    objs(env)
    for a in env['args']:
        a[...] = 123.0
    env['args'] = []
    return finish(env, 'ok')


def op_partition(c, env):
    s = objs(env)[c.get('obj')]
    n = c.get('n')
    n = {0: n, 1: np.int64(n), 2: float(n), 3: str(n), 4: None}[c.get('nk')]
    try:
        s.partition(n)
        ok = 'ok'
    except Exception as e:
        ok = 'raised:' + type(e).__name__
    return finish(env, ok)


def op_compute(c, env):
    s = objs(env)[c.get('obj')]

    def kw():
        a = {}
        if c.get('hasX'): a['X'] = c.raw('X')
        if c.get('hasF'): a['f'] = c.raw('f')
        if c.get('hasD'): a['df'] = c.raw('df')
        if c.get('shape') == 1:
            for k in ('X', 'df'):
                if k in a: a[k] = a[k].ravel()
        if c.get('shape') == 2: a['f'] = a['f'][:-1] if 'f' in a else np.ones((1, 1))
        if not c.get('wdef'): a['weights'] = c.raw('w')
        a.update(sstype=SST.get(c.get('sst'), 'none'), ptype=PT.get(c.get('pt'), 'none'), nboot=c.get('nboot'))
        return a
    a = kw()
    env['args'] += [v for v in a.values() if isinstance(v, np.ndarray)]
    del li_seen[:]
    try:
        s.compute(**a)
        ok = 'ok'
    except Exception as e:
        ok = 'raised:' + type(e).__name__
    extra = {}
    if ok == 'ok':
        if li_seen: extra['li'] = enc(li_seen[-1])
        f = SUB.Subspaces()
        np.random.seed(c.get('rs') % (2 ** 31))
        f.compute(**kw())
        extra.update(snap(f, 'f'))
    return finish(env, ok, extra)
