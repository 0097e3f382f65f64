from driver import np
import ops


def rng(env):
    s = np.random.get_state()
    s = (s[1].tobytes(), s[2:])
    L = env.setdefault('states', [])
    for k, t in enumerate(L):
        if t == s: return k
    L.append(s)
    return len(L) - 1


def core(env):
    """The state without the cached half of a pair of normal draws, which only normal draws see."""
    s = np.random.get_state()
    L = env.setdefault('cores', {})
    return L.setdefault((s[1].tobytes(), s[2]), len(L))


def same(r, t):
    if len(r) != len(t): return False
    for a, b in zip(r, t):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True): return False
    return True


def ident(env, key, r):
    L = env.setdefault(('res',) + key, [])
    for k, t in enumerate(L):
        if same(r, t): return k
    L.append([np.array(v, dtype=float) for v in r])
    return len(L) - 1


def op_seed(c, env):
    np.random.seed(c.get('seed'))
    return dict(i=dict(rng=rng(env)))


def run(name, c, env):
    pool = {} if c.get('fresh') == 0 else env.setdefault('pool', {})
    d = ops.Data(c.get('a'), c.get('lay'))
    st = np.random.get_state()
    thunk = ops.OPS[name](pool, d)
    np.random.set_state(st)
    before, co = rng(env), core(env)
    try: r = list(thunk())
    except Exception as e:
        if isinstance(e, AssertionError): raise
        r = [-12345.0]
    return dict(i=dict(before=before, core=co, rng=rng(env), res=ident(env, (name, c.get('a'), c.get('lay')), r)))


def __getattr__(nm):
    if nm.startswith('op_') and nm[3:] in ops.OPS: return lambda c, env: run(nm[3:], c, env)
    raise AttributeError(nm)
