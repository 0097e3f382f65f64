import zlib
from driver import np, enc, S
from c27 import ident
import ops


def digest(A):
    A = np.asarray(A)
    return zlib.crc32(repr((A.shape, A.dtype.kind)).encode() + np.ascontiguousarray(A).tobytes())


def ints(l):
    return dict(sh=[len(l)], d=[str(int(v)) for v in l], fin=True)


def run(name, c, env):
    pool = {} if c.get('fresh') == 0 else env.setdefault('pool', {})
    held = env.setdefault('held', [])
    d = ops.Data(c.get('a'), c.get('lay'))
    np.random.seed(11 + len(held))
    thunk = ops.OPS[name](pool, d)
    before = [digest(A) for A in d.args]
    r = list(thunk())
    same = before == [digest(A) for A in d.args]
    held += [A for A in list(d.args) + r if isinstance(A, np.ndarray)]
    return dict(i=dict(argsame=int(same), nargs=len(before), res=ident(env, (name, c.get('a'), c.get('lay')), r)), x=dict(held=ints([digest(A) for A in held])))


def __getattr__(nm):
    if nm.startswith('op_') and nm[3:] in ops.OPS: return lambda c, env: run(nm[3:], c, env)
    raise AttributeError(nm)
