"""Replays calls chosen by a specification into the real package and records what was observed.

Run by check.py as a subprocess, in a scratch working directory, with the repository's Python:
  python driver.py <drivers module> <calls.json> <out.jsonl> <start trace> <start call>
"""
import importlib, json, os, signal, sys, warnings
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'drivers'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import numpy as np
S = 10 ** 15
CALL_LIMIT = int(os.environ.get('VERIF_CALL_LIMIT', '60'))


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def fx(v):
    """A float as the nearest integer multiple of 1/S."""
    return int(round(Fraction(float(v)) * S))


def enc(a):
    """Anything array-like as a tensor observation."""
    try:
        a = np.asarray(a)
        if a.dtype == object or a.dtype.kind not in 'fiub':
            return dict(sh=[-1], d=[], fin=False)
        sh = [int(k) for k in a.shape]
        flat = a.astype(float).ravel().tolist()
    except Exception:
        return dict(sh=[-1], d=[], fin=False)
    if not all(v == v and abs(v) != float('inf') for v in flat):
        return dict(sh=sh, d=[], fin=False)
    return dict(sh=sh, d=[str(fx(v)) for v in flat], fin=True)


def none():
    return dict(sh=[-2], d=[], fin=False)


def encn(a):
    """None is a legal value: shape [-2]."""
    return none() if a is None else enc(a)


class C(object):
    """A call: integer arguments c.i, tensors c.x; arr() gives numpy arrays in the requested layout."""

    def __init__(self, rec):
        self.op, self.i, self.x = rec['op'], rec['i'], rec['x']

    def get(self, k, d=None):
        return self.i.get(k, d)

    def has(self, k):
        return k in self.x

    def raw(self, k):
        t = self.x[k]
        den = self.i.get('den_' + k, self.i.get('den', 1))
        return np.array([v / float(den) if abs(v) < 2 ** 52 else float(Fraction(v, den)) for v in t['d']], dtype=float).reshape(t['sh'])

    def ints(self, k):
        return [int(v) for v in self.x[k]['d']]

    def arr(self, k, lay=None):
        a = self.raw(k)
        lay = self.i.get('lay', 0) if lay is None else lay
        if lay == 1:
            a = np.asfortranarray(a)
        elif lay == 2 and np.all(a == np.round(a)):
            a = a.astype(np.int64)
        elif lay == 3:      # a strided view of a larger array
            if a.ndim == 2:
                big = np.full((2 * a.shape[0] + 1, 2 * a.shape[1] + 1), 77.0)
                big[::2, ::2][:a.shape[0], :a.shape[1]] = a
                a = big[::2, ::2][:a.shape[0], :a.shape[1]]
            else:
                big = np.full((2 * a.size + 1,), 77.0)
                big[::2][:a.size] = a
                a = big[::2][:a.size]
        elif lay == 4:      # a transposed view, reversed twice
            a = a.T.copy().T[::-1][::-1]
        elif lay == 5 and np.all(a == np.round(a)):
            a = a.astype(np.int32)
        return a


def main():
    mod, calls, out, t0, k0 = sys.argv[1:6]
    t0, k0 = int(t0), int(k0)
    signal.signal(signal.SIGALRM, _alarm)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    traces = json.load(open(calls))
    fo = open(out, 'a')
    D = importlib.import_module(mod)
    for t, trace in enumerate(traces):
        if t < t0:
            continue
        env = {}
        for k, rec in enumerate(trace):
            if t == t0 and k < k0:
                continue
            fo.write(json.dumps(dict(t=t, k=k, start=1)) + '\n')
            fo.flush()
            c = C(rec)
            if 'rs' in c.i:
                np.random.seed(c.i['rs'] % (2 ** 31))
            signal.alarm(CALL_LIMIT)
            try:
                fn = getattr(D, 'op_' + c.op)
                o = fn(c, env)
                obs = dict(ok=o.get('ok', 'ok'), i={a: int(b) for a, b in o.get('i', {}).items()}, x=o.get('x', {}))
            except Timeout:
                obs = dict(ok='timeout', i={}, x={})
            except Exception as e:
                obs = dict(ok='raised:' + type(e).__name__, i={}, x={})
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
            finally:
                signal.alarm(0)
            fo.write(json.dumps(dict(t=t, k=k, obs=obs)) + '\n')
            fo.flush()
    fo.close()


if __name__ == '__main__':
    main()
