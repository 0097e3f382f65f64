from driver import np, enc, none
import active_subspaces as ac
D = ac.domains


def subspaces(c, n=None, df='df'):
    s = ac.subspaces.Subspaces()
    s.compute(df=c.raw(df))
    s.partition(c.get('n') if n is None else n)
    return s


def none_flag(d, names):
    return int(all(getattr(d, k) is None for k in names))
