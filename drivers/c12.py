from driver import np, enc
from active_subspaces.gradients import local_linear_gradients


def op_llg(c, env):
    p = c.get('p')
    kw = {}
    if c.get('pk'): kw['p'] = [None, p, float(p), str(p)][c.get('pk')]
    if not c.get('wdef'): kw['weights'] = c.raw('w')
    return dict(x=dict(df=enc(local_linear_gradients(c.arr('X'), c.arr('f'), **kw))))
