from driver import np, enc
from active_subspaces.utils.misc import conditional_expectations


def op_cond(c, env):
    ind = c.raw('ind').astype([float, int, np.int32, np.uint8][c.get('idt')])
    Ef, Vf = conditional_expectations(c.arr('f'), ind)
    return dict(x=dict(Ef=enc(Ef), Vf=enc(Vf)))
