from driver import np, enc, none
from active_subspaces.utils.response_surfaces import index_set, polynomial_bases, grad_polynomial_bases


def op_index(c, env):
    return dict(x=dict(I=enc(index_set(c.get('n'), c.get('d')))))


def op_bases(c, env):
    B, I = polynomial_bases(c.arr('X'), c.get('n'))
    return dict(x=dict(B=enc(B), I=enc(I), dB=enc(grad_polynomial_bases(c.arr('X'), c.get('n')))))
