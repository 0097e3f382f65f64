from driver import np, enc
import active_subspaces as ac
S = ac.subspaces


def out(r):
    n, v = r[0], r[1]
    return dict(i=dict(n=int(n)), x=dict(v=enc(v)))


def op_evg(c, env):
    return out(S.eig_partition(c.arr('e')))


def op_rs(c, env):
    return out(S.errbnd_partition(c.arr('e'), c.arr('aux')))


def op_li(c, env):
    return out(S.ladle_partition(c.arr('e'), c.arr('aux')))
