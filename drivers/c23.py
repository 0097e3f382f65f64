from driver import np, enc
from c22 import solver


def op_bnd(c, env):
    return dict(x=dict(x=enc(solver(c).quadratic_program_bnd(c.raw('c'), c.arr('Q'), c.raw('lb'), c.raw('ub')))))


def op_ineq(c, env):
    return dict(x=dict(x=enc(solver(c).quadratic_program_ineq(c.raw('c'), c.arr('Q'), c.arr('A'), c.raw('b')))))
