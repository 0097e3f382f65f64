from driver import np, enc
from active_subspaces.utils.qp_solver import QPSolver


def solver(c):
    return QPSolver('SCIPY') if c.get('solver') else QPSolver()


def op_eq(c, env):
    lb, ub = c.raw('lb'), c.raw('ub')
    lb[c.raw('linf') > 0] = -np.inf
    ub[c.raw('uinf') > 0] = np.inf
    return dict(x=dict(x=enc(solver(c).linear_program_eq(c.raw('c'), c.arr('A'), c.raw('b'), lb, ub))))


def op_ineq(c, env):
    return dict(x=dict(x=enc(solver(c).linear_program_ineq(c.raw('c'), c.arr('A'), c.raw('b')))))
