import importlib, sys
import numpy as np
from driver import enc, none
import fakegurobi as fg
import active_subspaces.utils.qp_solver as qp
NAMES = ['GUROBI', 'SCIPY', 'CVXOPT', '']


def op_load(c, env):
    """Import the solver module anew, with or without gurobipy installed."""
    env.clear()
    sys.modules['gurobipy'] = fg.module() if c.get('avail') else None
    importlib.reload(qp)
    return dict()


def op_make(c, env):
    k = c.get('name')
    env[c.get('obj')] = qp.QPSolver() if k == 3 else (qp.QPSolver(NAMES[k]) if c.get('kw') else qp.QPSolver(solver=NAMES[k]))
    s = env[c.get('obj')].solver
    return dict(i=dict(solver=NAMES.index(s) if s in NAMES else 9))


def op_rename(c, env):
    env[c.get('obj')].solver = 'CVXOPT'
    return dict()


def op_solve(c, env):
    s, form = env[c.get('obj')], c.get('form')
    del fg.MODELS[:]
    fg.PLAN.update(sol=c.raw('sol').ravel().tolist(), status=c.get('status'))
    cc, A, b, lb, ub, Q = c.raw('c'), c.arr('A'), c.raw('b'), c.raw('lb'), c.raw('ub'), c.arr('Q')
    d = dict(used=0)
    try:
        if form == 0: x = s.linear_program_eq(cc, A, b, lb, ub)
        elif form == 1: x = s.linear_program_ineq(cc, A, b)
        elif form == 2: x = s.quadratic_program_bnd(cc, Q, lb, ub)
        else: x = s.quadratic_program_ineq(cc, Q, A, b)
        ok = 'ok'
    except ValueError: ok, x = 'ValueError', None
    except Exception: ok, x = 'raised', None
    out = dict(x=none() if x is None else enc(x))
    ms = [m for m in fg.MODELS if m.solved]
    if ms:
        m = ms[-1]
        n = len(m.vars)
        e = m.objective or fg.QuadExpr()
        k = m.ModelSense
        lin = [k * (e.lin.get(i, 0.0) + m.vars[i].obj) for i in range(n)]
        q = np.zeros((n, n))
        for (i, j), v in e.quad.items():
            q[i, j] += 0.5 * k * v
            q[j, i] += 0.5 * k * v
        P = m.program
        cl = lambda v: [0.0 if abs(t) >= 1e20 else t for t in v]
        out.update(lin=enc(np.array(lin).reshape((-1, 1))), quad=enc(q), lb=enc(cl(P['lb'])), ub=enc(cl(P['ub'])),
                   linf=enc([int(v <= -1e20) for v in P['lb']]), uinf=enc([int(v >= 1e20) for v in P['ub']]),
                   rows=enc(np.array([r[0] for r in P['rows']]).reshape((-1, n))), sense=enc([r[1] for r in P['rows']]), rhs=enc([r[2] for r in P['rows']]))
        d['used'] = len(ms)
    return dict(ok=ok, i=d, x=out)
