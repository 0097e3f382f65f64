"""A stand-in for the gurobipy interface: records the program and returns a planned solution."""
import types
INF = 1e100


class Expr(object):
    __array_ufunc__ = None

    def __init__(self, a=None, b=None):
        self.const, self.lin, self.quad = 0.0, {}, {}
        if b is not None: self.addTerms(a, b)
        elif a is not None: self._acc(a, 1.0)

    def _acc(self, o, k):
        if isinstance(o, Var): self.lin[o.idx] = self.lin.get(o.idx, 0.0) + k
        elif isinstance(o, Expr):
            self.const += k * o.const
            for i, v in o.lin.items(): self.lin[i] = self.lin.get(i, 0.0) + k * v
            for i, v in o.quad.items(): self.quad[i] = self.quad.get(i, 0.0) + k * v
        else: self.const += k * float(o)
        return self

    def copy(self): return type(self)(self)

    def addTerms(self, co, v, w=None):
        if isinstance(v, Var): co, v, w = [co], [v], None if w is None else [w]
        for k, c in enumerate(co):
            self._acc(v[k] * float(c) if w is None else (v[k] * w[k]) * float(c), 1.0)

    def addConstant(self, c): self.const += float(c)
    def add(self, o, k=1.0): self._acc(o, k)
    def __iadd__(self, o):
        if not isinstance(self, QuadExpr) and isinstance(o, QuadExpr): return QuadExpr(self)._acc(o, 1.0)
        return self._acc(o, 1.0)
    def __isub__(self, o): return self.__iadd__(o * -1.0)
    def _plus(self, o, k):
        t = QuadExpr if isinstance(self, QuadExpr) or isinstance(o, QuadExpr) else LinExpr
        return t(self)._acc(o, k)
    def __add__(self, o): return self._plus(o, 1.0)
    __radd__ = __add__
    def __sub__(self, o): return self._plus(o, -1.0)
    def __rsub__(self, o): return (self * -1.0)._plus(o, 1.0)
    def __neg__(self): return self * -1.0
    def __mul__(self, o):
        if isinstance(o, Expr):
            a, b = LinExpr(self), LinExpr(o)
            assert not a.quad and not b.quad
            r = QuadExpr(a.const * b.const)
            for i, v in a.lin.items(): r.lin[i] = r.lin.get(i, 0.0) + v * b.const
            for i, v in b.lin.items(): r.lin[i] = r.lin.get(i, 0.0) + v * a.const
            for i, v in a.lin.items():
                for j, w in b.lin.items():
                    k = (min(i, j), max(i, j))
                    r.quad[k] = r.quad.get(k, 0.0) + v * w
            return r
        t = QuadExpr if isinstance(self, QuadExpr) else LinExpr
        return t()._acc(self, float(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return self * (1.0 / o)
    __div__ = __truediv__
    def __pow__(self, k):
        assert k == 2
        return self * self
    def __le__(self, o): return TempConstr(self, '<', o)
    def __ge__(self, o): return TempConstr(self, '>', o)
    def __eq__(self, o): return TempConstr(self, '=', o)
    __hash__ = None


class LinExpr(Expr): pass
class QuadExpr(Expr): pass


class Var(Expr):
    def __init__(self, model, idx, lb, ub, obj):
        self.model, self.idx, self.lb, self.ub, self.obj = model, idx, float(lb), float(ub), float(obj)
        self.LB, self.UB, self.Obj = self.lb, self.ub, self.obj
        self.const, self.lin, self.quad = 0.0, {idx: 1.0}, {}
    @property
    def x(self): return self.model.sol(self.idx)
    X = x
    __hash__ = object.__hash__


class TempConstr(object):
    def __init__(self, a, s, b): self.a, self.s, self.b = a, s, b


class GRB(object):
    CONTINUOUS, BINARY, INTEGER = 'C', 'B', 'I'
    EQUAL, GREATER_EQUAL, LESS_EQUAL = '=', '>', '<'
    INFINITY = INF
    MINIMIZE, MAXIMIZE = 1, -1
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5
    class Status(object): LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5


PLAN = dict(sol=[], status=2)
MODELS = []


class GurobiError(Exception): pass


class Model(object):
    def __init__(self, *a, **k):
        self.vars, self.rows, self.objective, self.ModelSense, self.status, self.solved = [], [], None, 1, GRB.LOADED, False
        self.Params = self.params = types.SimpleNamespace()
        MODELS.append(self)
    def setParam(self, *a, **k): pass
    def update(self): pass
    def addVar(self, lb=0.0, ub=INF, obj=0.0, vtype='C', name='', column=None):
        assert vtype == 'C'
        v = Var(self, len(self.vars), lb, ub, obj)
        self.vars.append(v)
        return v
    def addVars(self, n, lb=0.0, ub=INF, obj=0.0, vtype='C', name=''):
        g = lambda p, i: p[i] if hasattr(p, '__len__') else p
        return {i: self.addVar(g(lb, i), g(ub, i), g(obj, i)) for i in range(n)}
    def addConstr(self, lhs, sense=None, rhs=None, name=''):
        if isinstance(lhs, TempConstr): lhs, sense, rhs = lhs.a, lhs.s, lhs.b
        e = LinExpr(lhs) - rhs
        assert not e.quad
        sense = str(sense)[0]
        k = -1.0 if sense == '<' else 1.0
        self.rows.append(([k * e.lin.get(i, 0.0) for i in range(len(self.vars))], 0 if sense == '=' else 1, -k * e.const))
        return self.rows[-1]
    addLConstr = addConstr
    def addConstrs(self, g, name=''): return [self.addConstr(c) for c in g]
    def setObjective(self, e, sense=None):
        self.objective = QuadExpr(e)
        if sense is not None: self.ModelSense = sense
    def optimize(self, *a):
        self.status = self.Status = PLAN['status']
        self.solved = True
        self.program = dict(lb=[v.lb for v in self.vars], ub=[v.ub for v in self.vars], rows=list(self.rows))
    def sol(self, i):
        if not self.solved or self.status != 2: raise GurobiError("Unable to retrieve attribute 'x'")
        return PLAN['sol'][i]
    def getAttr(self, name, vs=None):
        if name.lower() == 'x':
            if isinstance(vs, dict): return {k: v.x for k, v in vs.items()}
            return [v.x for v in (self.vars if vs is None else vs)]
        if name.lower() == 'status': return self.status
        raise GurobiError(name)
    def getVars(self): return list(self.vars)
    def getConstrs(self): return list(self.rows)
    def dispose(self): pass


def quicksum(l):
    r = QuadExpr()
    for e in l: r += e
    return r if r.quad else LinExpr(r)


def module():
    m = types.ModuleType('gurobipy')
    for k in 'LinExpr QuadExpr Var GRB Model GurobiError quicksum'.split(): setattr(m, k, globals()[k])
    m.Env = lambda *a, **k: None
    return m
