// C22: linear programs return a feasible optimum, and raise when there is none (decided by exact vertex enumeration).
module C22 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // rationals n/d, d > 0
  type Q = { n: int, d: int }
  type Opt = { feas: bool, v: Q }
  pure def less(a: Q, b: Q): bool = a.n * b.d < b.n * a.d
  pure def better(o: Opt, v: Q): Opt = if (not(o.feas) or less(v, o.v)) { feas: true, v: v } else o
  pure val NO: Opt = { feas: false, v: { n: 0, d: 1 } }
  pure def digits(n: int, base: int): List[List[int]] = range(0, n).foldl([[]], (l, _) => cat(l.foldl([], (l2, e) => l2.append(range(0, base).foldl([], (l3, v) => l3.append(e.append(v)))))))
  pure def pickl(l: List[int], ix: List[int]): List[int] = ix.foldl([], (a, i) => a.append(l[i]))
  // vertices of { A x = b, lo <= x <= hi }: some variables at a bound, the columns of the rest independent
  pure def eqOpt(c: List[int], A: List[List[int]], b: List[int], lo: List[int], hi: List[int]): Opt = {
    val n = c.length()
    digits(n, 3).foldl(NO, (o, e) => {
      val F = range(0, n).select(j => e[j] == 2)
      if (F.length() > A.length()) o else {
        val fixed = range(0, n).foldl([], (l, j) => l.append(if (e[j] == 0) lo[j] else if (e[j] == 1) hi[j] else 0))
        val r = range(0, A.length()).foldl([], (l, i) => l.append(b[i] - dotl(A[i], fixed)))
        val AF = A.foldl([], (l, row) => l.append(pickl(row, F)))
        val G = range(0, F.length()).foldl([], (l, p) => l.append(range(0, F.length()).foldl([], (l2, q) => l2.append(range(0, A.length()).foldl(0, (s, i) => s + AF[i][p] * AF[i][q])))))
        val h = range(0, F.length()).foldl([], (l, p) => l.append([range(0, A.length()).foldl(0, (s, i) => s + AF[i][p] * r[i])]))
        val s = if (F.length() == 0) { ok: true, num: [], den: 1 } else solveI(G, h)
        if (not(s.ok)) o else {
          val sg = sgn(s.den)
          val d = abs(s.den)
          val x = range(0, n).foldl({ l: [], k: 0 }, (a, j) => if (e[j] == 2) { l: a.l.append(sg * s.num[a.k][0]), k: a.k + 1 } else { l: a.l.append(fixed[j] * d), k: a.k }).l
          if (A.indices().forall(i => dotl(A[i], x) == b[i] * d) and x.indices().forall(j => lo[j] * d <= x[j] and x[j] <= hi[j] * d)) better(o, { n: dotl(c, x), d: d }) else o } } })
  }
  pure def combos(k: int, n: int): List[List[int]] = if (n == 1) range(0, k).foldl([], (l, i) => l.append([i]))
    else cat(combos1(k, n - 1).foldl([], (l, ix) => l.append(range(0, ix[ix.length() - 1]).foldl([], (l2, i) => l2.append(ix.append(i))))))
  pure def combos1(k: int, n: int): List[List[int]] = if (n == 1) range(0, k).foldl([], (l, i) => l.append([i]))
    else cat(range(0, k).foldl([], (l, i) => l.append(range(0, i).foldl([], (l2, j) => l2.append([i, j])))))
  // vertices of { A x >= b, |x| <= K }
  pure def ineqOpt(c: List[int], A: List[List[int]], b: List[int], K: int): Opt = {
    val n = c.length()
    val rows = A.concat(range(0, n).foldl([], (l, j) => l.append(range(0, n).foldl([], (l2, k) => l2.append(if (j == k) 1 else 0))).append(range(0, n).foldl([], (l2, k) => l2.append(if (j == k) -1 else 0)))))
    val rhs = b.concat(range(0, 2 * n).foldl([], (l, _) => l.append(-K)))
    combos(rows.length(), n).foldl(NO, (o, ix) => {
      val s = solveI(ix.foldl([], (l, i) => l.append(rows[i])), ix.foldl([], (l, i) => l.append([rhs[i]])))
      if (not(s.ok)) o else {
        val sg = sgn(s.den)
        val d = abs(s.den)
        val x = s.num.foldl([], (l, v) => l.append(sg * v[0]))
        if (rows.indices().forall(i => dotl(rows[i], x) >= rhs[i] * d)) better(o, { n: dotl(c, x), d: d }) else o } })
  }
  // the outcome of a program given its optimum within a large box and within the box twice as large
  pure def outcomeBad(o: Obs, n: int, c: List[int], den: int, small: Opt, big: Opt): List[str] =
    if (not(small.feas)) chk(o.ok != "ok" and o.ok != "timeout" and o.ok != "died", "an infeasible program raises")
    else if (less(big.v, small.v)) chk(o.ok != "ok" and o.ok != "timeout" and o.ok != "died", "an unbounded program raises")
    else if (o.ok != "ok") ["a program with an optimum is solved"]
    else if (not(isSh(getx(o, "x"), [n, 1]))) ["the solution is an n-by-1 column"]
    else { val x = getx(o, "x").d
      chk(abs(dotl(c, x) - rdiv(small.v.n * S, small.v.d * den)) <= (lmaxabs(c) + 1) * (S + lmaxabs(x)) / 1000000, "the solution attains the optimal value") }
  pure def kind(small: Opt, big: Opt): str = if (not(small.feas)) "infeasible" else if (less(big.v, small.v)) "unbounded" else "optimal"
  pure val BOX: int = 10000000000
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val den = argi(c, "den", 1)
    val cc = argx(c, "c").d
    val n = cc.length()
    val A = rowsOf(argx(c, "A"))
    val b = argx(c, "b").d
    val x = getx(o, "x")
    val tol = (if (o.ok == "ok" and x.fin) (S + maxabsT(x)) / 1000000 else 0) * 9
    if (c.op == "eq") {
      val lm = argx(c, "linf").d
      val um = argx(c, "uinf").d
      val lo = argx(c, "lb").d
      val hi = argx(c, "ub").d
      val small = eqOpt(cc, A, b, range(0, n).foldl([], (l, j) => l.append(if (lm[j] == 1) -BOX else lo[j])), range(0, n).foldl([], (l, j) => l.append(if (um[j] == 1) BOX else hi[j])))
      val big = if (lsum(lm) + lsum(um) == 0) small else eqOpt(cc, A, b, range(0, n).foldl([], (l, j) => l.append(if (lm[j] == 1) -2 * BOX else lo[j])), range(0, n).foldl([], (l, j) => l.append(if (um[j] == 1) 2 * BOX else hi[j])))
      { st: st, tag: ["eq-infeasible", "eq-unbounded", "eq-optimal"][if (not(small.feas)) 0 else if (less(big.v, small.v)) 1 else 2],
        bad: outcomeBad(o, n, cc, den, small, big).concat(if (o.ok == "ok" and isSh(x, [n, 1])) bads([
          chk(A.indices().forall(i => near(dotl(A[i], x.d), rdiv(b[i] * S, den), tol)), "the solution satisfies A x = b"),
          chk(0.to(n - 1).forall(j => (lm[j] == 1 or x.d[j] >= rdiv(lo[j] * S, den) - tol) and (um[j] == 1 or x.d[j] <= rdiv(hi[j] * S, den) + tol)), "the solution lies within its bounds") ]) else []) }
    }
    else {
      val small = ineqOpt(cc, A, b, BOX)
      val big = ineqOpt(cc, A, b, 2 * BOX)
      { st: st, tag: ["ineq-infeasible", "ineq-unbounded", "ineq-optimal"][if (not(small.feas)) 0 else if (less(big.v, small.v)) 1 else 2],
        bad: outcomeBad(o, n, cc, den, small, big).concat(if (o.ok == "ok" and isSh(x, [n, 1])) bads([
          chk(A.indices().forall(i => dotl(A[i], x.d) >= rdiv(b[i] * S, den) - tol), "the solution satisfies A x >= b") ]) else []) }
    }
  }
}
module C22g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("eq", "ineq").oneOf()
    nondet n0 = 1.to(4).oneOf()
    nondet M = 1.to(4).oneOf()
    nondet kind = 0.to(5).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet den = Set(1, 2, 10, 1000).oneOf()
    val n = if (op == "eq") n0 else min2(n0, 3)
    val A0 = rT(s, M, n, -5, 5)
    // rows: general; kind 1: the last row repeats (or opposes) the first; kind 2: sparse
    val A = if (kind == 1 and M > 1) mkT([M, n], A0.d.slice(0, (M - 1) * n).concat(A0.d.slice(0, n).foldl([], (l, v) => l.append(if (s % 2 == 0) v else -2 * v))))
      else if (kind == 2) mkT([M, n], range(0, M * n).foldl([], (l, k) => l.append(if (rnd(s, k, 0, 2) == 0) A0.d[k] else 0))) else A0
    val x0 = rlist(s + 1, n, -9, 9)
    val rhs = range(0, M).foldl([], (l, i) => l.append(dotl(rowOf(A, i), x0)))
    val slack = rlist(s + 2, M, 0, 6)
    // kind 3: arbitrary right-hand sides (often infeasible)
    val b = if (kind == 3) rlist(s + 3, M, -30, 30) else if (op == "eq") rhs else range(0, M).foldl([], (l, i) => l.append(rhs[i] - (if (s / 7 % 3 == 0) 0 else slack[i])))
    val w = rlist(s + 4, 2 * n, 0, 5)
    val lb = range(0, n).foldl([], (l, j) => l.append(x0[j] - w[j]))
    val ub = range(0, n).foldl([], (l, j) => l.append(x0[j] + w[n + j]))
    // objective: general, or a combination of the rows (bounded, several optima)
    val yv = rlist(s + 6, M, 0, 3)
    val c = if (kind == 5 or s / 11 % 3 == 0) rlist(s + 5, n, -9, 9) else range(0, n).foldl([], (l, j) => l.append(range(0, M).foldl(0, (q, i) => q + yv[i] * A.d[i * n + j])))
    val inf = if (kind >= 4) rlist(s + 8, 2 * n, 0, 1) else range(0, 2 * n).foldl([], (l, _) => l.append(0))
    call' = { op: op, i: Map("den" -> den, "den_c" -> 1, "den_A" -> 1, "lay" -> lay, "solver" -> s % 2),
      x: Map("c" -> mkT([n, 1], c), "A" -> A, "b" -> mkT([M, 1], b), "lb" -> mkT([n, 1], lb), "ub" -> mkT([n, 1], ub), "linf" -> mkT([n, 1], inf.slice(0, n)), "uinf" -> mkT([n, 1], inf.slice(n, 2 * n))) }
  }
}
