// C23: quadratic programs return their unique constrained minimizer (decided by exact KKT enumeration).
module C23 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure def subsets(M: int, k: int): List[List[int]] = range(0, M).foldl([[]], (l, i) => l.concat(l.select(e => e.length() < k).foldl([], (l2, e) => l2.append(e.append(i)))))
  // minimizer of c.x + x.Q x over A x >= b: x = num / den, found by trying every set of active rows
  type Min = { ok: bool, num: List[int], den: int, act: int }
  pure def kkt(c: List[int], Q: List[List[int]], A: List[List[int]], b: List[int], act: List[int]): Min = {
    val n = c.length()
    val k = act.length()
    // (Q + Q^T) x - A_S^T l = -c;  A_S x = b_S
    val L = range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (l2, j) => l2.append(Q[i][j] + Q[j][i])).concat(act.foldl([], (l2, a) => l2.append(-A[a][i]))))).concat(act.foldl([], (l, a) => l.append(A[a].concat(range(0, k).foldl([], (l2, _) => l2.append(0))))))
    val r = c.foldl([], (l, v) => l.append([-v])).concat(act.foldl([], (l, a) => l.append([b[a]])))
    val s = solveI(L, r)
    if (not(s.ok)) { ok: false, num: [], den: 1, act: 0 } else {
      val sg = sgn(s.den)
      val d = abs(s.den)
      val x = s.num.foldl([], (l, v) => l.append(sg * v[0]))
      { ok: x.slice(n, n + k).foldl(true, (q, v) => q and (v >= 0)) and A.indices().forall(i => dotl(A[i], x.slice(0, n)) >= b[i] * d), num: x.slice(0, n), den: d, act: k } }
  }
  pure def minimizer(c: List[int], Q: List[List[int]], A: List[List[int]], b: List[int]): Min =
    subsets(A.length(), c.length()).foldl({ ok: false, num: [], den: 1, act: 0 }, (m, act) => if (m.ok) m else kkt(c, Q, A, b, act))
  // objective times den^2, and at an observed point in units 1/S
  pure def valS(c: List[int], Q: List[List[int]], x: List[int]): int = dotl(c, x) + range(0, c.length()).foldl(0, (s, i) => s + fmul(x[i], dotl(Q[i], x)))
  pure def minBad(c: List[int], Q: List[List[int]], m: Min, x: T): List[str] = {
    val xs = m.num.foldl([], (l, v) => l.append(rdiv(v * S, m.den)))
    val f = valS(c, Q, xs)
    val sc = S + lmaxabs(xs) + lmaxabs(c) * S / 10
    bads([
      chk(nearT(x, mkT([c.length(), 1], xs), sc / 200), "the solution is the minimizer"),
      chk(valS(c, Q, x.d) - f <= (S + abs(f)) / 50000, "the solution attains the minimum") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val cc = argx(c, "c").d
    val n = cc.length()
    val Q = rowsOf(argx(c, "Q"))
    val x = getx(o, "x")
    val bnd = c.op == "bnd"
    val eye = range(0, n).foldl([], (l, j) => l.append(range(0, n).foldl([], (l2, k) => l2.append(if (j == k) 1 else 0))))
    val A = if (bnd) eye.concat(eye.foldl([], (l, r) => l.append(r.foldl([], (l2, v) => l2.append(-v))))) else rowsOf(argx(c, "A"))
    val b = if (bnd) argx(c, "lb").d.concat(argx(c, "ub").d.foldl([], (l, v) => l.append(-v))) else argx(c, "b").d
    val m = minimizer(cc, Q, A, b)
    if (not(m.ok)) { st: st, bad: chk(o.ok != "ok" and o.ok != "timeout" and o.ok != "died", "an infeasible program raises"), tag: "infeasible" }
    else if (o.ok != "ok") { st: st, bad: ["a strictly convex program is solved"], tag: "raised" }
    else if (not(isSh(x, [n, 1]))) { st: st, bad: ["the solution is an n-by-1 column"], tag: "shape" }
    else { st: st, tag: (if (bnd) ["bnd-interior", "bnd-face", "bnd-vertex"] else ["ineq-interior", "ineq-face", "ineq-vertex"])[if (m.act == 0) 0 else if (m.act < n) 1 else 2],
      bad: bads([
        chk(A.indices().forall(i => dotl(A[i], x.d) >= b[i] * S - S / 1000000 - lmaxabs(x.d) / 1000000), "the solution is feasible"),
        minBad(cc, Q, m, x) ]) }
  }
}
module C23g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("bnd", "ineq").oneOf()
    nondet n = 1.to(4).oneOf()
    nondet M = 1.to(5).oneOf()
    nondet kind = 0.to(5).oneOf()
    nondet skew = Set(0, 0, 1, 2).oneOf()
    nondet lay = 0.to(4).oneOf()
    val B = rowsOf(rT(s, n, n, -3, 3))
    val Q = cat(range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (l2, j) => l2.append((if (i == j) 1 else if (i < j) skew else -skew) + (if (kind == 0) (if (i == j) abs(B[0][i]) else 0) else range(0, n).foldl(0, (q, k) => q + B[k][i] * B[k][j])))))))
    val c = rlist(s + 5, n, -20, 20)      // Q: its symmetric part is positive definite
    val A0 = rT(s + 1, M, n, -4, 4)
    // rows: general; the last a multiple of the first; a box around x0 (as for the inactive variables)
    val A = if (kind == 1 and M > 1) mkT([M, n], A0.d.slice(0, (M - 1) * n).concat(A0.d.slice(0, n).foldl([], (l, v) => l.append(if (s % 2 == 0) 2 * v else -v)))) else A0
    val x0 = rlist(s + 2, n, -3, 3)
    val w = rlist(s + 3, M, 0, 5)
    val b = if (kind == 2) rlist(s + 4, M, -15, 15) else range(0, M).foldl([], (l, i) => l.append(dotl(rowOf(A, i), x0) - w[i]))
    val lb = rlist(s + 6, n, -4, 1)
    val ub = range(0, n).foldl([], (l, j) => l.append(lb[j] + rnd(s, j, 0, 5)))
    if (op == "bnd") call' = { op: op, i: Map("den" -> 1, "lay" -> lay, "solver" -> s % 2), x: Map("c" -> mkT([n, 1], c), "Q" -> mkT([n, n], Q), "lb" -> mkT([n, 1], lb), "ub" -> mkT([n, 1], ub)) }
    else call' = { op: op, i: Map("den" -> 1, "lay" -> lay, "solver" -> s % 2), x: Map("c" -> mkT([n, 1], c), "Q" -> mkT([n, n], Q), "A" -> A, "b" -> mkT([M, 1], b)) }
  }
}
