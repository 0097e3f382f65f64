// C25: minimizers on active variables return a feasible point and its value, the minimum for convex functions.
// Functions: f(y) = y.H y + g.y + q (d.y)^4, all coefficients integers over den; kind 3 adds a nonconvex term known to the driver only.
module C25 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  // outcomes so far: an optimizer may fail now and then (and must then raise), not as a rule
  type St = { good: int, failed: int }
  pure val st0: St = { good: 0, failed: 0 }
  pure def fun(c: Call, y: List[int]): int = argi(c, "mul", 1) * {
    val den = argi(c, "den", 1)
    val H = rowsOf(argx(c, "H"))
    val u = dotl(argx(c, "d").d, y)
    val u2 = fmul(u, u)
    rdiv(range(0, y.length()).foldl(0, (s, i) => s + fmul(y[i], dotl(H[i], y))) + dotl(argx(c, "g").d, y) + argi(c, "q", 0) * fmul(u2, u2), den)
  }
  pure def grad(c: Call, y: List[int]): List[int] = {
    val den = argi(c, "den", 1)
    val H = rowsOf(argx(c, "H"))
    val d = argx(c, "d").d
    val u = dotl(d, y)
    val u3 = fmul(u, fmul(u, u))
    range(0, y.length()).foldl([], (l, i) => l.append(argi(c, "mul", 1) * rdiv(2 * dotl(H[i], y) + argx(c, "g").d[i] * S + 4 * argi(c, "q", 0) * d[i] * u3, den)))
  }
  // scale of the problem: bounds the gradient on the domain
  pure def scale(c: Call, y: List[int]): int = (S + lmaxabs(y)) * (1 + lmaxabs(argx(c, "g").d) + 2 * maxabsT(argx(c, "H")) + 4 * argi(c, "q", 0) * powi(lmaxabs(argx(c, "d").d), 4)) * argi(c, "mul", 1) / argi(c, "den", 1)
  pure def minBad(c: Call, o: Obs): List[str] = {
    val n = argi(c, "n", 1)
    val bd = argi(c, "bd", 0)
    val W = getx(o, "W")
    val y = getx(o, "y")
    val f = getx(o, "f")
    val kind = argi(c, "kind", 0)
    if (not(isSh(y, [1, n]))) ["the minimizer is a 1-by-n point"]
    else if (not(f.fin) or f.d.length() != 1) ["the minimum is a number"]
    else {
      val rows = rowsOf(W1of(W, n))
      val yv = y.d
      val gr = grad(c, yv)
      val sc = scale(c, yv)
      bads([
        if (bd == 1) chk(slack(rows, n, yv) >= -S / 1000000, "the minimizer lies in the domain") else [],
        chk(near(f.d[0], getx(o, "fat").d[0], (S + abs(f.d[0])) / 1000000000), "the minimum is the function's value at the minimizer"),
        if (kind == 3) [] else chk(near(f.d[0], fun(c, yv), (S + abs(f.d[0])) / 1000000000), "the minimum is the value of the function given"),
        // Frank-Wolfe gap: f(y) - f* <= grad f(y).(y - v) for every v in the domain
        if (kind == 3) [] else if (bd == 1) chk(dotl(gr, yv) / S + support(rows, gr) <= sc / (if (n == 1) 300000 else 8000), "the minimizer is optimal over the domain")
        else chk(lmaxabs(gr) <= sc / 10000, "the minimizer is stationary"),
        chk(geti(o, "same") == 1, "the random state is left as it was") ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val dkind = if (argi(c, "bd", 0) == 0) 2 else if (argi(c, "n", 1) == 1) 0 else 1
    if (c.op == "inject") { st: st, tag: if (o.ok == "skip") "-inject" else ["inject-interval", "inject-zonotope", "inject-unbounded"][dkind], bad: if (o.ok == "skip") [] else bads([
      chk(o.ok == "raised", "an optimizer failure is raised"), chk(geti(o, "same") == 1, "the random state is kept when the optimizer fails")]) }
    else if (o.ok == "optfail") { st: { ...st, failed: st.failed + 1 }, tag: "-optimizer-failed", bad: chk(st.failed < 6 or st.failed <= st.good, "the optimizer normally succeeds") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["minimizing with valid arguments does not raise"] }
    else if (not(orthoOk(getx(o, "W")))) { st: st, tag: "-none", bad: ["eigenvectors are orthogonal"] }
    else { st: { ...st, good: st.good + 1 }, bad: minBad(c, o), tag: if (argi(c, "kind", 0) == 3) "nonconvex" else if (argi(c, "nograd", 0) == 1) ["interval-nograd", "zonotope-nograd", "unbounded-nograd"][dkind] else ["interval", "zonotope", "unbounded"][dkind] }
  }
}
module C25g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(9).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet opi = 0.to(4).oneOf()
    val op = if (opi == 0) "inject" else "min"
    val bd = if (pick <= 6) 1 else 0
    val n = if (pick <= 2) 1 else if (bd == 1) 2 + (if (pick == 6) 1 else 0) else n0
    val m = if (n == 3 and bd == 1) 3 + m0 % 2 else max2(2, n + m0)
    val B = rT(s + 1, n, n, -3, 3)
    // kind 0: strictly convex; 1: linear or semidefinite (bounded only); 2: with a quartic term; 3: nonconvex
    val pd = kind != 1 or bd == 0
    val H = cat(range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (l2, j) => l2.append((if (i == j and pd) 1 else 0) + (if (pd or s % 2 == 0) range(0, n).foldl(0, (q, r) => q + at(B, r, i) * at(B, r, j)) / (if (pd) 1 else 1) else 0))))))
    call' = { op: op, i: Map("n" -> n, "bd" -> bd, "den_df" -> 1, "den" -> powi(10, s % 3), "mul" -> (if (s / 15 % 4 == 0) 30000 else 1), "rs" -> s, "q" -> (if (kind == 2) 1 + s % 3 else 0), "kind" -> kind, "nograd" -> (if (s / 3 % 3 == 0) 1 else 0), "direct" -> s / 5 % 2, "after" -> s % 10),
      x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk), "H" -> mkT([n, n], H), "g" -> mkT([n, 1], rlist(s + 2, n, -20, 20)), "d" -> mkT([n, 1], rlist(s + 3, n, -1, 1))) }
  }
}
