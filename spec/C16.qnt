// C16: integral estimates are the integration rule applied to the simulation, one run per point.
module C16 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  type St = int
  pure val st0: St = 0
  // rows of group g: those whose index is g
  pure def vals(f: T, M: int, g: int): List[int] = f.d.slice(g * M, (g + 1) * M)
  pure def integrateBad(c: Call, o: Obs): List[str] = {
    val M = argi(c, "NMC", 10)
    val X = getx(o, "X")          // the rule from the same random state
    val w = getx(o, "w")
    val seen = getx(o, "seen")    // what the simulation saw, and returned
    val f = getx(o, "f")
    val kind = argi(c, "kind", 0)
    if (not(X.fin) or X.sh.length() != 2 or fmod(nr(X), M) != 0 or not(isSh(w, [nr(X), 1]))) ["the rule has NMC points per node"]
    else if (seen.sh != X.sh or not(nearT(seen, X, 1000))) ["the simulation runs exactly once at each point of the rule"]
    else if (not(isSh(f, [nr(X), 1]))) ["the simulation's outputs are recorded"]
    else {
      val K = nr(X) / M
      val sc = maxabsT(f) + S / 1000
      val wt = range(0, K).foldl([], (l4, k) => l4.append(lsum(w.d.slice(k * M, (k + 1) * M))))
      val mean = range(0, K).foldl([], (l3, k) => l3.append(rdiv(lsum(vals(f, M, k)), M)))
      // M^2 times the population variance, units 1/S^2
      val mvar = range(0, K).foldl([], (l2, k) => l2.append({ val v = vals(f, M, k)
        M * dotl(v, v) - lsum(v) * lsum(v) }))
      val mu = rdiv(dotl(wt, mean), S)
      // sum w^2 V / NMC in units 1/S^2 (w in 1/S)
      val sig2 = rdiv(range(0, K).foldl(0, (s1, k) => s1 + wt[k] * wt[k] * mvar[k]), M * M * M * S2)
      val got = getx(o, "out").d
      val half = rdiv(196 * isqrt(sig2), 100)
      if (not(getx(o, "out").fin) or got.length() != 3) ["the estimate and its bounds are finite"]
      else bads([
        chk(near(got[0], mu, sc / 10000000000), "the estimate is the weighted sum of the conditional means"),
        chk(near(got[1], got[0] - half, sc / 10000000 ) and near(got[2], got[0] + half, sc / 10000000), "the bounds are mu -/+ 1.96 sqrt(sum w^2 V / NMC)"),
        chk(got[1] <= got[0] and got[0] <= got[2], "the bounds bracket the estimate"),
        if (kind == 1) chk(near(got[0], f.d[0], sc / 10000000) and near(got[1], f.d[0], sc / 1000000) and near(got[2], f.d[0], sc / 1000000), "a constant integrates to itself") else [],
        // a function of the active variables alone
        if (kind == 2) chk(near(got[1], got[0], sc / 1000000) and near(got[2], got[0], sc / 1000000), "a function of the active variables has no variance") else [] ])
    }
  }
  pure def avBad(o: Obs): List[str] = {
    val y = getx(o, "y")
    val w = getx(o, "w")
    val f = getx(o, "f")
    val got = getx(o, "out")
    if (not(y.fin) or y.sh.length() != 2 or not(isSh(w, [nr(y), 1]))) ["the rule has one weight per node"]
    else if (not(isSh(f, [nr(y), 1]))) ["the function is evaluated once per node"]
    else bads([
      chk(geti(o, "rs") == 1 or nearT(getx(o, "seen"), y, 1000), "the function is evaluated at the nodes of the rule"),
      chk(got.fin and got.d.length() == 1 and near(got.d[0], rdiv(dotl(w.d, f.d), S), (maxabsT(f) + S) / 10000000000), "the estimate is the weighted sum of the function at the nodes") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (o.ok == "mmfail") { st: st, tag: "-design-failed", bad: chk(argi(c, "bd", 0) == 1 and argi(c, "n", 1) > 1, "only a design can fail") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["an integral with valid arguments does not raise"] }
    else if (c.op == "av") { st: st, tag: if (geti(o, "rs") == 1) "av-surface" else "av", bad: avBad(o) }
    else { st: st, tag: ["planned", "constant", "active", "affine"][argi(c, "kind", 0)], bad: integrateBad(c, o) }
}
module C16g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(9).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet op = Set("integrate", "integrate", "av").oneOf()
    nondet mm0 = 2.to(5).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet N = 1.to(25).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet wrap = 0.to(2).oneOf()
    nondet NMC = Set(1, 2, 3, 7, 10).oneOf()
    val bd = if (pick <= 5) 1 else 0
    val n = if (pick <= 4) 1 else if (pick <= 5) 2 else n0
    val m = max2(n, mm0)
    val NN = if (bd == 0 and n > 1) 1 + 3 * N else if (bd == 0) 1 + N % 15 else if (n == 1) N else 1 + N % 5
    // f: the outputs, in call order (kind 0); or coefficients: constant, active and affine functions
    call' = { op: op, i: Map("n" -> n, "bd" -> bd, "den" -> 1, "rs" -> s, "N" -> NN, "NMC" -> NMC, "kind" -> kind, "wrap" -> wrap, "den_f" -> 8, "sc" -> powi(10, s % 5)),
      x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk), "f" -> mkT([1, 400], rlist(s + 1, 400, -99, 99))) }
  }
}
