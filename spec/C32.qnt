// C32: the package's workflow recovers a ridge function end to end. A session machine: a physical model whose output is a quadratic of one or
// two linear combinations of its normalized inputs is sampled, differentiated, its active subspace computed, a surface trained, predicted
// with, integrated and minimized, in any order the workflow allows; every result is that of the exact model.
module C32 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  type Ses = { m: int, r: int, a: List[List[int]], c0: int, c1: List[int], c2: List[int], c12: int, bd: int, W: T, sub: bool, fit: bool, loose: int, M: int }
  type St = Ses
  pure val st0: St = { m: 0, r: 0, a: [], c0: 0, c1: [], c2: [], c12: 0, bd: 0, W: NOT, sub: false, fit: false, loose: 0, M: 0 }
  // value and gradient at a point in units of 1/S
  pure def tval(q: St, x: List[int]): List[int] = q.a.foldl([], (l, a) => l.append(dotl(a, x)))
  pure def fS(q: St, x: List[int]): int = {
    val t = tval(q, x)
    q.c0 * S + dotl(q.c1, t) + t.indices().fold(0, (s, k) => s + q.c2[k] * fmul(t[k], t[k])) + (if (q.r == 2) q.c12 * fmul(t[0], t[1]) else 0)
  }
  pure def gS(q: St, x: List[int]): List[int] = {
    val t = tval(q, x)
    val w = range(0, q.r).foldl([], (l, k) => l.append(q.c1[k] * S + 2 * q.c2[k] * t[k] + (if (q.r == 2) q.c12 * t[1 - k] else 0)))
    range(0, q.m).foldl([], (l, i) => l.append(range(0, q.r).foldl(0, (s, k) => s + w[k] * q.a[k][i])))
  }
  // size of the model over the cube (or three standard deviations): bounds of |f| and of |df/dt|
  pure def amp(q: St, k: int): int = q.a[k].foldl(0, (s, v) => s + abs(v)) * (if (q.bd == 1) 1 else 3)
  pure def lip(q: St): int = range(0, q.r).foldl(0, (s, k) => s + (abs(q.c1[k]) + 2 * abs(q.c2[k]) * amp(q, k) + (if (q.r == 2) abs(q.c12) * amp(q, 1 - k) else 0)) * amp(q, k))
  pure def bigOf(q: St): int = (abs(q.c0) + 2 * lip(q) + 1) * S
  // error allowed: rounding, or first differences of step 1e-6 somewhere before
  pure def tolOf(q: St): int = bigOf(q) / (if (q.loose == 1) 2000 else 1000000)
  pure def curv(q: St): int = range(0, q.r).foldl(0, (s, k) => s + (abs(q.c2[k]) + abs(q.c12)) * q.a[k].foldl(0, (u, v) => u + v * v))
  pure def subBad(q: St, c: Call, o: Obs): List[str] = {
    val W = getx(o, "W")
    val e = getx(o, "e")
    val how = argi(c, "how", 0)
    if (not(orthoOk(W)) or not(isSh(e, [q.m, 1]))) ["eigenvectors are orthogonal"] else {
      val er = e.d[q.r - 1]
      val e1 = max2(e.d[0], 1)
      // perturbation of the gradients: rounding, or the second-order term of the forward differences
      val dg = (if (how == 1) curv(q) * (S / 100000) + bigOf(q) / 10000000 else 0) + bigOf(q) / 1000000000
      val tol = S / 10000000 + fdv(10 * dg, max2(fsqrt(er), 1)) + (if (how >= 2) fdv(e1, max2(er, 1)) / 1000000 else fdv(e1, max2(er, 1)) / 100000000)
      val W2 = colsOf(W).slice(q.r, q.m)
      val X = argx(c, "X")
      bads([
        chk(W2.foldl(true, (p, w) => p and q.a.foldl(true, (p2, a) => p2 and abs(dotl(a, w)) <= fmul(tol, isqrt(dotl(a, a) * S2)))), "the inactive subspace is orthogonal to the ridge directions"),
        chk(e.d.slice(q.r, q.m).foldl(true, (p, v) => p and v <= fmul(dg, dg) + 2 * fmul(dg, fsqrt(e1)) + e1 / 1000000), "inactive eigenvalues vanish"),
        if (q.r == 1) chk(geti(o, "n") == 1, "one ridge direction gives one active variable") else [],
        if (how == 0) { val tr2 = range(0, nr(X)).foldl(0, (s, i) => { val g = gS(q, toS(mkT([1, q.m], rowOf(X, i)), argi(c, "den", 1)).d)
            s + dotl(g, g) / S })
          chk(near(lsum(e.d) * nr(X), tr2, max2(tr2, S) / 100000000), "the eigenvalues sum to the mean squared gradient") }
        else [] ])
    }
  }
  pure def predictBad(q: St, c: Call, o: Obs): List[str] = {
    val X = toS(argx(c, "P"), argi(c, "den", 1))
    val f = getx(o, "f")
    val df = getx(o, "df")
    val far = max2(1, (maxabsT(X) + S - 1) / S)
    val tol = tolOf(q) * far * far
    bads([
      chk(isSh(f, [nr(X), 1]) and 0.to(nr(X) - 1).forall(i => near(f.d[i], fS(q, rowOf(X, i)), tol)), "the surface reproduces the model"),
      chk(isSh(df, [nr(X), q.m]) and 0.to(nr(X) - 1).forall(i => { val g = gS(q, rowOf(X, i))
        0.to(q.m - 1).forall(j => near(at(df, i, j), g[j], 10 * tol)) }), "the surface's gradient is the model's") ])
  }
  pure def sq(l: List[int]): int = dotl(l, l)
  // exact mean over the cube or the Gaussian, times 3
  pure def mean3(q: St): int = 3 * q.c0 + (if (q.bd == 1) 1 else 3) * (range(0, q.r).foldl(0, (s, k) => s + q.c2[k] * sq(q.a[k])) + (if (q.r == 2) q.c12 * dotl(q.a[0], q.a[1]) else 0))
  pure def integrateBad(q: St, c: Call, o: Obs): List[str] = {
    val mu = getx(o, "mu").d
    val tol = tolOf(q) + (if (q.bd == 1) lip(q) * S / argi(c, "N", 1) + 6 * lip(q) * S / 100 else 0)
    if (not(isSh(getx(o, "mu"), [3]))) ["an estimate and its bounds"] else bads([
      chk(near(3 * mu[0], mean3(q) * S, 3 * tol), "the integral is the model's mean"),
      chk(mu[1] <= mu[0] and mu[0] <= mu[2] and mu[2] - mu[1] <= tolOf(q), "a function of the active variables has no Monte Carlo error") ])
  }
  // least value when known exactly (r = 1, or no mixed term and unbounded), over 4 |c2| products
  pure def minKnown(q: St): bool = q.r == 1 or q.bd == 0
  pure def minS(q: St): int = q.c0 * S + range(0, q.r).foldl(0, (s, k) => s + (
    if (q.bd == 1) { val A = amp(q, k)
      if (2 * q.c2[k] * A <= abs(q.c1[k])) (q.c2[k] * A * A - abs(q.c1[k]) * A) * S else rdiv(-q.c1[k] * q.c1[k] * S, 4 * q.c2[k]) }
    else rdiv(-q.c1[k] * q.c1[k] * S, 4 * max2(q.c2[k], 1))))
  pure def minimizeBad(q: St, c: Call, o: Obs): List[str] = {
    val x = getx(o, "x")
    val f = getx(o, "f")
    val P = toS(argx(c, "P"), argi(c, "den", 1))
    if (not(isSh(x, [1, q.m])) or not(isSh(f, [1]))) ["a 1-by-m point and its value"] else {
      val v = fS(q, x.d)
      val tol = 5 * tolOf(q)
      bads([
        chk(q.bd == 0 or maxabsT(x) <= S + S / 1000000, "the minimizer lies in the cube"),
        chk(near(v, f.d[0], tol), "the minimum is the model's value at the minimizer"),
        if (minKnown(q)) chk(near(v, minS(q), tol), "the minimum is the model's") else [],
        chk(0.to(nr(P) - 1).forall(i => v <= fS(q, rowOf(P, i)) + tol), "no other point is lower") ]) }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (c.op == "model") {
      val a = rowsOf(argx(c, "a"))
      val q = { m: nc(argx(c, "a")), r: a.length(), a: a, c0: argi(c, "c0", 0), c1: argx(c, "c1").d, c2: argx(c, "c2").d, c12: argi(c, "c12", 0), bd: argi(c, "bd", 0), W: NOT, sub: false, fit: false, loose: 0, M: nr(argx(c, "X")) }
      val X = toS(argx(c, "X"), argi(c, "den", 1))
      val F = getx(o, "F")
      if (o.ok != "ok") { st: st0, bad: ["the model is sampled"], tag: "raised" }
      else { st: q, tag: "model", bad: bads([
        chk(isSh(F, [nr(X), 1]) and 0.to(nr(X) - 1).forall(i => near(F.d[i], fS(q, rowOf(X, i)), bigOf(q) / 1000000000)), "the runner returns the model's outputs at the normalized samples"),
        chk(nearT(getx(o, "back"), X, S / 1000000000), "normalizing the physical samples gives them back") ]) } }
    else if (st.m == 0) { st: st, bad: [], tag: "-none" }
    else if (c.op == "subspace") {
      if (o.ok != "ok") { st: st0, bad: ["the subspace is found"], tag: "raised" }
      else { st: { ...st, W: getx(o, "W"), sub: true, fit: false, loose: if (argi(c, "how", 0) == 1) 1 else 0 }, bad: subBad(st, c, o), tag: ["subspace-gradients", "subspace-differences", "subspace-ols", "subspace-qphd", "subspace-opg"][argi(c, "how", 0)] } }
    else if (not(st.sub)) { st: st, bad: [], tag: "-no-subspace" }
    else if (c.op == "surface") {
      if (o.ok == "mmfail") { st: { ...st, fit: false }, bad: chk(st.bd == 1 and st.r == 2 and argi(c, "how", 0) == 1, "only a maximin design can fail"), tag: "-design-failed" }
      else if (o.ok != "ok") { st: { ...st, fit: false }, bad: ["the surface is trained"], tag: "raised" }
      else { st: { ...st, fit: true }, bad: [], tag: if (argi(c, "how", 0) == 0) "surface-data" else "surface-interface" } }
    else if (c.op == "integrate" and argi(c, "av", 0) == 0) {
      if (o.ok != "ok") { st: st, bad: ["the integral is estimated"], tag: "raised" } else { st: st, bad: integrateBad(st, c, o), tag: if (st.bd == 1) "integrate-bounded" else "integrate-unbounded" } }
    else if (not(st.fit)) { st: st, bad: [], tag: "-no-surface" }
    else if (c.op == "integrate") {
      if (o.ok != "ok") { st: st, bad: ["the integral is estimated"], tag: "raised" } else { st: st, bad: integrateBad(st, c, o), tag: "integrate-surface" } }
    else if (c.op == "predict") {
      if (o.ok != "ok") { st: st, bad: ["the surface predicts"], tag: "raised" } else { st: st, bad: predictBad(st, c, o), tag: "predict" } }
    else if (o.ok == "optfail") { st: st, bad: [], tag: "-optimizer-failed" }
    else if (o.ok != "ok") { st: st, bad: ["the surface is minimized"], tag: "raised" }
    else { st: st, bad: minimizeBad(st, c, o), tag: if (st.bd == 1) "minimize-bounded" else "minimize-unbounded" }
}
module C32g {
  import fx.* from "./fx"
  var call: Call
  var q: { m: int, r: int, bd: int, aff: bool, conv: bool, X: T, st: int }
  action init = all { call' = { op: "", i: Map(), x: Map() }, q' = { m: 0, r: 0, bd: 0, aff: false, conv: false, X: mkT([0, 0], []), st: 0 } }
  pure def nz(v: int): int = if (v == 0) 2 else v
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(11).oneOf()
    nondet m0 = 2.to(5).oneOf()
    nondet bd = 0.to(1).oneOf()
    nondet r0 = 0.to(2).oneOf()
    nondet shape = 0.to(3).oneOf()       // 0 affine, 1 convex, 2 concave or saddle, 3 mixed term
    nondet how = 0.to(4).oneOf()
    nondet N = 0.to(9).oneOf()
    nondet NMC = Set(1, 2, 3, 5).oneOf()
    nondet k = 0.to(2).oneOf()
    if (q.st == 0 or pick == 0) {
      val r = if (r0 == 2 and m0 >= 3 and shape != 0) 2 else 1
      val m = m0
      val a1 = { val l = rlist(s, m, if (r == 2) 1 else -3, 3)
        if (lmaxabs(l) == 0) l.replaceAt(0, 2) else l }
      // the second direction's components are different multiples of the first's: no two of the zonotope's generators are parallel
      val a2 = range(0, m).foldl([], (l, i) => l.append(a1[i] * (((1 + s % 6) * i + s / 7 % 7) % 7 - 3)))
      val c1 = rlist(s + 2, r, -5, 5)
      val c2 = rlist(s + 3, r, 1, 3)
      val sg = if (shape == 1) 1 else if (s % 2 == 0) -1 else 1
      val M = 24 + s % 8
      val X = rT(s + 4, M, m, -1000, 1000)
      all {
        q' = { m: m, r: r, bd: bd, aff: shape == 0, conv: shape <= 1 and (shape == 1 or bd == 1), X: X, st: 1 },
        call' = { op: "model", i: Map("bd" -> bd, "c0" -> s % 11 - 5, "c12" -> (if (shape == 3 and r == 2) 1 + s % 3 else 0), "den" -> 1000, "den_lo" -> 4, "den_wd" -> 4, "den_L" -> 32),
          x: Map("a" -> mkT([r, m], if (r == 1) a1 else a1.concat(a2)), "c1" -> mkT([r], if (shape == 0) [nz(c1[0])] else c1),
            "c2" -> mkT([r], if (shape == 0) [0] else range(0, r).foldl([], (l, j) => l.append(c2[j] * (if (j == 0) sg else if (shape == 1) 1 else -sg)))),
            "X" -> X, "lo" -> mkT([m, 1], rlist(s + 5, m, -40, 40)), "wd" -> mkT([m, 1], rlist(s + 6, m, 1, 40)), "L" -> rT(s + 7, m, m, -8, 8)) } } }
    else if (q.st == 1 or pick <= 2) all {
      q' = { ...q, st: 2 },
      call' = { op: "subspace", i: Map("how" -> (if (q.r == 1 and q.aff) how else if (how == 2 or how == 4) 0 else how), "nboot" -> (if (s % 3 == 0) 3 else 0), "den" -> 1000, "rs" -> s, "r" -> q.r), x: Map("X" -> q.X) } }
    else if (q.st == 2 or pick <= 4) all {
      q' = { ...q, st: 3 },
      call' = { op: "surface", i: Map("sk" -> s % 2, "how" -> (if (k == 0) 1 else 0), "rs" -> s, "den" -> 1000, "wrap" -> s / 2 % 2, "NMC" -> NMC, "N" -> (if (q.r == 1) 4 + N else if (q.bd == 1) 4 + N % 3 else 9 + N)), x: Map() } }
    else all { q' = q,
      if (pick <= 6) call' = { op: "predict", i: Map("den" -> 1000), x: Map("P" -> rT(s, 1 + s % 5, q.m, -1000 - 500 * k, 1000 + 500 * k)) }
      else if (pick <= 8 and (q.r == 1 or q.bd == 0)) call' = { op: "integrate", i: Map("av" -> s % 2, "rs" -> s, "wrap" -> s / 2 % 2, "NMC" -> NMC, "N" -> (if (q.r == 2) 4 + N else if (q.bd == 1) 10 + 5 * N else 2 + N)), x: Map() }
      else if (q.conv) call' = { op: "minimize", i: Map("den" -> 1000, "rs" -> s), x: Map("P" -> mkT([nr(q.X) + powi(2, q.m), q.m], q.X.d.concat(range(0, powi(2, q.m)).foldl([], (l, v) => l.concat(range(0, q.m).foldl([], (l2, j) => l2.append(if (v / powi(2, j) % 2 == 0) 1000 else -1000))))))) }
      else call' = { op: "predict", i: Map("den" -> 1000), x: Map("P" -> rT(s, 1 + s % 5, q.m, -1000, 1000)) } }
  }
}
