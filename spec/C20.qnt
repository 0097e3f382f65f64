// C20: a response surface on active variables is the surrogate composed with the forward map.
module C20 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C15.iroot from "./C15"
  import C14.poly from "./C14"
  // a surface: its eigenvectors and eigenvalues, active dimension, domain kind and surrogate kind (0 stub, 1 default, 2 polynomial)
  type Surf = { W: T, n: int, bd: int, sk: int, deg: int, ev: List[int], trained: bool }
  type St = int -> Surf
  pure val none: Surf = { W: NOT, n: 0, bd: 0, sk: 0, deg: 0, ev: [], trained: false }
  pure val st0: St = Map(-1 -> none)
  pure def rowsNear(A: T, r: int, B: T, q: int, tol: int): bool = 0.to(nc(A) - 1).forall(j => near(at(A, r, j), at(B, q, j), tol))
  // what the surrogate was trained with
  pure def need(q: Surf): int = if (q.sk == 0) 1 else binom(q.n + q.deg, q.deg)
  pure def ellBad(q: Surf, o: Obs): List[str] = if (q.sk != 1) [] else {
    val ell = getx(o, "ell")
    if (not(isSh(ell, [q.n, 1]))) ["the default surrogate has one length scale per active variable"]
    else chk(0.to(q.n - 1).forall(k => near(ell.d[k] * q.ev[k], ell.d[0] * q.ev[0], abs(ell.d[0] * q.ev[0]) / 1000000 + 100 * (q.ev[k] + q.ev[0]))), "the default surrogate scales active variables by the eigenvalues") }
  pure def dataBad(q: Surf, c: Call, o: Obs): List[str] = {
    val X = toS(argx(c, "X"), argi(c, "den_X", 1))
    val f = toS(argx(c, "f"), argi(c, "den_f", 1))
    val Y = mmS(X, W1of(q.W, q.n))
    bads([
      chk(geti(o, "ntrain") == 1, "the surrogate is trained once"),
      chk(nearT(getx(o, "tY"), Y, 100000), "the surrogate is trained on the active variables of the inputs"),
      chk(nearT(getx(o, "tf"), f, 100), "the surrogate is trained on the given outputs"),
      if (q.sk != 1) [] else if (has(c.x, "v")) chk(nearT(getx(o, "tv"), toS(argx(c, "v"), argi(c, "den_v", 1)), 100), "the given noise reaches the default surrogate")
      else chk(getx(o, "tv").sh == [-2], "no noise unless given"),
      ellBad(q, o) ])
  }
  pure def interfaceBad(q: Surf, c: Call, o: Obs): List[str] = {
    val N = argi(c, "N", 1)
    val M = argi(c, "NMC", 10)
    val Y = getx(o, "tY")
    val f = getx(o, "tf")
    val X = getx(o, "seen")
    val out = getx(o, "out")
    val vert = getx(o, "vert")
    val nv = if (q.bd == 1) nr(vert) else 0
    val k = if (q.bd == 1) N else powi(iroot(N, q.n), q.n)
    val m = nr(q.W)
    if (geti(o, "ntrain") != 1) ["the surrogate is trained once"]
    else if (not(isSh(Y, [k + nv, q.n])) or not(isSh(f, [k + nv, 1]))) ["the surrogate is trained on the design and, when bounded, the corners"]
    else if (not(isSh(X, [k * M + nv, m])) or not(isSh(out, [k * M + nv, 1]))) ["the simulation runs once at each point"]
    else {
      val e = lsum(W1of(q.W, 1).d.foldl([], (l, v) => l.append(abs(v))))
      val r = iroot(N, q.n)
      val Z = mmS(X, W1of(q.W, q.n))
      // simulation points of each row
      val grp = range(0, k + nv).foldl([], (l, i) => l.append(range(0, nr(X)).foldl([], (g, a) => if (rowsNear(Z, a, Y, i, 10000000)) g.append(a) else g)))
      val sc = maxabsT(out) + S / 1000
      bads([
        // the design
        if (q.bd == 0) chk(0.to(k - 1).forall(i => 0.to(q.n - 1).forall(j => sgn(poly(0, r, at(Y, i, j) - 100000)._1) * sgn(poly(0, r, at(Y, i, j) + 100000)._1) <= 0)) and 0.to(k - 1).forall(a => 0.to(a - 1).forall(b => 0.to(q.n - 1).exists(j => abs(at(Y, a, j) - at(Y, b, j)) > 1000000))), "an unbounded design is the Gauss-Hermite grid")
        else if (q.n == 1) chk(0.to(k - 1).forall(i => abs(i) >= 0 and 0.to(k - 1).exists(a => near(Y.d[a], -e + rdiv(2 * (i + 1) * e, N + 1), 10000))), "a one-dimensional design is N equally spaced interior points")
        else { val D = getx(o, "design")
          chk(isSh(D, [k, q.n]) and 0.to(k - 1).forall(i => 0.to(k - 1).exists(a => rowsNear(D, i, Y, a, 1000000))), "a bounded design is the maximin design") },
        chk(0.to(nv - 1).forall(i => k.to(k + nv - 1).exists(a => rowsNear(vert, i, Y, a, 1000000))), "the corners of the domain are training points"),
        chk(0.to(k + nv - 1).forall(i => grp[i].length() == (if (i < k) M else 1)), "each design point has NMC inputs mapping to it, each corner one"),
        if (q.bd == 1) chk(maxabsT(X) <= S + S / 1000000, "inputs lie in the hypercube") else [],
        chk(0.to(k + nv - 1).forall(i => grp[i].length() == 0 or near(f.d[i] * grp[i].length(), lsum(grp[i].foldl([], (l, a) => l.append(out.d[a]))), sc / 1000000000 * grp[i].length())), "the surrogate is trained on conditional means"),
        if (q.sk != 1) [] else if (not(isSh(getx(o, "tv"), [k + nv, 1]))) ["the default surrogate receives conditional variances"]
        else { val V = getx(o, "tv")
          chk(0.to(k + nv - 1).forall(i => { val g = grp[i].foldl([], (l, a) => l.append(out.d[a]))
            val q2 = g.length()
            q2 == 0 or near(V.d[i] * q2 * q2, (q2 * dotl(g, g) - lsum(g) * lsum(g)) / S, (fmul(sc, sc) + sc) / 1000000000 * q2 * q2) }), "the default surrogate receives conditional variances") },
        ellBad(q, o) ])
    }
  }
  pure def predictBad(q: Surf, c: Call, o: Obs): List[str] = {
    val how = argi(c, "how", 0)
    val P = argx(c, "P")
    val Y = if (how == 3 or how == 4) mkT([nr(P), q.n], toS(P, argi(c, "den_P", 1)).d.slice(0, nr(P) * q.n))
      else mmS(toS(mkT([nr(P), nr(q.W)], P.d.slice(0, nr(P) * nr(q.W))), argi(c, "den_P", 1)), W1of(q.W, q.n))
    val sf = getx(o, "sf")
    val sdf = getx(o, "sdf")
    val cg = argi(c, "cg", 0) == 1
    val sc = maxabsT(sf) + maxabsT(sdf)
    if (not(nearT(getx(o, "Y"), Y, 100000)) or not(isSh(sf, [nr(P), 1])) or not(isSh(sdf, [nr(P), q.n]))) ["the surrogate predicts at the active variables"]
    else {
      val full = mmS(sdf, tr(W1of(q.W, q.n)))
      val tol = sc / 1000000 + 100000
      bads([
        if (how == 1 or how == 4) [] else chk(nearT(getx(o, "f"), sf, tol), "predictions are the surrogate's at the active variables"),
        if (how == 0) (if (cg) chk(nearT(getx(o, "df"), full, tol), "gradients are W1 times the surrogate's") else chk(getx(o, "df").sh == [-2], "no gradient unless requested"))
        else if (how == 1) chk(nearT(getx(o, "df"), full, tol), "gradients are W1 times the surrogate's")
        else if (how == 3) (if (cg) chk(nearT(getx(o, "df"), sdf, tol), "active-variable gradients are the surrogate's") else chk(getx(o, "df").sh == [-2], "no gradient unless requested"))
        else if (how == 4) chk(nearT(getx(o, "df"), sdf, tol), "active-variable gradients are the surrogate's") else [] ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val k = argi(c, "obj", 0)
    if (c.op == "new") {
      val W = getx(o, "W")
      if (o.ok != "ok") { st: st.put(k, none), bad: ["a surface is made"], tag: "raised" }
      else { st: st.put(k, { W: W, n: argi(c, "n", 1), bd: argi(c, "bd", 0), sk: argi(c, "sk", 0), deg: if (argi(c, "sk", 0) == 1) 2 else argi(c, "deg", 1), ev: getx(o, "ev").d, trained: false }),
        bad: chk(orthoOk(W), "eigenvectors are orthogonal"), tag: "new" } }
    else if (not(st.keys().contains(k)) or st.get(k).n == 0) { st: st, bad: [], tag: "-none" }
    // the subspaces of the map are computed or partitioned anew: the surface follows them, its surrogate stays as trained
    else if (c.op == "resub") {
      val q = st.get(k)
      val n2 = argi(c, "n", 1)
      if (o.ok != "ok") { st: st.put(k, none), bad: ["new subspaces are taken over"], tag: "raised" }
      else { st: st.put(k, { ...q, W: getx(o, "W"), n: n2, ev: getx(o, "ev").d, trained: q.trained and n2 == q.n }), bad: chk(orthoOk(getx(o, "W")), "eigenvectors are orthogonal"),
        tag: if (q.trained and n2 == q.n) "resub-trained" else "resub" } }
    else {
      val q = st.get(k)
      if (c.op == "traindata") {
        if (nr(argx(c, "X")) < need(q)) { st: st, bad: chk(o.ok != "ok", "too few points raise"), tag: "too-few" }
        else if (o.ok != "ok") { st: st.put(k, none), bad: ["training with data does not raise"], tag: "raised" }
        else { st: st.put(k, { ...q, trained: true }), bad: dataBad(q, c, o), tag: ["data-stub", "data-rbf", "data-poly"][q.sk] } }
      else if (c.op == "traininterface") {
        val r = (if (q.bd == 1) argi(c, "N", 1) + 2 * q.n else powi(iroot(argi(c, "N", 1), q.n), q.n))
        if (o.ok == "mmfail") { st: st.put(k, none), bad: chk(q.bd == 1 and q.n > 1, "only a maximin design can fail"), tag: "-design-failed" }
        else if (r < need(q)) { st: st.put(k, none), bad: [], tag: "-too-few" }
        else if (o.ok != "ok") { st: st.put(k, none), bad: ["training with an interface does not raise"], tag: "raised" }
        else { st: st.put(k, { ...q, trained: true }), bad: interfaceBad(q, c, o), tag: [["interface-unbounded", "interface-unbounded-rbf", "interface-unbounded"], ["interface-interval", "interface-interval-rbf", "interface-interval"], ["interface-zonotope", "interface-zonotope-rbf", "interface-zonotope"]][if (q.bd == 0) 0 else min2(q.n, 2)][q.sk] } }
      else if (not(q.trained)) { st: st, bad: [], tag: "-untrained" }
      else if (o.ok != "ok") { st: st, bad: ["a trained surface predicts"], tag: "raised" }
      else { st: st, bad: predictBad(q, c, o), tag: ["predict", "gradient", "call", "predict-av", "gradient-av"][argi(c, "how", 0)] }
    }
  }
}
module C20g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  var cur: int -> { m: int, n: int, bd: int, sk: int, deg: int }
  action init = all { call' = { op: "", i: Map(), x: Map() }, cur' = Map(0 -> { m: 0, n: 0, bd: 0, sk: 0, deg: 0 }, 1 -> { m: 0, n: 0, bd: 0, sk: 0, deg: 0 }) }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(15).oneOf()
    nondet k = 0.to(1).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet sk = 0.to(2).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet how = 0.to(4).oneOf()
    nondet N = 1.to(16).oneOf()
    nondet NMC = Set(1, 2, 3, 5, 10).oneOf()
    val q = cur.get(k)
    val bd = s / 5 % 2
    val n = if (bd == 1) min2(n0, 2) else n0
    val m = max2(2, n + m0)
    if (pick == 0 or q.n == 0) all {
      call' = { op: "new", i: Map("obj" -> k, "n" -> n, "bd" -> bd, "den" -> 1, "sk" -> sk, "deg" -> 1 + s / 11 % 2), x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk)) },
      cur' = cur.put(k, { m: m, n: n, bd: bd, sk: sk, deg: 1 + s / 11 % 2 }) }
    else if (pick >= 14) {
      // half of the time the same number of active variables, so that the surrogate may still be used
      val n2 = if (s / 13 % 2 == 0) q.n else if (q.bd == 1) 1 + s / 26 % min2(2, q.m) else 1 + s / 26 % min2(3, q.m)
      all {
        call' = { op: "resub", i: Map("obj" -> k, "n" -> n2, "den" -> 1, "only" -> (if (q.bd == 1 and n2 != q.n) 0 else s / 17 % 2)), x: Map("df" -> gradients(s, q.m, if (q.bd == 1 and n2 > 1 and gk >= 2) 0 else gk)) },
        cur' = cur.put(k, { ...q, n: n2 }) } }
    else all { cur' = cur,
      if (pick <= 3) {
        val M = if (s / 3 % 6 == 0) 1 + s % 4 else 6 + (if (q.n == 3) 6 else 0) + s % 6
        val x = Map("X" -> rTl(s, M, q.m, -8, 8, 8, lay), "f" -> mkT([M, 1], rlist(s + 1, M, -99, 99)))
        call' = { op: "traindata", i: Map("obj" -> k, "den_X" -> 8, "den_f" -> 8, "den_v" -> 1000, "lay" -> lay), x: if (s / 2 % 2 == 0) x.put("v", mkT([M, 1], rlist(s + 2, M, 0, 40))) else x } }
      else if (pick <= 6) call' = { op: "traininterface", i: Map("obj" -> k, "rs" -> s, "N" -> (if (q.bd == 0) (if (q.n == 1) N % 12 + 1 else if (q.n == 2) 2 * N else 27 + N) else if (q.n == 1) N else 1 + N % 6), "NMC" -> NMC, "wrap" -> s % 2, "kind" -> s / 2 % 2, "den_f" -> 8), x: Map("f" -> mkT([1, 200], rlist(s + 1, 200, -99, 99))) }
      else call' = { op: "predict", i: Map("obj" -> k, "den_P" -> 8, "how" -> how, "cg" -> s % 2, "lay" -> lay), x: Map("P" -> rTl(s, if (s % 17 == 0) 60 else 1 + s % 3, 6, -12, 12, 8, lay)) } }
  }
}
