// C06: forward and inverse maps of a domain agree, and follow the subspaces through repartitions and recomputations.
module C06 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  // the current subspaces: eigenvectors, active dimension, bounded or not
  type St = { W: T, n: int, bd: int }
  pure val st0: St = { W: mkT([0, 0], []), n: 0, bd: 0 }
  pure val TOL: int = 10000000
  pure def fwdBad(st: St, X: T, y: T, z: T): List[str] = bads([
    chk(y.fin and nearT(y, mmS(X, W1of(st.W, st.n)), TOL), "forward's active variables are X W1"),
    chk(z.fin and z.sh == [nr(X), nc(st.W) - st.n] and nearT(z, mmS(X, W2of(st.W, st.n)), TOL), "forward's inactive variables are X W2") ])
  // standard Gaussian draws: rows of z are the draws (blocks of N per active point)
  pure def gauss(z: T, N: int): List[str] = {
    val k = nc(z)
    val M = nr(z)
    val h = z.d.foldl([], (l11, v) => l11.append(v / 1000000000))         // units of 1e-6
    val col = range(0, k).foldl([], (l10, j) => l10.append(range(0, M).foldl([], (l9, i) => l9.append(h[i * k + j]))))
    val u = 1000000
    bads([
      chk(col.indices().forall(j => abs(lsum(col[j]) / M) < u * 6 / isqrt(M)), "inactive draws have mean zero"),
      chk(col.indices().forall(j => abs(dotl(col[j], col[j]) / M / u - u) < u * 10 / isqrt(M)), "inactive draws have unit variance"),
      chk(col.indices().forall(a => col.indices().forall(b => a <= b or abs(dotl(col[a], col[b]) / M / u) < u * 7 / isqrt(M))), "inactive draws are uncorrelated"),
      chk(col.indices().forall(a => M < 2 * N or abs(dotl(col[a].slice(0, N), col[a].slice(N, 2 * N)) / N / u) < u * 7 / isqrt(N)), "draws of different active points are independent"),
      chk(col.indices().forall(a => abs(dotl(col[a].slice(0, N - 1), col[a].slice(1, N)) / N / u) < u * 7 / isqrt(N)), "successive draws are independent"),
      chk(col.indices().forall(a => col[a].foldl(false, (q8, v) => q8 or (v > 2 * u)) and col[a].foldl(false, (q7, v) => q7 or (v < -2 * u))), "inactive draws have Gaussian tails") ])
  }
  pure def invBad(st: St, c: Call, o: Obs): List[str] = {
    val X0 = toS(argx(c, "X0"), argi(c, "den_X0", 1))
    val N = argi(c, "N", 1)
    val Y = getx(o, "Y")
    val X = getx(o, "X")
    val ind = getx(o, "ind")
    val NY = nr(X0)
    val m = nc(st.W)
    val W1 = W1of(st.W, st.n)
    if (not(nearT(Y, mmS(X0, W1), TOL))) ["the active points are those of X0 (the maps follow the subspaces)"]
    else if (not(isSh(X, [NY * N, m])) or not(isSh(ind, [NY * N, 1]))) ["inverse returns N points for each active point"]
    else {
      val back = mmS(X, W1)
      bads([
        chk(0.to(NY * N - 1).forall(k => ind.d[k] == (k / N) * S), "the index column identifies the active point, N consecutive rows each"),
        chk(0.to(NY * N - 1).forall(k => 0.to(st.n - 1).forall(j => near(at(back, k, j), at(Y, k / N, j), TOL))), "the points map to their active point"),
        if (st.bd == 1) chk(maxabsT(X) <= S + S / 1000000, "the points lie in the hypercube")
        else if (N >= 100 and st.n < m) gauss(mmS(X, W2of(st.W, st.n)), N) else [] ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (o.ok != "ok") { st: st, tag: "raised", bad: ["maps of well-formed points do not raise"] }
    else if (c.op == "setup" or c.op == "recompute" or c.op == "repart") {
      val W = if (c.op == "repart") st.W else getx(o, "W")
      val s2 = { W: W, n: argi(c, "n", 1), bd: if (c.op == "setup") argi(c, "bd", 0) else st.bd }
      { st: s2, tag: c.op, bad: chk(orthoOk(W) and geti(o, "n") == s2.n, "the subspaces have the chosen dimension") }
    }
    else if (st.n == 0) { st: st, tag: "-none", bad: [] }
    else if (c.op == "fwd") { st: st, tag: if (st.n == nc(st.W)) "fwd-full" else "fwd", bad: fwdBad(st, toS(argx(c, "X"), argi(c, "den_X", 1)), getx(o, "y"), getx(o, "z")) }
    else { st: st, bad: invBad(st, c, o), tag: if (st.bd == 0) (if (argi(c, "N", 1) >= 100) "inv-gauss" else "inv-unbounded")
        else if (st.n == nc(st.W)) "inv-full" else if (argi(c, "kind", 0) == 0) "inv-interior" else "inv-edge" }
}
module C06g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  var m: int
  var bd: int
  pure def dfOf(s: int, m: int): T = gradients(s, m, if (s % 4 == 0) 2 + s % 3 else if (s % 4 == 1) 1 else 0)
  action init = { nondet mm0 = 2.to(5).oneOf()
    nondet b = Set(0, 1, 1).oneOf()
    all { call' = { op: "", i: Map(), x: Map() }, m' = mm0, bd' = b } }
  // the first call of a history is a setup: decided by the empty operation
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(11).oneOf()
    nondet n0 = 1.to(5).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet NY = 1.to(3).oneOf()
    nondet N = 1.to(7).oneOf()
    nondet lay = 0.to(4).oneOf()
    val n = min2(n0, m)
    val big = bd == 0 and pick == 11
    all { m' = m, bd' = bd,
      if (call.op == "") call' = { op: "setup", i: Map("n" -> n, "bd" -> bd, "den" -> 1, "rs" -> s), x: Map("df" -> dfOf(s, m)) }
      else if (pick == 0) call' = { op: "recompute", i: Map("n" -> n, "den" -> 1, "rs" -> s), x: Map("df" -> dfOf(s, m)) }
      else if (pick <= 2) call' = { op: "repart", i: Map("n" -> n), x: Map() }
      else if (pick <= 5) call' = { op: "fwd", i: Map("den_X" -> 8, "lay" -> lay), x: Map("X" -> rTl(s, if (s % 7 == 0) 130 else NY, m, -20, 20, 8, lay)) }
      else call' = { op: "inv", i: Map("den_X0" -> 1000000, "N" -> (if (big) 400 else N), "kind" -> kind, "rs" -> s),
        x: Map("X0" -> mkT([if (big) 2 else NY, m], rlist(s, (if (big) 2 else NY) * m, -8, 8).foldl([], (l3, v) => l3.append(// interior; corners of the cube; just inside the corners; faces
          if (kind == 0) v * 125000 else if (kind == 1) (if (v < 0) -1000000 else 1000000) else if (kind == 2) (if (v < 0) -999999 else 999999) else max2(-1000000, min2(1000000, v * 250000)))))) }
    }
  }
}
