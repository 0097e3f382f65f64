// C15: integration rules on the active variables are probability rules of the domain, and the full rule repeats their nodes.
module C15 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C14.poly from "./C14"
  import C14.weight from "./C14"
  type St = int
  pure val st0: St = 0
  // ---- one active variable, bounded: midpoints of N equal bins, with their probabilities
  // P(sum w_i u_i <= t), u_i uniform on [-1,1]: sum over corners of (+-)(t + s.w)_+^k / (k! 2^k prod w), exact
  pure def cdf(ws: List[int], t: int): (int, int) = {
    val k = ws.length()
    val sums = ws.foldl([(t, 1)], (l, w) => cat([l.foldl([], (l41, p) => l41.append((p._1 + w, p._2))), l.foldl([], (l40, p) => l40.append((p._1 - w, -p._2)))]))
    (sums.foldl(0, (a, p) => if (p._1 > 0) a + p._2 * powi(p._1, k) else a), fact(k) * powi(2, k) * ws.foldl(1, (a, w) => a * w))
  }
  pure def prob(ws: List[int], lo: int, hi: int): int = { val a = cdf(ws, lo)
    val b = cdf(ws, hi)
    rdiv((b._1 - a._1) * S, b._2) }
  pure def intervalBad(W1: T, N: int, NX: int, y: T, w: T): List[str] =
    if (not(isSh(y, [N, 1])) or not(isSh(w, [N, 1]))) ["the rule has N nodes and weights"]
    else {
      val ws = W1.d.select(v => abs(v) > 1000000000).foldl([], (l39, v) => l39.append(abs(v)))
      val e = lsum(W1.d.foldl([], (l38, v) => l38.append(abs(v))))
      bads([
        chk(0.to(N - 1).forall(k => near(y.d[k], -e + rdiv((2 * k + 1) * e, N), 10000)), "nodes are the midpoints of N equal bins of the interval"),
        chk(w.d.foldl(true, (q36, v) => q36 and (v >= 0)) and near(lsum(w.d), S, 1000000), "weights are nonnegative and sum to one"),
        chk(0.to(N - 1).forall(k => { val p = prob(ws, -e + 2 * k * e / N, -e + 2 * (k + 1) * e / N)
          abs(w.d[k] - p) <= 7 * fsqrt(fmul(max2(0, p), max2(0, S - p)) / NX) + 2 * S / NX + S / 100000 }), "weights are the probabilities of the bins") ])
    }
  // ---- unbounded: tensor Gauss-Hermite with floor(N^(1/n)) points per dimension
  pure def iroot(N: int, n: int): int = range(1, N + 1).foldl(0, (a, k) => if (powi(k, n) <= N) k else a)
  pure def hermiteBad(n: int, N: int, y: T, w: T): List[str] = {
    val k = iroot(N, n)
    val K = powi(k, n)
    if (not(isSh(y, [K, n])) or not(isSh(w, [K, 1]))) ["the rule has floor(N^(1/n)) points per dimension"]
    else bads([
      chk(y.d.foldl(true, (q34, v) => q34 and (sgn(poly(0, k, v - 100000)._1) * sgn(poly(0, k, v + 100000)._1) <= 0)), "coordinates are Gauss-Hermite nodes"),
      chk(0.to(K - 1).forall(a => 0.to(a - 1).forall(b => 0.to(n - 1).exists(j => abs(at(y, a, j) - at(y, b, j)) > 1000000))), "nodes are distinct"),
      chk(0.to(K - 1).forall(a => near(w.d[a], rowOf(y, a).foldl(S, (p, v) => fmul(p, weight(0, k, v))), 1000000)), "the weight of a node is the product of its Gauss weights"),
      chk(w.d.foldl(true, (q29, v) => q29 and (v >= 0)) and near(lsum(w.d), S, 1000000), "weights are nonnegative and sum to one") ])
  }
  // ---- two or more active variables, bounded: simplex centroids inside the zonotope
  // points: the vertices and the design the simplices are built on
  pure def combos(P: List[List[int]], n: int): List[List[int]] = {
    val q = P.length()
    if (n == 2) tuples3(q) else tuples4(q)
  }
  // twice (six times) the signed volume
  pure def orient(P: List[List[int]], n: int): int = if (n == 2) (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0])
    else detI(range(0, 3).foldl([], (l28, i) => l28.append(range(0, 3).foldl([], (l27, j) => l27.append(P[i + 1][j] - P[0][j])))))
  pure def inSimplex(P: List[List[int]], n: int, z: List[int]): bool = {
    val tot = orient(P, n)
    tot != 0 and 0.to(n + 1 - 1).forall(i => sgn(orient(P.replaceAt(i, z), n)) * sgn(tot) >= 0)
  }
  // a regular grid of the cube: its projection approximates the distribution of the active variables
  pure def gridSide(m: int): int = if (m == 2) 34 else if (m == 3) 11 else if (m == 4) 6 else 4
  pure def gridY(W1: T): List[List[int]] = {
    val m = nr(W1)
    val g = gridSide(m)
    val rows = rowsOf(W1).foldl([], (l25, r) => l25.append(r.foldl([], (l24, v) => l24.append(v / 10000000))))       // units of 1e-8
    range(0, m).foldl([range(0, nc(W1)).foldl([], (l23, _) => l23.append(0))], (l, i) => cat(l.foldl([], (l22, yv) => l22.append(range(0, g).foldl([], (l21, a) => l21.append(range(0, nc(W1)).foldl([], (l20, j) => l20.append(yv[j] + rows[i][j] * (2 * a + 1 - g) / g))))))))
  }
  pure def zonoBad(W1: T, N: int, y: T, w: T, vert: T, design: T, deep: bool): List[str] = {
    val n = nc(W1)
    val rows = rowsOf(W1)
    if (not(y.fin) or y.sh.length() != 2 or nc(y) != n or nr(y) == 0 or not(isSh(w, [nr(y), 1]))) ["the rule has one weight per node"]
    else {
      val pts = rowsOf(vert).concat(rowsOf(design))
      val cand = combos(pts, n).foldl([], (l19, ix) => l19.append(ix.foldl([], (l18, i) => l18.append(pts[i]))))
      val cent = cand.foldl([], (l17, P) => l17.append(range(0, n).foldl([], (l16, j) => l16.append(P.foldl(0, (a, p) => a + p[j]) / (n + 1)))))
      bads([
        chk(0.to(nr(y) - 1).forall(k => slack(rows, n, rowOf(y, k)) >= -S / 1000000), "nodes lie in the zonotope"),
        chk(w.d.foldl(true, (q14, v) => q14 and (v >= 0)) and near(lsum(w.d), S, S / 1000), "weights are nonnegative and sum to one"),
        if (n > 3 or pts.length() > 16) [] else
        chk(0.to(nr(y) - 1).forall(k => cent.indices().exists(q => 0.to(n - 1).forall(j => near(cent[q][j], at(y, k, j), 10000)))), "nodes are centroids of simplices of the vertices and design points"),
        // the weight is the probability of one of the simplices with this centroid
        if (not(deep) or n != 2 or pts.length() > 16) [] else {
          val g = gridY(W1)
          chk(0.to(nr(y) - 1).forall(k => cent.indices().exists(q => 0.to(n - 1).forall(j => near(cent[q][j], at(y, k, j), 10000)) and {
            val P = cand[q].foldl([], (l9, p) => l9.append(p.foldl([], (l8, v) => l8.append(v / 10000000))))
            near(w.d[k], S * range(0, g.length()).foldl(0, (s7, a) => s7 + if (inSimplex(P, n, g[a])) 1 else 0) / g.length(), S / 25) })), "weights are the probabilities of the simplices") } ])
    }
  }
  pure def avBad(c: Call, o: Obs, W: T, y: T, w: T): List[str] = {
    val n = argi(c, "n", 1)
    val N = argi(c, "N", 1)
    if (argi(c, "bd", 0) == 0) hermiteBad(n, N, y, w)
    else if (n == 1) intervalBad(W1of(W, 1), N, argi(c, "NX", 10000), y, w)
    else zonoBad(W1of(W, n), N, y, w, getx(o, "vert"), getx(o, "design"), argi(c, "deep", 0) == 1)
  }
  pure def fullBad(c: Call, o: Obs, W: T): List[str] = {
    val n = argi(c, "n", 1)
    val M = argi(c, "NMC", 10)
    val X = getx(o, "X")
    val w = getx(o, "w")
    val ind = getx(o, "ind")
    if (not(X.fin) or X.sh.length() != 2 or nc(X) != nc(W) or fmod(nr(X), M) != 0 or nr(X) == 0 or not(isSh(w, [nr(X), 1])) or not(ind.fin) or ind.d.length() != nr(X)) ["the full rule has NMC points per node, one weight and index each"]
    else {
      val K = nr(X) / M
      val Y = mmS(X, W1of(W, n))
      val yn = mkT([K, n], cat(range(0, K).foldl([], (l6, k) => l6.append(rowOf(Y, k * M)))))
      val wn = mkT([K, 1], range(0, K).foldl([], (l5, k) => l5.append(w.d[k * M] * M)))
      bads([
        chk(0.to(nr(X) - 1).forall(k => ind.d[k] == (k / M) * S), "the index column tells the node, NMC rows each"),
        chk(0.to(nr(X) - 1).forall(k => 0.to(n - 1).forall(j => near(at(Y, k, j), at(yn, k / M, j), 10000000))), "the points of a node map to it"),
        chk(0.to(nr(X) - 1).forall(k => near(w.d[k], w.d[k / M * M], 10)), "the weight of a node is shared equally"),
        if (argi(c, "bd", 0) == 1) chk(maxabsT(X) <= S + S / 1000000, "points lie in the hypercube") else [],
        avBad(c, o, W, yn, wn) ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val W = getx(o, "W")
    val kind = if (argi(c, "bd", 0) == 0) "hermite" else if (argi(c, "n", 1) == 1) "interval" else "zonotope"
    if (o.ok == "mmfail") { st: st, tag: "-design-failed", bad: chk(kind == "zonotope", "only a design can fail") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["a rule with valid arguments does not raise"] }
    else if (not(orthoOk(W))) { st: st, tag: "-none", bad: ["eigenvectors are orthogonal"] }
    else { st: st, tag: if (c.op == "av") kind else if (kind == "interval") "full-interval" else if (kind == "hermite") "full-hermite" else "full-zonotope",
      bad: if (c.op == "av") avBad(c, o, W, getx(o, "y"), getx(o, "w")) else fullBad(c, o, W) }
  }
}
module C15g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(9).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet full = 0.to(1).oneOf()
    nondet mm0 = 2.to(5).oneOf()
    nondet n0 = 1.to(4).oneOf()
    nondet N = 1.to(30).oneOf()
    nondet NMC = Set(1, 2, 3, 7, 10).oneOf()
    val bd = if (pick <= 6) 1 else 0
    val n = if (pick <= 4) 1 else if (pick <= 6) 2 + (if (s % 4 == 0) 1 else 0) else n0
    val m = if (bd == 0) max2(n, mm0) else if (n == 1) min2(mm0, 4) else if (n == 3) 3 else min2(mm0, 4)
    val NN = if (bd == 0) 1 + (if (s % 3 == 0) powi(1 + s % 4, n) - 1 else s % (if (n == 1) 14 else 90)) else if (n == 1) N else 1 + N % 5
    call' = { op: if (full == 1) "full" else "av", i: Map("n" -> n, "bd" -> bd, "den" -> 1, "rs" -> s, "N" -> NN, "NMC" -> NMC, "deep" -> (if (s % 2 == 0) 1 else 0), "direct" -> s / 7 % 2, "NX" -> 10000),
      x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk)) }
  }
}
