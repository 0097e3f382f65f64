// C12: local linear gradients are least-squares fits over the p nearest other points of one of the given points.
module C12 {
  import fx.* from "./fx"
  import C02.normalEq from "./C02"
  type St = int
  pure val st0: St = 0
  // ceil(10 m ln m)
  pure val ROWS: List[int] = [0, 0, 14, 33, 56, 81, 108]
  pure def defaultP(m: int, M: int): int = min2(17 * m / 10, M)
  pure def valid(c: Call): bool = {
    val M = nr(argx(c, "X"))
    val m = nc(argx(c, "X"))
    val p = argi(c, "p", 0)
    M > m and (if (argi(c, "pk", 0) == 0) defaultP(m, M) >= m + 1 else argi(c, "pk", 0) == 1 and p >= m + 1 and p <= M) }
  // the p nearest other points of point a (the point itself only when all others are used); no ties at the border
  pure def nearest(rows: List[List[int]], a: int, p: int): { ok: bool, l: List[int] } = {
    val M = rows.length()
    val d = rows.foldl([], (l16, r) => l16.append(range(0, r.length()).foldl(0, (s15, k) => s15 + (r[k] - rows[a][k]) * (r[k] - rows[a][k]))))
    val rank = range(0, M).foldl([], (l14, i) => l14.append(range(0, M).foldl(0, (s13, j) => s13 + if (j != a and j != i and d[j] < d[i]) 1 else 0)))
    val pp = min2(p, M - 1)
    val l = range(0, M).foldl([], (acc, i) => if (i != a and rank[i] < pp) acc.append(i) else acc)
    { ok: l.length() == pp, l: if (p == M) l.append(a) else l } }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val X = argx(c, "X")
    val f = argx(c, "f").d
    val den = argi(c, "den_X", 1)
    val fden = argi(c, "den_f", 1)
    val m = nc(X)
    val M = nr(X)
    if (not(valid(c))) { st: st, tag: "rejected", bad: chk(o.ok != "ok", "too few samples or a bad p raise") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["well-formed samples raise"] }
    else {
      val p = if (argi(c, "pk", 0) == 0) defaultP(m, M) else argi(c, "p", 0)
      val df = getx(o, "df")
      val k = min2(ROWS[m], M - 1)
      if (not(isSh(df, [k, m]))) { st: st, tag: "shape", bad: ["min(ceil(10 m ln m), M-1) rows of m derivatives"] }
      else {
        val rows = rowsOf(X)
        val fits = range(0, M).foldl([], (l12, a) => l12.append({ val nb = nearest(rows, a, p)
          val z = if (nb.ok) normalEq(nb.l.foldl([], (l11, i) => l11.append([den].concat(rows[i]))), nb.l.foldl([], (l10, i) => l10.append(1)), nb.l.foldl([], (l9, i) => l9.append(f[i]))) else { ok: false, num: [], den: 1 }
          { ok: nb.ok and z.ok, g: if (nb.ok and z.ok) range(0, m).foldl([], (l8, j) => l8.append(rdiv(z.num[j + 1] * den * S, z.den * fden))) else [] } }))
        val good = fits.foldl(true, (q7, t) => q7 and (t.ok))
        val hits = range(0, k).foldl([], (l6, r) => l6.append(range(0, M).foldl(-1, (h, a) => if (h < 0 and 0.to(m - 1).forall(j => abs(at(df, r, j) - fits[a].g[j]) <= (lmaxabs(fits[a].g) + S) / 1000000)) a else h)))
        if (not(good)) { st: st, tag: "-degenerate", bad: [] }
        else { st: st, tag: if (argi(c, "affine", 0) == 1) "affine" else if (argi(c, "pk", 0) == 0) "default-p" else if (p == M) "all-points" else "given-p",
          bad: bads([
            chk(hits.foldl(true, (q4, h) => q4 and (h >= 0)), "each row is the least-squares gradient over the p nearest other points of a given point"),
            chk(argi(c, "affine", 0) == 1 or p >= M - 1 or k < 8 or hits.foldl(false, (q3, h) => q3 or (h != hits[0])), "the rows come from varying points") ]) }
      }
    }
  }
}
module C12g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet m = 2.to(5).oneOf()
    nondet extra = 0.to(8).oneOf()
    nondet pk0 = 0.to(11).oneOf()
    nondet aff = 0.to(2).oneOf()
    nondet wk = 0.to(2).oneOf()
    nondet lay = 0.to(5).oneOf()
    // sometimes too few points
    val M = max2(2, if (extra == 0) m else m + extra + (if (s % 20 == 0) 50 else if (s % 5 == 0) 12 else 0))
    // pk: 0 default, 1 an int, 2 a float, 3 a string
    val pk = if (pk0 <= 4) 0 else if (pk0 <= 9) 1 else pk0 - 8
    val p = if (pk0 == 5) m + 1 else if (pk0 == 6) M else if (pk0 == 7) M - 1 else if (pk0 == 8) (if (s % 2 == 0) m else M + 1) else m + 1 + s % max2(1, M - m)
    val X = rT(s, M, m, -30000, 30000)
    val b = rlist(s + 1, m, -9, 9)
    call' = { op: "llg", i: Map("den_X" -> (if (lay == 2) 1 else 30000), "den_f" -> (if (lay == 2) 1 else 30000), "den_w" -> 10, "pk" -> pk, "p" -> p, "affine" -> (if (aff == 0) 1 else 0), "rs" -> s, "lay" -> lay, "wdef" -> (if (wk == 0) 1 else 0)),
      x: Map("X" -> X, "w" -> mkT([M, 1], if (wk == 1) range(0, M).foldl([], (l2, k) => l2.append(10)) else rlist(s + 2, M, 1, 90)),
        "f" -> (if (aff == 0) mkT([M, 1], rowsOf(X).foldl([], (l1, r) => l1.append(70000 + dotl(b, r)))) else rT(s + 3, M, 1, -300000, 300000))) }
  }
}
