// C07: the samplers of the inactive variables return N points of the slice { z : -1 <= W1 y + W2 z <= 1 } that spread over it.
module C07 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  type St = int
  pure val st0: St = 0
  pure val TOLF: int = S / 1000000
  // samplers: 0 sample_z, 1 rejection, 2 hit and run, 3 random walk
  // constraints of the slice as half planes g.z <= h
  pure def halves(W2: T, s: List[int]): List[{ g: List[int], h: int }] =
    cat(range(0, nr(W2)).foldl([], (l16, i) => l16.append([{ g: rowOf(W2, i), h: S - s[i] }, { g: neg(rowOf(W2, i)), h: S + s[i] }])))
  // ---- one inactive variable: the slice is an interval -------------------
  pure def ends(hs: List[{ g: List[int], h: int }]): { lo: int, hi: int } =
    hs.foldl({ lo: -1000 * S, hi: 1000 * S }, (a, c) => if (abs(c.g[0]) < S / 10000000) a
      else if (c.g[0] > 0) { ...a, hi: min2(a.hi, fdv(c.h, c.g[0])) } else { ...a, lo: max2(a.lo, fdv(c.h, c.g[0])) })
  pure def spread1(e: { lo: int, hi: int }, zs: List[int], parts: int, least: int): bool =
    0.to(parts - 1).forall(b => zs.foldl(0, (a, v) => a + (if ((v - e.lo) * parts >= b * (e.hi - e.lo) and (v - e.lo) * parts < (b + 1) * (e.hi - e.lo)) 1 else 0)) >= least)
  // ---- two inactive variables: the slice is a polygon, given by its vertices
  pure def polygon(hs: List[{ g: List[int], h: int }]): List[List[int]] =
    cat(cat(hs.indices().fold([], (l, i) => l.append(i)).foldl([], (a, i) => a.append(range(0, i).foldl([], (l14, j) => l14.append({
      val d = fmul(hs[i].g[0], hs[j].g[1]) - fmul(hs[i].g[1], hs[j].g[0])
      if (abs(d) < S / 100000) [] else {
        val v = [fdv(fmul(hs[i].h, hs[j].g[1]) - fmul(hs[i].g[1], hs[j].h), d), fdv(fmul(hs[i].g[0], hs[j].h) - fmul(hs[i].h, hs[j].g[0]), d)]
        if (inside(hs, v)) [v] else [] } }))))))
  pure def inside(hs: List[{ g: List[int], h: int }], z: List[int]): bool = hs.foldl(true, (q13, c) => q13 and (dotl(c.g, z) / S <= c.h + TOLF))
  pure val DIRS: List[List[int]] = [[1, 0], [0, 1], [1, 1], [1, -1], [2, 1], [1, 2], [2, -1], [1, -2]]
  pure def lmin(l: List[int]): int = l.foldl(l[0], (a, b) => min2(a, b))
  pure def lmax(l: List[int]): int = l.foldl(l[0], (a, b) => max2(a, b))
  // the samples come within pct percent of the width from both sides, in every direction
  pure def spread2(poly: List[List[int]], zs: List[List[int]], pct: int): bool = DIRS.foldl(true, (q12, u) => q12 and ({
    val p = poly.foldl([], (l11, v) => l11.append(dotl(u, v)))
    val q = zs.foldl([], (l10, v) => l10.append(dotl(u, v)))
    val lo = lmin(p)
    val hi = lmax(p)
    (lmin(q) - lo) * 100 <= pct * (hi - lo) and (hi - lmax(q)) * 100 <= pct * (hi - lo) }))
  // share of the bounding box (10 by 10 grid, percent) that is feasible
  pure def share2(hs: List[{ g: List[int], h: int }], poly: List[List[int]]): int = {
    val x0 = lmin(poly.foldl([], (l9, v) => l9.append(v[0])))
    val x1 = lmax(poly.foldl([], (l8, v) => l8.append(v[0])))
    val y0 = lmin(poly.foldl([], (l7, v) => l7.append(v[1])))
    val y1 = lmax(poly.foldl([], (l6, v) => l6.append(v[1])))
    range(0, 100).foldl(0, (s5, k) => s5 + if (inside(hs, [x0 + (x1 - x0) * (2 * (k % 10) + 1) / 20, y0 + (y1 - y0) * (2 * (k / 10) + 1) / 20])) 1 else 0)
  }
  pure def sampleBad(c: Call, o: Obs, W: T, n: int): List[str] = {
    val m = nc(W)
    val k = m - n
    val N = argi(c, "N", 1)
    val smp = argi(c, "smp", 0)
    val y = getx(o, "y")
    val W2 = W2of(W, n)
    val want = mmS(toS(argx(c, "X0"), argi(c, "den_X0", 1)), W1of(W, n))
    val wide = argi(c, "wide", 0) == 1       // the slice contains a ball of radius 1/8
    val z = getx(o, "z")
    if (not(nearT(mkT([1, n], y.d), want, 10000000))) ["the active point is that of X0"]
    else {
      val s = mmS(mkT([1, n], y.d), tr(W1of(W, n))).d
      val hs = halves(W2, s)
      if (z.sh == [-2]) {
        if (smp != 1) ["a sampler returns samples"]
        else if (k == 1 and wide) ["rejection sampling accepts every point of the box when one variable is inactive"]
        else if (k == 2 and wide and N >= 5) chk(share2(hs, polygon(hs)) < 15, "rejection sampling gives up only when few points are accepted")
        else []
      }
      else if (not(isSh(z, [N, k]))) ["a sampler returns an N-by-(m-n) array"]
      else {
        val rows = rowsOf(z)
        bads([
          chk(rows.foldl(true, (q4, r) => q4 and (hs.foldl(true, (q3, c2) => q3 and (dotl(c2.g, r) / S <= c2.h + TOLF)))), "every sample lies in the slice"),
          if (not(wide)) []
          else if (smp == 3) (if (N >= 1000) chk(rows.indices().exists(a => rows[a] != rows[0]), "the samples vary") else [])
          else chk(0.to(N - 1 - 1).forall(a => rows[a] != rows[a + 1]), "the samples vary"),
          if (not(wide) or N < 300) []
          else if (k == 1) chk(spread1(ends(hs), z.d, if (smp == 3) 3 else 10, if (smp == 3) 1 else 10), "the samples spread over the slice")
          else if (k == 2 and smp != 3) chk(spread2(polygon(hs), rows, 30), "the samples spread over the slice")
          else [] ])
      }
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val W = getx(o, "W")
    val n = argi(c, "n", 1)
    val smp = ["default", "rejection", "hitrun", "walk"][argi(c, "smp", 0)]
    if (o.ok != "ok") { st: st, tag: "raised", bad: ["a sampler given a point of the domain does not raise"] }
    else if (not(orthoOk(W)) or n >= nc(W)) { st: st, tag: "-none", bad: chk(orthoOk(W), "eigenvectors are orthogonal") }
    else { st: st, tag: if (argi(c, "wide", 0) == 0) "edge" else if (argi(c, "N", 1) >= 300 and nc(W) - n <= 2) "spread" else "interior", bad: sampleBad(c, o, W, n) }
  }
}
module C07g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet mm0 = 2.to(6).oneOf()
    nondet n0 = 1.to(4).oneOf()
    nondet smp = Set(0, 1, 2, 2, 3).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet N = Set(1, 2, 5, 12).oneOf()
    nondet big = 0.to(3).oneOf()
    val spread = big <= 1 and kind <= 2
    val n = if (spread) max2(1, mm0 - 1 - s % 2) else min2(n0, mm0 - 1)
    val eps = powi(10, 1 + s % 7)
    val X0 = rlist(s, mm0, -7, 7).foldl([], (l1, v) => l1.append(// well inside; on the cube's boundary; on and near its corners
      if (kind <= 2) v * 125000000 else if (kind == 3) max2(-1000000000, min2(1000000000, v * 250000000))
      else if (kind == 4) (if (v < 0) -1000000000 else 1000000000)
      else if (kind == 5) sgn(2 * v + 1) * (1000000000 - eps) else sgn(2 * v + 1) * (1000000000 - eps * abs(v))))
    call' = { op: "sample", i: Map("n" -> n, "smp" -> smp, "N" -> (if (spread) (if (smp == 3) 3000 else 300) else N), "den" -> 1, "den_X0" -> 1000000000, "rs" -> s,
        "wide" -> (if (kind <= 2) 1 else 0)),
      x: Map("df" -> gradients(s, mm0, gk), "X0" -> mkT([1, mm0], X0)) }
  }
}
