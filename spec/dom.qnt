// Shared by the domain specifications: the exact projection of the hypercube under recorded eigenvectors (units of 1/S).
module dom {
  import fx.* from "./fx"
  pure val ONE: T = mkT([1, 1], [S])
  // product of two fixed-point matrices
  pure def mmS(a: T, b: T): T = if (a.d == [] or b.d == []) mkT([nr(a), nc(b)], range(0, nr(a) * nc(b)).foldl([], (l20, k) => l20.append(0))) else scaleT(mm(a, b), 1, S)
  pure def W1of(W: T, n: int): T = colSlice(W, 0, n)
  pure def W2of(W: T, n: int): T = if (n == nc(W)) mkT([nr(W), 0], []) else colSlice(W, n, nc(W))
  pure def orthoOk(W: T): bool = W.fin and W.sh.length() == 2 and nr(W) == nc(W) and {
    val wc = colsOf(W)
    0.to(nc(W) - 1).forall(a => 0.to(nc(W) - 1).forall(b => near(dotl(wc[a], wc[b]) / S, if (a == b) S else 0, S / 1000000000))) }
  // directions whose sign patterns enumerate the zonotope's vertices (n = 2, 3): normals of the facets, in units of 1/S
  pure def cross2(a: List[int]): List[int] = [-a[1], a[0]]
  pure def cross3(a: List[int], b: List[int]): List[int] = [fmul(a[1], b[2]) - fmul(a[2], b[1]), fmul(a[2], b[0]) - fmul(a[0], b[2]), fmul(a[0], b[1]) - fmul(a[1], b[0])]
  pure def normals(rows: List[List[int]], n: int): List[List[int]] =
    if (n == 1) [[S]]
    else if (n == 2) rows.foldl([], (l17, r) => l17.append(cross2(r)))
    else cat(range(0, rows.length()).foldl([], (l16, i) => l16.append(range(0, i).foldl([], (l15, j) => l15.append(cross3(rows[i], rows[j]))))))
  // support of the zonotope in direction u: sum |u.w_i|
  pure def support(rows: List[List[int]], u: List[int]): int = rows.foldl(0, (a, r) => a + abs(dotl(u, r) / S))
  // signed slack of y in the zonotope: min over facets of (support - |u.y|) / |u|; negative outside
  pure def slack(rows: List[List[int]], n: int, y: List[int]): int =
    normals(rows, n).foldl(1000 * S, (a, u) => { val nu = fsqrt(dotl(u, u) / S)
      if (nu < S / 1000000) a else min2(a, fdv(support(rows, u) - abs(dotl(u, y) / S), nu)) })
  // corner of the cube for direction u, refined along v for rows orthogonal to u, and along t for rows orthogonal to both
  pure def corner(rows: List[List[int]], u: List[int], v: List[int], t: List[int]): List[int] = rows.foldl([], (l14, r) => l14.append({
    val a = dotl(u, r) / S
    val b = dotl(v, r) / S
    val c2 = dotl(t, r) / S
    if (abs(a) > 10000) sgn(a) else if (abs(b) > 10000) sgn(b) else if (c2 >= 0) 1 else -1 }))
  pure def neg(l: List[int]): List[int] = l.foldl([], (l13, x) => l13.append(-x))
  // corners mapping to all vertices of the zonotope, n <= 3
  pure def vertexCorners(rows: List[List[int]], n: int): List[List[int]] =
    if (n == 1) [corner(rows, [S], [S], [S]), corner(rows, [-S], [-S], [-S])]
    else if (n == 2) cat(rows.select(r => lmaxabs(r) > 1000000).foldl([], (l12, r) => l12.append([corner(rows, cross2(r), r, r), corner(rows, cross2(r), neg(r), neg(r)), corner(rows, neg(cross2(r)), r, r), corner(rows, neg(cross2(r)), neg(r), neg(r))])))
    else cat(range(0, rows.length()).foldl([], (l11, i) => l11.append(cat(range(0, i).foldl([], (l10, j) => l10.append({
      val u = cross3(rows[i], rows[j])
      // perturbations to each side of both rows: directions in the span of the rows that are orthogonal to one of them
      val p = cross3(rows[i], u)
      val q = cross3(rows[j], u)
      if (lmaxabs(u) < 1000000) [] else cat([u, neg(u)].foldl([], (l9, uu) => l9.append([corner(rows, uu, p, q), corner(rows, uu, p, neg(q)), corner(rows, uu, neg(p), q), corner(rows, uu, neg(p), neg(q)) ]))) }))))))
  pure def imageOf(rows: List[List[int]], n: int, x: List[int]): List[int] = range(0, n).foldl([], (l8, k) => l8.append(range(0, rows.length()).foldl(0, (s7, i) => s7 + x[i] * rows[i][k])))
  // some n rows are nearly dependent: the zonotope has edges or cones too thin to be found by sampling
  pure def thin(rows: List[List[int]], n: int): bool = {
    val m = rows.length()
    val idx = if (n == 2) tuples2(m) else if (n == 3) tuples3(m) else tuples4(m)
    idx.foldl(false, (q32, ix) => q32 or ({
      val d = abs(detI(ix.foldl([], (l31, i) => l31.append(rows[i].foldl([], (l30, v) => l30.append(v / 1000000000))))))      // units of 1e-6 each
      val p = ix.foldl(1, (a, i) => a * (isqrt(dotl(rows[i], rows[i])) / 1000000000))
      d * 20 < p }))
  }
  pure def tuples2(m: int): List[List[int]] = cat(range(0, m).foldl([], (l29, i) => l29.append(range(0, i).foldl([], (l28, j) => l28.append([i, j])))))
  pure def tuples3(m: int): List[List[int]] = cat(cat(range(0, m).foldl([], (l27, i) => l27.append(range(0, i).foldl([], (l26, j) => l26.append(range(0, j).foldl([], (l25, k) => l25.append([i, j, k]))))))))
  pure def tuples4(m: int): List[List[int]] = cat(cat(cat(range(0, m).foldl([], (l24, i) => l24.append(range(0, i).foldl([], (l23, j) => l23.append(range(0, j).foldl([], (l22, k) => l22.append(range(0, k).foldl([], (l21, q) => l21.append([i, j, k, q])))))))))))
  // gradients that determine the subspaces of a case
  pure def gradients(s: int, m: int, kind: int): T =
    if (kind == 0) rT(s, 2 * m, m, -9, 9)
    else if (kind == 1) rT(s, m + 1, m, -99, 99)
    else if (kind == 2) mkT([m, m], cat(range(0, m).foldl([], (l6, i) => l6.append(range(0, m).foldl([], (l5, j) => l5.append(if (i == j) m - i + 1 else 0))))))      // coordinate axes
    else if (kind == 3 and m == 4) mkT([4, 4], cat(range(0, 4).foldl([], (l4, i) => l4.append([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]][i].foldl([], (l3, v) => l3.append(v * (5 - i)))))))
    else mkT([m, m], cat(range(0, m).foldl([], (l2, i) => l2.append(range(0, m).foldl([], (l1, j) => l1.append(if (i == j) 3 else if (i < j) 0 else rnd(s, i * m + j, -4, 4)))))))
}
