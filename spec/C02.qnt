// C02: gradient-free subspaces (OLS, QPHD, OPG) are those of the documented least-squares models.
module C02 {
  import fx.* from "./fx"
  import C01.* from "./C01"
  pure val s20: int = 0

  // exact weighted least squares over the rows of the integer design matrix B: (B^T W B) u = B^T W f
  pure def normalEq(B: List[List[int]], w: List[int], f: List[int]): { ok: bool, num: List[int], den: int } = {
    val k = B[0].length()
    val A = range(0, k).foldl([], (l51, a) => l51.append(range(0, k).foldl([], (l50, b) => l50.append(range(0, B.length()).foldl(0, (s49, i) => s49 + w[i] * B[i][a] * B[i][b])))))
    val r = range(0, k).foldl([], (l48, a) => l48.append([range(0, B.length()).foldl(0, (s47, i) => s47 + w[i] * B[i][a] * f[i])]))
    val z = solveI(A, r)
    if (z.ok) { ok: true, num: z.num.foldl([], (l46, v) => l46.append(v[0])), den: z.den } else { ok: false, num: [], den: 1 }
  }
  // C = b b^T (units of 1/S) for b = num / den
  pure def outerS(num: List[int], den: int): T = {
    val k = num.length()
    mkT([k, k], cat(range(0, k).foldl([], (l45, a) => l45.append(range(0, k).foldl([], (l44, b) => l44.append(rdiv(num[a] * num[b] * S, den * den)))))))
  }
  // pairs (a, b), a <= b
  pure def pairs(m: int): List[(int, int)] = range(0, m).foldl([], (acc, a) => range(a, m).foldl(acc, (ac2, b) => ac2.append((a, b))))
  // OLS. X integer over den, f integer over fden: design rows [den, X], coefficient of X is u * 1 in units 1/fden * den/den
  pure def olsC(X: T, den: int, f: T, fden: int, w: List[int]): { ok: bool, C: T } = {
    val B = rowsOf(X).foldl([], (l43, r) => l43.append([den].concat(r)))
    val z = normalEq(B, w, f.d)
    // with columns scaled by den, u_j (for X/den) = den * u'_j
    if (z.ok) { ok: true, C: outerS(z.num.slice(1, nc(X) + 1).foldl([], (l42, v) => l42.append(v * den)), z.den * fden) } else { ok: false, C: NOT }
  }
  pure def qphdC(X: T, den: int, f: T, fden: int, w: List[int]): { ok: bool, C: T } = {
    val m = nc(X)
    val pr = pairs(m)
    val B = rowsOf(X).foldl([], (l41, r) => l41.append([den * den].concat(r.foldl([], (l40, v) => l40.append(v * den))).concat(pr.foldl([], (l39, ab) => l39.append(r[ab._1] * r[ab._2])))))
    val z = normalEq(B, w, f.d)
    if (not(z.ok)) { ok: false, C: NOT } else {
      // coefficients for X/den: all columns carry den^2
      val b = z.num.slice(1, m + 1).foldl([], (l38, v) => l38.append(v * den * den))
      val q = z.num.slice(m + 1, z.num.length()).foldl([], (l37, v) => l37.append(v * den * den))
      val H = range(0, m).foldl([], (l36, a) => l36.append(range(0, m).foldl([], (l35, c2) => l35.append(range(0, pr.length()).foldl(0, (hv, k) =>
        if (pr[k] == (min2(a, c2), max2(a, c2))) q[k] * (if (a == c2) 2 else 1) else hv)))))
      val g = if (maxabsT(X) <= den) 3 else 1
      val dd = z.den * fden
      { ok: true, C: mkT([m, m], cat(range(0, m).foldl([], (l34, a) => l34.append(range(0, m).foldl([], (l33, c2) => l33.append(rdiv((g * b[a] * b[c2] + range(0, m).foldl(0, (s32, k) => s32 + H[a][k] * H[k][c2])) * S, g * dd * dd))))))) }
    }
  }
  // the spectrum and eigenvectors of an affine function: one nonzero eigenvalue |b|^2 with eigenvector b/|b|
  pure def affineBad(b: List[int], den: int, e: T, W: T): List[str] = {
    val m = b.length()
    val n2 = dotl(b, b)
    if (not(isSh(e, [m, 1])) or not(isSh(W, [m, m]))) ["shape of the eigenpairs"]
    else if (n2 == 0) chk(0.to(m - 1).forall(i => e.d[i] <= S / 1000000), "a constant function has zero eigenvalues")
    else {
      val tol = (n2 * S / (den * den)) / 1000000 + 1000
      bads([
        chk(near(e.d[0], n2 * S / (den * den), tol), "the nonzero eigenvalue of an affine function is |b|^2"),
        chk(0.to(m - 1).exclude(Set(0)).forall(i => e.d[i] <= tol), "an affine function has only one nonzero eigenvalue"),
        chk(0.to(m - 1).forall(i => near(abs(W.d[i * m]), abs(b[i]) * S / isqrt(n2 * 1000000000000) * 1000000, S / 1000000)), "the eigenvector of an affine function is b/|b|")
      ])
    }
  }
  pure def accept2(st: int, c: Call, o: Obs): { st: int, bad: List[str], tag: str } =
    if (o.ok != "ok") { st: st, bad: ["well-formed data raise"], tag: "raised" }
    else {
      val X = argx(c, "X")
      val f = argx(c, "f")
      val m = nc(X)
      val den = argi(c, "den_X", 1)
      val fden = argi(c, "den_f", 1)
      val w = argx(c, "w").d
      val e = getx(o, "e")
      val W = getx(o, "W")
      val aff = argi(c, "affine", 0) == 1
      val ab = if (aff) affineBad(argx(c, "b").d, argi(c, "den_b", 1), e, W) else []
      if (c.op == "opg") {
        val df = getx(o, "df")
        val dfBad = if (not(df.fin) or df.sh.length() != 2 or nr(df) == 0) ["local linear gradients"] else {
          val C = mkT([m, m], cat(range(0, m).foldl([], (l29, a) => l29.append(range(0, m).foldl([], (l28, b) => l28.append(rdiv(range(0, nr(df)).foldl(0, (s27, i) => s27 + at(df, i, a) * at(df, i, b)), nr(df) * S)))))))
          eigBad(C, e, W) }
        { st: st, bad: ab.concat(dfBad), tag: if (aff) "opg-affine" else "opg-general" }
      } else {
        val z = if (c.op == "ols") olsC(X, den, f, fden, w) else qphdC(X, den, f, fden, w)
        if (not(z.ok)) { st: st, bad: [], tag: "-degenerate" }
        else { st: st, bad: ab.concat(eigBad(z.C, e, W)),
          tag: if (c.op == "ols") (if (aff) "ols-affine" else "ols-general")
               else if (maxabsT(X) == den) "qphd-boundary" else if (maxabsT(X) < den) "qphd-uniform" else "qphd-gaussian" }
      }
    }
}
module C02c {
  import fx.* from "./fx"
  import C02.* from "./C02"
  type St = int
  pure val st0: St = 0
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = accept2(st, c, o)
}
module C02g {
  import fx.* from "./fx"
  import C02.* from "./C02"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("ols", "ols", "qphd", "qphd", "opg").oneOf()
    nondet m0 = 2.to(4).oneOf()
    nondet extra = 0.to(4).oneOf()
    nondet kind = 0.to(3).oneOf()       // 0 affine, 1 exactly quadratic, 2..3 arbitrary outputs
    nondet box = 0.to(3).oneOf()        // 0 within, 1 touching the boundary, 2 only below -1, 3 beyond
    nondet wk = 0.to(3).oneOf()
    nondet lay = Set(0, 0, 1, 3, 4).oneOf()
    nondet via = 0.to(1).oneOf()
    val m = if (op == "qphd") min2(m0, 3) else m0
    val basis = (m + 1) * (m + 2) / 2
    val M = if (op == "qphd") basis + extra + 1 else if (op == "ols") m + 2 + extra * extra else 2 * m + 3 + extra
    val den = if (op == "opg") 30000 else 64
    val r0 = rlist(s, M * m, -den, den)
    val X = mkT([M, m], range(0, M * m).foldl([], (l26, k) => l26.append(if (box == 0) (if (abs(r0[k]) == den) 0 else r0[k])
      else if (box == 1) (if (k == s % (M * m)) (if (s % 2 == 0) den else -den) else r0[k])
      else if (box == 2) (if (k == s % (M * m)) -(den + 1 + s % 9) else r0[k])
      else r0[k] * 3)))
    val b = rlist(s + 1, m, -9, 9)
    val q = rlist(s + 2, m * m, -5, 5)
    val c0 = rnd(s, 3, -20, 20)
    val rows = rowsOf(X)
    val wts = if (wk <= 1) range(0, M).foldl([], (l25, i) => l25.append(1)) else if (kind == 0 or op != "qphd" or kind == 1) rlist(s + 7, M, 1, 9) else range(0, M).foldl([], (l24, i) => l24.append(3))
    // f over den^2
    val f = mkT([M, 1], if (kind == 0) rows.foldl([], (l23, r) => l23.append((c0 * den + dotl(b, r)) * den))
      else if (kind == 1) rows.foldl([], (l22, r) => l22.append(c0 * den * den + dotl(b, r) * den + range(0, m * m).foldl(0, (s21, k) => s21 + q[k] * r[k / m] * r[k % m])))
      else rlist(s + 4, M, -200 * den, 200 * den))
    call' = { op: op, i: Map("den_X" -> den, "den_f" -> den * den, "den_b" -> 1, "den_w" -> (if (wk == 1) 10 else M), "wdef" -> (if (wk == 0) 1 else 0), "lay" -> lay,
        "affine" -> (if (kind == 0) 1 else 0), "via" -> via, "rs" -> s),
      x: Map("X" -> X, "f" -> f, "w" -> mkT([M, 1], wts), "b" -> mkT([m, 1], b)) }
  }
}
