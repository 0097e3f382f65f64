// C05: bootstrap ranges are the extremes and means over subspaces of joint resamples drawn with replacement.
module C05 {
  import fx.* from "./fx"
  import C01.outer from "./C01"
  type St = int
  pure val st0: St = 0

  // ---- number of eigenvalues of a symmetric matrix above a bound -----------
  // characteristic polynomial of C (size 2 or 3, entries in 1/S), coefficients from degree 0, in units 1/S
  pure def charpoly(C: T): List[int] =
    if (nr(C) == 2) [fmul(C.d[0], C.d[3]) - fmul(C.d[1], C.d[2]), -(C.d[0] + C.d[3]), S]
    else {
      val d = C.d
      val c2 = d[0] + d[4] + d[8]
      val c1 = fmul(d[0], d[4]) - fmul(d[1], d[3]) + fmul(d[0], d[8]) - fmul(d[2], d[6]) + fmul(d[4], d[8]) - fmul(d[5], d[7])
      val c0 = fmul(d[0], fmul(d[4], d[8]) - fmul(d[5], d[7])) - fmul(d[1], fmul(d[3], d[8]) - fmul(d[5], d[6])) + fmul(d[2], fmul(d[3], d[7]) - fmul(d[4], d[6]))
      [-c0, c1, -c2, S]
    }
  // p(x + t)
  pure def shiftPoly(p: List[int], t: int): List[int] =
    if (p.length() == 3) [p[0] + fmul(p[1], t) + fmul(t, t), p[1] + 2 * t, S]
    else [p[0] + fmul(p[1], t) + fmul(p[2], fmul(t, t)) + fmul(t, fmul(t, t)), p[1] + 2 * fmul(p[2], t) + 3 * fmul(t, t), p[2] + 3 * t, S]
  // all roots are real: the number of sign changes is the number of roots above t (Descartes)
  pure def above(p: List[int], t: int): int =
    shiftPoly(p, t).foldl({ s: 0, n: 0 }, (a, v) => if (v == 0) a else { s: sgn(v), n: if (a.s != 0 and a.s != sgn(v)) a.n + 1 else a.n }).n

  // all index tuples drawn with replacement
  pure def drawsOf(M: int): List[List[int]] = range(0, powi(M, M)).foldl([], (acc, k) => acc.append(range(0, M).foldl([], (l35, j) => l35.append((k / powi(M, j)) % M))))
  pure def resample(df: T, den: int, w: List[int], wden: int, tu: List[int]): T =
    outer(mkT([tu.length(), nc(df)], cat(tu.foldl([], (l34, j) => l34.append(rowOf(df, j))))), den, tu.foldl([], (l33, j) => l33.append(w[j])), wden)
  // squared subspace distance in two dimensions: 1 - (w.v)^2, v the leading eigenvector of C, by its projector
  pure def dist2(C: T, w: List[int]): { ok: bool, d: int } = {
    val d = C.d
    val disc = fsqrt(max2(fmul(d[0] - d[3], d[0] - d[3]) + 4 * fmul(d[1], d[1]), 0))
    val l2 = (d[0] + d[3] - disc) / 2
    val q = fmul(w[0], fmul(w[0], d[0] - l2)) + 2 * fmul(w[0], fmul(w[1], d[1])) + fmul(w[1], fmul(w[1], d[3] - l2))
    if (disc < S / 1000) { ok: false, d: 0 } else { ok: true, d: fsqrt(max2(0, S - fdv(q, disc))) }
  }
  pure def boundsBad(e: T, br: T, sb: T, m: int): List[str] =
    if (not(isSh(e, [m, 1]))) ["eigenvalues"] else if (not(isSh(br, [m, 2]))) ["eigenvalue ranges are m-by-2"] else if (not(isSh(sb, [m - 1, 3]))) ["subspace ranges are (m-1)-by-3"]
    else bads([
      chk(0.to(m - 1).forall(k => at(br, k, 0) <= at(br, k, 1) and at(br, k, 0) >= 0), "eigenvalue ranges are ordered"),
      chk(0.to(m - 1 - 1).forall(k => at(br, k, 0) >= at(br, k + 1, 0) and at(br, k, 1) >= at(br, k + 1, 1)), "eigenvalue ranges are non-increasing"),
      chk(0.to(m - 1 - 1).forall(k => at(sb, k, 0) <= at(sb, k, 1) + 1000 and at(sb, k, 1) <= at(sb, k, 2) + 1000), "subspace ranges are ordered: min, mean, max"),
      chk(0.to(m - 1 - 1).forall(k => at(sb, k, 0) >= 0 and at(sb, k, 2) <= S + S / 1000000000), "subspace errors lie in [0,1]")
    ])
  pure def enumBad(c: Call, o: Obs): List[str] = {
    val df = argx(c, "df")
    val m = nc(df)
    val M = nr(df)
    val w = argx(c, "w").d
    val br = getx(o, "br")
    val sb = getx(o, "sb")
    val W = getx(o, "W")
    val tus = drawsOf(M)
    val Cs = tus.foldl([], (l28, tu) => l28.append(resample(df, argi(c, "den", 1), w, argi(c, "den_w", 1), tu)))
    val ps = Cs.foldl([], (l27, C) => l27.append(charpoly(C)))
    val tol = lmaxabs(cat(Cs.foldl([], (l26, C) => l26.append(C.d)))) / 1000000 + S / 10000000
    val ebad = bads([
      chk(0.to(m - 1).forall(k => ps.foldl(true, (q24, p) => q24 and (above(p, at(br, k, 0) - tol) >= k + 1))), "no resample has an eigenvalue below its range"),
      chk(0.to(m - 1).forall(k => ps.foldl(true, (q22, p) => q22 and (above(p, at(br, k, 1) + tol) <= k))), "no resample has an eigenvalue above its range"),
      chk(0.to(m - 1).forall(k => ps.foldl(false, (q20, p) => q20 or (above(p, at(br, k, 0) + tol) <= k))), "the lower end is attained by a resample"),
      chk(0.to(m - 1).forall(k => ps.foldl(false, (q18, p) => q18 or (above(p, at(br, k, 1) - tol) >= k + 1))), "the upper end is attained by a resample") ])
    if (m != 2) ebad else {
      val ds = Cs.foldl([], (l17, C) => l17.append(dist2(C, [W.d[0], W.d[2]])))
      if (ds.foldl(false, (q16, d) => q16 or (not(d.ok)))) ebad else {
        val lo = ds.foldl(S, (a, d) => min2(a, d.d))
        val hi = ds.foldl(0, (a, d) => max2(a, d.d))
        val mean = rdiv(ds.foldl(0, (a, d) => a + d.d), ds.length())
        // seven standard errors of a variable in [lo, hi]
        val slack = 7 * (hi - lo) / 2 / isqrt(argi(c, "nboot", 1)) + S / 1000
        ebad.concat(bads([
          chk(near(at(sb, 0, 0), lo, S / 50000), "the smallest subspace error is that of some resample"),
          chk(near(at(sb, 0, 2), hi, S / 50000), "the largest subspace error is that of some resample"),
          chk(near(at(sb, 0, 1), mean, slack), "the mean subspace error is the mean over resamples") ]))
      } }
  }
  // ---- replicates recorded at the estimation function ----------------------
  // largest singular value of a matrix with at most two rows or two columns
  pure def gram2(B: T): int = {
    val L = if (nr(B) <= nc(B)) rowsOf(B) else colsOf(B)
    if (L.length() == 1) fsqrt(dotl(L[0], L[0]) / S)
    else {
      val a = dotl(L[0], L[0]) / S
      val b = dotl(L[0], L[1]) / S
      val d = dotl(L[1], L[1]) / S
      fsqrt((a + d + fsqrt(fmul(a - d, a - d) + 4 * fmul(b, b))) / 2)
    }
  }
  pure def detS(B: T): int = if (nr(B) == 1) B.d[0] else fmul(B.d[0], B.d[3]) - fmul(B.d[1], B.d[2])
  pure def blockOf(A: T, B: T, a0: int, a1: int, b0: int, b1: int): T = scaleT(mm(tr(colSlice(A, a0, a1)), colSlice(B, b0, b1)), 1, S)
  // |det| of the leading blocks; for orthogonal matrices it equals that of the complementary block
  pure def ladet(W: T, V: T, k: int): int = {
    val m = nr(W)
    abs(if (k <= 2) detS(blockOf(W, V, 0, k, 0, k)) else detS(blockOf(W, V, k, m, k, m)))
  }
  pure def recBad(c: Call, o: Obs): List[str] = {
    val m = argi(c, "m", 0)
    val nb = argi(c, "nboot", 0)
    val W = getx(o, "W")
    val br = getx(o, "br")
    val sb = getx(o, "sb")
    val E = getx(o, "re")         // nboot-by-m eigenvalues of the replicates
    val Vs = getx(o, "rW")        // (nboot m)-by-m eigenvectors
    val R = getx(o, "rows")       // (nboot M)-by-(q) rows of all replicates: data columns then weight
    val base = getx(o, "base")    // M-by-q rows of the data
    if (geti(o, "nrec") != nb) [] else if (not(isSh(E, [nb, m])) or not(isSh(Vs, [nb * m, m]))) ["replicates are finite"] else {
      val V = range(0, nb).foldl([], (l15, r) => l15.append(mkT([m, m], Vs.d.slice(r * m * m, (r + 1) * m * m))))
      val dist = range(0, m - 1).foldl([], (l14, j) => l14.append(V.foldl([], (l13, v) => l13.append(gram2(blockOf(W, v, 0, j + 1, j + 1, m))))))
      val lf = range(0, m).foldl([], (l12, j) => l12.append(if (j == 0) 0 else V.foldl(0, (a, v) => a + S - ladet(W, v, j))))
      val lt = lsum(lf)
      val li = getx(o, "li")
      val ok = S / 10000000
      val brow = rowsOf(base)
      bads([
        chk(nr(R) == nb * nr(base) and rowsOf(R).foldl(true, (p, r) => p and brow.foldl(false, (q11, b) => q11 or (b == r))), "inputs, outputs, gradients and weights of a sample stay together in a resample"),
        chk(0.to(m - 1).forall(k => at(br, k, 0) == range(0, nb).foldl(at(E, 0, k), (a, r) => min2(a, at(E, r, k))) and
                         at(br, k, 1) == range(0, nb).foldl(at(E, 0, k), (a, r) => max2(a, at(E, r, k)))), "eigenvalue ranges are the extremes over the resamples"),
        chk(0.to(m - 1 - 1).forall(j => near(at(sb, j, 0), dist[j].foldl(S * 2, (a, d) => min2(a, d)), ok) and near(at(sb, j, 2), dist[j].foldl(0, (a, d) => max2(a, d)), ok)),
          "subspace ranges are the extremes over the resamples"),
        chk(0.to(m - 1 - 1).forall(j => near(at(sb, j, 1), rdiv(lsum(dist[j]), nb), ok)), "the subspace mean is the mean over the resamples"),
        chk(not(isSh(li, [m, 1])) or lt < S / 1000000 or 0.to(m - 1).forall(j => near(li.d[j], fdv(lf[j], lt), S / 1000000)), "Li's metric is the normalized mean of 1 - |det|")
      ])
    }
  }
  // affine (OLS) or quadratic (QPHD) data: every joint resample that determines the model gives the same subspace
  pure def jointBad(c: Call, o: Obs): List[str] = {
    val br = getx(o, "br")
    val sb = getx(o, "sb")
    val e = getx(o, "e")
    val tol = maxabsT(e) / 1000000 + 1000000
    bads([
      chk(0.to(nr(e) - 1).forall(k => near(at(br, k, 0), e.d[k], tol) and near(at(br, k, 1), e.d[k], tol)), "resamples of exactly modelled data give the same eigenvalues"),
      chk(sb.d[0] >= 0 and sb.d[2] <= S / 10000, "resamples of exactly modelled data give the same leading subspace") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (o.ok != "ok") { st: st, bad: ["well-formed bootstrap raises"], tag: "raised" }
    else {
      val m = argi(c, "m", 0)
      val b0 = boundsBad(getx(o, "e"), getx(o, "br"), getx(o, "sb"), m)
      if (b0 != []) { st: st, bad: b0, tag: c.op }
      else if (c.op == "enum") { st: st, bad: enumBad(c, o), tag: if (m == 2) "enum2" else "enum3" }
      else if (c.op == "rec") { st: st, bad: recBad(c, o), tag: if (geti(o, "nrec") == argi(c, "nboot", 0)) "rec" else "rec-unobserved" }
      else { st: st, bad: jointBad(c, o), tag: c.op }
    }
}
module C05g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action doEnum = {
    nondet s = 1.to(1000000000).oneOf()
    nondet m = Set(2, 2, 3).oneOf()
    nondet M = 2.to(3).oneOf()
    nondet giveX = 0.to(1).oneOf()
    call' = { op: "enum", i: Map("m" -> m, "den" -> 1, "den_w" -> 10, "rs" -> s, "nboot" -> (if (M == 2) 150 else 700), "giveX" -> giveX),
      x: Map("df" -> rT(s, M, m, -9, 9), "w" -> rT(s + 1, M, 1, 1, 9)) }
  }
  action doRec = {
    nondet s = 1.to(1000000000).oneOf()
    nondet m0 = 2.to(5).oneOf()
    nondet sst = 0.to(3).oneOf()
    nondet nboot = 1.to(5).oneOf()
    nondet extra = 0.to(3).oneOf()
    nondet pt = 0.to(2).oneOf()
    val m = if (sst == 2) min2(m0, 3) else m0
    val M = if (sst != 2 and s % 6 == 0) 25 + extra else if (sst == 2) 14 + extra else 2 * m + extra
    call' = { op: "rec", i: Map("m" -> m, "den" -> 1, "den_w" -> 10, "rs" -> s, "nboot" -> nboot, "sst" -> sst, "pt" -> pt),
      x: Map("df" -> rT(s, M, m, -9, 9), "w" -> rT(s + 1, M, 1, 1, 9), "X" -> rT(s + 2, M, m, -99, 99), "f" -> rT(s + 3, M, 1, -99, 99)) }
  }
  action doJoint = {
    nondet s = 1.to(1000000000).oneOf()
    nondet m = 2.to(3).oneOf()
    nondet sst = 1.to(2).oneOf()
    val M = if (sst == 1) 30 else 60
    val X = rT(s, M, m, -99, 99)
    val b = rlist(s + 1, m, 1, 9)
    val q = rlist(s + 2, m, -3, 3)
    call' = { op: "joint", i: Map("m" -> m, "den" -> 1, "den_X" -> 100, "den_f" -> 10000, "den_w" -> 1, "rs" -> s, "nboot" -> 40, "sst" -> sst),
      x: Map("X" -> X, "w" -> mkT([M, 1], range(0, M).foldl([], (l5, k) => l5.append(1))),
        "f" -> mkT([M, 1], rowsOf(X).foldl([], (l4, r) => l4.append(dotl(b, r) * 100 + (if (sst == 2) range(0, m).foldl(0, (s3, j) => s3 + q[j] * r[j] * r[j]) + r[0] * r[1] * 2 else 0))))) }
  }
  action step = {
    nondet pick = 0.to(5).oneOf()
    if (pick <= 1) doEnum else if (pick <= 4) doRec else doJoint
  }
}
