// C19: a trained radial basis approximation solves its regularized interpolation system, and predicts with it.
module C19 {
  import fx.* from "./fx"
  import C18.mono from "./C18"
  import C18.dmono from "./C18"
  import C18.rowI from "./C18"
  import C18.indexBad from "./C18"
  type Mod = { N: int, trained: bool, X: T, den: int, ell: List[int], a: List[int], c: List[int], es: List[List[int]] }
  type St = int -> Mod
  pure def fresh(N: int): Mod = { N: N, trained: false, X: NOT, den: 1, ell: [], a: [], c: [], es: [] }
  pure val st0: St = Map(-1 -> fresh(0))
  // sum_k (x_k - z_k)^2 / ell_k, x and z integers over den; units 1/S
  pure def dist(x: List[int], z: List[int], den: int, ell: List[int]): int = range(0, x.length()).foldl(0, (s34, k) => s34 + rdiv((x[k] - z[k]) * (x[k] - z[k]) * S2, den * den * ell[k]))
  pure def kern(x: List[int], z: List[int], den: int, ell: List[int]): int = fexp(-dist(x, z, den, ell))
  // monomials at x/den, in the order the implementation reports them (graded, es)
  pure def bval(e: List[int], x: List[int], den: int): int = rdiv(mono(e, x) * S, powi(den, lsum(e)))
  // the heuristic that chooses the length scales: half the log-determinant of the kernel plus M times the logarithm of the generalized least
  // squares variance, by elimination in units of 10^-40 from the bordered kernel matrix [K B f; B' 0 0; f' 0 0]
  pure def likelihood(xs: List[List[int]], den: int, B: List[List[int]], f: List[int], ell: List[int], v: List[int]): { r: int, s2: int } = {
    val M = xs.length()
    val p = B[0].length()
    val w = X1 / S
    val top = range(0, M).foldl([], (l45, i) => l45.append(range(0, M).foldl([], (l44, j) => l44.append(w * (if (i == j) S + v[i] else kern(xs[i], xs[j], den, ell)))).concat(B[i].append(f[i]).foldl([], (l43, b) => l43.append(w * b)))))
    val low = range(0, p + 1).foldl([], (l42, k) => l42.append(range(0, M).foldl([], (l41, i) => l41.append(w * (if (k == p) f[i] else B[i][k]))).concat(range(0, p + 1).foldl([], (l40, _) => l40.append(0)))))
    val z = range(0, M + p).foldl({ R: top.concat(low), d: S, k: 0 }, (a, n) => {
      val h = a.R[0]
      val pv = if (h[0] == 0) 1 else h[0]
      val nm = if (n >= M) { d: a.d, k: a.k } else range(0, 70).foldl({ d: max2(rdiv(a.d * pv, X1), 1), k: a.k }, (u, _) => if (u.d < S) { d: 2 * u.d, k: u.k - 1 } else if (u.d > 2 * S) { d: u.d / 2, k: u.k + 1 } else u)
      { R: a.R.slice(1, a.R.length()).foldl([], (l39, row) => l39.append({ val q = row[0]
          range(1, row.length()).foldl([], (l38, j) => l38.append(row[j] - rdiv(q * h[j], pv))) })), d: nm.d, k: nm.k } })
    val s2 = rdiv(-z.R[0][0], w * M)
    { r: (ln(z.d) + z.k * LN2) / 2 + M * (if (s2 <= 0) -40 * S else ln(s2)), s2: s2 }
  }
  // noise the model assumes: given, or the common factor g of the length scales times the inactive eigenvalues, at least 1e-6
  pure def noise(c: Call, M: int, m: int, g: int): List[int] = range(0, M).foldl([], (l37, i) => l37.append(max2(S / 1000000,
    if (has(c.x, "v")) rdiv(argx(c, "v").d[i] * S, argi(c, "den_v", 1)) else if (has(c.x, "e")) rdiv(g * lsum(argx(c, "e").d.slice(m, argx(c, "e").d.length())), argi(c, "den_e", 1)) else 0)))
  // factor of the length scales
  pure def factor(c: Call, q: Mod): int = if (has(c.x, "e")) rdiv(q.ell[0] * argx(c, "e").d[0], lsum(argx(c, "e").d)) else q.ell[0]
  pure def scaled(c: Call, q: Mod, num: int): { r: int, s2: int } = {
    val X = argx(c, "X")
    val xs = rowsOf(X)
    val den = argi(c, "den_X", 1)
    likelihood(xs, den, xs.foldl([], (l36, x) => l36.append(q.es.foldl([], (l35, e) => l35.append(bval(e, x, den))))), toS(argx(c, "f"), argi(c, "den_f", 1)).d,
      q.ell.foldl([], (l46, v) => l46.append(rdiv(v * num, 1000000))), noise(c, nr(X), nc(X), rdiv(factor(c, q) * num, 1000000)))
  }
  pure def likeBad(c: Call, q: Mod): List[str] = {
    val g = factor(c, q)
    val r0 = scaled(c, q, 1000000)
    // the common factor lies in [1e-10, 10] and no smaller or larger one nearby is likelier
    if (r0.s2 < S / 100000000) [] else bads([
      chk(g <= 10 * S + S / 1000, "the length scales' factor is at most 10"),
      chk(g > 9 * S or scaled(c, q, 1122018).r >= r0.r - S / 10000, "no larger length scales nearby are likelier"),
      chk(scaled(c, q, 891251).r >= r0.r - S / 10000, "no smaller length scales nearby are likelier") ])
  }
  pure def trainBad(c: Call, o: Obs, q: Mod): List[str] = {
    val X = argx(c, "X")
    val M = nr(X)
    val m = nc(X)
    val den = argi(c, "den_X", 1)
    val f = toS(argx(c, "f"), argi(c, "den_f", 1))
    val K = getx(o, "K")
    val p = q.es.length()
    if (not(isSh(getx(o, "ell"), [m, 1])) or not(isSh(K, [M, M])) or not(isSh(getx(o, "a"), [M, 1])) or not(isSh(getx(o, "c"), [p, 1]))) ["the fitted model is finite and of the right shape"]
    else if (q.ell.foldl(false, (q33, v) => q33 or (v <= 0))) ["length scales are positive"]
    else {
      val xs = rowsOf(X)
      val B = xs.foldl([], (l32, x) => l32.append(q.es.foldl([], (l31, e) => l31.append(bval(e, x, den)))))
      val e = argx(c, "e")
      // the diagonal added to the kernel
      val v = range(0, M).foldl([], (l30, i) => l30.append(at(K, i, i) - S))
      val am = lmaxabs(q.a)
      val cm = lmaxabs(q.c)
      val bm = lmaxabs(cat(B))
      val tol = (am * M + cm * (bm / S + 1) * p + maxabsT(f)) / 100000000000 + 1000
      bads([
        chk(0.to(M - 1).forall(i => 0.to(i - 1).forall(j => near(at(K, i, j), kern(xs[i], xs[j], den, q.ell), S / 10000000) and near(at(K, j, i), at(K, i, j), 1000))), "K holds the kernel of the training points"),
        { val w = noise(c, M, m, factor(c, q))
          chk(0.to(M - 1).forall(i => near(v[i], w[i], 1000 + w[i] / 1000000000)), "K's diagonal adds the given noise, or that of the inactive eigenvalues, at least 1e-6") },
        // the coefficient of determination, with K u = f solved by the driver and verified here
        { val u = getx(o, "u")
          val fu = if (isSh(u, [M, 1])) dotl(f.d, u.d) else 0
          val ra = range(0, M).foldl(0, (s47, i) => s47 + (f.d[i] - dotl(B[i], q.c) / S) * q.a[i])
          if (fu <= S * S / 1000000 or not(0.to(M - 1).forall(i => near(dotl(rowOf(K, i), u.d) / S, f.d[i], (lmaxabs(u.d) * M + maxabsT(f)) / 100000000000 + 1000)))) []
          else chk(isSh(getx(o, "rsqr"), [1]) and near(getx(o, "rsqr").d[0], S - rdiv(ra * S, fu), S / 1000 + rdiv(am * M, 1000000) * tol / fu * 1000), "Rsqr is one minus the ratio of the residual's and the data's norms weighted by the kernel") },
        if (argi(c, "exact", 0) == 0 and M <= 14) likeBad(c, q) else [],
        chk(0.to(M - 1).forall(i => near(dotl(rowOf(K, i), q.a) / S + dotl(B[i], q.c) / S, f.d[i], tol)), "K a + B c = f"),
        chk(0.to(p - 1).forall(k => abs(range(0, M).foldl(0, (s23, i) => s23 + B[i][k] * q.a[i]) / S) <= (am * (bm / S + 1) * M + cm) / 100000000000 + 1000), "B^T a = 0"),
        if (has(c.x, "e")) chk(0.to(m - 1).forall(k => near(q.ell[k] * e.d[k], q.ell[0] * e.d[0], abs(q.ell[0] * e.d[0]) / 1000000 + 100 * (e.d[k] + e.d[0]))), "length scales are inversely proportional to the eigenvalues")
        else chk(q.ell.foldl(true, (q21, l) => q21 and (near(l, q.ell[0], 10))), "length scales are isotropic without eigenvalues"),
        // exactly polynomial data of degree at most N are reproduced by the polynomial part alone
        if (argi(c, "exact", 0) == 1) chk(am <= (S + maxabsT(f)) / 100000, "polynomials of degree N are reproduced") else [] ])
    }
  }
  pure def predictBad(q: Mod, P: T, o: Obs, how: int, cg: int): List[str] = {
    val ps = rowsOf(P)
    val xs = rowsOf(q.X)
    val asum = lsum(q.a.foldl([], (l20, v) => l20.append(abs(v))))
    val kv = ps.foldl([], (l19, x) => l19.append(xs.foldl([], (l18, z) => l18.append(kern(x, z, q.den, q.ell)))))
    val val1 = mkT([ps.length(), 1], range(0, ps.length()).foldl([], (l17, r) => l17.append(dotl(kv[r], q.a) / S + range(0, q.es.length()).foldl(0, (s16, k) => s16 + fmul(q.c[k], bval(q.es[k], ps[r], q.den))))))
    val grad = if (how == 0 and cg == 0 or how == 2) NOT else mkT(P.sh, cat(range(0, ps.length()).foldl([], (l15, r) => l15.append(range(0, nc(P)).foldl([], (l14, j) => l14.append(range(0, xs.length()).foldl(0, (s13, i) => s13 + rdiv(-2 * (ps[r][j] - xs[i][j]) * kv[r][i] * q.a[i], q.den * q.ell[j]))
      + range(0, q.es.length()).foldl(0, (s12, k) => s12 + if (q.es[k][j] == 0) 0 else rdiv(q.c[k] * dmono(q.es[k], ps[r], j), powi(q.den, lsum(q.es[k]) - 1)))))))))
    val ellm = q.ell.foldl(q.ell[0], (x, y) => min2(x, y))
    val tv = asum / 10000000 + maxabsT(val1) / 10000000 + 1000
    val tg = asum / 10000000 * (S / max2(ellm, S / 10000) + 10) + maxabsT(grad) / 10000000 + 1000
    bads([
      if (how == 1) [] else chk(nearT(getx(o, "f"), val1, tv), "predictions are s(x)"),
      if (how == 2) [] else if (how == 0 and cg == 0) chk(getx(o, "df").sh == [-2], "no gradient unless requested")
      else chk(nearT(getx(o, "df"), grad, tg), "gradients are those of s(x)") ])
  }
  // the kernel functions themselves: sigma exp(-sum (x-z)^2/ell), and its derivatives with respect to the second points
  pure def kernelBad(c: Call, o: Obs): List[str] = {
    val X = argx(c, "X")
    val Z = argx(c, "Z")
    val ell = toS(argx(c, "ell"), argi(c, "den_ell", 1)).d
    val den = argi(c, "den", 1)
    val sg = argi(c, "sigma", 1)
    val C = getx(o, "C")
    val D = getx(o, "D")
    if (not(isSh(C, [nr(X), nr(Z)])) or not(isSh(D, [nr(X), nr(Z) * nc(X)]))) ["one entry per pair of points (and input)"] else bads([
      chk(0.to(nr(X) - 1).forall(i => 0.to(nr(Z) - 1).forall(j => near(at(C, i, j), sg * kern(rowOf(X, i), rowOf(Z, j), den, ell), 100 * (abs(sg) + 1)))), "the kernel is sigma exp(-sum of squares over length scales)"),
      // small kernels too, observed in units of 2^-60/S
      { val B = getx(o, "B")
        val two = powi(2, 60)
        chk(isSh(B, C.sh) and 0.to(nr(X) - 1).forall(i => 0.to(nr(Z) - 1).forall(j => { val w = rdiv(fexpX(-dist(rowOf(X, i), rowOf(Z, j), den, ell)) * two, X1 / S)
          near(at(B, i, j), sg * w, abs(sg) * (w / 10000000 + 100 + if (w == 0) 20000000 else 0)) })), "the kernel is accurate far from its center") },
      chk(0.to(nr(X) - 1).forall(i => 0.to(nr(Z) - 1).forall(j => 0.to(nc(X) - 1).forall(k =>
        near(at(D, i, j * nc(X) + k), rdiv(2 * (at(X, i, k) - at(Z, j, k)) * sg * kern(rowOf(X, i), rowOf(Z, j), den, ell) * S, den * ell[k]), 100 * (abs(sg) + 1) * (1 + 20 * S / ell[k]))))), "the gradient is the kernel's with respect to the second points") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val k = argi(c, "obj", 0)
    if (c.op == "kernel") { st: st, bad: if (o.ok == "ok") kernelBad(c, o) else ["the kernel is computed"], tag: "kernel" } else
    if (c.op == "new") { st: st.put(k, fresh(argi(c, "N", 1))), bad: chk(o.ok == "ok", "a model is made"), tag: "new" }
    else if (not(st.keys().contains(k))) { st: st, bad: [], tag: "-none" }
    else {
      val q = st.get(k)
      if (c.op == "train") {
        val X = argx(c, "X")
        if (nr(X) < binom(q.N + nc(X), q.N)) { st: st, bad: chk(o.ok != "ok" and o.ok != "timeout", "too few points raise"), tag: "too-few" }
        else if (argi(c, "rank", 1) == 0) { st: st.put(k, fresh(q.N)), bad: [], tag: "-rank-deficient" }
        else if (o.ok != "ok") { st: st.put(k, fresh(q.N)), bad: ["training with enough points does not raise"], tag: "raised" }
        else {
          val I = getx(o, "I")
          val q2 = { N: q.N, trained: true, X: X, den: argi(c, "den_X", 1), ell: getx(o, "ell").d, a: getx(o, "a").d, c: getx(o, "c").d, es: range(0, nr(I)).foldl([], (l11, r) => l11.append(rowI(I, r))) }
          val b = chk(geti(o, "kept") == 1, "parameters read from a model earlier stay as they were").concat(indexBad(q.N, nc(X), I)).concat(trainBad(c, o, q2))
          { st: st.put(k, if (b == []) q2 else fresh(q.N)), bad: b,
            tag: if (argi(c, "exact", 0) == 1) "train-exact" else if (has(c.x, "e")) "train-e" else if (has(c.x, "v")) "train-v" else "train" }
        }
      }
      else if (not(q.trained)) { st: st, bad: [], tag: "-untrained" }
      else { val P = argx(c, "P")
        val m = nc(q.X)
        val pt = mkT([nr(P), m], cat(range(0, nr(P)).foldl([], (l10, r) => l10.append(rowOf(P, r).slice(0, m)))))
        if (o.ok != "ok") { st: st, bad: ["a trained model predicts"], tag: "raised" }
        else { st: st, bad: predictBad(q, pt, o, argi(c, "how", 0), argi(c, "cg", 0)), tag: ["predict", "gradient", "call"][argi(c, "how", 0)] } }
    }
  }
}
module C19g {
  import fx.* from "./fx"
  import C18.monos from "./C18"
  import C18.mono from "./C18"
  import C18.fullRank from "./C18"
  var call: Call
  var deg: int -> int
  var fit: int -> bool    // trained since it was made
  var pts: int -> T       // and the points it was trained at
  pure def pad3(X: T): T = mkT([nr(X), 3], cat(rowsOf(X).foldl([], (l60, x) => l60.append(x.concat([0, 0, 0]).slice(0, 3)))))
  action init = all { call' = { op: "", i: Map(), x: Map() }, deg' = Map(0 -> -1, 1 -> -1, 2 -> -1), fit' = Map(0 -> false, 1 -> false, 2 -> false), pts' = Map(0 -> NOT, 1 -> NOT, 2 -> NOT) }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(15).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet N = Set(0, 1, 2, 2, 3).oneOf()
    nondet m0 = 1.to(4).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet how = 0.to(3).oneOf()
    nondet extra = Set(1, 2, 4, 6).oneOf()
    val N2 = deg.get(k)
    val m = if (N2 == 3 or m0 == 4) min2(m0, 2) else m0
    val p = binom(N2 + m, m)
    val M = if (kind == 2) max2(p - 1 - s % 2, 1) else p + extra
    val X = rTl(s, M, m, -8, 8, 8, lay)
    val es = monos(max2(N2, 0), m)
    val cf = rlist(s + 1, es.length(), -9, 9)
    // kind 0: exactly polynomial; 2: too few points; 4 and more: smooth, of one degree more; otherwise arbitrary.  noise and eigenvalues in any combination
    val exact = range(0, M).foldl([], (l4, r) => l4.append(range(0, es.length()).foldl(0, (s3, j) => s3 + cf[j] * mono(es[j], rowOf(X, r)) * powi(8, N2 - lsum(es[j])))))
    val la = rlist(s + 5, m, -5, 5)
    val smooth = range(0, M).foldl([], (l4, r) => l4.append(powi(dotl(la, rowOf(X, r)), N2 + 1)))
    val me = m + s % 3
    val ev = rlist(s + 4, me, 1, 99)
    val base = Map("X" -> X, "f" -> mkT([M, 1], if (kind == 0) exact else if (kind >= 4) smooth else rlist(s + 2, M, -99, 99)))
    val withv = if (s / 3 % 3 == 0) base.put("v", mkT([M, 1], rlist(s + 3, M, 0, 40))) else base
    val withe = if (s / 9 % 3 != 0) withv.put("e", mkT([me, 1], range(0, me).foldl({ l: [], v: 4000 }, (a, j) => { l: a.l.append(a.v), v: max2(1, a.v * (if (s % 2 == 0) ev[j] else 30 + ev[j] / 2) / 100) }).l)) else withv
    if (pick == 15 and how <= 1) all { deg' = deg, fit' = fit, pts' = pts, call' = { op: "kernel", i: Map("den" -> 8, "den_ell" -> 16, "sigma" -> s % 7, "lay" -> lay),
      x: Map("X" -> rT(s, 1 + s % 4, m0, -8, 8), "Z" -> rT(s + 1, 1 + s / 4 % 4, m0, -8, 8), "ell" -> mkT([m0, 1], rlist(s + 2, m0, 1, 64))) } }
    else if (pick == 0 or N2 < 0) all { call' = { op: "new", i: Map("obj" -> k, "N" -> N), x: Map() }, deg' = deg.put(k, N), fit' = fit.put(k, false), pts' = pts }
    else all { deg' = deg,
      fit' = if (pick <= 5 or not(fit.get(k)) and pick <= 13) fit.put(k, true) else fit,
      pts' = if (pick <= 5 or not(fit.get(k)) and pick <= 13) pts.put(k, X) else pts,
      if (pick <= 5 or not(fit.get(k)) and pick <= 13) call' = { op: "train", i: Map("obj" -> k, "den_X" -> 8, "lay" -> lay, "den_f" -> (if (kind == 0) powi(8, N2) else if (kind >= 4) powi(8, N2 + 1) else 8), "exact" -> (if (kind == 0) 1 else 0), "den_v" -> 1000, "den_e" -> 100,
        "rank" -> (if (M < p or fullRank(X, N2)) 1 else 0)), x: withe }
      else call' = { op: "predict", i: Map("obj" -> k, "den_P" -> 8, "how" -> (if (how == 3) 1 else how), "cg" -> s % 2, "lay" -> lay), // at the training points too
        x: Map("P" -> if (s % 6 == 0 and pts.get(k) != NOT) pad3(pts.get(k)) else rTl(s, if (s % 17 == 0) 40 else 1 + s % 3, 3, -12, 12, 8, lay)) } }
  }
}
