// C17: a trained polynomial approximation is the least-squares fit of its last training data, whatever happened to other models.
module C17 {
  import fx.* from "./fx"
  import C18.* from "./C18"
  import C02.normalEq from "./C02"
  // a model: degree, and once trained the exact coefficients num/den of the monomials es in the scaled variables x * xden
  // cond: bound on the sensitivity of the fit; ok: the least-squares problem has full rank
  type Mod = { N: int, trained: bool, ok: bool, m: int, es: List[List[int]], num: List[int], den: int, xden: int, tol: int }
  type St17 = int -> Mod
  pure val s17: St17 = Map(-1 -> { N: 0, trained: false, ok: false, m: 0, es: [], num: [], den: 1, xden: 1, tol: 0 })
  pure def fresh(N: int): Mod = { N: N, trained: false, ok: false, m: 0, es: [], num: [], den: 1, xden: 1, tol: 0 }
  // columns: x^e * xden^(N-|e|), integers
  pure def brow(es: List[List[int]], N: int, xden: int, x: List[int]): List[int] = es.foldl([], (l43, e) => l43.append(mono(e, x) * powi(xden, N - lsum(e))))
  // amp: the driver scales the columns, and the model's slopes back, by powers of two: amp bounds the ratio of basis columns
  pure def fit(N: int, X: T, xden: int, f: T, fden: int, w: List[int], amp: int): Mod = {
    val m = nc(X)
    val es = monos(N, m)
    val p = es.length()
    val B = rowsOf(X).foldl([], (l42, x) => l42.append(brow(es, N, xden, x)))
    val A = range(0, p).foldl([], (l41, a) => l41.append(range(0, p).foldl([], (l40, b) => l40.append(range(0, B.length()).foldl(0, (s39, i) => s39 + w[i] * B[i][a] * B[i][b])))))
    val rhs = range(0, p).foldl([], (l38, a) => l38.append([range(0, B.length()).foldl(0, (s37, i) => s37 + w[i] * B[i][a] * f.d[i])].concat(range(0, p).foldl([], (l36, b) => l36.append(if (a == b) 1 else 0)))))
    val z = solveI(A, rhs)
    if (not(z.ok)) { ...fresh(N), trained: true, m: m } else {
      // sensitivity: |B|_F^2 * trace((B^T B)^-1), a bound on the squared condition number
      val k2 = range(0, p).foldl(0, (s35, a) => s35 + A[a][a]) * range(0, p).foldl(0, (s34, a) => s34 + z.num[a][1 + a]) / z.den
      val num = z.num.foldl([], (l33, r) => l33.append(r[0]))
      // data the model fits exactly are less sensitive
      val zero = 0.to(B.length() - 1).forall(i => dotl(num, B[i]) == z.den * f.d[i])
      val sens = if (zero) 100 * (isqrt(abs(k2)) + 1) * amp else abs(k2) * amp * amp
      { N: N, trained: true, ok: sens < (if (zero) 1000000000000 else 1000000000), m: m, es: es, num: num, den: z.den * fden, xden: xden, tol: (1 + lmaxabs(f.d) / fden) * (1000000 + sens) }
    }
  }
  // value at P/pden, units of 1/S.  P is scaled to the model's denominator: pden must equal xden
  pure def valueAt(q: Mod, x: List[int]): int = rdiv(dotl(q.num, brow(q.es, q.N, q.xden, x)) * S, q.den)
  pure def gradAt(q: Mod, x: List[int], j: int): int =
    rdiv(range(0, q.es.length()).foldl(0, (s32, k) => s32 + q.num[k] * dmono(q.es[k], x, j) * powi(q.xden, q.N - lsum(q.es[k]))) * q.xden * S, q.den)
  // coefficient of x^e in the original variables
  pure def coef(q: Mod, e: List[int]): int = range(0, q.es.length()).foldl(0, (s31, k) => s31 + if (q.es[k] == e) rdiv(q.num[k] * powi(q.xden, q.N) * S, q.den) else 0)
  pure def unit(m: int, i: int): List[int] = range(0, m).foldl([], (l30, k) => l30.append(if (k == i) 1 else 0))
  pure def addl(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l29, k) => l29.append(a[k] + b[k]))
  pure def scale(q: Mod): int = q.tol * (1 + 0 * q.N)
  pure def predictBad(q: Mod, P: T, o: Obs, how: int, cg: int): List[str] = {
    val v = mkT([nr(P), 1], rowsOf(P).foldl([], (l28, x) => l28.append(valueAt(q, x))))
    val g = mkT(P.sh, cat(rowsOf(P).foldl([], (l27, x) => l27.append(range(0, nc(P)).foldl([], (l26, j) => l26.append(gradAt(q, x, j)))))))
    val tv = q.tol + maxabsT(v) / 10000000000
    val tg = (q.tol + maxabsT(g) / 10000000000) * 10
    // how 0: predict, 1: gradient, 2: call
    bads([
      if (how == 1) [] else chk(nearT(getx(o, "f"), v, tv), "predictions are those of the least-squares fit"),
      if (how == 2) [] else if (how == 0 and cg == 0) chk(getx(o, "df").sh == [-2], "no gradient unless requested")
      else chk(nearT(getx(o, "df"), g, tg), "gradients are those of the least-squares fit") ])
  }
  pure def attrBad(q: Mod, o: Obs): List[str] = bads([
    chk(nearT(getx(o, "g"), mkT([q.m, 1], range(0, q.m).foldl([], (l25, i) => l25.append(coef(q, unit(q.m, i))))), q.tol * 4), "g holds the linear coefficients"),
    if (q.N >= 2) chk(nearT(getx(o, "H"), mkT([q.m, q.m], cat(range(0, q.m).foldl([], (l24, i) => l24.append(range(0, q.m).foldl([], (l23, j) => l23.append(coef(q, addl(unit(q.m, i), unit(q.m, j))) * (if (i == j) 2 else 1))))))), q.tol * 8), "H holds the Hessian") else [] ])
  // residual fraction, uniform weights
  pure def rsqBad(q: Mod, X: T, f: T, fden: int, r: T): List[str] = {
    val M = nr(X)
    val res = range(0, M).foldl([], (l22, i) => l22.append(valueAt(q, rowOf(X, i)) - rdiv(f.d[i] * S, fden)))
    val sse = dotl(res, res)
    val mean = lsum(f.d)
    // M^2 * variance sum
    val sst = M * dotl(f.d, f.d) - mean * mean
    if (sst == 0) [] else chk(r.fin and r.d.length() == 1 and near(r.d[0], S - rdiv(sse * M * fden * fden, sst * S), S / 10000000 + q.tol), "Rsqr is one minus the residual fraction")
  }
  pure def accept17(st: St17, c: Call, o: Obs): { st: St17, bad: List[str], tag: str } = {
    val k = argi(c, "obj", 0)
    if (c.op == "new") { st: st.put(k, fresh(argi(c, "N", 1))), bad: chk(o.ok == "ok", "a model is made"), tag: "new" }
    else if (not(st.keys().contains(k))) { st: st, bad: [], tag: "-none" }
    else {
      val q = st.get(k)
      if (c.op == "train") {
        val X = argx(c, "X")
        val f = argx(c, "f")
        val M = nr(X)
        val small = M < binom(q.N + nc(X), q.N)
        val w = argx(c, "w").d
        if (small) { st: st, bad: chk(o.ok != "ok" and o.ok != "timeout", "too few points raise"), tag: "too-few" }
        else if (o.ok != "ok") { st: st.put(k, { ...q, trained: false }), bad: ["training with enough points does not raise"], tag: "raised" }
        else {
          // rows are multiplied by the weights: with unequal weights only exactly polynomial data are used
          val q2 = fit(q.N, X, argi(c, "den_X", 1), f, argi(c, "den_f", 1), range(0, M).foldl([], (l21, _) => l21.append(1)), powi(2, argi(c, "cs", 0) * max2(q.N, 1)))
          { st: st.put(k, q2), bad: if (not(q2.ok)) [] else chk(geti(o, "kept") == 1, "coefficients read from a model earlier stay as they were").concat(attrBad(q2, o)).concat(if (argi(c, "weighted", 0) == 1) [] else rsqBad(q2, X, f, argi(c, "den_f", 1), getx(o, "r"))),
            tag: if (not(q2.ok)) "-ill-posed" else if (argi(c, "weighted", 0) == 1) "train-weighted" else if (M == q2.es.length()) "train-interpolate" else "train" }
        }
      }
      else if (not(q.trained) or not(q.ok)) { st: st, bad: [], tag: "-untrained" }
      else { val P = argx(c, "P")
        val pt = mkT([nr(P), q.m], cat(range(0, nr(P)).foldl([], (l20, r) => l20.append(rowOf(P, r).slice(0, q.m)))))
        if (o.ok != "ok") { st: st, bad: ["a trained model predicts"], tag: "raised" }
        else { st: st, bad: predictBad(q, pt, o, argi(c, "how", 0), argi(c, "cg", 0)), tag: ["predict", "gradient", "call"][argi(c, "how", 0)] } }
    }
  }
}
module C17c {
  import fx.* from "./fx"
  import C17.* from "./C17"
  type St = St17
  pure val st0: St = s17
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = accept17(st, c, o)
}
module C17g {
  import fx.* from "./fx"
  import C18.* from "./C18"
  var call: Call
  var deg: int -> int
  pure def shiftT(X: T, v: int): T = mkT(X.sh, X.d.foldl([], (l50, x) => l50.append(x + v)))
  action init = all { call' = { op: "", i: Map(), x: Map() }, deg' = Map(0 -> -1, 1 -> -1, 2 -> -1, 3 -> -1) }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(19).oneOf()
    nondet k = 0.to(3).oneOf()   // model 3 has inputs far from the origin
    nondet ck = 0.to(9).oneOf()
    nondet N4 = 0.to(4).oneOf()
    val N = if (k == 3) N4 % 3 else N4
    nondet m0 = 1.to(5).oneOf()
    nondet mk = 0.to(3).oneOf()
    nondet kd = 0.to(6).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet how = 0.to(2).oneOf()
    nondet extra = Set(0, 1, 3, 8).oneOf()
    val N2 = deg.get(k)
    val kind = if (kd == 6) 4 else kd
    // mostly retrained with the same number of inputs
    val m = min2(if (mk > 0) 2 + (k + N2) % 2 else m0, if (N2 <= 1) 5 else [5, 5, 4, 2, 2][N2])
    val p = binom(N2 + m, m)
    // kind 0: exactly polynomial; 4: the same with few terms; 1: the same, weighted; 2: too few points; otherwise arbitrary outputs
    val M = if (kind == 2) max2(p - 1 - s % 2, 1) else p + (if (s % 9 == 0 and N2 <= 2) 70 else extra)
    val off = if (k == 3) 8 * (if (N2 == 2) 60 else 3000) else 0
    val X = shiftT(rTl(s, M, m, -8, 8, 8, lay), off)
    val es = monos(max2(N2, 0), m)
    val cf0 = rlist(s + 1, es.length(), -9, 9)
    val keep = rlist(s + 5, es.length(), 0, 3)
    val cf = range(0, es.length()).foldl([], (l, j) => l.append(if (kind == 4 and keep[j] != 0) 0 else cf0[j]))
    val exact = range(0, M).foldl([], (l19, r) => l19.append(range(0, es.length()).foldl(0, (s18, j) => s18 + cf[j] * mono(es[j], rowOf(X, r)) * powi(8, N2 - lsum(es[j])))))
    if (pick == 0 or N2 < 0) all { call' = { op: "new", i: Map("obj" -> k, "N" -> N), x: Map() }, deg' = deg.put(k, N) }
    else all { deg' = deg,
      if (pick <= 11) call' = { op: "train", i: Map("obj" -> k, "den_X" -> 8, "lay" -> lay, "cs" -> (if (ck == 0 and (kind <= 1 or kind == 4) and N2 > 0) [26, 13, 8, 6][N2 - 1] else if (ck == 1 and N2 > 0) [6, 3, 2, 1][N2 - 1] else 0), "rs" -> s, "den_f" -> (if (kind <= 1 or kind == 4) powi(8, N2) else 8), "weighted" -> (if (kind == 1) 1 else if (kind == 3) 2 else 0), "den_w" -> (if (kind == 3) M else 8)),
        x: Map("X" -> X, "f" -> mkT([M, 1], if (kind <= 1 or kind == 4) exact else rlist(s + 2, M, -99, 99)), "w" -> mkT([M, 1], rlist(s + 3, M, if (kind == 3) 1 else 4, if (kind == 3) 1 else 16))) }
      else call' = { op: "predict", i: Map("obj" -> k, "den_P" -> 8, "how" -> how, "cg" -> s % 2, "lay" -> lay), x: Map("P" -> shiftT(rTl(s, if (s % 11 == 0) 70 else 1 + s % 4, 5, -12, 12, 8, lay), off)) } }
  }
}
