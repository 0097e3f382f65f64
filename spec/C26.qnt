// C26: minimize returns an input that maps to the minimizer of the surface; its inactive coordinates minimize the regularized quadratic
// fitted to the data. Data are exact quadratics of the first p rotated coordinates plus noise orthogonal to all quadratics.
module C26 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C22.combos from "./C22"
  import C22.digits from "./C22"
  type St = { good: int, failed: int }
  pure val st0: St = { good: 0, failed: 0 }
  // quadratic t.H t + g.t, coefficients integers over den
  pure def quad(H: T, g: List[int], den: int, t: List[int]): int = rdiv(range(0, t.length()).foldl(0, (s, i) => s + fmul(t[i], dotl(rowOf(H, i), t))) + dotl(g, t), den)
  pure def dquad(H: T, g: List[int], den: int, t: List[int]): List[int] = range(0, t.length()).foldl([], (l, i) => l.append(rdiv(2 * dotl(rowOf(H, i), t) + g[i] * S, den)))
  pure def pOf(m: int, n: int): int = min2(m, if (m - n > 2) n + 2 else n + 1)
  // the data are what the specification says they are
  pure def dataOk(c: Call, o: Obs, W: T, n: int): bool = {
    val p = pOf(nr(W), n)
    val X = toS(argx(c, "X"), argi(c, "den_X", 1))
    val Y = mmS(X, colSlice(W, 0, p))
    val e = getx(o, "eps").d
    val f = getx(o, "fX")
    val rows = rowsOf(Y)
    val M = nr(X)
    val sc = (1 + lmaxabs(e)) * 10
    isSh(f, [M, 1]) and e.length() == M and 0.to(M - 1).forall(i => near(f.d[i], quad(argx(c, "H"), argx(c, "g").d, argi(c, "den", 1), rows[i]) + e[i], (S + abs(f.d[i])) / 1000000000))
      and abs(lsum(e)) <= sc / 10000 and 0.to(p - 1).forall(a => abs(range(0, M).foldl(0, (s, i) => s + fmul(e[i], rows[i][a]))) <= sc / 10000
        and 0.to(a).forall(b => abs(range(0, M).foldl(0, (s, i) => s + fmul(e[i], fmul(rows[i][a], rows[i][b])))) <= sc / 10000))
  }
  // gradient, in the inactive coordinates, of the fitted quadratic plus 0.005 |z|^2
  pure def zgrad(c: Call, W: T, n: int, x: List[int]): List[int] = {
    val m = nr(W)
    val p = pOf(m, n)
    val t = range(0, m).foldl([], (l, k) => l.append(dotl(x, colOf(W, k)) / S))
    val gr = dquad(argx(c, "H"), argx(c, "g").d, argi(c, "den", 1), t.slice(0, p))
    range(n, m).foldl([], (l, k) => l.append(t[k] / 100 + (if (k < p) gr[k] else 0)))
  }
  // least value of u.z over the slice { z : |s + W2 z| <= 1 } (when the slice has vertices)
  pure def sliceMin(W2: T, s: List[int], u: List[int]): { ok: bool, v: int } = {
    val k = nc(W2)
    val rows = rowsOf(W2)
    val q1 = S / 1000000000
    combos(rows.length(), k).foldl({ ok: false, v: 0 }, (b, ix) => digits(k, 2).foldl(b, (b2, sg) => {
      val r = solveI(ix.foldl([], (l, i) => l.append(rows[i].foldl([], (l2, v) => l2.append(rdiv(v, q1 / 1000))))),
        range(0, k).foldl([], (l, j) => l.append([rdiv((if (sg[j] == 0) S else -S) - s[ix[j]], q1 / 1000)])))
      if (not(r.ok)) b2 else {
        val z = r.num.foldl([], (l, w) => l.append(rdiv(w[0] * S, r.den)))
        if (lmaxabs(z) > 100 * S or 0.to(rows.length() - 1).exists(i => abs(s[i] + dotl(rows[i], z) / S) > S + S / 1000000)) b2
        else { val v = dotl(u, z) / S
          if (not(b2.ok) or v < b2.v) { ok: true, v: v } else b2 } } }))
  }
  pure def coefScale(H: T, g: List[int], den: int): int = (S * (1 + lmaxabs(g) + 2 * maxabsT(H))) / den + S / 100
  // x maps to y and its inactive part is optimal
  pure def pointBad(c: Call, W: T, n: int, x: List[int], y: List[int]): List[str] = {
    val m = nr(W)
    val bd = argi(c, "bd", 0)
    val W2 = W2of(W, n)
    val z = range(n, m).foldl([], (l, k) => l.append(dotl(x, colOf(W, k)) / S))
    val s = range(0, m).foldl([], (l, i) => l.append(dotl(rowOf(W1of(W, n), i), y) / S))
    val gr = zgrad(c, W, n, x)
    val sc = coefScale(argx(c, "H"), argx(c, "g").d, argi(c, "den", 1))
    bads([
      chk(range(0, n).indices().forall(k => near(dotl(x, colOf(W, k)) / S, y[k], S / 1000000 + lmaxabs(y) / 1000000)), "the input maps to the active point"),
      if (bd == 1) chk(lmaxabs(x) <= S + S / 100000, "the input lies in the cube") else [],
      if (argi(c, "zk", 0) == 3 or m == n) []
      else if (bd == 0) chk(lmaxabs(gr) <= (sc / S + 1) * (S + lmaxabs(x)) / 1000000, "the inactive coordinates minimize the regularized quadratic")
      else { val b = sliceMin(W2, s, gr)
        chk(not(b.ok) or dotl(gr, z) / S - b.v <= sc / 1000, "the inactive coordinates minimize the regularized quadratic over the slice") } ])
  }
  pure def minBad(c: Call, o: Obs): List[str] = {
    val n = argi(c, "n", 1)
    val bd = argi(c, "bd", 0)
    val W = getx(o, "W")
    val x = getx(o, "x")
    val f = getx(o, "f")
    val rows = rowsOf(W1of(W, n))
    if (not(isSh(x, [1, nr(W)]))) ["the minimizer is a 1-by-m point"]
    else if (not(f.fin) or f.d.length() != 1) ["the minimum is a number"]
    else {
      val y = range(0, n).foldl([], (l, k) => l.append(dotl(x.d, colOf(W, k)) / S))
      val den = argi(c, "den", 1)
      val Hy = argx(c, "Hy")
      val gy = argx(c, "gy").d
      val gr = dquad(Hy, gy, den, y)
      val sc = (S + lmaxabs(y)) * (1 + lmaxabs(gy) + 2 * maxabsT(Hy)) / den
      val sk = argi(c, "sk", 0)
      bads([
        chk(near(getx(o, "fat").d[0], f.d[0], (sc + abs(f.d[0])) / 10000), "the surface predicts the minimum at the minimizer"),
        // exact quadratic surfaces: the value and optimality are known
        if (sk != 0) [] else chk(near(f.d[0], quad(Hy, gy, den, y), (sc + abs(f.d[0])) / 10000), "the minimum is the surface's value"),
        if (sk != 0) [] else if (bd == 1) chk(dotl(gr, y) / S + support(rows, gr) <= sc / 1000, "the active coordinates are the minimizer over the domain")
        else chk(lmaxabs(gr) <= sc / 10000, "the active coordinates are the minimizer"),
        pointBad(c, W, n, x.d, y) ])
    }
  }
  pure def mapBad(c: Call, o: Obs): List[str] = {
    val n = argi(c, "n", 1)
    val W = getx(o, "W")
    val Y = mmS(toS(argx(c, "P"), argi(c, "den_P", 1)), W1of(W, n))
    val X = getx(o, "x")
    val K = nr(Y)
    if (not(isSh(X, [K, nr(W)])) or not(isSh(getx(o, "ind"), [K, 1]))) ["one input and one index per active point"]
    else bads([
      chk(range(0, K).indices().forall(i => getx(o, "ind").d[i] == i * S), "indices number the active points"),
      cat(range(0, K).foldl([], (l, i) => l.append(pointBad(c, W, n, rowOf(X, i), rowOf(Y, i))))) ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val n = argi(c, "n", 1)
    val bd = argi(c, "bd", 0)
    val dk = if (bd == 0) 2 else if (n == 1) 0 else 1
    if (c.op == "many") { st: st, tag: "many", bad: chk(o.ok != "ok" and o.ok != "died" and o.ok != "timeout", "more than one input per active point raises") }
    else if (o.ok == "optfail") { st: { ...st, failed: st.failed + 1 }, tag: "-optimizer-failed", bad: chk(st.failed < 6 or st.failed <= st.good, "the optimizer normally succeeds") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: if (argi(c, "zk", 0) == 3) [] else ["minimizing a trained surface does not raise"] }
    else if (not(orthoOk(getx(o, "W")))) { st: st, tag: "-none", bad: ["eigenvectors are orthogonal"] }
    else if (not(dataOk(c, o, getx(o, "W"), n))) { st: st, tag: "-data", bad: ["(harness) the data are as specified"] }
    else { st: { ...st, good: st.good + 1 }, bad: if (c.op == "min") minBad(c, o) else mapBad(c, o),
      tag: if (argi(c, "zk", 0) == 3) "nonconvex" else if (c.op == "map") (if (bd == 1) "map" else "map-unbounded") else if (argi(c, "sk", 0) == 1) "rbf" else ["interval", "zonotope", "unbounded"][dk] }
  }
}
module C26g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C26.pOf from "./C26"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  // B'B plus w on the diagonal
  pure def gram(s: int, n: int, r: int, w: int): T = {
    val B = rT(s, max2(1, r), n, -2, 2)
    mkT([n, n], cat(range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (l2, j) => l2.append((if (i == j) w else 0) + range(0, r).foldl(0, (q, k) => q + at(B, k, i) * at(B, k, j))))))))
  }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(9).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet zk0 = 0.to(9).oneOf()
    nondet sk0 = 0.to(4).oneOf()
    nondet opi = 0.to(11).oneOf()
    val zk = if (zk0 <= 3) 0 else if (zk0 <= 6) 1 else if (zk0 <= 8) 2 else 3
    val sk = if (sk0 == 0) 1 else 0
    val bd = if (pick <= 6) 1 else 0
    val op = if (opi <= 5) "min" else if (opi <= 10) "map" else "many"
    val n = if (pick <= 2) 1 else if (bd == 1) 2 else n0
    val m = max2(2, n + m0)
    val p = pOf(m, n)
    val cnt = binom(p + 2, 2)
    val M = cnt + 3 + s % cnt
    // zk 0: convex; 1: strictly convex; 2: flat in the inactive coordinates; 3: concave
    val H0 = gram(s + 1, p, if (zk == 0) 1 + s / 7 % p else if (zk == 2) 0 else p, if (zk == 1) 1 else 0)
    val H = if (zk == 3) mkT(H0.sh, H0.d.foldl([], (l, v) => l.append(-v))) else H0
    call' = { op: op, i: Map("n" -> n, "bd" -> bd, "den_df" -> 1, "den_X" -> 8, "den_P" -> 8, "den" -> powi(10, s % 2), "rs" -> s, "zk" -> zk, "sk" -> sk, "noise" -> s / 3 % 2, "decoy" -> s / 5 % 2, "N" -> 2 + s % 3),
      x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk), "H" -> H, "g" -> mkT([p, 1], rlist(s + 2, p, -9, 9)),
        "Hy" -> gram(s + 3, n, n, if (bd == 0) 1 else s / 2 % 2), "gy" -> mkT([n, 1], rlist(s + 4, n, -9, 9)), "X" -> rT(s + 5, M, m, -8, 8), "P" -> rT(s + 6, 2, m, -8, 8)) }
  }
}
