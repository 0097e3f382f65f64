// C09: normalizers map to and from the standard space, row by row, and their two maps are inverse.
module C09 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure def tolOf(t: T): int = 10000 + maxabsT(t) / 10000000000
  // ---- bounded: 2 (x - lb) / (ub - lb) - 1, from integers over den ---------
  pure def normB(X: T, lb: List[int], ub: List[int]): T =
    mkT(X.sh, range(0, X.d.length()).foldl([], (l13, k) => l13.append({ val j = k % nc(X)
      rdiv((2 * (X.d[k] - lb[j]) - (ub[j] - lb[j])) * S, ub[j] - lb[j]) })))
  // Z over zden, bounds over den
  pure def unnormB(Z: T, zden: int, lb: List[int], ub: List[int], den: int): T =
    mkT(Z.sh, range(0, Z.d.length()).foldl([], (l12, k) => l12.append({ val j = k % nc(Z)
      rdiv(((ub[j] - lb[j]) * (Z.d[k] + zden) + 2 * zden * lb[j]) * S, 2 * zden * den) })))
  pure def boundedBad(c: Call, o: Obs): List[str] = {
    val den = argi(c, "den", 1)
    val zden = argi(c, "den_Z", 1)
    val lb = argx(c, "lb").d
    val ub = argx(c, "ub").d
    val X = argx(c, "X")
    val wantN = normB(X, lb, ub)
    val wantU = unnormB(argx(c, "Z"), zden, lb, ub, den)
    bads([
      chk(nearT(getx(o, "n"), wantN, tolOf(wantN)), "normalize is the linear map of [lb,ub] onto [-1,1]"),
      chk(nearT(getx(o, "u"), wantU, tolOf(wantU)), "unnormalize is the linear map of [-1,1] onto [lb,ub]"),
      chk(nearT(getx(o, "un"), toS(X, den), tolOf(toS(X, den))), "unnormalize inverts normalize"),
      chk(nearT(getx(o, "nu"), toS(argx(c, "Z"), zden), tolOf(toS(argx(c, "Z"), zden))), "normalize inverts unnormalize"),
      chk(isSh(getx(o, "n"), X.sh) and nearT(getx(o, "n1"), mkT([1, nc(X)], rowOf(getx(o, "n"), 0)), tolOf(wantN)), "a row does not depend on the other rows") ])
  }
  // ---- unbounded: mean mu, covariance C = G G^T (integers) -----------------
  pure def unboundedBad(c: Call, o: Obs): List[str] = {
    val den = argi(c, "den", 1)
    val X = argx(c, "X")
    val m = nc(X)
    val M = nr(X)
    val mu = argx(c, "mu").d
    val G = argx(c, "G")
    val C = mm(G, tr(G))
    val D = mkT([M, m], range(0, M * m).foldl([], (l11, k) => l11.append(X.d[k] - mu[k % m])))
    // C^-1 D^T
    val z = solveI(rowsOf(C), rowsOf(tr(D)))
    val n = getx(o, "n")
    val u = getx(o, "u")
    val Z = toS(argx(c, "Z"), argi(c, "den_Z", 1))
    if (not(isSh(n, [M, m])) or not(isSh(u, [nr(Z), m]))) ["normalized points are finite and of the same shape"]
    else {
      val gram = mkT([M, M], cat(range(0, M).foldl([], (l10, a) => l10.append(range(0, M).foldl([], (l9, b) => l9.append(rdiv(range(0, m).foldl(0, (s8, k) => s8 + at(D, a, k) * z.num[k][b]) * S, z.den * den * den)))))))
      val got = scaleT(mm(n, tr(n)), 1, S)
      // unnormalized points: (u - mu)^T C^-1 (u - mu) = z^T z
      val E = mkT(u.sh, range(0, u.d.length()).foldl([], (l7, k) => l7.append(u.d[k] - rdiv(mu[k % m] * S, den))))
      val y = solveI(rowsOf(C), rowsOf(tr(E)))
      val gu = mkT([nr(Z), nr(Z)], cat(range(0, nr(Z)).foldl([], (l6, a) => l6.append(range(0, nr(Z)).foldl([], (l5, b) => l5.append(rdiv(range(0, m).foldl(0, (s4, k) => s4 + at(E, a, k) * y.num[k][b]), y.den * S)))))))
      val gz = scaleT(mm(Z, tr(Z)), 1, S)
      bads([
        chk(nearT(got, gram, (maxabsT(gram) + S) / 100000000), "normalized points are standardized by the covariance"),
        chk(nearT(gu, gz, (maxabsT(gz) + S) / 1000000), "unnormalized points have the mean and covariance"),
        chk(nearT(getx(o, "un"), toS(X, den), tolOf(toS(X, den)) * 100), "unnormalize inverts normalize"),
        chk(nearT(getx(o, "nu"), Z, tolOf(Z) * 1000), "normalize inverts unnormalize"),
        chk(nearT(getx(o, "n1"), mkT([1, m], rowOf(n, 0)), tolOf(n)), "a row does not depend on the other rows") ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    { st: st, tag: c.op, bad: if (o.ok != "ok") ["well-formed points raise"] else if (c.op == "bounded") boundedBad(c, o) else unboundedBad(c, o) }
}
module C09g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("bounded", "unbounded").oneOf()
    nondet m0 = 1.to(6).oneOf()
    nondet M1 = 1.to(6).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet shp = 0.to(2).oneOf()
    nondet lay = 0.to(4).oneOf()
    val M = if (s % 11 == 0) 140 + s % 70 else M1
    val m = if (op == "unbounded") min2(m0, 5) else if (s % 13 == 0) 7 + s % 8 else m0
    val lb = rlist(s, m, -50, 50)
    val wd = rlist(s + 1, m, 1, if (kind == 0) 100000 else 60)
    val ub = range(0, m).foldl([], (l3, k) => l3.append(lb[k] + wd[k]))
    // points inside, on the corners, and outside the box
    val r = rlist(s + 2, M * m, 0, 12)
    val X = range(0, M * m).foldl([], (l2, k) => l2.append(if (kind == 1) (if (r[k] % 2 == 0) lb[k % m] else ub[k % m]) else lb[k % m] + wd[k % m] * (r[k] - (if (kind == 2) 4 else 0)) / 12))
    val g = rlist(s + 3, m * m, -3, 3)
    val Z = if (s % 3 == 0) rTl(s + 4, M, m, -8, 8, 8, 2) else rT(s + 4, M, m, -8, 8)
    call' = { op: op, i: Map("den" -> (if (kind == 3) 10 else 1), "den_lb" -> (if (kind == 3) 10 else 1), "den_ub" -> (if (kind == 3) 10 else 1), "den_X" -> (if (kind == 3) 10 else 1),
        "den_mu" -> (if (kind == 3) 10 else 1), "den_Z" -> 8, "den_G" -> 1, "lay" -> lay, "shp" -> shp),
      x: Map("lb" -> mkT([m, 1], lb), "ub" -> mkT([m, 1], ub), "X" -> mkT([M, m], X), "Z" -> Z, "mu" -> mkT([m, 1], lb),
        "G" -> mkT([m, m], range(0, m * m).foldl([], (l1, k) => l1.append(if (k / m == k % m) 1 + abs(g[k]) else if (k / m > k % m) g[k] else 0)))) }
  }
}
