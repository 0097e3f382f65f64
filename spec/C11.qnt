// C11: finite differences are forward differences with the requested step, one simulation run per point.
module C11 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // f(x) = c0 + b.x + x^T Q x with integer coefficients; x = X / den, h = hn / hd
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val X = argx(c, "X")
    val den = argi(c, "den_X", 1)
    val m = nc(X)
    val M = nr(X)
    val hn = if (argi(c, "hdef", 0) == 1) 1 else argi(c, "hn", 1)
    val hd = if (argi(c, "hdef", 0) == 1) 1000000 else argi(c, "hd", 1)
    val b = argx(c, "b").d
    val Q = argx(c, "Q").d
    val df = getx(o, "df")
    val seen = getx(o, "seen")
    // exact difference quotient: b_j + ((Q + Q^T) x)_j + h Q_jj
    val want = mkT([M, m], cat(range(0, M).foldl([], (l14, i) => l14.append(range(0, m).foldl([], (l13, j) => l13.append(b[j] * S + rdiv(range(0, m).foldl(0, (s12, k) => s12 + (Q[j * m + k] + Q[k * m + j]) * at(X, i, k)) * S, den) + rdiv(hn * Q[j * m + j] * S, hd)))))))
    val fmax = max2(geti(o, "fmax"), S)
    // rounding of the outputs, and of x + h, divided by h
    val tol = (fmax / 100000000000000 + 100) * hd / abs(hn) + maxabsT(want) / 1000000000
    // the points: base points and one perturbation per coordinate, each once
    val pts = cat(range(0, M).foldl([], (l11, i) => l11.append([range(0, m).foldl([], (l10, k) => l10.append(rdiv(at(X, i, k) * S, den)))].concat(range(0, m).foldl([], (l9, j) => l9.append(range(0, m).foldl([], (l8, k) => l8.append(rdiv(at(X, i, k) * S, den) + (if (k == j) rdiv(hn * S, hd) else 0)))))))))
    val got = if (seen.fin and seen.sh.length() == 2) rowsOf(seen) else []
    { st: st, tag: if (geti(o, "affine") == 1) "affine" else if (argi(c, "hdef", 0) == 1) "default-step" else if (argi(c, "runner", 0) == 1) "runner" else "function",
      bad: if (o.ok != "ok") ["well-formed points raise"] else bads([
        chk(nearT(df, want, tol), "each entry is (f(x + h e_j) - f(x)) / h"),
        chk(got.length() == M * (m + 1), "one simulation run per base or perturbed point"),
        chk(pts.foldl(true, (q7, p) => q7 and (got.foldl(false, (q6, g) => q6 or (0.to(m - 1).forall(k => abs(g[k] - p[k]) <= 100))))), "the simulation runs at every base and perturbed point"),
        chk(got.foldl(true, (q4, g) => q4 and (pts.foldl(false, (q3, p) => q3 or (0.to(m - 1).forall(k => abs(g[k] - p[k]) <= 100))))), "the simulation runs at no other point") ]) }
  }
}
module C11g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet m1 = 1.to(4).oneOf()
    nondet M1 = 1.to(5).oneOf()
    nondet hk = 0.to(5).oneOf()
    nondet aff = 0.to(1).oneOf()
    nondet runner = 0.to(1).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet lay = 0.to(4).oneOf()
    val m = if (s % 10 == 0) 11 else m1
    val M = if (s % 10 == 1) 55 else M1
    call' = { op: "fd", i: Map("den_X" -> 16, "hdef" -> (if (hk <= 1) 1 else 0), "hn" -> (if (hk == 5) -1 else if (hk == 2) 3 else 1), "hd" -> (if (hk == 2) 1000 else if (hk == 3) 1 else 1024),
        "ux" -> (if (s % 5 == 0) 40 else if (s % 5 == 1) -30 else 0), "runner" -> runner, "form" -> form, "lay" -> lay),
      x: Map("X" -> rTl(s, M, m, -160, 160, 16, lay), "b" -> rT(s + 1, m, 1, -9, 9), "Q" -> mkT([m, m], if (aff == 1) range(0, m * m).foldl([], (l1, k) => l1.append(0)) else rlist(s + 2, m * m, -5, 5))) }
  }
}
