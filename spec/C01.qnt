// C01: the gradient-based subspaces are an eigendecomposition of the weighted outer product of the gradients.
module C01 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0

  // sum_i w_i d_i d_i^T in units of 1/S, from integer data over den and integer weights over wden
  pure def outer(df: T, den: int, w: List[int], wden: int): T = {
    val m = nc(df)
    val cols = colsOf(df)
    mkT([m, m], cat(range(0, m).foldl([], (l21, a) => l21.append(range(0, m).foldl([], (l20, b) => l20.append(rdiv(range(0, nr(df)).foldl(0, (s19, i) => s19 + w[i] * cols[a][i] * cols[b][i]) * S, den * den * wden)))))))
  }
  // clauses of an eigendecomposition (e, W) of the symmetric matrix C (units of 1/S)
  pure def eigBad(C: T, e: T, W: T): List[str] = eigBadR(C, e, W, 100000000)
  // the residual relative to the matrix at most 1/rel
  pure def eigBadR(C: T, e: T, W: T, rel: int): List[str] = {
    val m = nr(C)
    if (not(isSh(e, [m, 1]))) ["eigenvalues are a finite m-by-1 array"]
    else if (not(isSh(W, [m, m]))) ["eigenvectors are a finite m-by-m array"]
    else {
      val scale = max2(maxabsT(C), 1)
      val wc = colsOf(W)
      val cr = rowsOf(C)
      bads([
        chk(0.to(m - 1 - 1).forall(i => e.d[i] >= e.d[i + 1]), "eigenvalues in non-increasing order"),
        chk(e.d.foldl(true, (p, v) => p and v >= 0), "eigenvalues not negative"),
        chk(0.to(m - 1).forall(j => W.d[j] >= 0), "first components of the eigenvectors not negative"),
        chk(0.to(m - 1).forall(a => 0.to(m - 1).forall(b => near(dotl(wc[a], wc[b]) / S, if (a == b) S else 0, S / 1000000000))), "eigenvectors orthonormal"),
        chk(0.to(m - 1).forall(a => 0.to(m - 1).forall(j => abs(dotl(cr[a], wc[j]) - wc[j][a] * e.d[j]) / S <= scale / rel + 10)), "C W = W diag(e)")
      ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (o.ok != "ok") { st: st, bad: ["well-formed gradients raise"], tag: "raised" }
    else {
      val df = argx(c, "df")
      val m = nc(df)
      val M = nr(df)
      val wdef = argi(c, "wdef", 0) == 1
      val C = outer(df, argi(c, "den", 1), if (wdef) range(0, M).foldl([], (l12, i) => l12.append(1)) else argx(c, "w").d, if (wdef) M else argi(c, "den_w", 1))
      { st: st, bad: eigBadR(C, getx(o, "e"), getx(o, "W"), 100000000000).concat(
          if (has(o.x, "W1")) chk(isSh(hcatOk(getx(o, "W1"), getx(o, "W2")), [m, m]) and hcatOk(getx(o, "W1"), getx(o, "W2")) == getx(o, "W"),
            "W1 and W2 are the columns of the eigenvectors") else []),
        tag: if (maxabsT(df) == 0) "zero" else c.op.concatS(if (wdef) "-default" else "-weights") }
    }
  pure def concatS(a: str, b: str): str =
    if (a == "active" and b == "-default") "active-default" else if (a == "active") "active-weights"
    else if (b == "-default") "compute-default" else "compute-weights"
  pure def hcatOk(a: T, b: T): T =
    if (a.fin and a.sh.length() == 2 and b.fin and b.sh.length() == 2 and a.sh[0] == b.sh[0])
      (if (nc(b) == 0) a else hcat(a, b)) else NOT
}
// Generator: gradients of every shape class.
module C01g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  // rows of the gradient matrix by kind
  pure def gradsOf(kind: int, s: int, M: int, m: int): T =
    if (kind == 0) rT(s, M, m, -50, 50)
    else if (kind == 1) {   // rank one
      val u = rlist(s, m, -9, 9)
      val v = rlist(s + 1, M, -9, 9)
      mkT([M, m], cat(range(0, M).foldl([], (l11, i) => l11.append(range(0, m).foldl([], (l10, j) => l10.append(u[j] * v[i])))))) }
    else if (kind == 2) mkT([M, m], cat(range(0, M).foldl([], (l9, i) => l9.append(range(0, m).foldl([], (l8, j) => l8.append(if (j == i % m) 7 else 0))))))     // repeated eigenvalues
    else if (kind == 3) mkT([M, m], range(0, M * m).foldl([], (l7, i) => l7.append(0)))
    else if (kind == 4) {   // one input without influence, first component zero in some eigenvectors
      val g = rlist(s, M * m, -9, 9)
      mkT([M, m], range(0, M * m).foldl([], (l6, k) => l6.append(if (k % m == s % m) 0 else g[k]))) }
    else if (kind == 5) {   // uncorrelated inputs: axis-aligned eigenvectors, increasing influence
      mkT([M, m], cat(range(0, M).foldl([], (l5, i) => l5.append(range(0, m).foldl([], (l4, j) => l4.append(if (j == i % m) (j + 1) * (if (i % 2 == 0) 3 else -3) else 0)))))) }
    else if (kind == 6) rT(s, M, m, -1, 1)
    else if (kind == 7) {   // all samples equal
      val u = rlist(s, m, -9, 9)
      mkT([M, m], cat(range(0, M).foldl([], (l3, i) => l3.append(u)))) }
    else if (kind == 9) {   // influences that decay over several orders of magnitude
      val g = rlist(s, M * m, -9, 9)
      mkT([M, m], range(0, M * m).foldl([], (l22, k) => l22.append(g[k] * powi(30 + s % 50, max2(0, 3 - (k + s) % m))))) }
    else rT(s, M, m, -1000000, 1000000)
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet kind = 0.to(10).oneOf()
    nondet m0 = 1.to(6).oneOf()
    nondet Mk = 0.to(11).oneOf()
    nondet lay = 0.to(5).oneOf()
    nondet den = Set(1, 1, 4, 10, 1000).oneOf()
    nondet wk = 0.to(5).oneOf()
    nondet op = Set("active", "compute", "computeX").oneOf()
    // now and then many samples, or many inputs
    val m = if (Mk == 10 and s % 3 == 0) 7 + s % 8 else if (op == "active") m0 else max2(m0, 2)
    val M = if (Mk == 11) (if (m > 3) 30 else if (s % 3 == 0) 520 else 130) else Mk + 1
    val wbase = if (wk <= 1) { w: range(0, M).foldl([], (l2, i) => l2.append(1)), d: M }
      else if (wk == 2) { w: rlist(s + 5, M, 1, 9), d: 10 }
      else if (wk == 3) { w: rlist(s + 5, M, 0, 2), d: 7 }
      else if (wk == 4) { w: range(0, M).foldl([], (l1, i) => l1.append(if (i == 0) 1 else 0)), d: 1 }
      else { w: rlist(s + 5, M, 1, 1000), d: 1000 }
    call' = { op: op, i: Map("den" -> den, "lay" -> lay, "wdef" -> (if (wk == 0) 1 else 0), "den_w" -> wbase.d),
      x: Map("df" -> gradsOf(kind, s, M, m), "w" -> mkT([M, 1], wbase.w)) }
  }
}
