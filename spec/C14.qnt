// C14: Gauss rules: nodes are the roots of the orthogonal polynomial, weights the Christoffel numbers, so polynomials to
// degree 2N-1 are integrated exactly; tensor rules are full products; recurrence coefficients and Jacobi matrices are exact.
module C14 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // kind 0: Hermite (standard Gaussian), 1: Legendre (uniform on [-1,1])
  // (q_N, q_(N-1)) at x/S, scaled by S^k (Hermite) or k! S^k (Legendre): exact integers
  pure def poly(kind: int, N: int, x: int): (int, int) =
    range(0, N).foldl((1, 0), (p, k) => (if (kind == 0) x * p._1 - k * S2 * p._2 else (2 * k + 1) * x * p._1 - k * k * S2 * p._2, p._1))
  pure def weight(kind: int, N: int, x: int): int = {
    val q = poly(kind, N, x)._2
    val sc = powi(S, 2 * (N - 1))
    if (q == 0) -S else if (kind == 0) rdiv(S * fact(N - 1) * sc, N * q * q)
    else rdiv((S2 - x * x) * powi(fact(N - 1), 2) * sc, S * N * N * q * q)
  }
  // k-th moment as a fraction
  pure def moment(kind: int, k: int): (int, int) = if (k % 2 == 1) (0, 1) else if (kind == 0) (range(0, k / 2).foldl(1, (a, j) => a * (2 * j + 1)), 1) else (1, k + 1)
  pure val DX: int = 100000          // 1e-10
  pure def ruleBad(kind: int, N: int, x: T, w: T, pos: int): List[str] =
    if (not(isSh(x, [N, 1])) or not(isSh(w, [N, 1]))) ["a rule with N points has N nodes and weights, as columns"]
    else bads([
      chk(0.to(N - 1 - 1).forall(i => abs(x.d[i] - x.d[i + 1]) > 4 * DX) and 0.to(N - 1).forall(i => 0.to(i - 1).forall(j => abs(x.d[i] - x.d[j]) > 4 * DX)), "nodes are distinct"),
      chk(kind == 0 or maxabsT(x) < S, "nodes lie inside the support"),
      chk(0.to(N - 1).forall(i => sgn(poly(kind, N, x.d[i] - DX)._1) * sgn(poly(kind, N, x.d[i] + DX)._1) <= 0), "nodes are the roots of the orthogonal polynomial"),
      chk(0.to(N - 1).forall(i => near(w.d[i], weight(kind, N, x.d[i]), 100000)), "weights are those of the Gauss rule"),
      chk(w.d.foldl(true, (q17, v) => q17 and (v >= 0)) and (N > 20 or pos == 1), "weights are positive"),
      chk(near(lsum(w.d), S, 1000000), "weights sum to 1"),
      // what the two clauses above amount to
      if (N > 8) [] else chk(0.to(2 * N - 1).forall(k => {
        val s = range(0, N).foldl(0, (s15, i) => s15 + w.d[i] * powi(x.d[i], k))
        val sa = range(0, N).foldl(0, (s14, i) => s14 + abs(w.d[i] * powi(x.d[i], k)))
        val mo = moment(kind, k)
        abs(s - rdiv(mo._1 * powi(S, k + 1), mo._2)) <= (sa + powi(S, k + 1)) / 100000000 }), "polynomials of degree up to 2N-1 are integrated exactly") ])
  pure def tensorBad(kind: int, Ns: List[int], x: T, w: T, xs: T, ws: T): List[str] = {
    // xs, ws: the one-dimensional rules, one after another
    val d = Ns.length()
    val off = range(0, d).foldl([0], (l, j) => l.append(l[j] + Ns[j]))
    val tot = Ns.foldl(1, (a, b) => a * b)
    if (not(isSh(x, [tot, d])) or not(isSh(w, [tot, 1]))) ["the rule has one node and weight for every combination"]
    else {
      val idx = range(0, tot).foldl([], (l13, r) => l13.append(range(0, d).foldl([], (l12, j) => l12.append(range(0, Ns[j]).foldl(-1, (p, k) => if (abs(at(x, r, j) - xs.d[off[j] + k]) <= 1000) k else p)))))
      val codes = idx.foldl([], (l11, l) => l11.append(range(0, d).foldl(0, (a, j) => a * Ns[j] + l[j])))
      bads([
        chk(idx.foldl(true, (a, l) => a and l.foldl(true, (q10, v) => q10 and (v >= 0))), "every coordinate is a node of its one-dimensional rule"),
        chk(0.to(tot - 1).forall(v => codes.indices().exists(r => codes[r] == v)), "every combination of nodes occurs once"),
        chk(0.to(tot - 1).forall(r => near(w.d[r], range(0, d).foldl(S, (a, j) => if (idx[r][j] < 0) 0 else fmul(a, ws.d[off[j] + idx[r][j]])), 100000)), "the weight of a node is the product of its weights") ])
    }
  }
  // Jacobi weight with parameters al/2, be/2 on [l, r] (integers over den): coefficients as fractions
  pure def jacA(k: int, al: int, be: int): (int, int) = if (k == 0) (be - al, al + be + 4) else (be * be - al * al, (4 * k + al + be) * (4 * k + al + be + 4))
  pure def jacB(k: int, al: int, be: int): (int, int) =
    if (k == 0) (1, 4)       // scaled by 4 below: total mass 1
    else if (k == 1) ((2 + al) * (2 + be) * 2, powi(4 + al + be, 2) * (6 + al + be))
    else (k * (2 * k + al) * (2 * k + be) * (2 * k + al + be) * 2, powi(4 * k + al + be, 2) * (4 * k + al + be + 2) * (4 * k + al + be - 2))
  pure def jacobiBad(N: int, al: int, be: int, l: int, r: int, den: int, ab: T): List[str] =
    if (not(ab.fin) or ab.sh.length() != 2 or nc(ab) != 2 or nr(ab) < N) ["recurrence coefficients are an array of two columns"]
    else bads([
      chk(0.to(nr(ab) - 1).forall(k => { val f = jacA(k, al, be)
        near(at(ab, k, 0), rdiv((r - l) * f._1 * S, 2 * den * f._2) + rdiv((r + l) * S, 2 * den), 1000000) }), "the first column holds the diagonal coefficients"),
      chk(at(ab, 0, 1) == S and 0.to(nr(ab) - 1).forall(k => k == 0 or { val f = jacB(k, al, be)
        near(at(ab, k, 1), rdiv((r - l) * (r - l) * f._1 * S, den * den * f._2), 1000000) }), "the second column holds the off-diagonal coefficients") ])
  pure def hermiteBad(N: int, ab: T): List[str] =
    if (not(ab.fin) or ab.sh.length() != 2 or nc(ab) != 2 or nr(ab) < N) ["recurrence coefficients are an array of two columns"]
    else chk(0.to(nr(ab) - 1).forall(k => at(ab, k, 0) == 0 and at(ab, k, 1) == max2(k, 1) * S), "the coefficients are those of the Hermite polynomials")
  pure def matrixBad(ab: T, J: T): List[str] = {
    val n = nr(ab) - 1
    if (n == 0) chk(J.fin and J.d.length() == 1 and J.d[0] == at(ab, 0, 0), "a single row gives the coefficient itself")
    else if (not(isSh(J, [n, n]))) ["the Jacobi matrix is (N-1)-by-(N-1)"]
    else bads([
      chk(0.to(n - 1).forall(i => at(J, i, i) == at(ab, i, 0)), "the diagonal holds the first coefficients"),
      chk(0.to(n - 1 - 1).forall(i => at(J, i, i + 1) == at(J, i + 1, i) and at(J, i, i + 1) >= 0 and near(fmul(at(J, i, i + 1), at(J, i, i + 1)), at(ab, i + 1, 1), 1000 + at(ab, i + 1, 1) / 100000000000)), "the off-diagonals hold the square roots of the second coefficients"),
      chk(0.to(n - 1).forall(i => 0.to(n - 1).forall(j => abs(i - j) <= 1 or at(J, i, j) == 0)), "everything else is zero") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val kind = argi(c, "kind", 0)
    val N = argi(c, "N", 1)
    { st: st, tag: if (c.op == "rule") (if (kind == 0) "hermite" else "legendre") else c.op,
      bad: if (o.ok != "ok") ["a rule with valid arguments does not raise"]
        else if (c.op == "rule") ruleBad(kind, N, getx(o, "x"), getx(o, "w"), geti(o, "pos"))
        else if (c.op == "tensor") tensorBad(kind, argx(c, "Ns").d, getx(o, "x"), getx(o, "w"), getx(o, "xs"), getx(o, "ws"))
        else if (c.op == "rjac") jacobiBad(N, argi(c, "al", 0), argi(c, "be", 0), argi(c, "l", 0), argi(c, "r", 0), argi(c, "den", 1), getx(o, "ab"))
        else if (c.op == "rherm") hermiteBad(N, getx(o, "ab"))
        else matrixBad(toS(argx(c, "ab"), argi(c, "den_ab", 1)), getx(o, "J")) }
  }
}
module C14g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(11).oneOf()
    nondet kind = 0.to(1).oneOf()
    nondet N = 1.to(12).oneOf()
    nondet d = 1.to(4).oneOf()
    nondet al = Set(-1, 0, 0, 1, 2, 4).oneOf()
    nondet be = Set(-1, 0, 0, 1, 2, 4).oneOf()
    val NN = if (s % 6 == 0) 13 + s / 6 % 28 else N
    // how: through gl1d/gh1d, g1d, gauss_*(N), gauss_*([N])
    if (pick <= 3) call' = { op: "rule", i: Map("kind" -> kind, "N" -> NN, "how" -> s % 4), x: Map() }
    else if (pick <= 7) call' = { op: "tensor", i: Map("kind" -> kind), x: Map("Ns" -> mkT([d], rlist(s, d, 1, if (d == 1) 20 else if (d == 2) 9 else if (d == 3) 5 else 3))) }
    else if (pick <= 9) call' = { op: "rjac", i: Map("N" -> N, "al" -> al, "be" -> be, "l" -> rnd(s, 1, -40, 10), "r" -> rnd(s, 2, 11, 40), "den" -> 8), x: Map() }
    else if (pick == 10) call' = { op: "rherm", i: Map("N" -> NN), x: Map() }
    else call' = { op: "jmat", i: Map("den_ab" -> 16), x: Map("ab" -> mkT([N, 2], range(0, 2 * N).foldl([], (l1, k) => l1.append(if (k % 2 == 0) rnd(s, k, -99, 99) else rnd(s, k, 0, 99))))) }
  }
}
