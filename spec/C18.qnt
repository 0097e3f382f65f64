// C18: monomial bases enumerate every multi-index of total degree at most n once, with exact values and derivatives.
module C18 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // all multi-indices of d variables with total degree at most n (any order)
  pure def monos(n: int, d: int): List[List[int]] =
    range(0, d).foldl([[]], (l, j) => cat(l.foldl([], (l14, e) => l14.append(range(0, n - lsum(e) + 1).foldl([], (l13, v) => l13.append(e.append(v)))))))
  pure def mono(e: List[int], x: List[int]): int = range(0, e.length()).foldl(1, (a, j) => a * powi(x[j], e[j]))
  // derivative with respect to x_k
  pure def dmono(e: List[int], x: List[int], k: int): int = if (e[k] == 0) 0 else range(0, e.length()).foldl(e[k], (a, j) => a * powi(x[j], if (j == k) e[j] - 1 else e[j]))
  // row r of an index array, as integers
  pure def rowI(I: T, r: int): List[int] = rowOf(I, r).foldl([], (l12, v) => l12.append(v / S))
  // full column rank of the polynomial part, decided exactly
  pure def fullRank(X: T, N: int): bool = {
    val es = monos(N, nc(X))
    val B = rowsOf(X).foldl([], (l9, x) => l9.append(es.foldl([], (l8, e) => l8.append(mono(e, x)))))
    val p = es.length()
    detI(range(0, p).foldl([], (l7, a) => l7.append(range(0, p).foldl([], (l6, b) => l6.append(range(0, B.length()).foldl(0, (s5, i) => s5 + B[i][a] * B[i][b])))))) != 0
  }
  pure def code(e: List[int]): int = e.foldl(0, (a, v) => a * 64 + v)
  pure def indexBad(n: int, d: int, I: T): List[str] = {
    val cnt = binom(n + d, d)
    if (not(isSh(I, [cnt, d]))) ["there are C(n+d,d) multi-indices"]
    else if (I.d.foldl(false, (q11, v) => q11 or (v < 0 or fmod(v, S) != 0))) ["multi-indices are nonnegative integers"]
    else {
      val es = range(0, cnt).foldl([], (l10, r) => l10.append(rowI(I, r)))
      val cs = es.foldl(Set(), (a, e) => a.union(Set(code(e))))
      bads([
        chk(cs.size() == cnt and es.foldl(true, (q9, e) => q9 and (lsum(e) <= n)), "all multi-indices of total degree at most n, once each"),
        chk(0.to(cnt - 1 - 1).forall(r => lsum(es[r]) <= lsum(es[r + 1])), "multi-indices are in order of total degree"),
        chk(n == 0 or 0.to(d - 1).forall(j => es[j + 1] == range(0, d).foldl([], (l6, k) => l6.append(if (k == j) 1 else 0))), "the constant comes first, then the unit vectors in coordinate order") ])
    }
  }
  // X over den: values scaled by den^|e|
  pure def basesBad(X: T, den: int, n: int, B: T, I: T): List[str] = {
    val d = nc(X)
    val ib = indexBad(n, d, I)
    if (ib != []) ib else if (not(isSh(B, [nr(X), nr(I)]))) ["one basis value for each point and multi-index"]
    else chk(0.to(nr(X) - 1).forall(r => 0.to(nr(I) - 1).forall(k => { val e = rowI(I, k)
      val v = rdiv(mono(e, rowOf(X, r)) * S, powi(den, lsum(e)))
      near(at(B, r, k), v, 1000 + abs(v) / 1000000000000) })), "basis values are the products of powers")
  }
  pure def gradBad(X: T, den: int, I: T, dB: T): List[str] = {
    val d = nc(X)
    val K = nr(I)
    if (not(isSh(dB, [nr(X), K, d]))) ["one derivative for each point, multi-index and coordinate"]
    else chk(0.to(nr(X) - 1).forall(r => 0.to(K - 1).forall(k => 0.to(d - 1).forall(j => { val e = rowI(I, k)
      val v = if (e[j] == 0) 0 else rdiv(dmono(e, rowOf(X, r), j) * S, powi(den, lsum(e) - 1))
      near(dB.d[(r * K + k) * d + j], v, 1000 + abs(v) / 1000000000000) }))), "derivatives of the basis are exact")
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    { st: st, tag: if (o.ok != "ok") "raised" else c.op, bad: if (o.ok != "ok") ["a valid degree and dimension do not raise"]
      else if (c.op == "index") indexBad(argi(c, "n", 0), argi(c, "d", 1), getx(o, "I"))
      else basesBad(argx(c, "X"), argi(c, "den_X", 1), argi(c, "n", 0), getx(o, "B"), getx(o, "I")).concat(gradBad(argx(c, "X"), argi(c, "den_X", 1), getx(o, "I"), getx(o, "dB"))) }
}
module C18g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("index", "bases").oneOf()
    nondet d = 1.to(6).oneOf()
    nondet n = 0.to(9).oneOf()
    nondet zero = 0.to(2).oneOf()
    nondet M1 = 1.to(4).oneOf()
    nondet lay = 0.to(5).oneOf()
    val cap = [12, 9, 7, 5, 4, 3][d - 1]
    val n2 = if (op == "index") min2(n, cap) else min2(n, [12, 6, 4, 3, 3, 2][d - 1])
    val big = [1, 1, 1000, 8192][s % 4]
    val M = if (s % 11 == 0 and n2 <= 3) 75 else M1
    call' = { op: op, i: Map("n" -> n2, "d" -> d, "den_X" -> (if (lay == 2 or lay == 5) 1 else 4), "lay" -> lay),
      x: Map("X" -> mkT([M, d], rlist(s, M * d, -9, 9).foldl([], (l, v) => l.append((if (zero == 1) big else 1) * (if (zero == 0 and v % 2 == 0) 0 else v))))) }
  }
}
