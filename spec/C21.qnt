// C21: designs lie in their domain and have the documented layout.
module C21 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C15.iroot from "./C15"
  import C14.poly from "./C14"
  // outcomes of the maximin optimizer so far: an optimizer may fail now and then (and must then raise), not as a rule
  type St = { good: int, failed: int }
  pure val st0: St = { good: 0, failed: 0 }
  pure def rowsNear(A: T, r: int, B: T, q: int, tol: int): bool = 0.to(nc(A) - 1).forall(j => near(at(A, r, j), at(B, q, j), tol))
  pure def mean(lo: int, hi: int, k: int, N: int): int = lo + rdiv((k + 1) * (hi - lo), N + 1)
  // the k-th of N equally spaced interior points, in some order
  pure def intervalBad(lo: int, hi: int, N: int, Y: T): List[str] =
    if (not(isSh(Y, [N, 1]))) ["the design has N points in one column"]
    else chk(0.to(N - 1).forall(k => near(Y.d[k], mean(lo, hi, k, N), abs(hi - lo) / 1000000000 + 100)), "interval designs are N equally spaced interior points")
  pure def gridBad(ks: List[int], Y: T): List[str] = {
    val d = ks.length()
    val K = ks.foldl(1, (a, k) => a * k)
    if (not(isSh(Y, [K, d]))) ["the design is a full tensor grid"]
    else bads([
      chk(0.to(K - 1).forall(r => 0.to(d - 1).forall(j => sgn(poly(0, ks[j], at(Y, r, j) - 100000)._1) * sgn(poly(0, ks[j], at(Y, r, j) + 100000)._1) <= 0)), "coordinates are Gauss-Hermite nodes"),
      chk(0.to(K - 1).forall(a => 0.to(a - 1).forall(b => 0.to(d - 1).exists(j => abs(at(Y, a, j) - at(Y, b, j)) > 1000000))), "grid points are distinct") ])
  }
  // ---- polytopes given by vertices (integers): supporting half spaces a.x <= b through n vertices
  pure def half(P: List[List[int]], n: int, V: List[List[int]]): List[(List[int], int)] = {
    val a = if (n == 2) [V[0][1] - V[1][1], V[1][0] - V[0][0]] else crossI(subl(V[1], V[0]), subl(V[2], V[0]))
    val b = dotl(a, V[0])
    val lo = P.foldl(0, (m, p) => min2(m, dotl(a, p) - b))
    val hi = P.foldl(0, (m, p) => max2(m, dotl(a, p) - b))
    if (lmaxabs(a) == 0) [] else if (hi == 0) [(a, b)] else if (lo == 0) [(a.foldl([], (l, v) => l.append(-v)), -b)] else []
  }
  pure def crossI(a: List[int], b: List[int]): List[int] = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
  pure def subl(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append(a[i] - b[i]))
  pure def halves(P: List[List[int]], n: int): List[(List[int], int)] = cat((if (n == 2) tuples2(P.length()) else tuples3(P.length())).foldl([], (l, ix) => l.append(half(P, n, ix.foldl([], (l2, i) => l2.append(P[i]))))))
  // z over k: inside all half spaces
  pure def inside(H: List[(List[int], int)], z: List[int], k: int): bool = H.indices().forall(i => dotl(H[i]._1, z) <= k * H[i]._2)
  pure def dist2(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, i) => s + (a[i] - b[i]) * (a[i] - b[i]))
  // least squared distance of the design (rows) to itself and to the vertices
  pure def mind2(D: List[List[int]], P: List[List[int]]): int = {
    val v = D.foldl(-1, (m, x) => P.foldl(m, (m2, p) => { val d = dist2(x, p)
      if (m2 < 0) d else min2(m2, d) }))
    range(0, D.length()).foldl(v, (m, i) => range(0, i).foldl(m, (m2, j) => min2(m2, dist2(D[i], D[j])))) }
  // greedy farthest-point design on a lattice with k steps per unit: a lower bound on the best least distance
  pure def lattice(P: List[List[int]], n: int, H: List[(List[int], int)], g: int): List[List[int]] = {
    val lo = range(0, n).foldl([], (l, j) => l.append(P.foldl(P[0][j], (m, p) => min2(m, p[j]))))
    val hi = range(0, n).foldl([], (l, j) => l.append(P.foldl(P[0][j], (m, p) => max2(m, p[j]))))
    range(0, n).foldl([[]], (l, j) => cat(l.foldl([], (l3, x) => l3.append(range(0, g + 1).foldl([], (l2, a) => l2.append(x.append(lo[j] * g + a * (hi[j] - lo[j])))))))).select(x => inside(H, x, g))
  }
  pure def greedy(P: List[List[int]], L: List[List[int]], g: int, N: int): int = {
    val start = L.foldl([], (l, x) => l.append(P.foldl(-1, (m, p) => { val d = dist2(x, p.foldl([], (l2, v) => l2.append(v * g)))
      if (m < 0) d else min2(m, d) })))
    range(0, N).foldl({ best: -1, d: start }, (st, _) => {
      val top = st.d.foldl(0, (m, v) => max2(m, v))
      val i = range(0, L.length()).foldl(-1, (q, k) => if (q < 0 and st.d[k] == top) k else q)
      { best: if (st.best < 0) top else min2(st.best, top), d: range(0, L.length()).foldl([], (l, k) => l.append(min2(st.d[k], dist2(L[k], L[i])))) } }).best
  }
  // vert: integers over den; D: design in units 1/S
  pure def maximinBad(vert: T, den: int, N: int, D: T): List[str] = {
    val n = nc(vert)
    val P = rowsOf(vert)
    if (not(isSh(D, [N, n]))) ["a maximin design is N points"]
    else {
      val H = halves(P, n)
      val ds = rowsOf(D)
      val g = if (n == 2) 20 else 8
      val L = lattice(P, n, H, g)
      // least distances squared over (den g)^2 and S^2
      val gr = if (L == []) 0 else greedy(P, L, g, N)
      val q = mind2(ds, P.foldl([], (l, p) => l.append(p.foldl([], (l2, v) => l2.append(rdiv(v * S, den))))))
      bads([
        chk(ds.indices().forall(k => H.indices().forall(i => dotl(H[i]._1, ds[k]) * den - H[i]._2 * S <= fsqrt(dotl(H[i]._1, H[i]._1) * S) / 100000 * 2 * den)), "maximin designs lie in the polytope"),
        chk(q * den * den * g * g * 100 >= 30 * gr * S2, "a maximin design keeps its points apart from each other and from the vertices") ])
    }
  }
  pure def avBad(c: Call, o: Obs): List[str] = {
    val n = argi(c, "n", 1)
    val N = argi(c, "N", 1)
    val M = argi(c, "NMC", 10)
    val bd = argi(c, "bd", 0)
    val W1 = W1of(getx(o, "W"), n)
    val Y = getx(o, "Y")
    val X = getx(o, "X")
    val ind = getx(o, "ind")
    val e = lsum(W1.d.foldl([], (l, v) => l.append(abs(v))))
    val b = if (bd == 0) gridBad(range(0, n).foldl([], (l, _) => l.append(iroot(N, n))), Y) else if (n == 1) intervalBad(-e, e, N, Y)
      else chk(nearT(Y, getx(o, "design"), 1000), "a bounded design is the maximin design of the domain's vertices")
    if (b != []) b else if (not(isSh(X, [nr(Y) * M, nr(W1)])) or not(ind.fin) or ind.d.length() != nr(X)) ["each design point has NMC inputs and indices"]
    else {
      val Z = mmS(X, W1)
      bads([
        chk(0.to(nr(X) - 1).forall(k => ind.d[k] == (k / M) * S), "the index column tells the design point, NMC rows each"),
        chk(0.to(nr(X) - 1).forall(k => rowsNear(Z, k, Y, k / M, 10000000)), "the inputs of a design point map to it"),
        if (bd == 1) chk(maxabsT(X) <= S + S / 1000000, "inputs lie in the hypercube") else [],
        if (bd == 1 and n > 1) chk(0.to(nr(Y) - 1).forall(k => slack(rowsOf(W1), n, rowOf(Y, k)) >= -S / 100000), "designs lie in the domain") else [] ])
    }
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    if (c.op == "interval") { st: st, tag: "interval", bad: if (o.ok != "ok") ["a design with valid arguments does not raise"] else
      intervalBad(rdiv(argi(c, "a", 0) * S, argi(c, "den", 1)), rdiv(argi(c, "b", 1) * S, argi(c, "den", 1)), argi(c, "N", 1), getx(o, "Y")) }
    else if (c.op == "hermite") { st: st, tag: "hermite", bad: if (o.ok != "ok") ["a design with valid arguments does not raise"] else gridBad(argx(c, "N").d, getx(o, "Y")) }
    else if (c.op == "inject") { st: st, tag: if (o.ok == "skip") "-inject" else "inject", bad: if (o.ok == "skip") [] else bads([
        chk(o.ok == "raised:Exception" or o.ok == "raised", "an optimizer failure is raised"),
        chk(geti(o, "same") == 1, "the random state is kept when the optimizer fails") ]) }
    else if (c.op == "maximin") {
      val st2 = if (o.ok == "mmfail") { ...st, failed: st.failed + 1 } else { ...st, good: st.good + 1 }
      { st: st2, tag: if (o.ok == "mmfail") "-design-failed" else if (nc(argx(c, "vert")) == 2) "maximin2" else "maximin3",
        bad: if (o.ok == "mmfail") chk(st2.failed < 6 or st2.failed <= 2 * st2.good, "the maximin optimizer normally succeeds")
          else if (o.ok != "ok") ["a design with valid arguments does not raise"]
          else bads([
            chk(getx(o, "D").d == getx(o, "D2").d, "maximin designs are reproducible and independent of the random state"),
            chk(geti(o, "same") == 1, "maximin designs leave the random state as it was"),
            chk(geti(o, "vsame") == 1, "the vertices are not modified"),
            maximinBad(argx(c, "vert"), argi(c, "den", 1), argi(c, "N", 1), getx(o, "D")) ]) }
    }
    else if (o.ok == "mmfail") { st: st, tag: "-av-failed", bad: chk(argi(c, "bd", 0) == 1 and argi(c, "n", 1) > 1, "only a maximin design can fail") }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["a design with valid arguments does not raise"] }
    else { st: st, bad: avBad(c, o), tag: if (argi(c, "bd", 0) == 0) "av-hermite" else if (argi(c, "n", 1) == 1) "av-interval" else "av-maximin" }
  }
  // the vertices of the hull of some integer points (exact)
  pure def hullVerts(P: List[List[int]], n: int): List[List[int]] = {
    val H = halves(P, n)
    // a vertex is the unique point of P where some n independent half spaces are tight: no other point shares all its tight half spaces
    P.select(p => { val t = H.select(h => dotl(h._1, p) == h._2)
      t.length() >= n and P.select(r => r != p and t.indices().forall(i => dotl(t[i]._1, r) == t[i]._2)) == [] })
  }
}
module C21g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  import C21.hullVerts from "./C21"
  import C21.halves from "./C21"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(11).oneOf()
    nondet gk = Set(0, 0, 1, 2, 3, 4).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet N = 1.to(30).oneOf()
    nondet NMC = Set(1, 2, 3, 7, 10).oneOf()
    if (pick <= 1) call' = { op: "interval", i: Map("a" -> rnd(s, 1, -99, 99), "b" -> 100 + rnd(s, 2, 0, 99), "den" -> powi(10, s % 4), "N" -> N), x: Map() }
    else if (pick <= 2) call' = { op: "hermite", i: Map(), x: Map("N" -> mkT([1 + s % 3], rlist(s, 1 + s % 3, 1, 5))) }
    else if (pick <= 3) call' = { op: "inject", i: Map("rs" -> s, "N" -> 1 + N % 5, "after" -> s % 3, "den" -> 1), x: Map("vert" -> mkT([4, 2], [-1, -1, 1, -1, -1, 1, 1, 1])) }
    else if (pick <= 8) {
      val n = if (pick <= 6) 2 else 3
      // random points, their reflections (a symmetric polytope), or a scaled box; only the vertices of the hull
      val P0 = rowsOf(rT(s, n + 2 + s % 4, n, -9, 9))
      val P = if (s / 3 % 3 == 0) P0 else P0.slice(0, n + 1).concat(P0.slice(0, n + 1).foldl([], (l, p) => l.append(p.foldl([], (l2, v) => l2.append(-v)))))
      val V = hullVerts(P.foldl([], (l, p) => if (l.select(r => r == p) == []) l.append(p) else l), n)
      val V2 = if (V.length() <= n) (if (n == 2) [[-1, -1], [1, -1], [-1, 1], [1, 1]] else [[-1, -1, -1], [1, -1, 0], [-1, 1, 0], [1, 1, 1]]) else V
      call' = { op: "maximin", i: Map("rs" -> s, "den" -> powi(2, s % 5), "N" -> 1 + N % 6), x: Map("vert" -> mkT([V2.length(), n], cat(V2))) } }
    else {
      val bd = if (pick <= 10) 1 else 0
      val n = if (pick == 9) 1 else if (bd == 1) min2(3, max2(2, n0)) else n0
      val m = if (bd == 1 and n == 3) 3 + (m0 % 2) else max2(2, n + m0)
      call' = { op: "av", i: Map("n" -> n, "bd" -> bd, "den" -> 1, "rs" -> s, "N" -> (if (bd == 0) (if (n == 1) 1 + N % 13 else 1 + N) else if (n == 1) N else 1 + N % 6), "NMC" -> NMC),
        x: Map("df" -> gradients(s, m, if (bd == 1 and n > 1 and gk >= 2) 0 else gk)) } }
  }
}
