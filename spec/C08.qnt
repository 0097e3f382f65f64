// C08: the boundary of a bounded domain is the projection of the hypercube.
module C08 {
  import fx.* from "./fx"
  import dom.* from "./dom"
  type St = int
  pure val st0: St = 0
  pure def nvert(m: int, n: int): int = 2 * range(0, n).foldl(0, (s14, i) => s14 + binom(m - 1, i))
  // vertices (vy, vx) of W1's zonotope; rows of W1 in units of 1/S
  pure def vertsBad(rows: List[List[int]], n: int, vy: T, vx: T, generic: bool): List[str] = {
    val m = rows.length()
    if (not(vy.fin) or not(vx.fin) or vy.sh.length() != 2 or vx.sh.length() != 2 or nc(vy) != n or nc(vx) != m or nr(vy) != nr(vx)) ["vertX and vertY are N-by-m and N-by-n"]
    else {
      val vyr = rowsOf(vy)
      val corners = vertexCorners(rows, n)
      bads([
        chk(vx.d.foldl(true, (q13, v) => q13 and (v == S or v == -S)), "vertX are corners of the hypercube"),
        chk(0.to(nr(vx) - 1).forall(k => { val im = range(0, n).foldl([], (l11, j) => l11.append(range(0, m).foldl(0, (s10, i) => s10 + vx.d[k * m + i] / S * rows[i][j])))
          0.to(n - 1).forall(j => abs(vyr[k][j] - im[j]) <= 1000000) }), "vertY = vertX W1"),
        if (n <= 3) chk(corners.foldl(true, (q8, x) => q8 and ({ val y = imageOf(rows, n, x)
          vyr.foldl(false, (q7, v) => q7 or (0.to(n - 1).forall(j => abs(v[j] - y[j]) <= 10000000))) })), "every vertex of the projected cube is present") else [],
        if (n == 1) chk(nr(vy) == 2 and vy.d[0] <= vy.d[1], "an interval has its two endpoints in order")
        else if (generic) chk(nr(vy) == nvert(m, n), "the number of vertices is that of the zonotope") else [],
        chk(0.to(nr(vx) - 1).forall(a => 0.to(a - 1).forall(b => rowOf(vx, a) != rowOf(vx, b))), "no corner is listed twice") ])
    }
  }
  // probes: points of the active space; con: least constraint value, hull: largest hull equation value at each of them
  pure def hullBad(rows: List[List[int]], n: int, pr: T, con: T, hull: T, jac: int): List[str] =
    if (not(con.fin) or not(hull.fin) or con.d.length() != nr(pr) or hull.d.length() != nr(pr)) ["constraints and hull are defined"]
    else bads([
      chk(0.to(nr(pr) - 1).forall(k => { val sl = slack(rows, n, rowOf(pr, k))
        abs(sl) < S / 10000000 or (sl > 0) == (con.d[k] > 0) }), "the linear constraints describe the projected cube"),
      chk(0.to(nr(pr) - 1).forall(k => { val sl = slack(rows, n, rowOf(pr, k))
        abs(sl) < S / 10000000 or (sl > 0) == (hull.d[k] < 0) }), "the stored hull describes the projected cube"),
      chk(jac == 1, "the constraint Jacobian is that of the constraints") ])
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    if (c.op == "nzv") {
      val bad = argi(c, "kind", 0) != 0
      { st: st, tag: if (bad) "nzv-rejected" else "nzv",
        bad: if (bad) chk(o.ok != "ok", "a dimension that is not an integer raises") else chk(o.ok == "ok" and geti(o, "n") == nvert(argi(c, "m", 1), argi(c, "n", 1)), "the vertex count is 2 sum C(m-1,i)") }
    } else if (o.ok != "ok" and o.ok != "slow") { st: st, tag: "raised", bad: ["the boundary of a computed subspace raises"] }
    else if (c.op == "direct") {
      val W1 = toS(argx(c, "W1"), argi(c, "den_W1", 1))
      { st: st, tag: if (nc(W1) == 1) "interval-direct" else "zonotope-direct", bad: vertsBad(rowsOf(W1), nc(W1), getx(o, "vy"), getx(o, "vx"), false) }
    } else {
      val W = getx(o, "W")
      val n = geti(o, "n")
      val m = geti(o, "m")
      val want = argi(c, "n2", 1)
      if (o.ok == "slow") { st: st, tag: "-slow", bad: chk(max2(want, argi(c, "n", 1)) >= 2 and thin(rowsOf(W1of(W, max2(want, argi(c, "n", 1)))), max2(want, argi(c, "n", 1))), "the boundary of a computed subspace is found") }
      else if (not(orthoOk(W))) { st: st, tag: "-no-subspaces", bad: ["eigenvectors are orthogonal"] }
      else if (c.op == "unbounded") { st: st, tag: "unbounded", bad: bads([
        chk(m == nc(W) and n == argi(c, "n", 1), "dimensions of the domain"),
        chk(geti(o, "none") == 1, "an unbounded domain has no boundary attributes")]) }
      else {
        val rows = rowsOf(W1of(W, want))
        { st: st, tag: if (want == 1) "interval" else if (want == 2) "polygon" else if (want == 3) "polyhedron" else "zonotope",
          bad: if (n != want or m != nc(W)) ["the domain's dimensions follow the subspaces"] else bads([
            vertsBad(rows, want, getx(o, "vy"), getx(o, "vx"), argi(c, "kind", 0) <= 1),
            if (want == 1) chk(geti(o, "none") == 1, "an interval has neither hull nor constraints")
            else if (want <= 3) hullBad(rows, want, getx(o, "pr"), getx(o, "con"), getx(o, "hull"), geti(o, "jac")) else [] ]) }
      }
    }
}
module C08g {
  import fx.* from "./fx"
  import dom.* from "./dom"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(11).oneOf()
    nondet m = 2.to(6).oneOf()
    nondet kind = Set(0, 0, 0, 1, 1, 2, 3, 4).oneOf()
    nondet nn = 1.to(4).oneOf()
    nondet n0 = 1.to(3).oneOf()
    nondet k = 0.to(3).oneOf()
    val n = min2(nn, m)
    if (pick == 0) call' = { op: "nzv", i: Map("m" -> 1 + s % 24, "n" -> 1 + (s / 24) % min2(1 + s % 24, 9), "kind" -> (if (k <= 1) 1 + s % 3 else 0)), x: Map() }
    else if (pick == 1) call' = { op: "unbounded", i: Map("n" -> n, "den" -> 1), x: Map("df" -> gradients(s, m, kind)) }
    else if (pick <= 4) {
      // rows with zeros, parallel and generic; bounded sampling effort
      val m2 = min2(m, 5)
      val n2 = min2(n, if (k == 0) 1 else 2)
      val r = rlist(s, m2 * n2, -4, 4)
      call' = { op: "direct", i: Map("den_W1" -> 8), x: Map("W1" -> mkT([m2, n2], range(0, m2 * n2).foldl([], (l1, j) => l1.append(if (k == 1 and j / n2 == 0) 0 else if (k == 2 and j / n2 == 1) 2 * r[j % n2] else r[j])))) } }
    // n0: dimension at construction; n2: after a repartition followed by compute_boundary
    // (thin cones of directions make the sampling loop of the boundary slow in 4 dimensions: at most 5 inputs there)
    else {
      val m3 = if (n == 4) min2(m, 5) else m
      val n3 = min2(if (s % 3 == 0) n else n0, m3)
      val kd = if (max2(n, n3) > 1 and kind >= 2) 0 else kind
      call' = { op: "bounded", i: Map("n" -> n3, "n2" -> n, "den" -> 1, "kind" -> kd, "again" -> (if (s % 3 == 0) 0 else 1), "rs" -> s, "den_pr" -> 100),
        x: Map("df" -> gradients(s, m3, kd), "pr" -> rT(s + 1, 12, m3, -100, 100)) }
    }
  }
}
