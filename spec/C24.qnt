// C24: solver backends are selected consistently, and the programs stated to Gurobi are the documented ones.
module C24 {
  import fx.* from "./fx"
  // names: 0 GUROBI, 1 SCIPY, 2 another, 3 the default
  type St = { avail: bool, sol: int -> int }
  pure val st0: St = { avail: false, sol: Map(-1 -> 1) }
  // the backend a solver asked for by name uses
  pure def backend(avail: bool, name: int): int = if ((name == 0 or name == 3) and avail) 0 else 1
  pure def eqRow(r: List[int], rhs: int, A: List[int], b: int, tol: int): bool = r.length() == A.length() and 0.to(A.length() - 1).forall(j => near(r[j], A[j], tol)) and near(rhs, b, tol)
  pure def neg(l: List[int]): List[int] = l.foldl([], (a, v) => a.append(-v))
  // constraints as a set: every stated row is a documented one and conversely
  pure def rowsBad(o: Obs, A: T, b: T, sense: int): List[str] = {
    val R = getx(o, "rows")
    val rhs = getx(o, "rhs")
    if (nr(A) == 0) chk(R.fin and nr(R) == 0, "no constraints but the documented ones")
    else if (not(isSh(R, A.sh)) or not(getx(o, "sense").d.foldl(true, (q, v) => q and (v == sense * S)))) ["the program has the documented constraints"]
    else chk(0.to(nr(A) - 1).forall(i => 0.to(nr(A) - 1).exists(k => eqRow(rowOf(R, k), rhs.d[k], rowOf(A, i), b.d[i], 1000) or (sense == 0 and eqRow(rowOf(R, k), rhs.d[k], neg(rowOf(A, i)), -b.d[i], 1000))))
      and 0.to(nr(A) - 1).forall(k => 0.to(nr(A) - 1).exists(i => eqRow(rowOf(R, k), rhs.d[k], rowOf(A, i), b.d[i], 1000) or (sense == 0 and eqRow(rowOf(R, k), rhs.d[k], neg(rowOf(A, i)), -b.d[i], 1000)))), "the program has the documented constraints")
  }
  pure def programBad(c: Call, o: Obs): List[str] = {
    val form = argi(c, "form", 0)
    val den = argi(c, "den", 1)
    val cc = toS(argx(c, "c"), den)
    val n = nr(cc)
    val Q = toS(argx(c, "Q"), den)
    val bounded = form == 0 or form == 2
    val noRows = mkT([0, n], [])
    bads([
      chk(isSh(getx(o, "lin"), [n, 1]) and nearT(getx(o, "lin"), cc, 1000), "the linear objective is c"),
      chk(isSh(getx(o, "quad"), [n, n]) and 0.to(n - 1).forall(i => 0.to(n - 1).forall(j => near(2 * at(getx(o, "quad"), i, j), if (form >= 2) at(Q, i, j) + at(Q, j, i) else 0, 1000))), "the quadratic objective is Q"),
      if (bounded) chk(nearT(getx(o, "lb"), mkT([n], toS(argx(c, "lb"), den).d), 1000) and nearT(getx(o, "ub"), mkT([n], toS(argx(c, "ub"), den).d), 1000) and lsum(getx(o, "linf").d) + lsum(getx(o, "uinf").d) == 0, "variables have the given bounds")
      else chk(getx(o, "linf").d.foldl(true, (q, v) => q and (v == S)) and getx(o, "uinf").d.foldl(true, (q, v) => q and (v == S)), "variables are free"),
      rowsBad(o, if (form == 2) noRows else toS(argx(c, "A"), den), toS(argx(c, "b"), den), if (form == 0) 0 else 1) ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val k = argi(c, "obj", 0)
    if (c.op == "load") { st: { avail: argi(c, "avail", 0) == 1, sol: Map(-1 -> 1) }, bad: chk(o.ok == "ok", "the module loads with and without Gurobi"), tag: if (argi(c, "avail", 0) == 1) "load-gurobi" else "load-none" }
    else if (c.op == "make") {
      val b = backend(st.avail, argi(c, "name", 3))
      { st: { ...st, sol: st.sol.put(k, b) }, tag: "make", bad: bads([chk(o.ok == "ok", "a solver is made"), chk(o.ok != "ok" or geti(o, "solver") == b, "Gurobi when asked for and present, SciPy otherwise")]) } }
    else if (not(st.sol.keys().contains(k))) { st: st, bad: [], tag: "-none" }
    else if (c.op == "rename") { st: { ...st, sol: st.sol.put(k, 2) }, bad: [], tag: "-rename" }
    else {
      val b = st.sol.get(k)
      val n = nr(argx(c, "c"))
      if (b == 2) { st: st, bad: chk(o.ok == "ValueError" and geti(o, "used") == 0, "an unknown solver is rejected"), tag: "unknown" }
      else if (b == 1) { st: st, tag: "scipy", bad: bads([
        chk(geti(o, "used") == 0, "SciPy solves the program without Gurobi"),
        chk(o.ok != "ok" or isSh(getx(o, "x"), [n, 1]), "solutions are n-by-1 columns"),
        chk(o.ok == "ok", "a feasible bounded program is solved") ]) }
      else if (geti(o, "used") != 1) { st: st, tag: "gurobi-not-used", bad: ["Gurobi solves the program once"] }
      else { st: st, tag: if (argi(c, "status", 2) != 2) "gurobi-failed" else ["gurobi-eq", "gurobi-ineq", "gurobi-bnd", "gurobi-qineq"][argi(c, "form", 0)],
        bad: bads([
          programBad(c, o),
          if (argi(c, "status", 2) != 2) chk(o.ok == "raised" or o.ok == "ValueError", "a failure of the solver is raised")
          else chk(o.ok == "ok" and nearT(getx(o, "x"), toS(argx(c, "sol"), argi(c, "den", 1)), 1000), "the solver's solution is returned as an n-by-1 column") ]) }
    }
  }
}
// selection as a machine, explored exhaustively: what each live solver uses is fixed when it is made and independent of the others
module C24m {
  import C24.backend from "./C24"
  var avail: bool
  var asked: int -> int
  var made: int -> bool
  var uses: int -> int
  action init = { nondet a = Set(true, false).oneOf()
    all { avail' = a, asked' = Map(0 -> 9, 1 -> 9, 2 -> 9), made' = Map(0 -> false, 1 -> false, 2 -> false), uses' = Map(0 -> 9, 1 -> 9, 2 -> 9) } }
  action load = { nondet a = Set(true, false).oneOf()
    all { avail' = a, asked' = Map(0 -> 9, 1 -> 9, 2 -> 9), made' = Map(0 -> false, 1 -> false, 2 -> false), uses' = Map(0 -> 9, 1 -> 9, 2 -> 9) } }
  action make = { nondet k = 0.to(2).oneOf()
    nondet n = 0.to(3).oneOf()
    all { avail' = avail, asked' = asked.set(k, n), made' = made.set(k, true), uses' = uses.set(k, backend(avail, n)) } }
  action rename = { nondet k = 0.to(2).oneOf()
    all { made.get(k), avail' = avail, asked' = asked.set(k, 2), made' = made, uses' = uses.set(k, 2) } }
  action step = any { load, make, rename }
  val inv = 0.to(2).forall(k => and {
    made.get(k) iff uses.get(k) != 9,
    (uses.get(k) == 0) implies (avail and (asked.get(k) == 0 or asked.get(k) == 3)),
    (made.get(k) and asked.get(k) == 1) implies uses.get(k) == 1,
    (made.get(k) and not(avail)) implies uses.get(k) != 0,
    (made.get(k) and asked.get(k) == 2) implies uses.get(k) != 0 })
}
module C24g {
  import fx.* from "./fx"
  var call: Call
  var live: int -> bool
  action init = all { call' = { op: "", i: Map(), x: Map() }, live' = Map(0 -> false, 1 -> false, 2 -> false) }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(23).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet name = Set(0, 0, 1, 2, 3).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet n = 1.to(4).oneOf()
    nondet M = 1.to(3).oneOf()
    nondet lay = 0.to(4).oneOf()
    if (call.op == "" or pick == 0) all { call' = { op: "load", i: Map("avail" -> (if (s % 4 == 0) 0 else 1)), x: Map() }, live' = Map(0 -> false, 1 -> false, 2 -> false) }
    else if (not(live.get(k)) or pick <= 2) all { call' = { op: "make", i: Map("obj" -> k, "name" -> name, "kw" -> s % 2), x: Map() }, live' = live.set(k, true) }
    else if (pick == 3) all { call' = { op: "rename", i: Map("obj" -> k), x: Map() }, live' = live }
    else {
      val A = rT(s, M, n, -5, 5)
      val x0 = rlist(s + 1, n, -4, 4)
      val B = rT(s + 2, n, n, -2, 2)
      val Q = cat(range(0, n).foldl([], (l, i) => l.append(range(0, n).foldl([], (l2, j) => l2.append((if (i == j) 4 else if (i < j) s % 3 else -(s % 3)) + range(0, n).foldl(0, (q, r) => q + at(B, r, i) * at(B, r, j)))))))
      // feasible and bounded: x0 satisfies the constraints, the objective is a combination of the rows (form 1)
      val rhs = range(0, M).foldl([], (l, i) => l.append(dotl(rowOf(A, i), x0) - (if (form == 0) 0 else rnd(s, i, 0, 4))))
      val y = rlist(s + 3, M, 0, 3)
      val cc = if (form == 1) range(0, n).foldl([], (l, j) => l.append(range(0, M).foldl(0, (q, i) => q + y[i] * at(A, i, j)))) else rlist(s + 4, n, -9, 9)
      val w = rlist(s + 5, 2 * n, 0, 5)
      all { live' = live, call' = { op: "solve", i: Map("obj" -> k, "form" -> form, "den" -> 1, "lay" -> lay, "status" -> (if (s % 7 == 0) 3 + s % 3 else 2)), x: Map(
        "c" -> mkT([n, 1], cc), "A" -> A, "b" -> mkT([M, 1], rhs), "Q" -> mkT([n, n], Q),
        "lb" -> mkT([n, 1], range(0, n).foldl([], (l, j) => l.append(x0[j] - w[j]))), "ub" -> mkT([n, 1], range(0, n).foldl([], (l, j) => l.append(x0[j] + w[n + j]))),
        "sol" -> mkT([n, 1], rlist(s + 6, n, -99, 99))) } } }
  }
}
