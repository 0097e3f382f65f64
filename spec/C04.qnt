// C04: the dimension heuristics return the optimum of their documented criterion, with the criterion values.
module C04 {
  import fx.* from "./fx"
  import C03.gaps from "./C03"
  import C03.rsCrit from "./C03"
  import C03.liCrit from "./C03"
  import C03.isMax from "./C03"
  import C03.isMin from "./C03"
  type St = int
  pure val st0: St = 0
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val e = toS(argx(c, "e"), argi(c, "den", 1))
    val m = nr(e)
    val aux = toS(argx(c, "aux"), argi(c, "den_aux", 1))
    val crit = if (c.op == "evg") gaps(e) else if (c.op == "rs") rsCrit(e, aux.d) else liCrit(e, aux.d)
    val tol = if (c.op == "evg") lmaxabs(e.d) / 1000000000000 + 10 else (lmaxabs(crit) / 10000000000 + 1000)
    val n = geti(o, "n")
    val v = getx(o, "v")
    { st: st,
      tag: if (m == 2 and c.op == "evg") "evg-m2" else c.op,
      bad: if (o.ok != "ok") ["well-formed eigenvalues raise"] else bads([
        chk(n >= 1, "the dimension is at least 1"),
        chk(if (c.op == "evg") isMax(crit, n - 1, tol) else isMin(crit, n - 1, tol), "the dimension optimizes the criterion"),
        chk(v.fin and v.d.length() == crit.length() and 0.to(crit.length() - 1).forall(k => abs(v.d[k] - crit[k]) <= tol), "the criterion values are returned")
      ]) }
  }
}
module C04g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  // non-increasing nonnegative integers
  pure def spectrum(s: int, m: int, kind: int): List[int] = {
    val r = rlist(s, m, 0, if (kind == 0) 9 else if (kind == 1) 100000 else 3)
    val p = if (kind == 3) range(0, m).foldl([], (l6, k) => l6.append(powi(10, 2 * (m - k)))) else r
    val z = if (kind == 4) range(0, m).foldl([], (l5, k) => l5.append(if (k * 2 < m) p[k] + 5 else 0)) else p
    range(0, m).foldl([], (acc, k) => acc.append(range(0, m - k).foldl(0, (s4, j) => s4 + z[k + j])))
  }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet op = Set("evg", "rs", "li").oneOf()
    nondet m1 = 2.to(9).oneOf()
    nondet kind = 0.to(5).oneOf()
    nondet ak = 0.to(3).oneOf()
    nondet den = Set(1, 10, 1000000).oneOf()
    nondet lay = Set(0, 1, 3).oneOf()
    val m = if (s % 7 == 0) 10 + s % 16 else m1
    // all eigenvalues equal, zero too
    val sp = if (kind == 5) range(0, m).foldl([], (l7, _) => l7.append(s % 3)) else spectrum(s, m, kind)
    val e = if (sp[0] == 0 and op == "li") range(0, m).foldl([], (l3, k) => l3.append(if (k == 0) 1 else 0)) else sp
    val k2 = if (op == "li") m else m - 1
    val a0 = rlist(s + 1, k2, if (op == "li") 0 else 1, 1000)
    val a = if (ak == 0) range(0, k2).foldl([], (l2, k) => l2.append(1000)) else if (ak == 1) range(0, k2).foldl([], (l1, k) => l1.append(if (k == s % k2) 1 else 1000)) else a0
    call' = { op: op, i: Map("den" -> den, "den_e" -> den, "den_aux" -> 1000, "lay" -> lay),
      x: Map("e" -> mkT([m, 1], e), "aux" -> mkT([k2, 1], a)) }
  }
}
