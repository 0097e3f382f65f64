// C03: a Subspaces object reflects exactly its last successful calls, over any history and any number of objects.
module C03 {
  import fx.* from "./fx"
  import C01.outer from "./C01"
  import C01.eigBad from "./C01"
  // What one object shows. NONE marks an attribute that is None.
  type Ob = { e: T, W: T, w1: T, w2: T, br: T, sb: T }
  type St = List[Ob]
  pure val NONE: T = { sh: [-2], d: [], fin: false }
  pure val NEW: Ob = { e: NONE, W: NONE, w1: NONE, w2: NONE, br: NONE, sb: NONE }
  pure val st0: St = [NEW, NEW, NEW]

  pure def snap(o: Obs, k: int): Ob =
    if (k == 0) { e: getx(o, "e0"), W: getx(o, "W0"), w1: getx(o, "A0"), w2: getx(o, "B0"), br: getx(o, "r0"), sb: getx(o, "s0") }
    else if (k == 1) { e: getx(o, "e1"), W: getx(o, "W1"), w1: getx(o, "A1"), w2: getx(o, "B1"), br: getx(o, "r1"), sb: getx(o, "s1") }
    else { e: getx(o, "e2"), W: getx(o, "W2"), w1: getx(o, "A2"), w2: getx(o, "B2"), br: getx(o, "r2"), sb: getx(o, "s2") }
  pure def fresh(o: Obs): Ob =
    { e: getx(o, "ef"), W: getx(o, "Wf"), w1: getx(o, "Af"), w2: getx(o, "Bf"), br: getx(o, "rf"), sb: getx(o, "sf") }

  // ---- the documented admission rules -------------------------------------
  // sst: 0 AS, 1 OLS, 2 QPHD, 3 OPG, other unknown.  pt: 0 EVG, 1 RS, 2 LI, other unknown.
  pure def admissible(hasX: bool, hasF: bool, hasD: bool, shapeOk: bool, sst: int, pt: int, nboot: int): bool =
    and { hasX or hasD, shapeOk,
      or { and { sst == 0, hasD }, and { sst >= 1, sst <= 3, hasX, hasF } },
      pt >= 0, pt <= 2, or { pt == 0, nboot > 0 } }
  pure def computeOk(c: Call): bool = admissible(argi(c, "hasX", 0) == 1, argi(c, "hasF", 0) == 1, argi(c, "hasD", 0) == 1, argi(c, "shape", 0) == 0,
    argi(c, "sst", 0), argi(c, "pt", 0), argi(c, "nboot", 0))
  // nk: 0 int, 1 numpy integer, 2 float, 3 string, 4 None
  pure def partitionOk(a: Ob, c: Call): bool = a.W != NONE and argi(c, "nk", 0) <= 1 and argi(c, "n", 0) >= 1 and argi(c, "n", 0) <= nr(a.W)

  // ---- heuristics over recorded values -------------------------------------
  pure def gaps(e: T): List[int] = range(0, e.sh[0] - 1).foldl([], (l14, k) => l14.append(abs(e.d[k] - e.d[k + 1])))
  pure def rsCrit(e: T, err: List[int]): List[int] = range(0, e.sh[0] - 1).foldl([], (l13, k) => l13.append(fmul(fsqrt(range(0, k + 1).foldl(0, (s12, j) => s12 + e.d[j])), err[k]) + fsqrt(range(0, e.sh[0] - k - 1).foldl(0, (s11, j) => s11 + e.d[k + 1 + j]))))
  pure def liCrit(e: T, li: List[int]): List[int] = range(0, e.sh[0]).foldl([], (l10, k) => l10.append(li[k] + rdiv(e.d[k] * S, range(0, e.sh[0]).foldl(0, (s9, j) => s9 + e.d[j]))))
  pure def isMax(l: List[int], k: int, tol: int): bool = k >= 0 and k < l.length() and l.foldl(true, (q8, v) => q8 and (v <= l[k] + tol))
  pure def isMin(l: List[int], k: int, tol: int): bool = k >= 0 and k < l.length() and l.foldl(true, (q7, v) => q7 and (v >= l[k] - tol))

  // W1 and W2 are exactly the first n and the other columns of W
  pure def sliceOk(a: Ob, n: int): bool = and { a.W.fin, a.W.sh.length() == 2, n >= 1, n <= nr(a.W),
    a.w1 == colSlice(a.W, 0, n),
    a.w2.sh == [nr(a.W), nr(a.W) - n], a.w2.fin, a.w2.d == colSlice(a.W, n, nr(a.W)).d }
  pure def dimOf(a: Ob): int = if (a.w1.sh.length() == 2) a.w1.sh[1] else -1

  pure def computedBad(a: Ob, c: Call, o: Obs): List[str] = {
    val m = argi(c, "m", 0)
    val n = dimOf(a)
    val pt = argi(c, "pt", 0)
    val boot = argi(c, "nboot", 0) > 0
    if (not(isSh(a.e, [m, 1])) or not(isSh(a.W, [m, m]))) ["eigenpairs are stored as finite m-by-1 and m-by-m arrays"]
    else if (not(sliceOk(a, n))) ["W1 and W2 are the first n and last m-n eigenvectors"]
    else if (boot and (not(isSh(a.br, [m, 2])) or not(isSh(a.sb, [m - 1, 3])))) ["a bootstrapped compute stores both bootstrap ranges"]
    else {
      val tol = lmaxabs(a.e.d) / 1000000000 + 100
      val li = getx(o, "li")
      bads([
        chk(boot or (a.br == NONE and a.sb == NONE), "a compute without bootstrap has no bootstrap ranges"),
        chk(a == fresh(o), "the same call on a new object gives the same attributes"),
        if (argi(c, "sst", 0) == 0) {
          val df = argx(c, "df")
          eigBad(outer(df, argi(c, "den", 1), if (argi(c, "wdef", 1) == 1) range(0, nr(df)).foldl([], (l6, k) => l6.append(1)) else argx(c, "w").d,
            if (argi(c, "wdef", 1) == 1) nr(df) else argi(c, "den_w", 1)), a.e, a.W) } else [],
        chk(n >= 1 and (n < m or pt == 2), "the dimension is between 1 and m-1 (m for LI)"),
        if (pt == 0) chk(isMax(gaps(a.e), n - 1, tol), "EVG chooses the largest gap")
        else if (pt == 1) chk(isMin(rsCrit(a.e, range(0, m - 1).foldl([], (l5, k) => l5.append(at(a.sb, k, 1)))), n - 1, 10 * tol), "RS chooses the smallest error bound")
        else if (isSh(li, [m, 1]) and maxabsT(a.e) > 0) chk(isMin(liCrit(a.e, li.d), n - 1, S / 1000000000), "LI chooses the smallest criterion") else []
      ])
    }
  }
  pure def othersBad(st: St, o: Obs, k: int): List[str] =
    chk(0.to(3 - 1).forall(j => j == k or snap(o, j) == st[j]), "other objects are not affected")
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val k = argi(c, "obj", 0)
    val nx = range(0, 3).foldl([], (l3, j) => l3.append(snap(o, j)))
    val a = snap(o, k)
    if (o.ok == "died" or o.ok == "timeout") { st: st, bad: ["the call ends"], tag: "died" }
    else if (c.op == "new") { st: nx, tag: "new", bad: othersBad(st, o, k).concat(chk(o.ok == "ok" and a == NEW, "a new object has no results")) }
    else if (c.op == "scribble") { st: nx, tag: "scribble", bad: chk(nx == st, "results do not change when the arguments of earlier calls do") }
    else if (c.op == "compute") {
      if (computeOk(c)) {
        { st: nx, bad: othersBad(st, o, k).concat(if (o.ok != "ok") ["a well-formed compute succeeds"] else computedBad(a, c, o)),
          tag: if (argi(c, "nboot", 0) > 0) (if (argi(c, "pt", 0) == 0) "compute-boot-EVG" else if (argi(c, "pt", 0) == 1) "compute-boot-RS" else "compute-boot-LI") else "compute-plain" }
      } else { st: nx, tag: if (st[k] == NEW) "compute-rejected-new" else "compute-rejected", bad: bads([
          chk(o.ok != "ok", "a compute that breaks the rules raises"), chk(nx == st, "a rejected compute changes nothing")]) }
    } else {
      if (partitionOk(st[k], c)) { st: nx, tag: "partition", bad: othersBad(st, o, k).concat(if (o.ok != "ok") ["a well-formed partition succeeds"] else bads([
          chk(a.e == st[k].e and a.W == st[k].W and a.br == st[k].br and a.sb == st[k].sb, "partition keeps the other attributes"),
          chk(sliceOk(a, argi(c, "n", 0)), "W1 and W2 are the first n and last m-n eigenvectors")])) }
      else { st: nx, tag: if (st[k] == NEW) "partition-rejected-new" else "partition-rejected", bad: bads([
          chk(o.ok != "ok", "a partition that breaks the rules raises"), chk(nx == st, "a rejected partition changes nothing")]) }
    }
  }
}
// Generator: random histories over three objects.
module C03g {
  import fx.* from "./fx"
  import C03.* from "./C03"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action doNew = {
    nondet k = 0.to(2).oneOf()
    call' = { op: "new", i: Map("obj" -> k), x: Map() }
  }
  action doScribble = call' = { op: "scribble", i: Map("obj" -> 0), x: Map() }
  action doPartition = {
    nondet k = 0.to(2).oneOf()
    nondet n = Set(-1, 0, 1, 1, 2, 2, 3, 4, 5).oneOf()
    nondet nk = Set(0, 0, 0, 0, 1, 2, 3, 4).oneOf()
    nondet keep = 0.to(3).oneOf()
    call' = { op: "partition", i: Map("obj" -> k, "n" -> n, "nk" -> (if (keep > 0) 0 else nk)), x: Map() }
  }
  action doCompute = {
    nondet k = 0.to(2).oneOf()
    nondet s = 1.to(1000000000).oneOf()
    nondet m = 2.to(4).oneOf()
    nondet sst = 0.to(3).oneOf()
    nondet pt = 0.to(2).oneOf()
    nondet nboot = Set(0, 1, 3, 8).oneOf()
    nondet give = 0.to(2).oneOf()
    nondet wdef = 0.to(1).oneOf()
    nondet spoil = 0.to(17).oneOf()
    val M = (m + 1) * (m + 2) / 2 + 2 + s % 4
    val hasD = if (sst == 0) true else give == 1
    val hasX = if (sst > 0) true else give == 1
    val hasF = if (sst > 0) true else give == 1 and s % 2 == 0
    call' = { op: "compute", i: Map("obj" -> k, "m" -> m, "den" -> 4, "den_w" -> 10, "wdef" -> (if (sst == 2) 1 else wdef), "rs" -> s,
        "sst" -> (if (spoil == 0) 4 + s % 3 else sst),
        "pt" -> (if (spoil == 1) 3 + s % 3 else if (nboot == 0 and spoil >= 5) 0 else pt),
        "nboot" -> (if (sst == 3 and m == 4) min2(nboot, 1) else nboot),
        "hasX" -> (if (hasX and spoil != 2) 1 else 0), "hasF" -> (if (hasF and spoil != 3) 1 else 0), "hasD" -> (if (hasD and spoil != 2 and not(spoil == 3 and sst == 0)) 1 else 0),
        // 1: one-dimensional inputs, 2: f of another length, 3: inputs None altogether is covered by spoil 2
        "shape" -> (if (spoil == 4) (if (sst > 0) 1 + s % 2 else 1) else 0)),
      x: Map("X" -> rT(s, M, m, -9, 9), "f" -> rT(s + 1, M, 1, -30, 30), "df" -> rT(s + 2, M, m, -9, 9), "w" -> rT(s + 3, M, 1, 1, 9)) }
  }
  action step = {
    nondet pick = 0.to(9).oneOf()
    if (pick == 0) doNew else if (pick <= 3) doPartition else if (pick == 4) doScribble else doCompute
  }
}
// The abstract lifecycle, explored exhaustively: what is stored, for two objects, small dimensions, every kind of call.
module C03m {
  import fx.* from "./fx"
  import C03.* from "./C03"
  // c: computed; m, n: dimensions; b: bootstrap ranges present; id: which successful compute produced the results
  type Ab = { c: bool, m: int, n: int, b: bool, id: int }
  var objs: int -> Ab
  var good: bool       // the last step satisfied the property
  pure val FRESH: Ab = { c: false, m: 0, n: 0, b: false, id: 0 }
  action init = all { objs' = Set(0, 1).mapBy(k => FRESH), good' = true }
  // the step property: only object k may change, and only as documented
  pure def stepOk(a: int -> Ab, b: int -> Ab, k: int, accepted: bool, want: Ab): bool = and {
    Set(0, 1).forall(j => j != k implies a.get(j) == b.get(j)),
    if (accepted) b.get(k) == want else a == b }
  action newObj(k: int): bool = all { objs' = objs.set(k, FRESH), good' = true }
  action compute(k: int, hasX: bool, hasF: bool, hasD: bool, shapeOk: bool, sst: int, pt: int, nboot: int, m: int, n: int, id: int): bool = {
    val acc = admissible(hasX, hasF, hasD, shapeOk, sst, pt, nboot)
    val nx = if (acc) objs.set(k, { c: true, m: m, n: n, b: nboot > 0, id: id }) else objs
    all { n < m or (pt == 2 and n <= m), objs' = nx, good' = stepOk(objs, nx, k, acc, { c: true, m: m, n: n, b: nboot > 0, id: id }) } }
  action partition(k: int, n: int, nk: int): bool = {
    val acc = objs.get(k).c and nk <= 1 and n >= 1 and n <= objs.get(k).m
    val nx = if (acc) objs.set(k, { ...objs.get(k), n: n }) else objs
    all { objs' = nx, good' = stepOk(objs, nx, k, acc, { ...objs.get(k), n: n }) } }
  action step = any {
    { nondet k = Set(0, 1).oneOf()
      newObj(k) },
    { nondet k = Set(0, 1).oneOf()
      nondet hasX = Set(true, false).oneOf()
      nondet hasF = Set(true, false).oneOf()
      nondet hasD = Set(true, false).oneOf()
      nondet shapeOk = Set(true, false).oneOf()
      nondet sst = Set(0, 1, 4).oneOf()
      nondet pt = Set(0, 2, 3).oneOf()
      nondet nboot = Set(0, 2).oneOf()
      nondet n = 1.to(3).oneOf()
      nondet id = Set(1, 2).oneOf()
      compute(k, hasX, hasF, hasD, shapeOk, sst, pt, nboot, 3, n, id) },
    { nondet k = Set(0, 1).oneOf()
      nondet n = 0.to(4).oneOf()
      nondet nk = Set(0, 2).oneOf()
      partition(k, n, nk) }
  }
  // the property
  val inv = and {
    good,
    Set(0, 1).forall(k => { val a = objs.get(k)
      and { a.c implies (a.n >= 1 and a.n <= a.m), not(a.c) implies (a.n == 0 and not(a.b)) } })
  }
}
