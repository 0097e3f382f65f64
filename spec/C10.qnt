// C10: a runner calls the user function exactly once per input row, in row order, and stores the results in order;
// an exception of the user function ends the run and reaches the caller unchanged; runs share nothing.
module C10 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  // calls a run makes: all rows, or the rows up to the failing one
  pure def ncalls(M: int, flr: int): int = if (flr >= 0 and flr < M) flr + 1 else M
  pure def runBad(X: T, den: int, want: T, flr: int, seen: T, res: T, raised: bool, same: bool, shapes: int): List[str] = {
    val M = nr(X)
    val k = ncalls(M, flr)
    bads([
      chk(shapes == 1, "the function gets 1-by-m arrays"),
      chk(seen.fin and seen == toS(mkT([k, nc(X)], X.d.slice(0, k * nc(X))), den), "the function is called once per row, in row order, up to the first exception"),
      if (k < M or (flr >= 0 and flr < M)) chk(raised and same, "an exception of the function reaches the caller unchanged")
      else if (raised) ["a run without exceptions returns"] else chk(res == want, "result i is the output of row i") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val X = argx(c, "X")
    val den = argi(c, "den_X", 1)
    val flr = argi(c, "fail", -1)
    val own = runBad(X, den, toS(argx(c, "out"), argi(c, "den_out", 1)), flr, getx(o, "seen"), getx(o, "res"), geti(o, "raised") == 1, geti(o, "same") == 1, geti(o, "shapes"))
    val inner = if (argi(c, "nest", -1) < 0 or argi(c, "nest", -1) >= ncalls(nr(X), flr)) []
      else runBad(argx(c, "X2"), den, toS(argx(c, "out2"), argi(c, "den_out", 1)), -1, getx(o, "seen2"), getx(o, "res2"), geti(o, "raised2") == 1, true, geti(o, "shapes2"))
    { st: st, bad: if (o.ok != "ok") ["the run ends"] else own.concat(inner).concat(chk(geti(o, "kept") == 1, "results of earlier runs stay as they were")),
      tag: if (flr >= 0 and flr < nr(X)) "exception" else if (argi(c, "nest", -1) >= 0) "nested" else if (argi(c, "grad", 0) == 1) "gradient" else "value" }
  }
}
module C10g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet obj = 0.to(2).oneOf()
    nondet grad = 0.to(1).oneOf()
    nondet m = 1.to(5).oneOf()
    nondet M1 = Set(1, 2, 3, 5, 9, 40).oneOf()
    nondet form = 0.to(5).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet fk = 0.to(4).oneOf()
    nondet nk = 0.to(3).oneOf()
    nondet dup = 0.to(4).oneOf()
    nondet ek = 0.to(5).oneOf()
    val M = if (M1 == 40 and s % 3 == 0) 110 + s % 120 else M1
    val r = rlist(s, M * m, -99, 99)
    call' = { op: "run", i: Map("obj" -> obj, "grad" -> grad, "form" -> form, "lay" -> lay, "den_X" -> 8, "den_X2" -> 8, "den_out" -> 8, "den_out2" -> 8, "exc" -> ek,
        "fail" -> (if (fk == 0) rnd(s, 1, 0, M - 1) else -1), "nest" -> (if (nk == 0) rnd(s, 2, 0, M - 1) else -1)),
      // repeated rows too: each is a run of its own
      x: Map("X" -> mkT([M, m], range(0, M * m).foldl([], (l1, k) => l1.append((if (lay == 2) 8 else 1) * (if (dup == 0) r[k % (2 * m) % (M * m)] else if (dup == 1) r[(k / (2 * m)) * m + k % m] else if (dup == 2) r[k % m] else r[k])))), "out" -> rT(s + 1, M, if (grad == 1) m else 1, -999, 999),
        "X2" -> rT(s + 2, 1 + s % 3, m, -99, 99), "out2" -> rT(s + 3, 1 + s % 3, if (grad == 1) m else 1, -999, 999)) }
  }
}
// The run loop as a machine, explored exhaustively: a run over M rows whose function may fail at any row and may itself run another runner.
module C10m {
  import fx.* from "./fx"
  // one frame per active run: rows left to right; done: results so far
  type Fr = { M: int, fail: int, calls: List[int], res: List[int], over: str }
  var stack: List[Fr]
  var finished: List[Fr]
  pure val RES: int = 100
  action init = { nondet M = 1.to(3).oneOf()
    nondet f = (-1).to(2).oneOf()
    all { stack' = [{ M: M, fail: f, calls: [], res: [], over: "" }], finished' = [] } }
  pure def top(st: List[Fr]): Fr = st[st.length() - 1]
  pure def replTop(st: List[Fr], f: Fr): List[Fr] = st.replaceAt(st.length() - 1, f)
  // the function is called for the next row and returns or raises
  action callRow = all {
    stack.length() > 0,
    top(stack).over == "" and top(stack).res.length() == top(stack).calls.length() and top(stack).calls.length() < top(stack).M,
    stack' = replTop(stack, { ...top(stack), calls: top(stack).calls.append(top(stack).calls.length()) }), finished' = finished }
  // while the function runs, it may run another runner
  action nest = all { stack.length() == 1, top(stack).calls.length() > top(stack).res.length(), finished.length() == 0,
    nondet M = 1.to(2).oneOf()
    nondet f = (-1).to(1).oneOf()
    all { stack' = stack.append({ M: M, fail: f, calls: [], res: [], over: "" }), finished' = finished } }
  action ret = all { stack.length() > 0, top(stack).over == "", top(stack).calls.length() > top(stack).res.length(),
    val row = top(stack).res.length()
    if (row == top(stack).fail) all { stack' = replTop(stack, { ...top(stack), over: "raised" }), finished' = finished }
    else all { stack' = replTop(stack, { ...top(stack), res: top(stack).res.append(RES + row) }), finished' = finished } }
  action finish = all { stack.length() > 0,
    or { top(stack).over == "raised", top(stack).res.length() == top(stack).M },
    finished' = finished.append({ ...top(stack), over: if (top(stack).over == "raised") "raised" else "done" }),
    stack' = stack.slice(0, stack.length() - 1) }
  action step = any { callRow, nest, ret, finish }
  // the property
  val inv = finished.indices().forall(i => { val f = finished[i]
    and {
    f.calls.length() == (if (f.fail >= 0 and f.fail < f.M) f.fail + 1 else f.M),
    f.calls.indices().forall(k => f.calls[k] == k),
    (f.over == "raised") == (f.fail >= 0 and f.fail < f.M),
    f.over == "done" implies (f.res.length() == f.M and f.res.indices().forall(k => f.res[k] == RES + k)) } })
}
