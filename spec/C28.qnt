// C28: operations never modify their arguments or earlier results. A history machine over all public operations: every array given to
// or obtained from an operation (returned, or read from an object afterwards) is kept, and keeps the contents it had.
module C28 {
  import fx.* from "./fx"
  import C27.member from "./C27"
  import C27.SAMP from "./C27"
  // contents (digests) of the arrays handed out so far, and results of operations that do not sample
  type St = { held: List[int], memo: { op: str, a: int, lay: int } -> int }
  pure val st0: St = { held: [], memo: Map() }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val now = getx(o, "held").d
    val na = geti(o, "nargs")
    val k = st.held.length()
    val key = { op: c.op, a: argi(c, "a", 0), lay: argi(c, "lay", 0) }
    val samp = member(SAMP, c.op)
    val old = not(samp) and st.memo.keys().contains(key)
    if (o.ok != "ok") { st: st, tag: "raised", bad: [if (argi(c, "lay", 0) == 3) "an operation accepts arrays it may not modify" else "the operation does not raise"] }
    else { st: { held: now, memo: if (samp or old) st.memo else st.memo.put(key, geti(o, "res")) },
      tag: if (old) "again" else if (argi(c, "lay", 0) == 3) "read-only" else if (k > 0) "later" else "first",
      bad: bads([
        chk(geti(o, "argsame") == 1, "arguments are not modified"),
        chk(now.length() >= k and st.held.indices().forall(j => st.held[j] == now[j]), "arrays given or handed out earlier do not change"),
        if (old) chk(st.memo.get(key) == geti(o, "res"), "repeating an operation on the same arguments gives the same result") else [] ]) }
  }
}
module C28g {
  import fx.* from "./fx"
  import C27.DET from "./C27"
  import C27.SAMP from "./C27"
  import C27.SEARCH from "./C27"
  var call: Call
  var base: int
  pure val ALL: List[str] = DET.concat(SAMP).concat(SEARCH)
  action init = {
    nondet b = 0.to(ALL.length() - 1).oneOf()
    all { call' = { op: "", i: Map(), x: Map() }, base' = b }
  }
  action step = {
    nondet s = 0.to(1000000).oneOf()
    nondet w = 0.to(7).oneOf()
    nondet lay = 0.to(3).oneOf()
    all { base' = base,
      call' = { op: ALL[(if (w == 7) s else base + (if (w <= 3) 0 else if (w <= 5) 1 else 2)) % ALL.length()], i: Map("a" -> s / 7 % 4, "lay" -> lay, "fresh" -> s / 3 % 5), x: Map() } }
  }
}
