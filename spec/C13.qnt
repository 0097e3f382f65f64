// C13: conditional expectations are the means and population variances of the outputs carrying each index.
module C13 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val f = argx(c, "f").d
    val ix = argx(c, "ind").d
    val den = argi(c, "den_f", 1)
    val n = ix.foldl(0, (a, v) => max2(a, v)) + 1
    val grp = range(0, n).foldl([], (l7, g) => l7.append(range(0, f.length()).foldl([], (a, k) => if (ix[k] == g) a.append(f[k]) else a)))
    val Ef = getx(o, "Ef")
    val Vf = getx(o, "Vf")
    val mx = lmaxabs(f) * S / den
    { st: st, tag: if (n == 1) "one-group" else if (grp.foldl(true, (q6, l) => q6 and (l.length() == 1))) "singletons" else "groups",
      bad: if (o.ok != "ok") ["well-formed outputs raise"]
        else if (not(isSh(Ef, [n, 1])) or not(isSh(Vf, [n, 1]))) ["means and variances are n-by-1 columns"]
        else bads([
          chk(0.to(n - 1).forall(g => near(Ef.d[g], rdiv(lsum(grp[g]) * S, grp[g].length() * den), mx / 1000000000000 + 10)), "each mean is that of exactly the outputs with the index"),
          chk(0.to(n - 1).forall(g => { val k = grp[g].length()
            near(Vf.d[g], rdiv((k * dotl(grp[g], grp[g]) - lsum(grp[g]) * lsum(grp[g])) * S, k * k * den * den), mx / 1000000000000 * (1 + mx / S) + Vf.d[g] / 1000000000 + 10) }),
            "each variance is the population variance of exactly the outputs with the index") ]) }
  }
}
module C13g {
  import fx.* from "./fx"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet n1 = 1.to(12).oneOf()
    nondet M0 = Set(0, 1, 2, 5, 10, 20, 40, 80).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet lay = 0.to(5).oneOf()
    nondet idt = 0.to(3).oneOf()
    nondet den = Set(1, 8, 1000).oneOf()
    val n = if (s % 12 == 0) 40 + s % 30 else n1
    val M = n + (if (kind == 3) 0 else if (s % 12 == 6) 300 else M0)
    val r = rlist(s, M, 0, n - 1)
    val rot = rnd(s, 5, 0, M - 1)
    // every index occurs; the rows are rotated and reversed so groups are interleaved
    val ix0 = range(0, M).foldl([], (l3, k) => l3.append(if (k < n) k else r[k]))
    val ix = range(0, M).foldl([], (l2, k) => l2.append(ix0[(k * (if (kind == 1) 1 else M - 1) + rot) % M]))
    val srt = if (kind == 2) cat(range(0, n).foldl([], (l1, g) => l1.append(range(0, M).foldl([], (a, k) => if (ix[k] == g) a.append(g) else a)))) else ix
    call' = { op: "cond", i: Map("den_f" -> den, "den_ind" -> 1, "lay" -> lay, "idt" -> idt),
      x: Map("f" -> rT(s + 1, M, 1, -1000, if (kind == 1) 1000000 else 1000), "ind" -> mkT([M, 1], srt)) }
  }
}
