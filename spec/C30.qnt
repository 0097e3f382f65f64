// C30: plots show the given data, one figure or file per documented plot. A session machine: figures stay open (or are closed when
// shown, as interactive backends do), the directory figs/ exists or not, and every plot adds its documented figures and files.
module C30 {
  import fx.* from "./fx"
  import C21.halves from "./C21"
  import C21.hullVerts from "./C21"
  // figs: the directory exists; nf: figures open
  type St = { figs: bool, nf: int }
  pure val st0: St = { figs: false, nf: 0 }
  // What a panel has to show, as points in units of 1/S: lines through points in order, filled ranges (their corners), coloured points
  // (x, y, colour); texts: 100 the label of the output, 110+k label and eigenvector k, others as documented, -1 not prescribed.
  type Panel = { line: List[List[int]], fill: List[List[int]], dots: List[List[int]], title: int, xl: int, yl: int, logy: bool, square: bool }
  type Fig = { file: int, panels: List[Panel] }
  pure val P0: Panel = { line: [], fill: [], dots: [], title: -1, xl: -1, yl: -1, logy: false, square: false }
  pure val TOL: int = 2000
  pure def ptNear(a: List[int], b: List[int]): bool = a.length() == b.length() and a.indices().forall(k => abs(a[k] - b[k]) <= TOL + abs(b[k]) / 1000000000000)
  pure def seqNear(a: List[List[int]], b: List[List[int]]): bool = a.length() == b.length() and a.indices().forall(k => ptNear(a[k], b[k]))
  pure def inSet(p: List[int], b: List[List[int]]): bool = b.indices().exists(k => ptNear(p, b[k]))
  pure def setNear(a: List[List[int]], b: List[List[int]]): bool = a.indices().forall(k => inSet(a[k], b)) and b.indices().forall(k => inSet(b[k], a))
  pure def overIndex(v: List[int]): List[List[int]] = range(0, v.length()).foldl([], (l, k) => l.append([(k + 1) * S, v[k]]))
  pure def zip2(a: List[int], b: List[int]): List[List[int]] = range(0, a.length()).foldl([], (l, k) => l.append([a[k], b[k]]))
  pure def zip3(a: List[int], b: List[int], c: List[int]): List[List[int]] = range(0, a.length()).foldl([], (l, k) => l.append([a[k], b[k], c[k]]))
  pure def present(c: Call, k: str): bool = has(c.x, k)
  pure def dat(c: Call, k: str): T = toS(argx(c, k), argi(c, "den", 1))
  // the argument rules
  pure def valid(c: Call): bool =
    if (c.op == "evecs") not(present(c, "Wbr")) or nc(argx(c, "Wbr")) == 2 * nc(argx(c, "W"))
    else if (c.op == "summary") nc(argx(c, "y")) <= 2
    else if (c.op == "zono") and {
      nc(argx(c, "vert")) == 2,
      not(present(c, "des")) or nc(argx(c, "des")) == 2,
      not(present(c, "y")) or nc(argx(c, "y")) == 2,
      present(c, "y") == present(c, "f"),
      not(present(c, "y")) or not(present(c, "f")) or nr(argx(c, "y")) == nr(argx(c, "f")) }
    else true
  // the documented figures of a plot; file: what the name of its file starts with
  pure def expected(c: Call): List[Fig] =
    if (c.op == "evals") [{ file: 1, panels: [{ ...P0, line: overIndex(colOf(dat(c, "e"), 0)), title: 100, xl: 1, yl: 2, logy: true,
        fill: if (present(c, "ebr")) overIndex(colOf(dat(c, "ebr"), 0)).concat(overIndex(colOf(dat(c, "ebr"), 1))) else [] }] }]
    else if (c.op == "errors") [{ file: 2, panels: [{ ...P0, line: overIndex(colOf(dat(c, "br"), 1)), title: 100, xl: 3, yl: 4, logy: true,
        fill: overIndex(colOf(dat(c, "br"), 0)).concat(overIndex(colOf(dat(c, "br"), 2))) }] }]
    else if (c.op == "evecs") {
      val W = dat(c, "W")
      val n = min2(4, nc(W))
      [{ file: 3, panels: range(0, n).foldl([], (l, k) => l.append({ ...P0, line: overIndex(colOf(W, k)),
        fill: if (present(c, "Wbr")) overIndex(colOf(dat(c, "Wbr"), 2 * k)).concat(overIndex(colOf(dat(c, "Wbr"), 2 * k + 1))) else [],
        title: if (n == 1) 100 else 111 + k, yl: if (n == 1) 5 else -1 })) }] }
    else if (c.op == "summary") {
      val y = dat(c, "y")
      val f = dat(c, "f").d
      val uni = { file: 4, panels: [{ ...P0, line: zip2(colOf(y, 0), f), xl: 6, yl: 100 }] }
      if (nc(y) == 1) [uni] else [uni, { file: 5, panels: [{ ...P0, dots: zip3(colOf(y, 0), colOf(y, 1), f), title: 100, xl: 7, yl: 8, square: true }] }] }
    else if (c.op == "zono") [{ file: 6, panels: [{ ...P0, xl: 7, yl: 8,
      dots: if (present(c, "y")) zip3(colOf(dat(c, "y"), 0), colOf(dat(c, "y"), 1), dat(c, "f").d) else [],
      title: if (present(c, "y")) 100 else -1, square: present(c, "y") }] }]
    else []
  // rows of an observation that belong to panel p of figure j, without the leading columns
  pure def own(t: T, j: int, p: int): List[List[int]] =
    rowsOf(t).select(r => r[0] == j * S and r[1] == p * S).foldl([], (l, r) => l.append(r.slice(2, r.length())))
  pure def panelBad(c: Call, o: Obs, e: Panel, j: int, p: int): List[str] = {
    val ln = own(getx(o, "lines"), j, p)
    val fl = own(getx(o, "fills"), j, p)
    val dt = own(getx(o, "dots"), j, p)
    val ps = own(getx(o, "panels"), j, p)
    if (ps.length() != 1) ["a panel for each documented plot"]
    else { val q = ps[0]   // title, xlabel, ylabel, log, equal, xlo, xhi, ylo, yhi, colorbars, visible, fill visible, colour lo, colour hi
      val pts = e.line.concat(e.fill).concat(e.dots.foldl([], (l, d) => l.append([d[0], d[1]])))
      val cs = e.dots.foldl([], (l, d) => l.append(d[2]))
      bads([
        if (c.op == "zono") [] else chk(if (e.line == []) ln == [] else ln.indices().forall(k => ln[k][0] == 0) and seqNear(ln.foldl([], (l, r) => l.append(r.slice(1, 3))), e.line), "the line shows the given values in order, and nothing else is drawn"),
        chk(if (e.fill == []) fl == [] else fl.indices().forall(k => fl[k][0] == 0) and setNear(fl.foldl([], (l, r) => l.append(r.slice(1, 3))), e.fill), "the shaded range lies between the given bounds"),
        chk(seqNear(dt, e.dots), "the coloured points are the given points with the given colours"),
        chk(e.title < 0 or q[0] == e.title * S, "the title is the documented one"),
        chk((e.xl < 0 or q[1] == e.xl * S) and (e.yl < 0 or q[2] == e.yl * S), "the axes have the documented labels"),
        chk((q[3] == S) == e.logy, "eigenvalues and errors are shown on a logarithmic scale, others on a linear one"),
        chk(not(e.square) or q[4] == S, "both active variables have the same scale"),
        chk(pts.indices().forall(k => pts[k][0] >= q[5] - TOL and pts[k][0] <= q[6] + TOL and pts[k][1] >= q[7] - TOL - abs(q[7]) / 1000000000000 and pts[k][1] <= q[8] + TOL + abs(q[8]) / 1000000000000), "the axes reach all of the data"),
        chk((e.dots == []) == (q[9] == 0), "coloured points come with a colour bar"),
        chk(q[10] != 0, "nothing hides the data"),
        chk(e.fill == [] or e.line.length() < 2 or argi(c, "wide", 0) == 0 or q[11] != 0, "nothing hides the range"),
        chk(e.dots == [] or (q[12] <= lmin(cs) + TOL + abs(q[12]) / 1000000000000 and q[13] >= lmx(cs) - TOL - abs(q[13]) / 1000000000000), "the colours reach all of the values") ]) }
  }
  pure def lmin(l: List[int]): int = l.foldl(l[0], (m, v) => min2(m, v))
  pure def lmx(l: List[int]): int = l.foldl(l[0], (m, v) => max2(m, v))
  // the zonotope: every vertex is a point, all points are vertices or points of the design, the boundary is one closed polygon
  pure def zonoBad(c: Call, o: Obs): List[str] = {
    val V = rowsOf(dat(c, "vert"))
    val D = if (present(c, "des")) rowsOf(dat(c, "des")) else []
    val ln = rowsOf(getx(o, "lines"))
    val mk = ln.select(r => r[5] == S).foldl([], (l, r) => l.append(r.slice(3, 5)))     // marked points
    val ed = ln.select(r => r[5] == 0).foldl([], (l, r) => l.append(r.slice(3, 5)))     // ends of triangulation edges
    val sg = rowsOf(getx(o, "segs")).foldl([], (l, r) => l.append([r.slice(2, 4), r.slice(4, 6)]))
    val R = rowsOf(argx(c, "vert"))
    val H = halves(R, 2)
    val X = hullVerts(R, 2).foldl([], (l, p) => l.append(p.foldl([], (l2, v) => l2.append(rdiv(v * S, argi(c, "den", 1))))))
    val B = R.select(p => onSide(H, p)).foldl([], (l, p) => l.append(p.foldl([], (l2, v) => l2.append(rdiv(v * S, argi(c, "den", 1))))))
    val ends = sg.foldl([], (l, s) => l.concat(s))
    bads([
      chk(V.indices().forall(k => inSet(V[k], mk)) and D.indices().forall(k => inSet(D[k], mk)), "every vertex and design point is shown"),
      chk(mk.indices().forall(k => inSet(mk[k], V.concat(D))), "only vertices and design points are shown"),
      chk(ends.indices().forall(k => inSet(ends[k], B)), "the boundary joins points of the boundary"),
      chk(X.indices().forall(k => ends.select(q => ptNear(q, X[k])).length() == 2), "the boundary passes once through every corner"),
      chk(sg.indices().forall(k => edge(H, sg[k], argi(c, "den", 1))), "the boundary follows the sides"),
      chk(if (D == []) ed == [] else ed.indices().forall(k => inSet(ed[k], V.concat(D))) and D.indices().forall(k => inSet(D[k], ed)), "the triangulation joins the vertices and all points of the design") ])
  }
  // a boundary point of the hull
  pure def onSide(H: List[(List[int], int)], p: List[int]): bool = H.indices().exists(i => dotl(H[i]._1, p) == H[i]._2)
  // both ends on one side
  pure def edge(H: List[(List[int], int)], s: List[List[int]], den: int): bool =
    H.indices().exists(i => s.indices().forall(k => abs(dotl(H[i]._1, s[k]) * den - H[i]._2 * S) <= den * TOL * (2 + lmaxabs(H[i]._1))))
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val after = { figs: geti(o, "dir") == 1, nf: geti(o, "nf") }
    val saving = argi(c, "o", 0) == 0 or argi(c, "save", 0) == 1      // without options, figures are saved
    if (c.op == "closeall" or c.op == "rmfigs") { st: after, tag: "-", bad: chk(o.ok == "ok", "housekeeping") }
    else if (c.op == "opts") { st: after, tag: "options", bad: bads([
      chk(o.ok == "ok" and geti(o, "same") == 1, "the options are the ones asked for"),
      chk(after.figs == (st.figs or argi(c, "save", 0) == 1), "the directory is made when figures are to be saved, and only then") ]) }
    else if (not(valid(c))) { st: after, tag: "rejected", bad: chk(o.ok == "ok" and geti(o, "raised") == 1, "an unsupported shape raises") }
    else if (o.ok != "ok" or geti(o, "raised") == 1) { st: after, tag: "valid", bad: ["a supported shape does not raise"] }
    else {
      val E = expected(c)
      val files = rowsOf(getx(o, "files"))       // which file, which figure, well formed and equal to the figure shown
      val kind = if (argi(c, "o", 0) == 0) 0 else argi(c, "type", 0)
      { st: after, tag: c.op, bad: bads([
        chk(geti(o, "new") == E.length(), "one figure per documented plot"),
        chk(geti(o, "shown") >= 1, "the figures are shown"),
        chk(after.figs == (st.figs or saving), "the directory is made when figures are saved, and only then"),
        chk(after.nf == (if (argi(c, "close", 0) == 1) 0 else st.nf + E.length()) and geti(o, "old") == 1, "earlier figures stay as they are"),
        if (saving) chk(files.length() == E.length() and E.indices().forall(j => files.select(f => f[0] == (E[j].file * 10 + kind) * S and f[1] == j * S and f[2] == S).length() == 1), "each figure is saved under its documented name, type and content")
        else chk(files == [], "nothing is saved unless asked for"),
        if (c.op == "evecs" and argi(c, "inl", 0) == 1) chk(geti(o, "ticks") == 1, "the inputs are labelled") else [],
        if (geti(o, "new") != E.length()) [] else cat(range(0, E.length()).foldl([], (l, j) => l.append(cat(range(0, E[j].panels.length()).foldl([], (l2, p) => l2.append(panelBad(c, o, E[j].panels[p], j, p))))))),
        if (geti(o, "new") != E.length()) [] else chk(nr(getx(o, "panels")) == E.foldl(0, (s, f) => s + f.panels.length()), "no other panels"),
        if (c.op == "zono" and geti(o, "new") == 1) zonoBad(c, o) else [] ]) } }
  }
}
module C30g {
  import fx.* from "./fx"
  var call: Call
  var close: int
  pure val DEN: int = 1000
  // increasing bounds around values
  pure def around(v: List[int], s: int, lo: int, hi: int): List[int] = {
    val r = rlist(s, 2 * v.length(), 0, 1000)
    cat(range(0, v.length()).foldl([], (l, k) => l.append([v[k] - (v[k] - lo) * r[2 * k] / 1000, v[k] + (hi - v[k]) * r[2 * k + 1] / 1000])))
  }
  // [m, n] values and [m, 2n] bounds: bounds of column k in columns 2k and 2k+1
  pure def evecs(s: int, m: int, n: int, br: int, inl: int): { i: str -> int, x: str -> T } = {
    val W = rT(s, m, n, -900, 900)
    { i: Map("inl" -> inl), x: if (br == 0) Map("W" -> W) else if (br == 1) Map("W" -> W, "Wbr" -> rT(s + 1, m, max2(1, 2 * n + rnd(s, 4, 0, 1) * 2 - 1), -900, 900))
      else Map("W" -> W, "Wbr" -> mkT([m, 2 * n], around(W.d, s + 2, -1000, 1000))) }
  }
  pure def sym(P: List[List[int]]): List[int] = cat(P).concat(cat(P.foldl([], (l, p) => l.append(p.foldl([], (l2, v) => l2.append(-v))))))
  pure def zono(s: int, k: int, form: int, N: int): { i: str -> int, x: str -> T } = {
    // two fixed points keep the hull two-dimensional
    val P = [[rnd(s, 1, 500, 2000), rnd(s, 2, -400, 400)], [rnd(s, 3, -400, 400), rnd(s, 4, 500, 2000)]].concat(rowsOf(rT(s + 5, k, 2, -2000, 2000)))
    val V = mkT([2 * P.length(), 2], sym(P))
    val des = rT(s + 6, N, 2, -300, 300)
    val y = rT(s + 7, N, 2, -300, 300)
    val f = rT(s + 8, N, 1, -5000, 5000)
    { i: Map("k" -> k), x: if (form == 0) Map("vert" -> V) else if (form == 1) Map("vert" -> V, "des" -> des) else if (form == 2) Map("vert" -> V, "y" -> y, "f" -> f)
      else if (form == 3) Map("vert" -> V, "des" -> des, "y" -> y, "f" -> f)
      // malformed
      else if (form == 4) Map("vert" -> rT(s, 6, 3, -900, 900)) else if (form == 5) Map("vert" -> V, "des" -> rT(s, N, 1 + 2 * (s % 2), -300, 300))
      else if (form == 6) Map("vert" -> V, "y" -> rT(s, N, 1 + 2 * (s % 2), -300, 300), "f" -> f) else if (form == 7) Map("vert" -> V, "y" -> y)
      else if (form == 8) Map("vert" -> V, "f" -> f) else Map("vert" -> V, "y" -> y, "f" -> rT(s, N + 1, 1, -900, 900)) }
  }
  action init = {
    nondet b = 0.to(1).oneOf()
    all { call' = { op: "", i: Map(), x: Map() }, close' = b }
  }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet w = 0.to(15).oneOf()
    nondet m = Set(1, 2, 3, 5, 8, 12).oneOf()
    nondet n = 1.to(6).oneOf()
    nondet o = 0.to(6).oneOf()
    nondet ty = 0.to(3).oneOf()
    nondet lab = 0.to(4).oneOf()
    nondet lay = 0.to(4).oneOf()
    nondet br = 0.to(4).oneOf()
    nondet wide = 0.to(1).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet vis = 0.to(2).oneOf()
    val base = Map("den" -> DEN, "o" -> (if (o == 0) 0 else 1), "save" -> (if (o <= 2) 1 else 0), "type" -> ty, "lab" -> lab, "lay" -> lay, "close" -> close, "vis" -> (if (vis == 0) 1 else 0))
    // bounds at least a factor 2 apart (a tenth, for components) can be seen
    val e = rlist(s, m, 1, if (s % 3 == 0) 100000000 else 3000)
    val b01 = rlist(s, m, 20, 900)
    val more = if (w <= 3) { i: Map("wide" -> 1), x: if (br <= 1) Map("e" -> mkT([m, 1], e)) else
          Map("e" -> mkT([m, 1], e), "ebr" -> mkT([m, 2], cat(range(0, m).foldl([], (l, q) => l.append([max2(1, if (br == 3) e[q] / 40 else e[q] - e[q] * (500 + s % 400) / 1000), e[q] * (if (br == 4) 15 + s % 30 else 2 + s % 3)])))) ) }
      else if (w <= 5) { i: Map("wide" -> 1), x: Map("br" -> mkT([m, 3], cat(range(0, m).foldl([], (l, q) => l.append([b01[q] / 2, b01[q], b01[q] + (1000 - b01[q]) / 2]))))) }
      else if (w <= 8) evecs(s, m, n, br, wide)
      else if (w <= 11) { i: Map("wide" -> 0), x: Map("y" -> (if (wide == 1) rT(s, m, 1 + n % 2, 100 + s % 1000, 100 + s % 1000 + m * 30) else rT(s, m, if (k == 0) 2 + n else 1 + n % 2, -1500, 1500)),
        "f" -> (if (k == 1) mkT([m, 1], rlist(s, 1, -900, 900).foldl([], (l, v) => range(0, m).foldl(l, (l2, _) => l2.append(v)))) else rT(s + 1, m, 1, -90000, 90000))) }
      else if (w <= 13) zono(s, k % 7, if (br == 4) 4 + s % 6 else br, 1 + m)
      else { i: Map("wide" -> 0), x: Map() }
    val op = if (w <= 3) "evals" else if (w <= 5) "errors" else if (w <= 8) "evecs" else if (w <= 11) "summary" else if (w <= 13) "zono" else if (w == 14) "opts" else if (s % 2 == 0) "closeall" else "rmfigs"
    all { close' = close,
      call' = { op: op, i: base.keys().union(more.i.keys()).mapBy(q => if (more.i.keys().contains(q)) more.i.get(q) else base.get(q)), x: more.x } }
  }
}
