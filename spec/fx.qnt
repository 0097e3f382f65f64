// Arithmetic and data types shared by all specifications.
// Numbers observed from the implementation are integers in units of 1/S (fixed point);
// numbers chosen by the specification are integers over a denominator carried by the call.
module fx {
  // A tensor: shape, row-major data, and whether every entry is finite.
  type T = { sh: List[int], d: List[int], fin: bool }
  // A call of the implementation, chosen by a generator, and what was observed.
  type Call = { op: str, i: str -> int, x: str -> T }
  type Obs = { ok: str, i: str -> int, x: str -> T }
  type Ev = { c: Call, o: Obs }

  pure val S: int = 1000000000000000
  pure val S2: int = S * S

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def max2(a: int, b: int): int = if (a < b) b else a
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  // a/b rounded to nearest
  pure def rdiv(a: int, b: int): int = {
    val p = if (b < 0) -a else a
    val q = abs(b)
    if (p >= 0) (2 * p + q) / (2 * q) else -((2 * (-p) + q) / (2 * q))
  }
  pure def fmul(a: int, b: int): int = rdiv(a * b, S)
  pure def fdv(a: int, b: int): int = rdiv(a * S, b)

  // ---- lists -------------------------------------------------------------
  pure def lsum(l: List[int]): int = l.foldl(0, (acc, x) => acc + x)
  pure def lmaxabs(l: List[int]): int = l.foldl(0, (acc, x) => max2(acc, abs(x)))
  pure def dotl(u: List[int], v: List[int]): int = range(0, u.length()).foldl(0, (s18, i) => s18 + u[i] * v[i])
  pure def cat(ll: List[List[a]]): List[a] = ll.foldl([], (acc, l) => acc.concat(l))
  // the clause name when the condition fails
  pure def chk(cond: bool, name: str): List[str] = if (cond) [] else [name]
  pure def bads(ll: List[List[str]]): List[str] = ll.foldl([], (acc, l) => acc.concat(l))

  // ---- packed literals ---------------------------------------------------
  pure def unpack(n: int, cnt: int, base: int): List[int] =
    range(0, cnt).foldl({ r: n, l: [] }, (s, _) => { r: s.r / base, l: s.l.append(s.r % base - base / 2) }).l
  pure def U(sh: List[int], n: int, cnt: int, base: int): T = { sh: sh, d: unpack(n, cnt, base), fin: true }
  pure def NAN(sh: List[int]): T = { sh: sh, d: [], fin: false }

  // ---- tensors -----------------------------------------------------------
  pure val NOT: T = { sh: [], d: [], fin: false }
  pure def mkT(sh: List[int], d: List[int]): T = { sh: sh, d: d, fin: true }
  pure def at(t: T, r: int, c: int): int = t.d[r * t.sh[1] + c]
  pure def nr(t: T): int = t.sh[0]
  pure def nc(t: T): int = t.sh[1]
  pure def rowOf(t: T, r: int): List[int] = t.d.slice(r * t.sh[1], (r + 1) * t.sh[1])
  pure def colOf(t: T, c: int): List[int] = range(0, t.sh[0]).foldl([], (l17, r) => l17.append(t.d[r * t.sh[1] + c]))
  pure def rowsOf(t: T): List[List[int]] = range(0, t.sh[0]).foldl([], (l16, r) => l16.append(rowOf(t, r)))
  pure def colsOf(t: T): List[List[int]] = range(0, t.sh[1]).foldl([], (l15, c) => l15.append(colOf(t, c)))
  pure def scaleT(t: T, num: int, den: int): T = { ...t, d: t.d.foldl([], (l14, x) => l14.append(rdiv(x * num, den))) }
  // specification data over denominator den, in units of 1/S
  pure def toS(t: T, den: int): T = scaleT(t, S, den)
  // raw product (no rescaling)
  pure def mm(a: T, b: T): T = {
    val bc = colsOf(b)
    mkT([nr(a), nc(b)], cat(rowsOf(a).foldl([], (l13, r) => l13.append(bc.foldl([], (l12, c) => l12.append(dotl(r, c)))))))
  }
  pure def tr(a: T): T = mkT([nc(a), nr(a)], cat(colsOf(a)))
  pure def colSlice(a: T, lo: int, hi: int): T =
    mkT([nr(a), hi - lo], cat(range(0, nr(a)).foldl([], (l11, r) => l11.append(rowOf(a, r).slice(lo, hi)))))
  pure def hcat(a: T, b: T): T = mkT([nr(a), nc(a) + nc(b)], cat(range(0, nr(a)).foldl([], (l10, r) => l10.append(rowOf(a, r).concat(rowOf(b, r))))))
  pure def vcat(a: T, b: T): T = mkT([nr(a) + nr(b), nc(a)], a.d.concat(b.d))
  pure def isSh(t: T, sh: List[int]): bool = t.fin and t.sh == sh
  // entrywise |a-b| <= tol; shapes must agree
  pure def nearT(a: T, b: T, tol: int): bool =
    a.fin and b.fin and a.sh == b.sh and 0.to(a.d.length() - 1).forall(i => abs(a.d[i] - b.d[i]) <= tol)
  pure def maxabsT(a: T): int = lmaxabs(a.d)
  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol

  pure def has(m: str -> T, k: str): bool = m.keys().contains(k)
  pure def getx(o: Obs, k: str): T = if (o.x.keys().contains(k)) o.x.get(k) else NOT
  pure def geti(o: Obs, k: str): int = if (o.i.keys().contains(k)) o.i.get(k) else -999999
  pure def argx(c: Call, k: str): T = if (c.x.keys().contains(k)) c.x.get(k) else NOT
  pure def argi(c: Call, k: str, dflt: int): int = if (c.i.keys().contains(k)) c.i.get(k) else dflt

  // ---- integer functions -------------------------------------------------
  pure def isqrt(n: int): int =   // floor(sqrt(n)); Newton from above
    if (n <= 0) 0 else {
      val start = range(0, 160).foldl(1, (x, _) => if (x * x > n) x else x * 2)
      range(0, 30).foldl(start, (x, _) => { val y = (x + n / x) / 2
        if (y < x) y else x })
    }
  pure def fsqrt(a: int): int = isqrt(a * S)      // sqrt of a fixed-point number
  pure def fact(n: int): int = range(1, n + 1).foldl(1, (a, k) => a * k)
  pure def binom(n: int, k: int): int =
    if (k < 0 or k > n) 0 else range(0, k).foldl(1, (a, j) => a * (n - j) / (j + 1))
  pure def powi(b: int, k: int): int = range(0, k).foldl(1, (a, _) => a * b)
  // exp of a fixed-point number, fixed point result (argument halved 20 times, Taylor, squared back)
  pure val X1: int = 1000000000000000000000000000000000000000000   // working scale 10^42
  pure def fexp(a: int): int = rdiv(fexpX(a), X1 / S)
  // the same in units of 1/X1
  pure def fexpX(a: int): int =
    if (a < -60 * S) 0 else {
      val z = a * (X1 / S) / 1048576
      val t = range(1, 14).foldl({ term: X1, s: X1 }, (p, k) => {
        val t2 = rdiv(p.term * z, X1 * k)
        { term: t2, s: p.s + t2 } }).s
      range(0, 20).foldl(t, (p, _) => rdiv(p * p, X1))
    }

  // natural logarithm of v > 0 (fixed point)
  pure val LN2: int = 693147180559945
  pure def ln(v: int): int = {
    val r = range(0, 60).foldl({ v: v, k: 0 }, (p, _) => if (p.v > 2 * S) { v: p.v / 2, k: p.k + 1 } else if (p.v < S) { v: p.v * 2, k: p.k - 1 } else p)
    val t = range(0, 4).foldl(0, (x, _) => { val e = fexp(x)
      x + fdv(2 * (r.v - e), r.v + e) })
    t + r.k * LN2
  }
  // ---- pseudo-random data chosen by the specification --------------------
  pure def lcg(s: int): int = (s * 6364136223846793005 + 1442695040888963407) % 18446744073709551616
  pure def rlist(seed: int, n: int, lo: int, hi: int): List[int] =
    range(0, n).foldl({ s: lcg(lcg(seed * 2 + 1)), l: [] }, (p, _) => {
      val s2 = lcg(p.s)
      { s: s2, l: p.l.append(lo + (s2 / 4294967296) % (hi - lo + 1)) } }).l
  pure def rT(seed: int, r: int, c: int, lo: int, hi: int): T = mkT([r, c], rlist(seed, r * c, lo, hi))
  // over the denominator den; whole numbers when the caller is going to pass an array of integers (layout 2)
  pure def rTl(seed: int, r: int, c: int, lo: int, hi: int, den: int, lay: int): T =
    if (lay == 2) { val h = max2(2, hi / 2)
      mkT([r, c], rlist(seed, r * c, -h, h).foldl([], (l46, x) => l46.append(den * x))) } else rT(seed, r, c, lo, hi)
  pure def rnd(seed: int, k: int, lo: int, hi: int): int = rlist(seed * 1009 + k, 1, lo, hi)[0]

  // ---- exact linear algebra ----------------------------------------------
  // Solve A x = b (square, integers) by fraction-free elimination: x = num/den. ok=false when singular.
  pure def solveI(A: List[List[int]], b: List[List[int]]): { ok: bool, num: List[List[int]], den: int } = {
    val n = A.length()
    val aug = range(0, n).foldl([], (l8, i) => l8.append(A[i].concat(b[i])))
    val w = n + b[0].length()
    val red = range(0, n).foldl({ ok: true, m: aug, prev: 1 }, (st, k) =>
      if (not(st.ok)) st else {
        val pv = range(k, n).foldl(-1, (p, r) => if (p < 0 and st.m[r][k] != 0) r else p)
        if (pv < 0) { ...st, ok: false } else {
          val m1 = if (pv == k) st.m else st.m.replaceAt(k, st.m[pv]).replaceAt(pv, st.m[k].foldl([], (l7, x) => l7.append(-x)))
          val piv = m1[k][k]
          val m2 = range(0, n).foldl([], (l6, r) => l6.append(if (r == k) m1[r] else {
            val f = m1[r][k]
            range(0, w).foldl([], (l5, c) => l5.append((m1[r][c] * piv - f * m1[k][c]) / st.prev)) }))
          { ok: true, m: m2, prev: piv }
        } })
    // fraction-free Gauss-Jordan leaves every diagonal entry equal to the last pivot
    if (not(red.ok)) { ok: false, num: [], den: 1 }
    else { ok: true, num: range(0, n).foldl([], (l4, i) => l4.append(red.m[i].slice(n, w))), den: red.m[n - 1][n - 1] }
  }
  // determinant of an integer matrix
  pure def detI(A: List[List[int]]): int = {
    val n = A.length()
    if (n == 0) 1 else {
    val red = range(0, n).foldl({ ok: true, m: A, prev: 1 }, (st, k) =>
      if (not(st.ok)) st else {
        val pv = range(k, n).foldl(-1, (p, r) => if (p < 0 and st.m[r][k] != 0) r else p)
        if (pv < 0) { ...st, ok: false } else {
          val m1 = if (pv == k) st.m else st.m.replaceAt(k, st.m[pv]).replaceAt(pv, st.m[k].foldl([], (l3, x) => l3.append(-x)))
          val piv = m1[k][k]
          val m2 = range(0, n).foldl([], (l2, r) => l2.append(if (r <= k) m1[r] else {
            val f = m1[r][k]
            range(0, n).foldl([], (l1, c) => l1.append((m1[r][c] * piv - f * m1[k][c]) / st.prev)) }))
          { ok: true, m: m2, prev: piv }
        } })
    if (red.ok) red.m[n - 1][n - 1] else 0
    }
  }
}
