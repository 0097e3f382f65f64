// C31: the tutorial models compute their published formulas and exact gradients with respect to the normalized inputs.
module C31 {
  import fx.* from "./fx"
  type St = int
  pure val st0: St = 0
  pure val PI: int = 3141592653589793238462643383279502884197       // 10^39
  pure val PI1: int = 3141592653589793
  // models: 0 borehole, 1 otl circuit, 2 piston, 3 robot arm, 4 wing weight, 5 the wing model in physical units (sweep derivative per radian)
  pure val dim: List[int] = [8, 6, 7, 8, 10, 10]
  // input ranges in millionths; the borehole's first two inputs are normal
  pure val LO: List[List[int]] = [[0, 0, 63070000000, 990000000, 63100000, 700000000, 1120000000, 9855000000], [50000000, 25000000, 500000, 1200000, 250000, 50000000],
    [30000000, 5000, 2000, 1000000000, 90000000000, 290000000, 340000000], [], [150000000, 220000000, 6000000, -10000000, 16000000, 500000, 80000, 2500000, 1700000000, 25000]]
  pure val HI: List[List[int]] = [[0, 0, 115600000000, 1110000000, 116000000, 820000000, 1680000000, 12045000000], [150000000, 70000000, 3000000, 2500000, 1200000, 300000000],
    [60000000, 20000, 10000, 5000000000, 110000000000, 296000000, 360000000], [], [200000000, 300000000, 10000000, 10000000, 45000000, 1000000, 180000, 6000000, 2500000000, 80000]]
  pure def phys(mod: int, x: List[int], den: int): List[int] =
    range(0, x.length()).foldl([], (l, i) => l.append(rdiv((LO[mod][i] * (den - x[i]) + HI[mod][i] * (den + x[i])) * (S / 1000000), 2 * den)))
  // series at angle t (|t| <= pi, in units of 1/S)
  pure def cosS(t: int): int = range(1, 18).foldl({ t: S * 1000000, s: S * 1000000 }, (p, k) => { val t2 = -rdiv(p.t * rdiv(t * t, S), S * (2 * k - 1) * 2 * k)
    { t: t2, s: p.s + t2 } }).s / 1000000
  pure def sinS(t: int): int = range(1, 18).foldl({ t: t * 1000000, s: t * 1000000 }, (p, k) => { val t2 = -rdiv(p.t * rdiv(t * t, S), S * (2 * k) * (2 * k + 1))
    { t: t2, s: p.s + t2 } }).s / 1000000
  // cosine and sine of pi a / den
  pure def red(a: int, den: int): int = { val r = fmod(a, 2 * den)
    rdiv((if (r > den) r - 2 * den else r) * PI, den * 1000000000000000000000000) }
  pure def borehole(x: List[int], den: int): int = {
    val p = phys(0, x, den)
    val rw = rdiv(16181200000000 * x[0], den) + S / 10
    val lr = rdiv(1005600000000000 * x[1], den) + 7710000000000000 - ln(rw)
    val a = 2 * fdv(fmul(p[6], p[2]), fmul(fmul(lr, fmul(rw, rw)), p[7]))
    fdv(2 * fmul(PI1, fmul(p[2], p[3] - p[5])), fmul(lr, S + a + fdv(p[2], p[4])))
  }
  pure def circuit(x: List[int], den: int): int = {
    val p = phys(1, x, den)
    val b = fmul(p[5], p[4] + 9 * S)
    val d = b + p[2]
    fdv(fmul(fdv(12 * p[1], p[0] + p[1]) + 74 * S / 100, b) + 1135 * p[2] / 100 + fdv(fmul(74 * p[2] / 100, b), p[3]), d)
  }
  pure def piston(x: List[int], den: int): int = {
    val p = phys(2, x, den)
    val A = fmul(p[4], p[1]) + 1962 * p[0] / 100 - fdv(fmul(p[3], p[2]), p[1])
    val q = fdv(fmul(fmul(p[4], p[2]), p[5]), p[6])
    val V = fdv(fmul(p[1], fsqrt(fmul(A, A) + 4 * fmul(p[3], q)) - A), 2 * p[3])
    val r = fdv(p[1], V)
    2 * fmul(PI1, fsqrt(fdv(p[0], p[3] + fmul(q, fmul(r, r)))))
  }
  pure def robot(x: List[int], den: int): int = {
    val uv = range(0, 4).foldl({ a: 0, u: 0, v: 0 }, (q, i) => {
      val a = q.a + x[i] + den
      { a: a, u: q.u + rdiv((x[4 + i] + den) * cosS(red(a, den)), 2 * den), v: q.v + rdiv((x[4 + i] + den) * sinS(red(a, den)), 2 * den) } })
    fsqrt(fmul(uv.u, uv.u) + fmul(uv.v, uv.v))
  }
  pure def wing(x: List[int], den: int): int = {
    val p = phys(4, x, den)
    val c = cosS(rdiv(p[3] * PI1, 180 * S))
    val e = 7580 * ln(p[0]) + 35 * ln(p[1]) + 6000 * ln(p[2]) - 9000 * ln(c) + 60 * ln(p[4]) + 400 * ln(p[5]) - 3000 * ln(100 * p[6]) + 4900 * ln(p[7]) + 4900 * ln(p[8])
    rdiv(36 * fexp(rdiv(e, 10000)), 1000) + fmul(p[0], p[9])
  }
  pure def value(mod: int, x: List[int], den: int): int =
    if (mod == 0) borehole(x, den) else if (mod == 1) circuit(x, den) else if (mod == 2) piston(x, den) else if (mod == 3) robot(x, den) else wing(x, den)
  // sixth-order central difference of step h = 1/512 from the values at -3h .. 3h
  pure def diff(v: List[int]): int = rdiv(512 * (45 * (v[4] - v[2]) - 9 * (v[5] - v[1]) + (v[6] - v[0])), 60)
  pure def evalBad(c: Call, o: Obs): List[str] = {
    val mod = argi(c, "mod", 0)
    val n = dim[mod]
    val den = argi(c, "den", 1)
    val x = rowsOf(argx(c, "X"))
    val M = x.length()
    val f = getx(o, "f")
    val df = getx(o, "df")
    val st = getx(o, "st")
    if (not(isSh(f, [M, 1]))) ["one value per row"]
    else if (not(isSh(df, [M, n]))) ["one gradient row per input row"]
    else if (not(isSh(st, [M * n, 7])) or not(isSh(getx(o, "f1"), [M, 1])) or not(isSh(getx(o, "df1"), [M, n]))) ["rows are evaluated alone"]
    else bads([
      chk(0.to(M - 1).forall(r => near(f.d[r], value(mod, x[r], den), (abs(f.d[r]) + S / 100) / 1000000000)), "the model computes its formula"),
      chk(0.to(M - 1).forall(r => near(f.d[r], getx(o, "f1").d[r], (abs(f.d[r]) + S / 100) / 100000000000)) and nearT(df, getx(o, "df1"), (maxabsT(df) + S / 100) / 1000000000), "rows are independent of each other"),
      // the arm's length has no derivative where it vanishes
      cat(range(0, M).foldl([], (l, r) => l.append(if (mod == 3 and abs(f.d[r]) < S / 8) [] else
        chk(0.to(n - 1).forall(i => near(at(df, r, i), diff(rowOf(st, r * n + i)), (abs(f.d[r]) + maxabsT(df) + S / 100) / 10000000)), "the gradient is that of the model")))),
      chk(geti(o, "same") == 1, "the argument is unchanged"),
      chk(geti(o, "flat") == 1, "a one-dimensional argument is one row") ])
  }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } =
    { st: st, tag: ["borehole", "circuit", "piston", "robot", "wing", "wing-physical"][argi(c, "mod", 0)], bad: if (o.ok != "ok") ["a tutorial model evaluates"]
      // an array of integers with nothing but nan as the result: a clause of its own, so that a finding can name it
      else if (argi(c, "mod", 0) == 0 and intsOf(c) and not(getx(o, "f").fin) and not(getx(o, "df").fin)) ["the borehole model of an array of integers is a number"]
      else evalBad(c, o) }
  // the array is passed with an integer type
  pure def intsOf(c: Call): bool = (argi(c, "lay", 0) == 2 or argi(c, "lay", 0) == 5) and argx(c, "X").d.indices().forall(k => argx(c, "X").d[k] % argi(c, "den", 1) == 0)
}
module C31g {
  import fx.* from "./fx"
  import C31.dim from "./C31"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet mod = 0.to(5).oneOf()
    nondet M = 1.to(4).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet lay = 0.to(5).oneOf()
    val den = if (k <= 2) 1 else if (k <= 5) 8 else 1000
    call' = { op: "eval", i: Map("mod" -> mod, "den" -> den, "lay" -> lay), x: Map("X" -> rT(s, M, dim[mod], -den, den)) }
  }
}
