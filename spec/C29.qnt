// C29: malformed arguments are rejected before anything is simulated, well-formed ones at the limits are accepted.
// The specification owns the table of argument rules; each call is a rule at a site of the public interface with a value.
module C29 {
  import fx.* from "./fx"
  import C27.member from "./C27"
  // sites taking a matrix of inputs (or gradients, or active variables): two-dimensional arrays only
  pure val INPUTS: List[str] = [
    "in_process", "in_process_out", "in_forward_b", "in_forward_u", "in_inverse_b", "in_inverse_u", "in_normalize_b", "in_unnormalize_b", "in_normalize_u", "in_unnormalize_u",
    "in_run", "in_rungrad", "in_fd", "in_fd_runner", "in_loclin", "in_poly_train", "in_poly_predict", "in_poly_gradient", "in_poly_call", "in_rbf_train", "in_rbf_predict",
    "in_rbf_gradient", "in_rbf_call", "in_as_train", "in_as_predict", "in_as_gradient", "in_as_call", "in_as_predict_av", "in_as_gradient_av", "in_active_subspace", "in_ols",
    "in_qphd", "in_opg", "in_compute_df", "in_compute_xdf", "in_compute_x", "in_compute_boot", "in_minimize", "in_minmap_b", "in_minmap_u"]
  // sites taking one output per input row, as a column
  pure val OUTPUTS: List[str] = [
    "out_process", "out_poly_train", "out_rbf_train", "out_as_train", "out_ols", "out_qphd", "out_opg", "out_compute_ols", "out_compute_qphd", "out_compute_opg", "out_minimize",
    "out_minmap_b", "out_minmap_u"]
  // sites taking an integer; those with a range of their own
  pure val COUNTS: List[str] = [
    "int_integrate_N", "int_integrate_NMC", "int_avintegrate_N", "int_rule_N", "int_rule_NMC", "int_design_N", "int_design_NMC", "int_interface_N", "int_interface_NMC", "int_inverse_b",
    "int_inverse_u", "int_sample_z", "int_partition", "int_nzv_m", "int_nzv_n", "int_loclin_p", "int_r_hermite", "int_r_jacobi", "int_gauss_hermite", "int_gauss_legendre", "int_min_inverse_b",
    "int_min_inverse_u"]
  // sites taking an object of a given kind
  pure val SUBS: List[str] = ["sub_bdomain", "sub_udomain"]
  pure val MAPS: List[str] = ["map_surface", "map_integrate", "map_avintegrate", "map_rule", "map_design"]
  pure val DOMS: List[str] = ["dom_av_minimize", "dom_av_rule", "dom_design"]
  pure val FUNS: List[str] = ["fun_runner", "fun_gradrunner", "fun_integrate", "fun_avintegrate", "fun_fd", "fun_interface"]
  pure val NAMES: List[str] = ["name_g1d", "name_atleast", "name_lp_eq", "name_lp_ineq", "name_qp_bnd", "name_qp_ineq"]
  type St = int
  pure val st0: St = 0
  // kinds of value for an integer: 0 int, 1 integral float, 2 float, 3 string, 4 None, 5 a list with the int, 6 a tuple with it
  pure def countOk(op: str, kind: int, v: int, m: int, M: int): bool =
    if (op == "int_loclin_p" and kind == 4) true
    else if ((op == "int_gauss_hermite" or op == "int_gauss_legendre") and kind == 5) true
    else if (kind != 0) false
    else if (op == "int_partition") v >= 1 and v <= m
    else if (op == "int_loclin_p") v >= m + 1 and v <= M
    else if (op == "int_r_hermite" or op == "int_r_jacobi") v >= 1
    else if (op == "int_min_inverse_b" or op == "int_min_inverse_u") v == 1
    else true
  pure def wellFormed(c: Call): bool =
    if (member(INPUTS, c.op)) argi(c, "list", 0) == 0 and argx(c, "X").sh.length() == 2
    else if (member(OUTPUTS, c.op)) argi(c, "list", 0) == 0 and argx(c, "f").sh == [nr(argx(c, "X")), 1]
    else if (member(COUNTS, c.op)) countOk(c.op, argi(c, "kind", 0), argi(c, "v", 1), argi(c, "m", 3), nr(argx(c, "X")))
    // 0 computed subspaces, 1 subspaces not yet computed, otherwise something else
    else if (member(SUBS, c.op)) argi(c, "kind", 0) == 0
    // 0 bounded map, 1 unbounded map, 2 a map for minimization; otherwise something else
    else if (member(MAPS, c.op)) argi(c, "kind", 0) <= 2
    // 0 bounded domain, 1 unbounded domain; otherwise something else
    else if (member(DOMS, c.op)) argi(c, "kind", 0) <= 1
    // 0 a function, 1 an object that can be called, 2 a runner where one is accepted; otherwise not callable
    else if (member(FUNS, c.op)) argi(c, "kind", 0) <= 1 or argi(c, "kind", 0) == 2 and (c.op == "fun_integrate" or c.op == "fun_fd" or c.op == "fun_interface")
    else if (member(NAMES, c.op)) argi(c, "kind", 0) <= 1
    // enough samples for the model
    else if (c.op == "few_loclin" or c.op == "few_opg") nr(argx(c, "X")) > nc(argx(c, "X"))
    else if (c.op == "few_poly" or c.op == "few_rbf") nr(argx(c, "X")) >= binom(argi(c, "N", 1) + nc(argx(c, "X")), argi(c, "N", 1))
    // two columns
    else if (c.op == "jacobi") argx(c, "ab").sh.length() == 2 and argx(c, "ab").sh[1] == 2
    // subspace type: 0 AS, 1 OLS, 2 QPHD, 3 OPG, otherwise unknown; partition: 0 EVG, 1 RS, 2 LI, otherwise unknown
    else if (c.op == "compute") and {
      argi(c, "ss", 0) <= 3, argi(c, "pt", 0) <= 2,
      if (argi(c, "ss", 0) == 0) argi(c, "df", 0) == 1 else argi(c, "X", 0) == 1 and argi(c, "f", 0) == 1,
      argi(c, "pt", 0) == 0 or argi(c, "nboot", 0) > 0 }
    else true
  pure def class(op: str): str = if (member(INPUTS, op)) "inputs" else if (member(OUTPUTS, op)) "outputs" else if (member(COUNTS, op)) "counts" else if (member(SUBS, op)) "subspaces"
    else if (member(MAPS, op)) "maps" else if (member(DOMS, op)) "domains" else if (member(FUNS, op)) "functions" else if (member(NAMES, op)) "names" else op
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val w = wellFormed(c)
    if (o.ok != "ok") { st: st, bad: ["the call is recorded"], tag: "raised" }
    else { st: st, tag: if (w) class(c.op) else "no", bad: bads([
      if (w) chk(geti(o, "raised") == 0, "well-formed arguments are accepted")
      else chk(geti(o, "raised") == 1, "malformed arguments are rejected"),
      if (w) [] else chk(geti(o, "nsim") == 0, "nothing is simulated for malformed arguments") ]) }
  }
}
module C29g {
  import fx.* from "./fx"
  import C29.INPUTS from "./C29"
  import C29.OUTPUTS from "./C29"
  import C29.COUNTS from "./C29"
  import C29.SUBS from "./C29"
  import C29.MAPS from "./C29"
  import C29.DOMS from "./C29"
  import C29.FUNS from "./C29"
  import C29.NAMES from "./C29"
  var call: Call
  action init = call' = { op: "", i: Map(), x: Map() }
  pure def prod(sh: List[int]): int = sh.foldl(1, (a, v) => a * v)
  action step = {
    nondet s = 1.to(1000000000).oneOf()
    nondet pick = 0.to(15).oneOf()
    nondet m = 2.to(3).oneOf()
    nondet shk = 0.to(7).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet v = 1.to(6).oneOf()
    nondet lay = 0.to(4).oneOf()
    val M = 11 + s % 4
    // inputs: a third well formed, the others of one, three, no dimension, or a list of rows
    val ish = if (shk <= 2) [M, m] else if (shk == 3) [M] else if (shk == 4) [M, m, 1] else if (shk == 5) [] else if (shk == 6) [1, M, m] else [M, m]
    val fsh = if (shk <= 2) [M, 1] else if (shk == 3) [M] else if (shk == 4) [M + 1, 1] else if (shk == 5) [M, 2] else if (shk == 6) (if (s / 7 % 4 == 0) [1, M] else if (s / 7 % 4 == 1) [M, 1, 1] else if (s / 7 % 4 == 2) [M - 1, 1] else []) else [M, 1]
    val base = Map("list" -> (if (shk == 7) 1 else 0), "m" -> m, "den" -> 16, "lay" -> lay, "rs" -> s, "v" -> v, "kind" -> kind)
    val X = rT(s, M, m, -16, 16)
    call' =
      if (pick <= 3) { op: INPUTS[s / 3 % INPUTS.length()], i: base, x: Map("X" -> mkT(ish, rlist(s, prod(ish), -16, 16)), "f" -> rT(s + 1, M, 1, -99, 99)) }
      else if (pick <= 5) { op: OUTPUTS[s / 3 % OUTPUTS.length()], i: base, x: Map("X" -> X, "f" -> mkT(fsh, rlist(s + 1, prod(fsh), -99, 99))) }
      else if (pick <= 8) { op: COUNTS[s / 3 % COUNTS.length()],
        // values around the limits of those with a range
        i: base.put("kind", if (s / 100 % 2 == 0) 0 else kind).put("v",
          val o = COUNTS[s / 3 % COUNTS.length()]
          if (o == "int_partition") s / 1000 % (m + 4) - 1 else if (o == "int_loclin_p") (if (s / 2000 % 2 == 0) m + s / 1000 % 3 else M + s / 1000 % 3 - 1)
          else if (o == "int_r_hermite" or o == "int_r_jacobi") s / 1000 % 6 - 2 else v),
        x: Map("X" -> X, "f" -> rT(s + 1, M, 1, -99, 99)) }
      else if (pick == 9) { op: SUBS[s / 3 % 2], i: base.put("kind", kind % 5), x: Map("X" -> X) }
      else if (pick == 10) { op: MAPS[s / 3 % MAPS.length()], i: base.put("kind", s / 100 % 8), x: Map("X" -> X) }
      else if (pick == 11) { op: DOMS[s / 3 % DOMS.length()], i: base, x: Map("X" -> X) }
      else if (pick == 12) { op: FUNS[s / 3 % FUNS.length()], i: base, x: Map("X" -> X, "f" -> rT(s + 1, M, 1, -99, 99)) }
      else if (pick == 13) { op: NAMES[s / 3 % NAMES.length()], i: base.put("kind", kind % 6), x: Map("X" -> X) }
      else if (pick == 14) (
        if (s / 3 % 5 == 4) {
          val ash = if (shk <= 2) [2 + s % 4, 2] else if (shk == 3) [4] else if (shk == 4) [3, 3] else if (shk == 5) [3, 1] else if (shk == 6) [2, 2, 1] else [3, 2]
          { op: "jacobi", i: base, x: Map("ab" -> mkT(ash, rlist(s, prod(ash), 1, 16))) } }
        else {
          val N = s / 100 % 3
          val few = [m, m, binom(N + m, N), binom(N + m, N)][s / 3 % 5]
          { op: ["few_loclin", "few_opg", "few_poly", "few_rbf"][s / 3 % 5], i: base.put("N", N), x: Map("X" -> rT(s, max2(1, few - 1 + s / 1000 % 3), m, -16, 16), "f" -> rT(s + 1, max2(1, few - 1 + s / 1000 % 3), 1, -99, 99)) } })
      else { op: "compute", i: base.put("ss", s / 3 % 6).put("pt", if (s / 19 % 2 == 0) 0 else s / 38 % 5).put("X", if (s / 200 % 5 == 0) 0 else 1).put("f", if (s / 1000 % 5 == 0) 0 else 1).put("df", if (s / 5000 % 4 == 0) 0 else 1).put("nboot", if (s / 20000 % 2 == 0) 0 else 1 + s % 3),
        x: Map("X" -> X, "f" -> rT(s + 1, M, 1, -99, 99), "df" -> rT(s + 2, M, m, -16, 16)) }
  }
}
