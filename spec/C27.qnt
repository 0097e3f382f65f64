// C27: results depend on the random state only as documented. A history machine over all public operations: the global random
// state is an abstract value; deterministic operations ignore and keep it, sampling operations are functions of it and advance it.
module C27 {
  import fx.* from "./fx"
  // repeatable whatever the random state, which they keep
  pure val DET: List[str] = [
    "active_subspace", "atleast_2d", "av_integrate_u1", "av_integrate_u2", "av_minimize_b1", "av_minimize_b2", "av_minimize_nograd_b1", "av_minimize_nograd_b2",
    "av_minimize_nograd_u1", "av_minimize_nograd_u2", "av_minimize_u1", "av_minimize_u2", "av_rule_u1", "av_rule_u2", "bases", "bdomain1", "boundary_b1", "bounded_normalize",
    "bounded_unnormalize", "compute_as", "compute_as_w", "compute_ols", "compute_qphd", "condexp", "eig_partition", "errbnd_partition", "exp_squared", "fail_av_minimize_b1",
    "fail_av_minimize_b2", "fail_av_minimize_u2", "fail_compute", "fail_integrate", "fail_inverse", "fail_maximin", "fail_ols", "fail_partition", "fail_rs", "fail_runner",
    "fail_train", "fd_gradients", "forward_b1", "forward_b2", "forward_u1", "forward_u2", "g1d", "gauss_hermite", "gauss_legendre", "gh1d", "gh_design", "gl1d", "grad_runner",
    "index_set", "interval_design", "interval_endpoints", "inverse_b0", "jacobi_matrix", "ladle_partition", "lp_eq", "lp_ineq", "maximin", "minimize_b1", "minimize_b2",
    "minimize_u1", "minimize_u2", "minmap_b1", "minmap_u1", "nzv", "ols_subspace", "partition", "plot_eigenvalues", "plot_eigenvectors", "plot_subspace_errors",
    "plot_sufficient_summary", "plot_zonotope_2d_plot", "poly", "poly_w", "process_inputs", "process_inputs_outputs", "qp_bnd", "qp_ineq", "qphd_subspace", "r_hermite",
    "r_jacobi", "rbf", "rbf_ve", "runner", "sorted_eigh", "surf_call", "surf_gradient", "surf_gradient_av", "surf_predict", "surf_predict_av", "surf_rbf_call",
    "surf_rbf_gradient", "surf_rbf_gradient_av", "surf_rbf_predict", "surf_rbf_predict_av", "train_data_b1", "train_data_b2", "train_data_u1", "train_data_u2", "train_rbf",
    "udomain", "unbounded_normalize", "unbounded_unnormalize", "unique_rows"]
  // functions of the random state, which they advance; different states give different samples
  pure val SAMP: List[str] = [
    "av_design_b1", "av_design_b2", "av_design_u1", "av_design_u2", "av_integrate_b1", "av_integrate_b2", "av_rule_b1", "av_rule_b2", "compute_boot", "compute_li", "compute_opg",
    "compute_rs", "hit_and_run", "integrate_b1", "integrate_b2", "integrate_u1", "integrate_u2", "interval_rule", "inverse_b1", "inverse_b2", "inverse_u1", "inverse_u2",
    "local_linear", "local_linear_w", "opg_subspace", "random_walk", "rejection", "rule_b1", "rule_b2", "rule_u1", "rule_u2", "sample_z", "train_interface_b1",
    "train_interface_b2", "train_interface_u1", "train_interface_u2", "zonotope_rule"]
  // the search for the zonotope's vertices samples directions, but its result does not depend on them
  pure val SEARCH: List[str] = ["bdomain2", "boundary_b2", "zonotope_vertices"]
  pure def member(l: List[str], s: str): bool = l.indices().exists(k => l[k] == s)
  type Key = { op: str, a: int, lay: int, rng: int }
  type St = { seeds: int -> int, memo: Key -> { res: int, after: int, core: int } }   // core: the state but for the half of a pair of normal draws it may keep
  pure val st0: St = { seeds: Map(), memo: Map() }
  pure def accept(st: St, c: Call, o: Obs): { st: St, bad: List[str], tag: str } = {
    val r = geti(o, "rng")
    val k = argi(c, "seed", 0)
    if (c.op == "seed") { st: { ...st, seeds: st.seeds.put(k, r) }, tag: "seed", bad: if (st.seeds.keys().contains(k)) chk(st.seeds.get(k) == r, "a seed determines the random state") else [] }
    else if (o.ok != "ok") { st: st, tag: "raised", bad: ["the operation is recorded"] }
    else {
      val b = geti(o, "before")
      val res = geti(o, "res")
      val det = member(DET, c.op)
      val key: Key = { op: c.op, a: argi(c, "a", 0), lay: argi(c, "lay", 0), rng: if (det) -1 else b }
      val old = st.memo.keys().contains(key)
      val others = st.memo.keys().filter(q => q.op == key.op and q.a == key.a and q.lay == key.lay and q.rng != key.rng)
      { st: { ...st, memo: if (old) st.memo else st.memo.put(key, { res: res, after: r, core: geti(o, "core") }) }, tag: if (det) (if (old) "det-again" else "det") else if (member(SEARCH, c.op)) "search" else if (old) "sample-again" else if (others == Set()) "sample" else "sample-other",
        bad: bads([
          if (det) chk(r == b, "a deterministic operation keeps the random state") else chk(r != b, "a sampling operation advances the random state"),
          if (old) chk(st.memo.get(key).res == res, "an operation is repeatable from the same random state") else [],
          if (old and not(det)) chk(st.memo.get(key).after == r, "the random state after an operation is repeatable") else [],
          if (det) [] else if (member(SEARCH, c.op)) chk(others.forall(q => st.memo.get(q).res == res), "the vertices do not depend on the random state")
          else chk(others.forall(q => st.memo.get(q).core == geti(o, "core") or st.memo.get(q).res != res), "different random states give different samples") ]) }
    }
  }
}
module C27g {
  import fx.* from "./fx"
  import C27.DET from "./C27"
  import C27.SAMP from "./C27"
  import C27.SEARCH from "./C27"
  var call: Call
  var base: int
  var lay: int
  pure val ALL: List[str] = DET.concat(SAMP).concat(SEARCH)
  action init = {
    nondet b0 = 0.to(2 * ALL.length() - 1).oneOf()
    nondet l = 0.to(2).oneOf()
    // half of the histories are about sampling operations
    val b = if (b0 < ALL.length()) b0 else DET.length() + b0 % SAMP.length()
    all { call' = { op: "", i: Map(), x: Map() }, base' = b, lay' = l }
  }
  action step = {
    nondet pick = 0.to(9).oneOf()
    nondet s = 0.to(1000000).oneOf()
    nondet w = 0.to(7).oneOf()
    all { base' = base, lay' = lay,
      call' = if (pick <= 2) { op: "seed", i: Map("seed" -> 1 + s % 2), x: Map() }
        else { op: ALL[(if (w == 7) s else base + (if (w <= 3) 0 else if (w <= 5) 1 else 2)) % ALL.length()], i: Map("a" -> (if (w == 7) s / 7 % 2 else w / 3 % 2 * (w % 2)), "lay" -> lay, "fresh" -> s / 3 % 3), x: Map() } }
  }
}
