"""C07: quadratic programming solvers (EqualityConstrainedQP, OSQP, BoxOSQP)."""
from functools import partial
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import linear_solve as LS
from jaxopt._src.base import KKTSolution
from pbt import gen
from pbt.core import sub, describe, cached
from pbt.util import np64, krylov_deficient, kkt_matrix

describe("C07", "case = (QP built around a chosen primal-dual solution: active set, zero multipliers, singular Q, "
         "redundant or infeasible constraints; problem form: matrices, matvecs, fun, pytree; linear solver and ADMM "
         "options; start); oracle = KKT residual and certificates computed in NumPy, known solution; non-trivial = "
         "at least one active inequality, or an equality constraint", ["n <= 5 variables, at most 4 constraints of each kind"])


def make_qp(seed, n, me, mi, cond=4.0, singular=False, scale=1.0, active=None, weak=False):
  """QP (numpy) with known KKT point (x, nu, lam)."""
  r = gen.rng(seed)
  Q = gen.spd(n, int(r.integers(2**31)), cond=cond)
  if singular:
    w, v = np.linalg.eigh(Q); w[0] = 0; Q = (v * w) @ v.T
  x, nu = r.standard_normal(n), r.standard_normal(me)
  A, G = r.standard_normal((me, n)), r.standard_normal((mi, n))
  lam, slack = np.zeros(mi), r.uniform(.2, 2, mi)
  for i in range(mi):
    if (active >> i) & 1:
      slack[i] = 0
      lam[i] = 0 if (weak and i == 0) else r.uniform(.1, 2)
  c = -(Q @ x + A.T @ nu + G.T @ lam)
  s = scale
  return dict(Q=Q, c=s * c, A=A, b=s * A @ x, G=G, h=s * (G @ x + slack), x=s * x, nu=s * nu, lam=s * lam)


def kkt_resid(p, x, nu, lam, Q=True):
  """(stationarity, primal equality, primal inequality violation, min multiplier, complementarity)."""
  st_ = p["Q"] @ x + p["c"] + p["A"].T @ nu + p["G"].T @ lam
  gx = p["G"] @ x - p["h"]
  m = lambda v: float(np.abs(v).max()) if np.size(v) else 0.0
  return m(st_), m(p["A"] @ x - p["b"]), float(max(0, gx.max())) if len(gx) else 0.0, \
      float(min(0, lam.min())) if len(lam) else 0.0, m(lam * gx)


# --- equality constrained QPs ------------------------------------------------
EQ = [dict(form=f, solve=s, refine=r) for f, s, r in
      [("dense", "gmres", 0.), ("dense", "normal_cg", 0.), ("dense", "bicgstab", 0.), ("matvec", "gmres", 0.),
       ("matvec", "normal_cg", 0.), ("fun", "gmres", 0.), ("fun", "normal_cg", 0.), ("pytree", "gmres", 0.),
       ("pytree", "normal_cg", 0.), ("fun_pytree", "normal_cg", 0.), ("dense", "gmres", .5), ("dense", "gmres", 3.),
       ("matvec", "normal_cg", .1), ("pytree", "gmres", .3)]]


def solver_eq(cfg):
  form = cfg["form"]
  kw = dict(solve=getattr(LS, "solve_" + cfg["solve"]), refine_regularization=cfg["refine"], refine_maxiter=1000, tol=1e-10)
  if form == "matvec":
    kw.update(matvec_Q=lambda P, u: P[0] @ u * P[1], matvec_A=lambda P, u: (P[0] @ u) / P[1])
  if form == "fun":
    kw.update(fun=lambda x, P: .5 * jnp.vdot(x, jnp.dot(P[0], x)) + jnp.vdot(P[1], x) + P[2])
  if form == "fun_pytree":
    kw.update(fun=lambda x, P: sum(.5 * jnp.vdot(x[k], jnp.dot(P[0][k], x[k])) + jnp.vdot(P[1][k], x[k]) for k in x) + P[2])
  return jaxopt.EqualityConstrainedQP(**kw)


def strat_eq(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4., 30.]), singular=st.sampled_from([False, False, True]),
                   scale=st.sampled_from([1., .05, 20.]), init=st.sampled_from([None, "random", "solution"]),
                   redundant=st.booleans())


@sub("C07", "equality_qp", strat_eq, quick=60, thorough=3000, cfgs=EQ, cost=2)
def equality_qp(c, T):
  cfg = c["cfg"]
  tree = "pytree" in cfg["form"]
  shapes = [(3, 1), (2, 1)] if tree else [(4, 2)]
  cond = c["cond"] if cfg["refine"] < 1 else min(c["cond"], 4.)    # refinement contracts by delta / (delta + smallest eigenvalue)
  ps = [make_qp(c["seed"] + i, n, m, 0, cond, c["singular"] and n > m and cfg["refine"] < 1, c["scale"], 0) for i, (n, m) in enumerate(shapes)]
  red = c["redundant"] and cfg["refine"] > 0 and not tree
  if red:   # a duplicated constraint: the KKT matrix is singular, the regularised one is not
    for k in ("A", "b"):
      ps[0][k][1] = ps[0][k][0]
    ps[0]["c"] = -(ps[0]["Q"] @ ps[0]["x"] + ps[0]["A"].T @ ps[0]["nu"])
  for p in ps:
    M = kkt_matrix(p["Q"], p["A"])
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[-1] < 2e-2 and not red or np.linalg.svd(p["A"])[1][-1] < 1e-1 and not red:
      T.trivial(); return
  if cfg["solve"] in ("gmres", "bicgstab"):
    # Krylov breakdowns of JAX's GMRES / BiCGSTAB (C13) are not this property
    M = kkt_matrix(ps[0]["Q"], ps[0]["A"]) if not tree else np.block(
        [[kkt_matrix(ps[0]["Q"], ps[0]["A"]), np.zeros((4, 3))], [np.zeros((3, 4)), kkt_matrix(ps[1]["Q"], ps[1]["A"])]])
    rhs = np.concatenate([np.concatenate([-p["c"], p["b"]]) for p in ps])
    if krylov_deficient(M, rhs) or (red or cfg["refine"]) and krylov_deficient(M + np.diag(
        [cfg["refine"]] * ps[0]["Q"].shape[0] + [-cfg["refine"]] * (len(M) - ps[0]["Q"].shape[0])), rhs):
      T.trivial(); return
  r = gen.rng(c["seed"])
  wrap = (lambda f: {"a": f(ps[0]), "b": f(ps[1])}) if tree else (lambda f: f(ps[0]))
  Q, cc, A, b = wrap(lambda p: p["Q"]), wrap(lambda p: p["c"]), wrap(lambda p: p["A"]), wrap(lambda p: p["b"])
  obj, eq = (Q, cc), (A, b)
  if cfg["form"] == "matvec":
    obj, eq = ((Q / 2., 2.), cc), ((A * 2., 2.), b)
  if cfg["form"].startswith("fun"):
    obj = (Q, cc, 1.7)
  if c["init"] == "random" or c["init"] is None:
    init = KKTSolution(wrap(lambda p: r.standard_normal(p["x"].shape)), wrap(lambda p: r.standard_normal(p["nu"].shape)), None)
  else:
    init = KKTSolution(wrap(lambda p: p["x"]), wrap(lambda p: p["nu"]), None)
  noinit = c["init"] is None and not cfg["form"].startswith("fun")
  if cfg["refine"]:
    init = None if not cfg["form"].startswith("fun") else init; noinit = True
  s = cached(("c07eqs", repr(cfg)), lambda: solver_eq(cfg))
  sol = s.run(None if noinit else init, params_obj=obj, params_eq=eq).params
  parts = [(sol.primal[k], sol.dual_eq[k]) for k in ("a", "b")] if tree else [(sol.primal, sol.dual_eq)]
  tol = 1e-6 if not red else 1e-4
  for p, (x, nu) in zip(ps, parts):
    x, nu = np64(x), np64(nu)
    T.finite(x, "primal"); T.finite(nu, "dual")
    res = kkt_resid(p, x, nu, np.zeros(0))
    T.ok(max(res) <= tol * (1 + c["scale"]), "equality QP: KKT residual", residuals=res, x=x)
    if not red:
      T.close(x, p["x"], 1e-4, 1e-4 * c["scale"], "equality QP: primal solution")
      T.close(nu, p["nu"], 1e-4, 1e-4 * c["scale"] * (1 + 1 / sv[-1]), "equality QP: dual solution")
  if c["init"] == "solution" and c["scale"] == 1.:
    # the documented optimality error is the norm of the KKT residual, also away from the solution
    z = KKTSolution(wrap(lambda p: r.standard_normal(p["x"].shape)), wrap(lambda p: r.standard_normal(p["nu"].shape)), None)
    got = s.l2_optimality_error(z, obj, eq)
    zs = [(z.primal[k], z.dual_eq[k]) for k in ("a", "b")] if tree else [(z.primal, z.dual_eq)]
    want = np.sqrt(sum(np.sum((p["Q"] @ x + p["c"] + p["A"].T @ nu) ** 2) + np.sum((p["A"] @ x - p["b"]) ** 2) for p, (x, nu) in zip(ps, zs)))
    T.close(float(got), want, 1e-8, 1e-9, "l2_optimality_error")


# --- OSQP ---------------------------------------------------------------------
OS = [dict(form="dense", eq=1, ineq=3), dict(form="dense", eq=0, ineq=4), dict(form="dense", eq=2, ineq=0),
      dict(form="dense", eq=1, ineq=3, eq_qp_solve="lu"), dict(form="dense", eq=1, ineq=3, eq_qp_solve="cg+jacobi"),
      dict(form="dense", eq=0, ineq=3, eq_qp_solve="lu", momentum=1.0), dict(form="dense", eq=1, ineq=2, momentum=.7, rho_start=1.),
      dict(form="dense", eq=1, ineq=2, stepsize_updates_frequency=25, termination_check_frequency=1, eq_qp_solve="lu"),
      dict(form="dense", eq=1, ineq=3, check_primal_dual_infeasability=True),
      dict(form="dense", eq=0, ineq=4, check_primal_dual_infeasability=True, eq_qp_solve="lu"),
      dict(form="matvec", eq=1, ineq=3), dict(form="matvec", eq=0, ineq=3), dict(form="matvec", eq=1, ineq=0),
      dict(form="matvec_G", eq=1, ineq=3), dict(form="matvec_A", eq=1, ineq=3), dict(form="fun", eq=1, ineq=3),
      dict(form="fun_pytree", eq=1, ineq=2), dict(form="pytree", eq=1, ineq=2), dict(form="pytree", eq=0, ineq=2, eq_qp_solve="lu"),
      dict(form="pytree", eq=1, ineq=2, eq_qp_solve="cg+jacobi"), dict(form="pytree_matvec", eq=1, ineq=2)]


def osqp_solver(cfg):
  form = cfg["form"]
  kw = {k: v for k, v in cfg.items() if k not in ("form", "eq", "ineq")}
  mv = lambda P, u: jax.tree_util.tree_map(lambda m, v: m @ v, P, u)
  if form == "matvec": kw.update(matvec_Q=lambda P, u: P[0] @ u * P[1])
  if form in ("matvec", "matvec_A") and cfg["eq"]: kw.update(matvec_A=lambda P, u: P[0] @ u * P[1])
  if form in ("matvec", "matvec_G") and cfg["ineq"]: kw.update(matvec_G=lambda P, u: P[0] @ u * P[1])
  if form == "pytree_matvec": kw.update(matvec_Q=mv, matvec_A=mv, matvec_G=mv)
  if form == "fun":
    kw.update(fun=lambda x, P: .5 * jnp.vdot(x, jnp.dot(P[0], x)) + jnp.vdot(P[1], x) + P[2])
  if form == "fun_pytree":
    kw.update(fun=lambda x, P: sum(.5 * jnp.vdot(x[k], jnp.dot(P[0][k], x[k])) + jnp.vdot(P[1][k], x[k]) for k in x) + P[2])
  return jaxopt.OSQP(tol=1e-8, maxiter=20000, **kw)


def osqp_run(cfg, init, obj, eq, ineq, tol):
  def build():
    def go(init, obj, eq, ineq, tol):
      s = osqp_solver(cfg)
      s._box_osqp.tol = tol
      return s.run(init, obj, eq, ineq)
    return jax.jit(go)
  return cached(("c07os", repr(cfg)), build)(init, obj, eq, ineq, tol)


def strat_os(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4., 20.]), singular=st.sampled_from([False] * 3 + [True]),
                   scale=st.sampled_from([1., 1., .1, 5.]), active=st.integers(0, 15), weak=st.sampled_from([False] * 3 + [True]),
                   init=st.sampled_from(["zero", "random", "solution"]), tol=st.sampled_from([1e-3, 1e-5, 1e-7]))


def forms(cfg, ps):
  """(wrap, obj, eq, ineq, zero dual structure) in the form of cfg."""
  tree = "pytree" in cfg["form"]
  wrap = (lambda f: {"a": f(ps[0]), "b": f(ps[1])}) if tree else (lambda f: f(ps[0]))
  g = lambda k: wrap(lambda p: p[k])
  obj, eq, ineq = (g("Q"), g("c")), (g("A"), g("b")), (g("G"), g("h"))
  if cfg["form"] == "matvec": obj = ((g("Q") / 2., 2.), g("c"))
  if cfg["form"] in ("matvec", "matvec_A"): eq = ((g("A") / 4., 4.), g("b"))
  if cfg["form"] in ("matvec", "matvec_G"): ineq = ((g("G") * 2., .5), g("h"))
  if cfg["form"].startswith("fun"): obj = (g("Q"), g("c"), -.3)
  return tree, wrap, obj, eq if cfg["eq"] else None, ineq if cfg["ineq"] else None


@sub("C07", "osqp", strat_os, quick=40, thorough=2000, cfgs=OS, cost=4)
def osqp(c, T):
  cfg = c["cfg"]
  tree = "pytree" in cfg["form"]
  ns = [3, 2] if tree else [4]
  ps = [make_qp(c["seed"] + 7 * i, n, cfg["eq"], cfg["ineq"], c["cond"], c["singular"], c["scale"], (c["active"] >> i), c["weak"])
        for i, n in enumerate(ns)]
  for p in ps:
    nact = int((p["h"] - p["G"] @ p["x"] < 1e-9).sum()) if cfg["ineq"] else 0
    if cfg["eq"] + nact == 0: T.trivial()
    rows = np.concatenate([p["A"], p["G"]])
    if len(rows) and np.linalg.norm(rows, axis=1).min() < .1:
      T.trivial(); return
  tree, wrap, obj, eq, ineq = forms(cfg, ps)
  r = gen.rng(c["seed"])
  gx = {"zero": lambda p: np.zeros_like(p["x"]), "random": lambda p: r.standard_normal(p["x"].shape), "solution": lambda p: p["x"]}[c["init"]]
  pick = lambda k: (lambda p: p[k] if c["init"] == "solution" else (np.zeros_like(p[k]) if c["init"] == "zero" else np.abs(r.standard_normal(p[k].shape))))
  init = KKTSolution(wrap(gx), wrap(pick("nu")) if cfg["eq"] else None, wrap(pick("lam")) if cfg["ineq"] else None)
  tol = c["tol"]
  sol, state = osqp_run(cfg, init, obj, eq, ineq, tol)
  T.label(f"status {int(state.status)}")
  T.ok(int(state.status) in (0, 1), "OSQP declares a solvable problem infeasible", status=int(state.status), it=int(state.iter_num))
  if int(state.status) == 0 and c["singular"]:
    T.label("singular, not converged"); return
  if int(state.status) == 0 and tol < 1e-6 and float(state.error) <= 50 * tol:
    T.label("stalled near the tolerance"); return     # step size adaptation has no guarantee of reaching tiny tolerances
  if int(state.status) == 0 and "stepsize_updates_frequency" not in cfg:
    # adaptive ADMM step sizes may cycle (no convergence guarantee); with a constant one ADMM converges
    sol, state = osqp_run(dict(cfg, stepsize_updates_frequency=10**8), init, obj, eq, ineq, tol)
    T.label("constant step size")
    if float(state.error) <= 1e-3 and int(state.status) == 0: return
  T.ok(int(state.status) == 1 and float(state.error) <= tol, "OSQP: not solved", status=int(state.status), err=float(state.error), it=int(state.iter_num))
  g = (lambda v, k: None if v is None else v[k]) if tree else (lambda v, k: v)
  for k, p in zip(("a", "b"), ps):
    x = np64(g(sol.primal, k))
    nu = np64(g(sol.dual_eq, k)) if cfg["eq"] else np.zeros(0)
    lam = np64(g(sol.dual_ineq, k)) if cfg["ineq"] else np.zeros(0)
    T.ok(nu.shape == p["nu"].shape and lam.shape == p["lam"].shape and x.shape == p["x"].shape, "OSQP: shapes of the solution")
    T.finite(x, "OSQP primal")
    res = kkt_resid(p, x, nu, lam)
    T.ok(res[0] <= 1.01 * tol + 1e-9, "OSQP: stationarity", residuals=res)
    T.ok(max(res[1:3]) <= 1.01 * tol + 1e-12, "OSQP: infeasible", residuals=res, x=x)
    T.ok(res[3] >= 0, "OSQP: negative multiplier", lam=lam)
    T.ok(res[4] <= tol * (1.01 * np.abs(lam).max(initial=0) + 1e-9) + 1e-12, "OSQP: complementarity", residuals=res, lam=lam)
    f = lambda x: .5 * x @ p["Q"] @ x + p["c"] @ x
    # objective gap implied by the KKT residual (convexity)
    gap = tol * (np.abs(nu).sum() + np.abs(lam).sum() + np.abs(p["nu"]).sum() + np.abs(p["lam"]).sum() + 2 * np.abs(x - p["x"]).sum() + 1e-6)
    T.ok(abs(f(x) - f(p["x"])) <= 1.1 * gap + 1e-9 * (1 + abs(f(x))), "OSQP: not the optimal value", got=f(x), want=f(p["x"]), gap=gap)
    if not c["singular"]:
      mu = np.linalg.eigvalsh(p["Q"])[0]
      T.ok(mu / 2 * np.sum((x - p["x"]) ** 2) <= 2.2 * gap + 1e-9, "OSQP: not the solution", x=x, want=p["x"])
  if tree: return
  # optimality error at an arbitrary point
  p = ps[0]
  z = KKTSolution(r.standard_normal(4), r.standard_normal(cfg["eq"]) if cfg["eq"] else None, r.standard_normal(cfg["ineq"]) if cfg["ineq"] else None)
  s = cached(("c07oss", repr(cfg)), lambda: osqp_solver(cfg))
  got = float(s.l2_optimality_error(z, obj, eq, ineq))
  nu, lam = (z.dual_eq if cfg["eq"] else np.zeros(0)), (z.dual_ineq if cfg["ineq"] else np.zeros(0))
  e, i = p["A"] @ z.primal - p["b"], p["G"] @ z.primal - p["h"]
  want = np.sqrt(np.sum((p["Q"] @ z.primal + p["c"] + p["A"].T @ nu + p["G"].T @ lam) ** 2) + np.sum((nu * e) ** 2)
                 + np.sum((np.maximum(lam, 0) * i) ** 2) + np.sum(np.minimum(lam, 0) ** 2))
  T.close(got, want, 1e-7, 1e-9, "OSQP.l2_optimality_error")


# --- BoxOSQP -------------------------------------------------------------------
BX = [dict(form="dense"), dict(form="dense", eq_qp_solve="lu"), dict(form="dense", eq_qp_solve="cg+jacobi", rho_start=10.),
      dict(form="dense", check_primal_dual_infeasability=True, momentum=1.2), dict(form="matvec"), dict(form="fun"),
      dict(form="dense", eq_qp_solve="lu", implicit_diff=False, check_primal_dual_infeasability=True)]


def box_run(cfg, init, obj, A, lu, tol, maxiter):
  def build():
    form = cfg["form"]
    kw = {k: v for k, v in cfg.items() if k != "form"}
    if form == "matvec": kw.update(matvec_Q=lambda P, u: P[0] @ u * P[1], matvec_A=lambda P, u: P[0] @ u * P[1])
    if form == "fun": kw.update(fun=lambda x, P: .5 * jnp.vdot(x, jnp.dot(P[0], x)) + jnp.vdot(P[1], x) + P[2])
    def go(init, obj, A, lu, tol, maxiter):
      s = jaxopt.BoxOSQP(tol=1e-8, maxiter=7, **kw)
      s.tol, s.maxiter = tol, maxiter
      return s.run(init, obj, A, lu)
    return jax.jit(go, static_argnames="maxiter") if not cfg.get("implicit_diff", True) else jax.jit(go)
  if not cfg.get("implicit_diff", True):
    maxiter = min(maxiter, 4000)
  return cached(("c07bx", repr(cfg)), build)(init, obj, A, lu, tol, maxiter=maxiter)


def strat_bx(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4., 20.]), singular=st.sampled_from([False] * 3 + [True]),
                   kinds=st.lists(st.sampled_from(["eq", "lo", "hi", "in", "free", "lo1", "hi1", "weak"]), min_size=4, max_size=4),
                   scale=st.sampled_from([1., 1., .1, 5.]), init=st.sampled_from([None, "random", "solution"]),
                   identity=st.booleans(), zero=st.sampled_from([False] * 5 + [True]), tol=st.sampled_from([1e-3, 1e-5, 1e-7]),
                   short=st.integers(1, 30))


@sub("C07", "box_osqp", strat_bx, quick=100, thorough=4000, cfgs=BX, cost=4)
def box_osqp(c, T):
  cfg = c["cfg"]
  r = gen.rng(c["seed"])
  n = m = 4
  Q = gen.spd(n, int(r.integers(2**31)), cond=c["cond"])
  if c["singular"]:
    w, v = np.linalg.eigh(Q); w[0] = 0; Q = (v * w) @ v.T
  A = np.eye(n) if c["identity"] else r.standard_normal((m, n))
  x = np.zeros(n) if c["zero"] else r.standard_normal(n) * c["scale"]
  y, l, u = np.zeros(m), np.zeros(m), np.zeros(m)
  Ax = A @ x
  for i, k in enumerate(c["kinds"]):
    a, b, t = r.uniform(.1, 2, 3) * c["scale"]
    l[i], u[i] = Ax[i] - a, Ax[i] + b
    if k == "eq": l[i] = u[i] = Ax[i]; y[i] = r.standard_normal() * c["scale"]
    if k in ("lo", "lo1"): l[i] = Ax[i]; y[i] = -t
    if k in ("hi", "hi1"): u[i] = Ax[i]; y[i] = t
    if k == "lo1": u[i] = np.inf
    if k == "hi1": l[i] = -np.inf
    if k == "free": l[i], u[i] = -np.inf, np.inf
    if k == "weak": u[i] = Ax[i]
  cc = -(Q @ x + A.T @ y)
  if np.all([k in ("free", "in") for k in c["kinds"]]): T.trivial()
  obj, params_A = (Q, cc), A
  if cfg["form"] == "matvec": obj, params_A = ((Q / 2, 2.), cc), (A / 4, 4.)
  if cfg["form"] == "fun": obj = (Q, cc, 2.)
  x0 = {None: np.zeros(n), "random": r.standard_normal(n), "solution": x}[c["init"]]
  y0 = {None: np.zeros(m), "random": r.standard_normal(m), "solution": y}[c["init"]]
  init = KKTSolution((x0, np.clip(A @ x0, l, u)), y0, (np.maximum(y0, 0), np.maximum(-y0, 0)))
  tol = c["tol"]
  def judge(sol, s, at_check):
    (X, Z), Y, (mu, phi) = sol
    X, Z, Y, mu, phi = map(np64, (X, Z, Y, mu, phi))
    T.finite(X, "BoxOSQP")
    pr, dr = A @ X - Z, Q @ X + cc + A.T @ Y
    T.close(np64(s.primal_residuals), pr, 1e-7, 1e-9, "BoxOSQP: primal residuals in the state")
    T.close(np64(s.dual_residuals), dr, 1e-7, 1e-9, "BoxOSQP: dual residuals in the state")
    T.ok(np.all(Z >= l) and np.all(Z <= u), "BoxOSQP: z outside the box", z=Z)
    T.close(mu - phi, Y, 1e-9, 1e-12, "BoxOSQP: y is not mu - phi")
    T.ok(mu.min() >= 0 and phi.min() >= 0, "BoxOSQP: negative multiplier")
    T.ok(np.all(np.where(np.isinf(u), mu, 0) <= 1e-9) and np.all(np.where(np.isinf(l), phi, 0) <= 1e-9), "BoxOSQP: multiplier of an infinite bound")
    if at_check and int(s.status) != 2 and int(s.status) != 3:
      T.close(float(s.error), max(np.abs(pr).max(), np.abs(dr).max()), 1e-6, 1e-10, "BoxOSQP: error is not the largest residual")
      T.ok((int(s.status) == 1) == (float(s.error) <= tol), "BoxOSQP: status", status=int(s.status), err=float(s.error))
    return X, Y, mu, phi
  sol, s = box_run(cfg, init, obj, params_A, (l, u), tol, maxiter=20000)
  T.label(f"status {int(s.status)}")
  T.ok(int(s.status) in (0, 1), "BoxOSQP declares a solvable problem infeasible", status=int(s.status), it=int(s.iter_num))
  if int(s.status) == 0 and c["singular"]:
    T.label("singular, not converged"); return
  if int(s.status) == 0 and tol < 1e-6 and float(s.error) <= (1e-4 if c["zero"] else 50 * tol):
    T.label("stalled near the tolerance"); return
  if int(s.status) == 0 and cfg.get("implicit_diff", True):
    sol, s = box_run(dict(cfg, stepsize_updates_frequency=10**8), init, obj, params_A, (l, u), tol, maxiter=20000)
    T.label("constant step size")
    if float(s.error) <= 1e-3 and int(s.status) == 0: return
  T.ok(int(s.status) == 1 and float(s.error) <= tol, "BoxOSQP: not solved", err=float(s.error), it=int(s.iter_num))
  X, Y, mu, phi = judge(sol, s, True)
  zl, zu = np.where(np.isinf(l), 0, l), np.where(np.isinf(u), 0, u)
  T.ok(np.abs(mu * (np64(sol.primal[1]) - zu)).max() <= 1e-7 * (1 + c["scale"]) ** 2 and np.abs(phi * (zl - np64(sol.primal[1]))).max() <= 1e-7 * (1 + c["scale"]) ** 2,
       "BoxOSQP: complementarity", mu=mu, phi=phi, z=sol.primal[1])
  f = lambda x: .5 * x @ Q @ x + cc @ x
  gap = tol * (np.abs(Y).sum() + np.abs(y).sum() + 2 * np.abs(X - x).sum() + 1e-6)
  T.ok(abs(f(X) - f(x)) <= 1.1 * gap + 1e-9 * (1 + abs(f(x))), "BoxOSQP: not the optimal value", got=f(X), want=f(x), gap=gap)
  k = c["short"]
  if not cfg.get("implicit_diff", True): k = 5 * (1 + k // 10)
  sol, s = box_run(cfg, init, obj, params_A, (l, u), tol, maxiter=k)
  T.ok(int(s.iter_num) <= k, "too many iterations")
  judge(sol, s, (int(s.iter_num) - 1) % 5 == 0)


# --- infeasible and unbounded problems ------------------------------------------
def strat_inf(cfg):
  return gen.fixed(seed=gen.seeds, gap=gen.pos(.2, 3), ratio=gen.pos(.25, 3), pick=st.integers(0, 2), size=gen.pos(.5, 3))


INF = [dict(kind=k, eq_qp_solve=s) for k in ("primal_ineq", "primal_eq", "primal_box", "dual") for s in ("cg", "lu")]


@sub("C07", "infeasible", strat_inf, quick=25, thorough=1000, cfgs=INF, cost=3)
def infeasible(c, T):
  """Problems with a certificate by construction: never reported as solved."""
  kind = c["cfg"]["kind"]
  r = gen.rng(c["seed"])
  n = 3
  Q = gen.spd(n, int(r.integers(2**31)), cond=4.)
  cc = r.standard_normal(n)
  G, h = r.standard_normal((3, n)), r.uniform(.5, 2, 3)
  A, b = r.standard_normal((1, n)), np.zeros(1)
  g = r.standard_normal(n); g /= np.linalg.norm(g)
  if kind == "primal_ineq":       # g'x <= -gap and -ratio g'x <= -ratio gap
    G[0], h[0] = g, -c["gap"]
    G[1], h[1] = -c["ratio"] * g, -c["ratio"] * c["gap"]
  elif kind == "primal_eq":       # g'x = gap and ratio g'x <= -ratio gap
    A[0], b[0] = g, c["gap"]
    G[0], h[0] = c["ratio"] * g, -c["ratio"] * c["gap"]
  elif kind == "primal_box":      # x >= 0, sum x <= -gap
    G = np.concatenate([-np.eye(n)[:2], [[1, 1, 0.]]]); h = np.array([0, 0, -c["gap"]]); A = np.array([[0, 0, 1.]])
  else:                           # Q d = 0, c'd < 0, A d = 0, G d <= 0
    P = np.eye(n) - np.outer(g, g)
    Q = P @ Q @ P; Q = (Q + Q.T) / 2
    cc = P @ cc - c["size"] * g
    A = A @ P
    G = G @ P; G[0] -= r.uniform(.1, 1) * g
    if c["pick"] == 0: G[1] -= r.uniform(.1, 1) * g
    if np.linalg.norm(A) < .2: T.trivial(); return
  want = 2 if kind == "dual" else 3
  def build():
    def go(*a):
      return jaxopt.OSQP(tol=1e-6, maxiter=4000, check_primal_dual_infeasability=True, eq_qp_solve=c["cfg"]["eq_qp_solve"]).run(None, *a)
    return jax.jit(go)
  sol, s = cached(("c07inf", repr(c["cfg"])), build)((Q, cc), (A, b), (G, h))
  T.label(f"status {int(s.status)}")
  T.ok(int(s.status) != 1, f"{kind}: infeasible problem reported as solved", x=sol.primal, err=float(s.error))
  T.ok(int(s.status) == want, f"{kind}: infeasibility not detected", status=int(s.status), it=int(s.iter_num))
