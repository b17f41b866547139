"""C06: constrained and composite solvers return feasible, optimal points."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import prox as JP, projection as JQ, objective as JO
from pbt import gen, problems as pb
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C06", "case = (solver, option combination, regularizer or constraint set with its hyperparameters, "
         "strongly convex smooth problem, start incl. infeasible / optimal / at bounds); oracle = first-order "
         "optimality residual with NumPy gradients and independently written prox/projection formulas, "
         "feasibility after any number of iterations; non-trivial = more than one iteration and an active "
         "constraint or shrunk coordinate", ["condition number at most ~200 so that maxiter suffices"])

N = 4


def soft(x, t): return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def simplex(x, s):
  u = np.sort(x)[::-1]
  c = (np.cumsum(u) - s) / np.arange(1, len(x) + 1)
  k = np.nonzero(u - c > 0)[0][-1]
  return np.maximum(x - c[k], 0)


def l1ball(x, s):
  return x if np.abs(x).sum() <= s else np.sign(x) * simplex(np.abs(x), s)


def group(x, t):
  n = np.linalg.norm(x)
  return x * max(0.0, 1 - t / n) if n > 0 else x


# name -> (jaxopt prox, hyperparameter strategy, numpy prox)
pos = gen.pos(0.05, 2)
PROX = {
    "none": (JP.prox_none, st.none(), lambda x, h: x),
    "lasso": (JP.prox_lasso, st.one_of(pos, st.just(0.0)), lambda x, h: soft(x, h)),
    "lasso_vec": (JP.prox_lasso, gen.vec(N, 0, 1), lambda x, h: soft(x, h)),
    "nn_lasso": (JP.prox_non_negative_lasso, pos, lambda x, h: np.maximum(x - h, 0)),
    "elastic": (JP.prox_elastic_net, st.tuples(pos, pos), lambda x, h: soft(x, h[0]) / (1 + h[0] * h[1])),
    "ridge": (JP.prox_ridge, pos, lambda x, h: x / (1 + h)),
    "nn_ridge": (JP.prox_non_negative_ridge, pos, lambda x, h: np.maximum(x / (1 + h), 0)),
    "group": (JP.prox_group_lasso, pos, lambda x, h: group(x, h)),
}
# name -> (jaxopt projection, strategy, numpy projection)
PROJ = {
    "nonneg": (JQ.projection_non_negative, st.none(), lambda x, h: np.maximum(x, 0)),
    "box": (JQ.projection_box, st.tuples(gen.nums(-2, 0), gen.nums(0, 2)), lambda x, h: np.clip(x, *h)),
    "simplex": (JQ.projection_simplex, gen.pos(.25, 3), simplex),
    "l1_ball": (JQ.projection_l1_ball, gen.pos(.25, 3), l1ball),
    "l2_ball": (JQ.projection_l2_ball, gen.pos(.25, 3), lambda x, h: x * min(1, h / max(np.linalg.norm(x), 1e-300))),
    "linf_ball": (JQ.projection_linf_ball, gen.pos(.25, 3), lambda x, h: np.clip(x, -h, h)),
    "hyperplane": (JQ.projection_hyperplane, st.tuples(gen.vec(N, flavors=("gauss",)), gen.nums(-1, 1)),
                   lambda x, h: x - (np.dot(h[0], x) - h[1]) / np.dot(h[0], h[0]) * np.array(h[0])),
    "halfspace": (JQ.projection_halfspace, st.tuples(gen.vec(N, flavors=("gauss",)), gen.nums(-1, 1)),
                  lambda x, h: x - max(0, np.dot(h[0], x) - h[1]) / np.dot(h[0], h[0]) * np.array(h[0])),
}


def hyper(h):
  if isinstance(h, (list, tuple)) and len(h) == 2:
    return tuple(np64(a) for a in h)
  return None if h is None else np64(h)


def solver_opts(o):
  o = dict(o)
  if o.get("stepsize") == "callable":
    o["stepsize"] = lambda k: 0.9 / (1.0 + 0.1 * jnp.minimum(k, 3))
  return o


PG_OPTS = [dict(acceleration=True), dict(acceleration=False), dict(acceleration=True, stepsize=.9),
           dict(acceleration=False, stepsize="callable"), dict(acceleration=False, decrease_factor=.8, maxls=30)]
CF_PROX = [["prox", k, PG_OPTS[i % 5]] for i, k in enumerate(PROX)] + [["prox", "lasso", o] for o in PG_OPTS] + \
          [["prox", "elastic", dict(acceleration=True)], ["prox", "group", dict(acceleration=True)]]
CF_PROJ = [["proj", k, PG_OPTS[i % 5]] for i, k in enumerate(PROJ)] + [["proj", "simplex", o] for o in PG_OPTS] + \
          [["proj", "box", dict(acceleration=True)]]
CF_PG = []
for c_ in CF_PROX + CF_PROJ:
  if c_ not in CF_PG:
    CF_PG.append(c_)


def pg_run(cfg, x0, h, D, tol, maxiter):
  kind, name, opts = cfg
  def build():
    def go(x0, h, D, tol, maxiter):
      if kind == "prox":
        s = jaxopt.ProximalGradient(fun=pb.fun, prox=PROX[name][0], tol=0., maxiter=7, **solver_opts(opts))
        s.tol, s.maxiter = tol, maxiter
      else:
        s = jaxopt.ProjectedGradient(fun=pb.fun, projection=PROJ[name][0], tol=0., maxiter=7, **solver_opts(opts))
        s._pg.tol, s._pg.maxiter = tol, maxiter
      return s.run(x0, h, D)
    return jax.jit(go)
  return cached(("c06pg", repr(cfg)), build)(x0, h, D, tol, maxiter)


def strat_pg(cfg):
  menu = PROX if cfg[0] == "prox" else PROJ
  return gen.fixed(p=pb.strat(N), h=menu[cfg[1]][1], start=st.sampled_from(["zero", "random", "far", "solution"]),
                   sseed=gen.seeds, short=st.integers(1, 6))


@sub("C06", "proximal_projected_gradient", strat_pg, quick=25, thorough=1000, cfgs=CF_PG, cost=3)
def proximal_projected_gradient(c, T):
  kind, name, opts = c["cfg"]
  D = pb.normalized(pb.data(N, c["p"]["seed"], c["p"]["kind"], c["p"]["cond"], c["p"]["scale"]))
  mu, L = pb.mu_L(D)
  h = hyper(c["h"])
  P = (PROX if kind == "prox" else PROJ)[name][2]
  if name in ("hyperplane", "halfspace") and np.linalg.norm(h[0]) < .1:
    T.trivial(); return
  x0 = pb.start(c["start"] if c["start"] != "solution" else "optimum", N, c["sseed"], D)
  if c["start"] == "solution":
    for _ in range(3000):
      x0 = P(x0 - pb.grad(x0, D), h)
  tol = 1e-7
  x, s = pg_run(c["cfg"], x0, h, D, tol, 20000)
  x = np64(x)
  T.finite(x, name)
  T.ok(float(s.error) <= tol, f"{kind} {name}: no convergence", err=float(s.error), it=int(s.iter_num))
  res = np.linalg.norm(P(x - pb.grad(x, D), h) - x)
  T.ok(res <= 30 * tol, f"{kind} {name} {opts}: not optimal", residual=res, x=x, h=c["h"])
  if int(s.iter_num) <= 1: T.trivial()
  # after any number of iterations: feasible, and the error is the documented distance
  k = c["short"]
  xk, sk = pg_run(c["cfg"], x0, h, D, 1e-14, k)
  xk = np64(xk)
  if kind == "proj":
    T.ok(np.linalg.norm(P(xk, h) - xk) <= 1e-9 * (1 + np.abs(xk).max()), f"{name}: iterate {k} not feasible", x=xk)
  if int(sk.iter_num) == k:
    xp, sp = pg_run(c["cfg"], x0, h, D, 1e-14, k - 1)
    xp = np64(sp.velocity) if opts["acceleration"] else np64(xp)
    T.close(float(sk.error), np.linalg.norm(xk - xp) / float(sk.stepsize), 1e-6, 1e-9, "error is not |x_k+1 - y_k| / stepsize")
    if opts.get("stepsize") == .9 and not opts["acceleration"] or opts.get("stepsize") == "callable":
      step = .9 if opts["stepsize"] == .9 else .9 / (1 + .1 * min(k - 1, 3))
      T.close(float(sk.stepsize), step, 1e-6, 0, "step size is not the requested one")
  else:
    T.ok(float(sk.error) <= 1e-14, "stopped early", err=float(sk.error))


# --- mirror descent ---------------------------------------------------------
def md_run(cfg, x0, h, D, tol, maxiter):
  name, step = cfg
  def build():
    def kl(y, hp):   # argmin of KL over the scaled simplex
      return hp * jax.nn.softmax(y)
    pg = {"kl": lambda: jaxopt.MirrorDescent.make_projection_grad(kl, lambda x: jnp.log(x)),
          "euclid": lambda: jaxopt.MirrorDescent.make_projection_grad(JQ.projection_simplex, lambda x: x),
          "direct": lambda: (lambda x, g, t, hp: JQ.projection_simplex(x - t * g, hp))}[name]()
    def go(x0, h, D, tol, maxiter):
      s = jaxopt.MirrorDescent(fun=pb.fun, projection_grad=pg, tol=0., maxiter=7,
                               stepsize=step if step != "callable" else (lambda k: 1 / (2. + k)))
      s.tol, s.maxiter = tol, maxiter
      return s.run(x0, h, D)
    return jax.jit(go)
  return cached(("c06md", repr(cfg)), build)(x0, h, D, tol, maxiter)


def strat_md(cfg):
  return gen.fixed(p=pb.strat(N), h=gen.pos(.25, 3), w=gen.vec(N, .05, 1), k=st.integers(1, 60))


@sub("C06", "mirror_descent", strat_md, quick=40, thorough=1500, cost=3,
     cfgs=[[n, s] for n in ("kl", "euclid", "direct") for s in (.5, "callable")])
def mirror_descent(c, T):
  name, step = c["cfg"]
  D = pb.normalized(pb.data(N, c["p"]["seed"], c["p"]["kind"], c["p"]["cond"], c["p"]["scale"]))
  h, k = float(c["h"]), c["k"]
  w = np.maximum(np64(c["w"]), .05)
  x0 = w / w.sum() * h
  if k == 1: T.trivial()
  if name == "kl":
    proj = lambda x, g, t: (lambda y: h * np.exp(y - y.max()) / np.exp(y - y.max()).sum())(np.log(x) - t * g)
  else:
    proj = lambda x, g, t: simplex(x - t * g, h)
  eta = lambda i: step if step != "callable" else 1 / (2. + i)
  x = x0
  for i in range(k):
    xp, x = x, proj(x, pb.grad(x, D), eta(i))
  got, s = md_run(c["cfg"], x0, h, D, 1e-30, k)
  if int(s.iter_num) == k:
    T.close(np64(got), x, 1e-7, 1e-9, f"{name}: not the mirror descent iterate")
    T.close(float(s.error), np.linalg.norm(x - xp) / eta(k - 1), 1e-5, 1e-8, "error")
    T.ok(int(s.num_grad_eval) == k and int(s.num_proj_eval) == k, "evaluation counters", got=(s.num_grad_eval, s.num_proj_eval))
  got = np64(got)
  T.ok(got.min() >= 0 and abs(got.sum() - h) <= 1e-9 * (1 + h), f"{name}: not in the simplex", x=got)
  if name != "kl" and step == .5:
    z, s = md_run(c["cfg"], x0, h, D, 1e-9, 20000)
    z = np64(z)
    T.ok(float(s.error) <= 1e-9, "no convergence", err=float(s.error))
    T.ok(np.linalg.norm(simplex(z - pb.grad(z, D), h) - z) <= 1e-8, "not optimal", x=z)


# --- block coordinate descent -----------------------------------------------
BCD = {"least_squares": "lasso", "binary_logreg": "elastic", "multiclass_logreg": "group", "svm_dual": "simplex",
       "least_squares_multi": "group", "least_squares_nn": "nn_lasso"}
NS, NF, NC = 6, 4, 3


def strat_bcd(cfg):
  return gen.fixed(seed=gen.seeds, h=st.tuples(gen.pos(.02, .5), pos), zero=st.integers(0, 3), start=st.booleans(),
                   l2=gen.pos(.25, 4), scale=st.sampled_from([.5, 1., 2.]))


def bcd_run(cfg, x0, h, args, tol, maxiter):
  def build():
    fun = {"svm_dual": JO.multiclass_linear_svm_dual}.get(cfg) or getattr(JO, {"least_squares_multi": "least_squares", "least_squares_nn": "least_squares"}.get(cfg, cfg))
    name = BCD[cfg]
    prox = (lambda x, h, s=1.0: JQ.projection_simplex(x, 1.0)) if name == "simplex" else PROX[name][0]
    def go(x0, h, args, tol, maxiter):
      s = jaxopt.BlockCoordinateDescent(fun=fun, block_prox=prox, tol=0., maxiter=7)
      s.tol, s.maxiter = tol, maxiter
      return s.run(x0, h, *args)
    return jax.jit(go)
  return cached(("c06bcd", cfg), build)(x0, h, args, tol, maxiter)


@sub("C06", "block_cd", strat_bcd, quick=50, thorough=2000, cfgs=list(BCD), cost=3)
def block_cd(c, T):
  cfg = c["cfg"]
  r = gen.rng(c["seed"])
  X = r.standard_normal((NS, NF)) * c["scale"]
  if c["zero"] == 1:
    X[:, 1] = 0          # an all-zero feature
  if c["zero"] == 2:
    X[:, 2] = X[:, 0]    # duplicated features
  name = BCD[cfg]
  h = np64(c["h"][0]) if name not in ("elastic",) else tuple(np64(v) for v in c["h"])
  start = r.standard_normal
  if cfg in ("least_squares", "least_squares_nn"):
    y = r.standard_normal(NS); args = ((X, y),); shape = (NF,)
    g = lambda W: X.T @ (X @ W - y) / NS
  elif cfg == "least_squares_multi":
    y = r.standard_normal((NS, NC)); args = ((X, y),); shape = (NF, NC)
    g = lambda W: X.T @ (X @ W - y) / (NS * NC)
  elif cfg == "binary_logreg":
    y = r.integers(0, 2, NS); args = ((X, y),); shape = (NF,)
    g = lambda W: X.T @ (1 / (1 + np.exp(-X @ W)) - y) / NS
  elif cfg == "multiclass_logreg":
    y = r.integers(0, NC, NS); args = ((X, y),); shape = (NF, NC)
    def g(W):
      z = X @ W; p = np.exp(z - z.max(1, keepdims=True)); p /= p.sum(1, keepdims=True)
      return X.T @ (p - np.eye(NC)[y]) / NS
  else:
    Y = np.eye(NC)[r.integers(0, NC, NS)]; l2 = float(c["l2"])
    if c["zero"] == 1: X[1] = 0
    args = (l2, (X, Y)); shape = (NS, NC)
    g = lambda B: -(1 - Y) - X @ (X.T @ Y - X.T @ B) / l2
    h = None
  x0 = r.standard_normal(shape) if c["start"] else np.zeros(shape)
  if cfg == "svm_dual":
    x0 = np.stack([simplex(v, 1.0) for v in x0])
  x, s = bcd_run(cfg, x0, h, args, 1e-9, 20000)
  x = np64(x)
  T.finite(x, cfg)
  P = (lambda z: np.stack([simplex(v, 1.0) for v in z])) if cfg == "svm_dual" else (
      lambda z: np.stack([PROX[name][2](v, h) for v in z]) if z.ndim == 2 else PROX[name][2](z, h))
  slow = cfg in ("svm_dual", "multiclass_logreg")     # singular Hessian: converges sublinearly in the worst case
  T.ok(float(s.error) <= (1e-4 if slow else 1e-9), f"BCD {cfg}: no convergence", err=float(s.error), it=int(s.iter_num))
  res = np.linalg.norm(P(x - g(x)) - x)
  T.ok(res <= max(1e-6, 3e3 * float(s.error)), f"BCD {cfg}: not optimal", residual=res, x=x)
  pred = X.T @ x if cfg == "svm_dual" else X @ x
  T.close(np64(s.predictions), pred, 1e-7, 1e-7, f"BCD {cfg}: predictions in the state are not those of the parameters")
  if int(s.iter_num) <= 1: T.trivial()
  # one epoch by hand
  k = 1 + c["zero"]
  xa, sa = bcd_run(cfg, x0, h, args, 1e-30, k)
  xb, _ = bcd_run(cfg, x0, h, args, 1e-30, k - 1)
  if int(sa.iter_num) == k:
    T.close(float(sa.error), np.linalg.norm(np64(xa) - np64(xb)), 1e-6, 1e-10, "BCD error is not |x_k+1 - x_k|")


# --- box QP and bound constrained problems -----------------------------------
@st.composite
def bounds(draw, n=N):
  lo, hi = [], []
  for _ in range(n):
    k = draw(st.sampled_from(["both", "both", "both", "lower", "upper", "free", "equal"]))
    a = draw(gen.nums(-2, 2)); w = draw(gen.pos(.05, 3))
    lo.append(-np.inf if k in ("upper", "free") else a)
    hi.append(np.inf if k in ("lower", "free") else (a if k == "equal" else a + w))
  return dict(lo=[repr(v) for v in lo], hi=[repr(v) for v in hi])


def unbounds(b):
  return np.array([float(v) for v in b["lo"]]), np.array([float(v) for v in b["hi"]])


def start_in(kind, lo, hi, r):
  x = r.standard_normal(len(lo)) * 3
  if kind == "infeasible": return x * 3
  x = np.clip(x, lo, hi)
  if kind == "lower": x = np.where(np.isfinite(lo), lo, x)
  if kind == "upper": x = np.where(np.isfinite(hi), hi, x)
  return x


STARTB = ["interior", "lower", "upper", "infeasible"]


def strat_cdqp(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4., 20.]), b=bounds(), start=st.sampled_from(STARTB),
                   c=gen.vec(N, -4, 4), zero=st.sampled_from([None, None, 0, 2]), short=st.integers(1, 4))


@sub("C06", "box_cd_qp", strat_cdqp, quick=200, thorough=6000)
def box_cd_qp(c, T):
  Q = gen.spd(N, c["seed"], cond=c["cond"])
  cc = np64(c["c"])
  lo, hi = unbounds(c["b"])
  z = c["zero"]
  if z is not None and np.isfinite(lo[z]) and np.isfinite(hi[z]):
    Q[z] = 0; Q[:, z] = 0     # the objective is linear in this coordinate
    T.label("zero curvature")
  x0 = start_in(c["start"], lo, hi, gen.rng(c["seed"]))
  def build():
    def go(x0, Q, cc, lo, hi, tol, maxiter):
      s = jaxopt.BoxCDQP(tol=0., maxiter=7); s.tol, s.maxiter = tol, maxiter
      return s.run(x0, params_obj=(Q, cc), params_ineq=(lo, hi))
    return jax.jit(go)
  f = cached("c06cdqp", build)
  x, s = f(x0, Q, cc, lo, hi, 1e-10, 20000)
  x = np64(x)
  T.ok(float(s.error) <= 1e-10, "BoxCDQP: no convergence", err=float(s.error))
  T.ok(np.all(x >= lo) and np.all(x <= hi), "BoxCDQP: infeasible", x=x)
  T.ok(np.abs(np.clip(x - Q @ x - cc, lo, hi) - x).max() <= 1e-7, "BoxCDQP: not optimal", x=x, lo=lo, hi=hi)
  if not (np.any(x == lo) or np.any(x == hi)): T.trivial()
  xa, sa = f(x0, Q, cc, lo, hi, 1e-30, c["short"])
  xb, sb = f(x0, Q, cc, lo, hi, 1e-30, c["short"] - 1)
  T.ok(np.all(np64(xa) >= lo) and np.all(np64(xa) <= hi), "BoxCDQP: infeasible iterate", x=xa)
  if int(sa.iter_num) == c["short"]:
    T.close(float(sa.error), np.abs(np64(xa) - np64(xb)).sum(), 1e-6, 1e-12, "BoxCDQP error")


LB = [dict(), dict(history_size=2), dict(history_size=1, linesearch_init="max"), dict(linesearch_init="current"),
      dict(use_gamma=False), dict(stepsize=.9), dict(theta=3.), dict(max_stepsize=.5), dict(max_stepsize=5.),
      dict(stop_if_linesearch_fails=True, maxls=50), dict(linesearch="backtracking"),
      dict(linesearch="backtracking", linesearch_init="max", max_stepsize=4.), dict(linesearch="hager-zhang")]


def lb_run(cfg, x0, b, D, tol, maxiter):
  def build():
    def go(x0, b, D, tol, maxiter):
      s = jaxopt.LBFGSB(fun=pb.fun, tol=0., maxiter=7, **cfg)
      s.tol, s.maxiter = tol, maxiter
      return s.run(x0, b, D)
    return jax.jit(go)
  return cached(("c06lb", repr(cfg)), build)(x0, b, D, tol, maxiter)


def strat_lb(cfg):
  return gen.fixed(p=pb.strat(N), b=bounds(), start=st.sampled_from(STARTB), sseed=gen.seeds, none=st.sampled_from([False] * 7 + [True]),
                   short=st.integers(1, 8), tol=st.sampled_from([1e-2, 1e-3, 1e-6]))


@sub("C06", "lbfgsb", strat_lb, quick=50, thorough=2000, cfgs=LB, cost=4)
def lbfgsb(c, T):
  cfg = c["cfg"]
  p = c["p"]
  kind = "quad" if cfg.get("stepsize") else p["kind"]
  D = pb.normalized(pb.data(N, p["seed"], kind, p["cond"], p["scale"]))
  mu, L = pb.mu_L(D)
  lo, hi = unbounds(c["b"])
  if c["none"]:
    lo, hi = np.full(N, -np.inf), np.full(N, np.inf)
  x0 = start_in(c["start"], lo, hi, gen.rng(c["sseed"]))
  b = None if c["none"] else (lo, hi)
  tol = c["tol"]
  x, s = lb_run(cfg, x0, b, D, tol, 2000)
  x = np64(x)
  T.finite(x, "LBFGSB")
  def check(x, s):
    if cfg.get("linesearch") == "hager-zhang" and not (np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9)):
      T.known("lbfgsb-hager-zhang-leaves-bounds")
    T.ok(np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9), f"LBFGSB {cfg}: bounds violated", x=x, lo=lo, hi=hi)
    g = pb.grad(x, D)
    T.close(np64(s.grad), g, 1e-8, 1e-10, "LBFGSB: state.grad")
    T.close(float(s.value), pb.value(x, D), 1e-8, 1e-8, "LBFGSB: state.value")
    res = np.abs(np.clip(x - g, lo, hi) - x).max()
    T.close(float(s.error), res, 1e-7, 1e-9, "LBFGSB: error is not the projected gradient norm")
    return res
  res = check(x, s)
  T.ok(float(s.error) <= tol or cfg.get("linesearch") == "backtracking", f"LBFGSB {cfg}: no convergence",
       err=float(s.error), it=int(s.iter_num), failed=bool(s.failed_linesearch))
  if float(s.error) <= tol:
    # strongly monotone variational inequality: distance to the solution is at most (1+L)/mu times the residual
    y = x.copy()
    for _ in range(4000):
      yn = np.clip(y - pb.grad(y, D), lo, hi)
      if np.abs(yn - y).max() < 1e-12: break
      y = yn
    T.ok(np.linalg.norm(x - y) <= 2 * np.sqrt(N) * (1 + L) / mu * tol + 1e-7, "LBFGSB: not the solution", x=x, want=y)
  if int(s.iter_num) <= 1 or not (np.any(x <= lo) or np.any(x >= hi)): T.trivial()
  xk, sk = lb_run(cfg, x0, b, D, 1e-13, c["short"])
  T.ok(int(sk.iter_num) <= c["short"], "too many iterations")
  check(np64(xk), sk)
