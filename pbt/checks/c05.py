"""C05: unconstrained solvers reach a stationary point and report it truthfully."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from pbt import gen, problems as pb
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C05", "case = (solver option combination, smooth strongly convex problem, start incl. optimum / far, "
         "tolerance); oracle = gradient and Newton minimizer of the same function in NumPy; non-trivial = "
         "more than one iteration", ["condition number at most ~200 so that maxiter suffices"])

LS = ["zoom", "backtracking", "hager-zhang"]
CFGS = []
for ls in LS:
  for init in ("increase", "max", "current"):
    CFGS.append(["BFGS", dict(linesearch=ls, linesearch_init=init)])
  CFGS.append(["LBFGS", dict(linesearch=ls)])
  CFGS.append(["LBFGS", dict(linesearch=ls, linesearch_init="max", history_size=2)])
  CFGS.append(["LBFGS", dict(linesearch=ls, linesearch_init="current", use_gamma=False, stop_if_linesearch_fails=True)])
  for m in ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel"):
    CFGS.append(["NonlinearCG", dict(linesearch=ls, method=m)])
  CFGS.append(["NonlinearCG", dict(linesearch=ls, linesearch_init="max")])
for acc in (True, False):
  CFGS.append(["GradientDescent", dict(acceleration=acc)])
  CFGS.append(["GradientDescent", dict(acceleration=acc, stepsize=0.9)])
  CFGS.append(["GradientDescent", dict(acceleration=acc, stepsize="callable")])
  CFGS.append(["GradientDescent", dict(acceleration=acc, decrease_factor=0.8, maxls=30)])
CFGS.append(["LBFGS", dict(stepsize=0.9)])
CFGS.append(["LBFGS", dict(stepsize=0.9, use_gamma=False, history_size=1)])
CFGS.append(["LBFGS", dict(history_size=0)])
CFGS.append(["LBFGS", dict(stepsize="callable", history_size=3)])
CFGS.append(["BFGS", dict(stepsize=0.9)])
CFGS.append(["BFGS", dict(stepsize="callable")])
CFGS.append(["LBFGS", dict(max_stepsize=5.0, increase_factor=2.0, maxls=50)])
CFGS.append(["BFGS", dict(max_stepsize=0.5)])

N = 4


def make(cfg):
  name, opts = cfg
  opts = dict(opts)
  if opts.get("stepsize") == "callable":
    opts["stepsize"] = lambda k: 1.0 / (1.0 + 0.1 * jnp.minimum(k, 3))
  return getattr(jaxopt, name)(fun=pb.fun, maxiter=7, tol=0.0, **opts)


def runner(cfg):
  def build():
    def go(x0, D, tol, maxiter):
      s = make(cfg)
      s.tol, s.maxiter = tol, maxiter   # traced: one compilation for all cases
      return s.run(x0, D)
    return jax.jit(go)
  return cached(("c05", repr(cfg)), build)


def budget(name, opts):
  """Iterations that are far more than enough (about ten times the worst seen)."""
  if name in ("BFGS", "LBFGS") and opts.get("history_size") != 0:
    return 1000
  return 20000


def problem(c):
  """Curvature at most 1, or at least 1 where the line search can only shrink the step."""
  p = c["p"]
  name, opts = c["cfg"]
  kind = p["kind"]
  if name != "GradientDescent" and opts.get("stepsize"):
    kind = "quad"     # a constant quasi-Newton step has no global guarantee otherwise
  D = pb.data(N, p["seed"], kind, p["cond"], p["scale"])
  mu, L = pb.mu_L(D)
  D["w"] = D["w"] / (mu if name == "NonlinearCG" and opts.get("linesearch") == "backtracking" else L)
  return D, pb.mu_L(D)


def strat(cfg):
  return gen.fixed(p=pb.strat(N), start=st.sampled_from(pb.STARTS), sseed=gen.seeds,
                   tol=st.sampled_from([1e-2, 1e-3, 1e-6]))


def truthful(T, c, D, x, s, rtol=1e-8, atol=1e-11):
  """Values stored in the state are those of the returned point."""
  name, opts = c["cfg"]
  g = pb.grad(x, D)
  if hasattr(s, "grad"):
    sc = 1 + np.abs(x).max() + np.abs(D["c"]).max()
    T.close(np64(s.grad), g, rtol, atol * sc, f"{name}: state.grad is not the gradient of the returned point")
    T.close(float(s.value), pb.value(x, D), rtol, atol * sc ** 2, f"{name}: state.value is not that of the returned point")
    T.close(float(s.error), np.linalg.norm(g), rtol, atol * sc, f"{name}: error is not the gradient norm")
  return np.linalg.norm(g)


@sub("C05", "converge", strat, quick=25, thorough=1200, cfgs=CFGS, cost=4)
def converge(c, T):
  name, opts = c["cfg"]
  D, (mu, L) = problem(c)
  x0 = pb.start(c["start"], N, c["sseed"], D)
  tol = c["tol"]
  accel = name == "GradientDescent" and opts["acceleration"]
  maxit = budget(name, opts)
  x, s = runner(c["cfg"])(x0, D, tol, maxit)
  x, err, it = np64(x), float(s.error), int(s.iter_num)
  T.finite(x, f"{name}: params"); T.finite(err, f"{name}: error")
  g = truthful(T, c, D, x, s)
  if it <= 1: T.trivial()
  T.label(f"it<{10 ** len(str(it))}")
  T.ok(1 <= it <= maxit, "iteration count out of range", it=it)
  T.ok(err <= tol or it == maxit or (opts.get("stop_if_linesearch_fails") and bool(s.failed_linesearch)),
       f"{name}: stopped early with an error above tol", err=err, it=it)
  shrinking = opts.get("linesearch") == "backtracking" and opts.get("linesearch_init") == "current"
  if shrinking:    # steps can only shrink: no convergence guarantee
    T.ok(pb.value(x, D) <= pb.value(x0, D) + 1e-9 * (1 + abs(pb.value(x0, D))), "objective increased")
    return
  T.ok(err <= tol, f"{name}: no convergence", err=err, it=it, opts=opts)
  # f is mu-strongly convex: the distance to the minimizer is at most |gradient| / mu
  factor = 1.001
  if name == "GradientDescent":
    # the error is |next - y| / stepsize at the point y the gradient step started from
    factor = (1 + (1 + L * float(s.stepsize) if accel else 0)) * (1.001 if opts.get("stepsize") else 4 / opts.get("decrease_factor", .5))
  T.ok(g <= factor * tol + 1e-13, f"{name}: not stationary although error <= tol", grad=g, tol=tol, err=err)
  T.ok(np.linalg.norm(x - pb.minimizer(D)) <= (factor * tol * 1.01) / mu + 1e-10, f"{name}: not the minimizer", x=x)


def strat_s(cfg):
  return gen.fixed(p=pb.strat(N), start=st.sampled_from(["zero", "random", "far"]), sseed=gen.seeds,
                   maxiter=st.integers(0, 12))


@sub("C05", "short_runs", strat_s, quick=15, thorough=500, cfgs=CFGS, cost=3)
def short_runs(c, T):
  """Truthful state after any number of iterations; no stop before maxiter above tol."""
  name, opts = c["cfg"]
  D, _ = problem(c)
  x0 = pb.start(c["start"], N, c["sseed"], D)
  tol, k = 1e-9, c["maxiter"]
  x, s = runner(c["cfg"])(x0, D, tol, k)
  x, err, it = np64(x), float(s.error), int(s.iter_num)
  if k < 2: T.trivial()
  T.ok(it <= k, "more than maxiter iterations", it=it)
  T.ok(it == k or err <= tol or (opts.get("stop_if_linesearch_fails") and bool(s.failed_linesearch)),
       f"{name}: stopped early", it=it, err=err)
  if k == 0:
    T.ok(np.all(x == x0), "maxiter=0 moved the parameters", x=x)
    return
  T.finite(x, name)
  truthful(T, c, D, x, s)
  if opts.get("linesearch") or (name != "GradientDescent" and not opts.get("stepsize")):
    f0 = pb.value(x0, D)
    T.ok(pb.value(x, D) <= f0 + 1e-5 * (1 + abs(f0)), f"{name}: line search increased the objective",
         before=f0, after=pb.value(x, D))
  if name == "GradientDescent" and it >= 1:
    # the error is the documented distance between the last iterates over the step size
    xp, sp = runner(c["cfg"])(x0, D, tol, it - 1)
    base = np64(sp.velocity) if opts["acceleration"] else np64(xp)
    T.close(err, np.linalg.norm(x - base) / float(s.stepsize), 1e-7, 1e-12, "error is not |x_k+1 - y_k| / stepsize")
    if not opts["acceleration"]:
      d = np.linalg.norm(x - np64(xp))
      step = d / max(np.linalg.norm(pb.grad(np64(xp), D)), 1e-300)
      T.ok(np.linalg.norm(x - np64(xp) + step * pb.grad(np64(xp), D)) <= 1e-7 * d + 1e-12, "not a gradient step")
    if opts.get("stepsize") == 0.9 and not opts["acceleration"]:
      T.close(x, np64(xp) - .9 * pb.grad(np64(xp), D), 1e-10, 1e-12, "constant step size not used")


CF32 = [["GradientDescent", dict(acceleration=True)], ["BFGS", dict(linesearch="zoom")],
        ["LBFGS", dict(linesearch="zoom")], ["LBFGS", dict(linesearch="hager-zhang")],
        ["BFGS", dict(linesearch="backtracking")], ["NonlinearCG", dict(linesearch="zoom")]]


def strat32(cfg):
  return gen.fixed(p=pb.strat(N, (1.0, 4.0)), start=st.sampled_from(["zero", "random", "optimum", "near"]), sseed=gen.seeds)


@sub("C05", "float32", strat32, quick=25, thorough=1000, cfgs=CF32, x64=False, cost=4)
def float32(c, T):
  """Default tolerance in single precision."""
  name, opts = c["cfg"]
  D, (mu, L) = problem(c)
  x0 = pb.start(c["start"], N, c["sseed"], D).astype(np.float32)
  D32 = {k: v.astype(np.float32) for k, v in D.items()}
  x, s = runner(c["cfg"])(x0, D32, 1e-3, 3000)
  T.ok(x.dtype == jnp.float32 and s.error.dtype == jnp.float32, "dtype changed", got=x.dtype)
  x = np64(x)
  T.finite(x, name)
  if int(s.iter_num) <= 1: T.trivial()
  T.ok(float(s.error) <= 1e-3, f"{name}: no convergence in float32", err=float(s.error), it=int(s.iter_num))
  g = np.linalg.norm(pb.grad(x, D))
  lim = 1.5e-3 if name != "GradientDescent" else 0.1
  T.ok(g <= lim, f"{name}: not stationary in float32", grad=g, err=float(s.error))
