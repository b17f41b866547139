"""C24: optimality_fun / l2_optimality_error vanish exactly at the solutions of the stated problem."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt, jaxopt.base
from jaxopt import prox as JP, projection as JQ, objective as JO
from pbt import gen, zoo, problems as pb
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c01 import simplex_ref

describe("C24", "case = (solver and options, problem, point); oracle = independent NumPy residual of the optimality conditions and a "
         "NumPy solution; non-trivial = the point is neither 0 nor the solution",
         ["for prox/projection residuals only the zero set and the order of magnitude (factor 7) are prescribed, as the step size of the residual is not documented"])

N = zoo.N
soft = lambda x, t: np.sign(x) * np.maximum(np.abs(x) - t, 0)


def ls_grad(x, D): return D["A"].T @ (D["A"] @ x - D["b"]) / len(D["b"])


def logreg_grad(x, D):
  return D["A"].T @ (1 / (1 + np.exp(-D["A"] @ x)) - D["y"]) / len(D["y"])


def nls(x, D):
  z = D["R"] @ x
  return ((1 + .1 * np.cos(z))[:, None] * D["R"]).T @ (z + .1 * np.sin(z) - D["rb"])


def kl(x, D):
  y = np.log(x) - pb.grad(x, D)
  e = np.exp(y - y.max())
  return e / e.sum() - x


REF = {
    "smooth": pb.grad,
    "LBFGSB": lambda x, D: np.clip(x - pb.grad(x, D), D["lo"], D["hi"]) - x,
    "ProximalGradient": lambda x, D: soft(x - pb.grad(x, D), D["lam"]) - x,
    "ProjectedGradient": lambda x, D: simplex_ref(x - pb.grad(x, D), 1.)[0] - x,
    "ProjectedGradient/plain": lambda x, D: np.clip(x - pb.grad(x, D), D["lo"], D["hi"]) - x,
    "MirrorDescent": kl,
    "BlockCoordinateDescent": lambda x, D: soft(x - ls_grad(x, D), D["lam"]) - x,
    "BlockCoordinateDescent/logreg": lambda x, D: soft(x - logreg_grad(x, D), D["lam"]) / (1 + D["lam"] ** 2) - x,
    "nls": nls,
    "root": lambda x, D: D["Wc"] @ np.tanh(x) + D["c"] - x,
    "Bisection": lambda x, D: x ** 3 + D["ab"][0] * x - D["ab"][1],
    "AndersonWrapper": pb.grad,
    "IterativeRefinement": lambda x, D: D["c"] - D["Q"] @ x,
    "BoxCDQP": lambda x, D: np.clip(x - (D["Q"] @ x - D["c"]), D["lo"], D["hi"]) - x,
}
EXTRA = {
    "ProximalGradient/const": zoo.Entry("ProximalGradient/const", lambda **o: jaxopt.ProximalGradient(fun=pb.fun, prox=JP.prox_lasso, stepsize=.5, **o),
                                        lambda x0, D: (x0, (D["lam"], D), {}), "prox", {}),
    "ProximalGradient/callable": zoo.Entry("ProximalGradient/callable", lambda **o: jaxopt.ProximalGradient(fun=pb.fun, prox=JP.prox_lasso, stepsize=lambda k: .4, **o),
                                           lambda x0, D: (x0, (D["lam"], D), {}), "prox", {}),
    "ProjectedGradient/const": zoo.Entry("ProjectedGradient/const", lambda **o: jaxopt.ProjectedGradient(fun=pb.fun, projection=JQ.projection_simplex, stepsize=.3, **o),
                                         lambda x0, D: (x0, (1., D), {}), "prox", {}),
    "MirrorDescent/slow": zoo.Entry("MirrorDescent/slow", lambda **o: jaxopt.MirrorDescent(
        fun=pb.fun, stepsize=lambda k: .1, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: h * jax.nn.softmax(y), jnp.log), **o),
        lambda x0, D: (jax.nn.softmax(x0), (1., D), {}), "prox", {}),
    "ScipyMinimize": zoo.Entry("ScipyMinimize", lambda **o: jaxopt.ScipyMinimize(fun=pb.fun, method="BFGS"), zoo.std, "smooth", {}),
    "ScipyBoundedMinimize": zoo.Entry("ScipyBoundedMinimize", lambda **o: jaxopt.ScipyBoundedMinimize(fun=pb.fun, method="L-BFGS-B"), zoo.box, "smooth", {}),
    "ScipyLeastSquares": zoo.Entry("ScipyLeastSquares", lambda **o: jaxopt.ScipyLeastSquares(fun=zoo.resid, method="lm"), zoo.std, "nls", {}),
    "ScipyRootFinding": zoo.Entry("ScipyRootFinding", lambda **o: jaxopt.ScipyRootFinding(optimality_fun=lambda x, D: zoo.fpmap(x, D) - x, method="hybr"), zoo.std, "root", {}),
}
ALL = {**{k: v for k, v in zoo.ENTRIES.items() if "BoxOSQP" not in k}, **EXTRA}
REF["ScipyBoundedMinimize"] = REF["LBFGSB"]


def reference(name, group):
  for k in (name, name.split("/")[0], group):
    if k in REF: return REF[k]
  raise KeyError(name)


def solution(name, group, ref, x, D):
  """NumPy fixed point of the residual, or None when it does not converge (ill conditioned draws)."""
  if name == "Bisection":
    lo, hi = -5., 5.
    for _ in range(200):
      m = (lo + hi) / 2
      lo, hi = (m, hi) if ref(m, D) < 0 else (lo, m)
    return np.array(m)
  if name == "IterativeRefinement": return np.linalg.solve(D["Q"], D["c"])
  if group == "root":
    step = lambda x: x + ref(x, D)
  elif group == "nls":
    t = .5 / np.linalg.norm(D["R"], 2) ** 2
    step = lambda x: x - t * ref(x, D)
  elif "BoundedMin" in name or "LBFGSB" in name or group in ("prox", "qp"):
    t = 1.
    if "logreg" in name: t = 1 / (1 + np.linalg.norm(D["A"], 2) ** 2 / 20)
    elif "BlockCo" in name: t = 1 / (1 + np.linalg.norm(D["A"], 2) ** 2 / len(D["b"]))
    elif name == "BoxCDQP": t = 1 / (1 + np.linalg.norm(D["Q"], 2))
    step = lambda x: x + t * ref(x, D)
  else:
    return pb.minimizer(D)
  for _ in range(6000):
    r = ref(x, D)
    if np.linalg.norm(r) < 1e-13: break
    x = step(x)
  return x if np.linalg.norm(ref(x, D)) < 1e-10 else None


def fn(name, e):
  def build():
    def go(x, D):
      s = e.make()
      _, a, k = e.call(x, D)
      return s.optimality_fun(x, *a, **k), s.l2_optimality_error(x, *a, **k)
    return go if "Scipy" in name else jax.jit(go)
  return cached(("c24", name), build)


def strat(cfg):
  return gen.fixed(p=zoo.strat(), sseed=gen.seeds, at=st.sampled_from(["solution", "solution", "random", "near", "zero"]))


@sub("C24", "zero_iff_optimal", strat, quick=20, thorough=600, cfgs=list(ALL), cost=1)
def zero_iff_optimal(c, T):
  name = c["cfg"]; e = ALL[name]
  D = zoo.data(c["p"])
  ref = reference(name, e.group)
  f = fn(name, e)
  r = gen.rng(c["sseed"])
  x = r.standard_normal(N) * 1.5
  simplex = "MirrorDescent" in name
  if simplex: x = np.exp(x) / np.exp(x).sum()
  if name == "Bisection": x = np.array(x[0])
  if c["at"] == "zero": x = np.full(N, 1. / N) if simplex else np.zeros_like(x)
  if c["at"] in ("solution", "near"):
    x = solution(name, e.group, ref, x, D)
    if x is None or (simplex and x.min() < 1e-12): T.trivial(); T.label("no reference solution"); return
    if c["at"] == "near":
      x = x + 1e-4 * r.standard_normal(x.shape)
      if simplex: x = np.maximum(x, 1e-6); x = x / x.sum()
  want = np.linalg.norm(ref(x, D))
  o, l2 = f(jnp.asarray(x), D)
  T.ok(np.shape(o) == np.shape(x), f"{name}: shape of optimality_fun", got=np.shape(o))
  got = np.linalg.norm(np64(o))
  T.close(float(l2), got, 1e-6, 1e-12, f"{name}: l2_optimality_error is not the norm of optimality_fun")
  if c["at"] == "solution":
    T.ok(got <= 10 * want + 1e-8 * (1 + np.abs(x).max()), f"{name}: optimality_fun does not vanish at a solution", got=got, x=x)
  else:
    tol = 1e-10
    if e.group == "prox" or "LBFGSB" in name or "Bounded" in name or name in ("BoxCDQP", "ScipyLeastSquares"):
      T.ok(want / 7 - tol <= got <= want * 7 + tol, f"{name}: optimality residual has the wrong magnitude", got=got, want=want, x=x)
    else:
      T.close(got, want, 1e-6, tol, f"{name}: optimality residual")
  if not np.any(x) or c["at"] == "zero": T.trivial()


# --- quadratic programs: KKT residuals ---------------------------------------------
def strat_qp(cfg):
  return gen.fixed(seed=gen.seeds, me=st.integers(1, 2), mi=st.integers(1, 3), pert=st.sampled_from([0., 0., 1e-3, 1.]), which=st.sampled_from(["x", "nu", "lam"]))


def make_kkt(seed, me, mi):
  """A QP built around a chosen strictly complementary KKT point."""
  r = gen.rng(seed)
  Q = gen.spd(N, int(r.integers(2**31)), cond=8)
  A, G = r.standard_normal((me, N)), r.standard_normal((mi, N))
  x = r.standard_normal(N); nu = r.standard_normal(me)
  act = r.uniform(size=mi) < .5
  lam = np.where(act, r.uniform(.2, 2, mi), 0.)
  h = G @ x + np.where(act, 0., r.uniform(.2, 2, mi))
  return Q, -(Q @ x + A.T @ nu + G.T @ lam), A, A @ x, G, h, x, nu, lam


@sub("C24", "kkt", strat_qp, quick=40, thorough=1500, cfgs=["OSQP", "CvxpyQP", "EqualityConstrainedQP", "BoxOSQP"], cost=2)
def kkt(c, T):
  name = c["cfg"]
  Q, cc, A, b, G, h, x, nu, lam = make_kkt(c["seed"], c["me"], c["mi"])
  if name == "EqualityConstrainedQP":
    G, h, lam = np.zeros((0, N)), np.zeros(0), np.zeros(0)
    cc = -(Q @ x + A.T @ nu)
  r = gen.rng(c["seed"] + 1)
  if c["pert"]:
    if c["which"] == "x": x = x + c["pert"] * r.standard_normal(N)
    elif c["which"] == "nu" or not len(lam): nu = nu + c["pert"] * r.standard_normal(len(nu))
    else: lam = lam + c["pert"] * r.uniform(.5, 1, len(lam))
  K = jaxopt.base.KKTSolution
  if name == "OSQP":
    err = jaxopt.OSQP().l2_optimality_error(K(x, nu, lam), (Q, cc), (A, b), (G, h))
  elif name == "CvxpyQP":
    err = jaxopt.CvxpyQP().l2_optimality_error(K(x, nu, lam), (Q, cc), (A, b), (G, h))
  elif name == "EqualityConstrainedQP":
    err = jaxopt.EqualityConstrainedQP().l2_optimality_error(K(x, nu, None), (Q, cc), (A, b))
  else:
    M = np.vstack([A, G]); y = np.concatenate([nu, lam])
    l, u = np.concatenate([b, -np.inf * np.ones(len(h))]), np.concatenate([b, h])
    z = np.clip(M @ x, l, u)
    err = jaxopt.BoxOSQP().l2_optimality_error(K((x, z), y, (np.maximum(y, 0), np.maximum(-y, 0))), (Q, cc), M, (l, u))
  err = float(err)
  stat = Q @ x + cc + A.T @ nu + G.T @ lam
  want = np.sqrt(stat @ stat + np.sum((A @ x - b) ** 2) + np.sum(np.maximum(G @ x - h, 0) ** 2) + np.sum((lam * (G @ x - h)) ** 2))
  if want < 1e-12:
    T.ok(err <= 1e-8, f"{name}: KKT residual does not vanish at a KKT point", got=err)
  else:
    T.ok(err >= .05 * min(want, 1), f"{name}: KKT residual vanishes away from KKT points", got=err, want=want)
  if not c["pert"]: T.label("solution")
