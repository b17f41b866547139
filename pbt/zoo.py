"""Every iterative solver behind one calling convention, for the checks that hold for all of them.

ENTRIES[name] = Entry(make(**options) -> solver, call(x0, D) -> (init_params, args, kwargs)).
Problems are dictionaries of arrays (data()), so one compilation serves all cases.
"""
from collections import namedtuple
import numpy as np
import jax, jax.numpy as jnp
from hypothesis import strategies as st
import jaxopt, optax
from jaxopt import objective as JO, prox as JP, projection as JQ, linear_solve as LS
from pbt import gen, problems as pb
from pbt.util import np64

N = 4
Entry = namedtuple("Entry", "name make call group opts")


def data(p):
  """All arrays any entry needs, from one problem description."""
  D = pb.normalized(pb.data(N, p["seed"], p["kind"], p["cond"], p["scale"]))
  r = gen.rng(p["seed"] + 1)
  W = r.standard_normal((N, N))
  D["lam"] = np.array(r.uniform(.02, .3))
  D["lo"], D["hi"] = -r.uniform(.1, 2, N), r.uniform(.1, 2, N)
  D["Wc"] = W * (.5 / np.linalg.norm(W, 2))
  D["R"] = r.standard_normal((6, N)) + 2 * np.eye(6)[:, :N]
  D["rb"] = r.standard_normal(6) * .4
  D["y"] = np.where(r.uniform(size=pb.NDATA) < .5, 0., 1.)
  D["G"] = r.standard_normal((2, N))
  x = r.standard_normal(N) * .5
  D["l"], D["u"] = D["G"] @ x - r.uniform(0, 1, 2), D["G"] @ x + r.uniform(0, 1, 2)
  D["ab"] = np.array([r.uniform(.2, 2), r.uniform(-3, 3)])
  return D


def strat():
  return pb.strat(N, (1.0, 4.0, 20.0))


def lasso_obj(x, D): return pb.fun(x, D)


def resid(x, D):
  z = jnp.dot(D["R"], x)
  return z + .1 * jnp.sin(z) - D["rb"]


def fpmap(x, D): return jnp.dot(D["Wc"], jnp.tanh(x)) + D["c"]


def quartic(x, D): return pb.fun(x, D) + .05 * jnp.sum(x ** 4)


def _fun(cls, **base):
  def make(fun=pb.fun, **o):
    return cls(fun=fun, **{**base, **o})
  return make


E = {}
std = lambda x0, D: (x0, (D,), {})


def add(name, make, call=std, group="smooth", **opts):
  E[name] = Entry(name, make, call, group, opts)


add("GradientDescent", _fun(jaxopt.GradientDescent))
add("GradientDescent/plain", _fun(jaxopt.GradientDescent, acceleration=False))
add("GradientDescent/const", _fun(jaxopt.GradientDescent, stepsize=.9))
add("GradientDescent/callable", _fun(jaxopt.GradientDescent, stepsize=lambda k: .9 / (1 + .1 * k), acceleration=False))
for ls in ("zoom", "backtracking", "hager-zhang"):
  add(f"BFGS/{ls}", _fun(jaxopt.BFGS, linesearch=ls))
  add(f"LBFGS/{ls}", _fun(jaxopt.LBFGS, linesearch=ls, history_size=3))
  add(f"NonlinearCG/{ls}", _fun(jaxopt.NonlinearCG, linesearch=ls, method=dict(zoom="polak-ribiere", backtracking="fletcher-reeves").get(ls, "hestenes-stiefel")))
add("BFGS/const", _fun(jaxopt.BFGS, stepsize=.8))
add("LBFGS/const", _fun(jaxopt.LBFGS, stepsize=.8, use_gamma=False))
add("LBFGS/stop", _fun(jaxopt.LBFGS, stop_if_linesearch_fails=True, maxls=3, linesearch="backtracking", linesearch_init="current"))
box = lambda x0, D: (x0, ((D["lo"], D["hi"]), D), {})
add("LBFGSB/zoom", _fun(jaxopt.LBFGSB, linesearch="zoom", history_size=3), box)
add("LBFGSB/backtracking", _fun(jaxopt.LBFGSB, linesearch="backtracking"), box)
lam = lambda x0, D: (x0, (D["lam"], D), {})
add("ProximalGradient", _fun(jaxopt.ProximalGradient, prox=JP.prox_lasso), lam, "prox")
add("ProximalGradient/plain", _fun(jaxopt.ProximalGradient, prox=JP.prox_lasso, acceleration=False, stepsize=.7), lam, "prox")
add("ProjectedGradient", _fun(jaxopt.ProjectedGradient, projection=JQ.projection_simplex), lambda x0, D: (x0, (1.0, D), {}), "prox")
add("ProjectedGradient/plain", _fun(jaxopt.ProjectedGradient, projection=JQ.projection_box, acceleration=False), lambda x0, D: (x0, ((D["lo"], D["hi"]), D), {}), "prox")
add("MirrorDescent", _fun(jaxopt.MirrorDescent, stepsize=.5, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: h * jax.nn.softmax(y), jnp.log)),
    lambda x0, D: (jax.nn.softmax(x0), (1.0, D), {}), "prox")


def _bcd(**o):
  return jaxopt.BlockCoordinateDescent(fun=o.pop("fun", JO.least_squares), block_prox=JP.prox_lasso, **o)
add("BlockCoordinateDescent", _bcd, lambda x0, D: (x0, (D["lam"], (D["A"], D["b"])), {}), "prox")
add("BlockCoordinateDescent/logreg", lambda **o: jaxopt.BlockCoordinateDescent(fun=JO.binary_logreg, block_prox=JP.prox_elastic_net, **o),
    lambda x0, D: (x0, ((D["lam"], D["lam"]), (D["A"], D["y"])), {}), "prox")
add("ArmijoSGD", _fun(jaxopt.ArmijoSGD))
add("ArmijoSGD/momentum", _fun(jaxopt.ArmijoSGD, momentum=.5, reset_option="goldstein"))
add("PolyakSGD", _fun(jaxopt.PolyakSGD, max_stepsize=.5, fun_min=-20.))
add("PolyakSGD/momentum", _fun(jaxopt.PolyakSGD, max_stepsize=.5, fun_min=-20., momentum=.5))
add("OptaxSolver/adam", _fun(jaxopt.OptaxSolver, opt=optax.adam(.1)))
add("OptaxSolver/sgd", _fun(jaxopt.OptaxSolver, opt=optax.sgd(.3, momentum=.5)))
add("GaussNewton", lambda **o: jaxopt.GaussNewton(residual_fun=resid, **o), group="nls")
add("LevenbergMarquardt", lambda **o: jaxopt.LevenbergMarquardt(residual_fun=resid, **o), group="nls")
add("LevenbergMarquardt/qr", lambda **o: jaxopt.LevenbergMarquardt(residual_fun=resid, materialize_jac=True, solver="qr", **o), group="nls")
add("LevenbergMarquardt/geodesic", lambda **o: jaxopt.LevenbergMarquardt(residual_fun=resid, geodesic=True, materialize_jac=True, solver="cholesky", damping_parameter=.1, **o), group="nls")
add("FixedPointIteration", lambda **o: jaxopt.FixedPointIteration(fixed_point_fun=fpmap, **o), group="root")
add("AndersonAcceleration", lambda **o: jaxopt.AndersonAcceleration(fixed_point_fun=fpmap, history_size=3, ridge=1e-6, **o), group="root")
add("AndersonAcceleration/mix", lambda **o: jaxopt.AndersonAcceleration(fixed_point_fun=fpmap, history_size=2, mixing_frequency=3, beta=.7, **o), group="root")
add("Broyden", lambda **o: jaxopt.Broyden(fun=lambda x, D: fpmap(x, D) - x, history_size=4, **o), group="root")
add("Broyden/const", lambda **o: jaxopt.Broyden(fun=lambda x, D: fpmap(x, D) - x, stepsize=.7, **o), group="root")
add("Bisection", lambda **o: jaxopt.Bisection(optimality_fun=lambda x, ab: x ** 3 + ab[0] * x - ab[1], lower=-5., upper=5., check_bracket=False, **o),
    lambda x0, D: (None, (D["ab"],), {}), "root")


def _wrap(**o):
  inner = {k: o[k] for k in ("tol", "maxiter") if k in o}
  outer = {k: v for k, v in o.items() if k not in inner}
  both = {k: o[k] for k in ("jit", "unroll", "implicit_diff") if k in o}
  return jaxopt.AndersonWrapper(jaxopt.GradientDescent(fun=pb.fun, stepsize=.8, acceleration=False, **inner, **both), history_size=3, ridge=1e-4, **outer)
add("AndersonWrapper", _wrap)
add("IterativeRefinement", lambda **o: jaxopt.IterativeRefinement(solve=lambda mv, b, init=None, **k: LS.solve_lu(mv, b, ridge=.1), **o),
    lambda x0, D: (None, (D["Q"], D["c"]), {}), "linear")


def qp_args(x0, D):
  return None, ((D["Q"], -D["c"]), D["G"], (D["l"], D["u"])), {}
add("BoxOSQP", lambda **o: jaxopt.BoxOSQP(**o), qp_args, "qp")
add("BoxOSQP/lu", lambda **o: jaxopt.BoxOSQP(eq_qp_solve="lu", rho_start=.5, stepsize_updates_frequency=2, **o), qp_args, "qp")
add("BoxCDQP", lambda **o: jaxopt.BoxCDQP(**o), lambda x0, D: (x0, ((D["Q"], -D["c"]), (D["lo"], D["hi"])), {}), "qp")

ENTRIES = E
NAMES = list(E)


def first_params(s, i, a, k):
  """What run() would start from."""
  if i is not None: return i
  if isinstance(s, jaxopt.IterativeRefinement): return s.init_params(*a, **k)
  if isinstance(s, jaxopt.BoxOSQP): return s.init_params(None, *a, **k)
  return None


# one configuration per solver class
BRIEF = ["GradientDescent", "GradientDescent/callable", "BFGS/backtracking", "LBFGS/zoom", "LBFGSB/backtracking", "NonlinearCG/backtracking",
         "ProximalGradient", "ProjectedGradient/plain", "MirrorDescent", "BlockCoordinateDescent", "ArmijoSGD", "PolyakSGD", "OptaxSolver/adam",
         "GaussNewton", "LevenbergMarquardt", "LevenbergMarquardt/qr", "FixedPointIteration", "AndersonAcceleration", "Broyden", "Bisection",
         "AndersonWrapper", "IterativeRefinement", "BoxOSQP/lu", "BoxCDQP"]
SLOW = ["BFGS/hager-zhang", "NonlinearCG/hager-zhang"]      # long compilations: thorough only (C05 runs them)


def names(tier): return [n for n in NAMES if tier != "quick" or n not in SLOW]


def cost(name): return 20 if "hager" in name else 8 if "zoom" in name or "LBFGSB" in name else 4 if "BFGS" in name else 2


STOCHASTIC = [n for n in E if n.split("/")[0] in ("ArmijoSGD", "PolyakSGD", "OptaxSolver")]


def flat(params):
  ls = [np64(v).ravel() for v in jax.tree_util.tree_leaves(params)]
  return np.concatenate(ls) if ls else np.zeros(0)


def start(c):
  return gen.rng(c["sseed"]).standard_normal(N) * 1.5
