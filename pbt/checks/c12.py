"""C12: equivalent ways of passing a function give equivalent results; honest evaluation counters."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jax.experimental
import jaxopt, optax
from jaxopt import prox as JP, projection as JQ
from pbt import gen
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c22 import problem, f_flat

describe("C12", "case = (solver and options, way of passing the function, problem, start, number of steps); oracle for the results = the same solver "
         "given the plain function positionally; the auxiliary output carries the point at which it was computed, so that its consistency can be "
         "judged; oracle for the counters = the number of calls of the user's function (of its forward rule under differentiation) in an "
         "uncompiled run; non-trivial = the first step moves",
         ["which of the iterates the auxiliary output of first-order methods refers to is not documented: any current or previous iterate (or extrapolated point) is accepted"])

N = 3
KINDS = ["quad", "quartic", "logcosh", "nonconvex"]


def resid(x, D): return D["A"] @ x + .1 * jnp.sin(x) - D["b"]
def fpm(x, D): return D["W"] @ jnp.tanh(x) + D["b"]
def root(x, D): return x - fpm(x, D)


def auxof(kind, x, v):
  return dict(dict=dict(z=x, v=jnp.sum(v)), tuple=(x, (jnp.sum(v),)), array=jnp.concatenate([x, jnp.sum(v)[None]]), none=None, empty={})[kind]


def read(kind, a):
  """(point, value) carried by an auxiliary output."""
  return (a["z"], a["v"]) if kind == "dict" else (a[0], a[1][0]) if kind == "tuple" else (a[:N], a[N])


def scalar(var):
  """The objective in the form asked for."""
  kind = var.get("aux")

  def plain(x, D): return f_flat(x, D)
  if not var.get("vag"):
    return (lambda x, D: (plain(x, D), auxof(kind, x, plain(x, D)))) if kind else plain

  def vag(x, D):
    v, g = jax.value_and_grad(plain)(x, D)
    return ((v, auxof(kind, x, v)), g) if kind else (v, g)
  return vag


def vector(f):
  def make(var):
    kind = var.get("aux")
    return (lambda x, D: (f(x, D), auxof(kind, x, f(x, D)))) if kind else f
  return make


def S(cls, **o):
  return ("fun", lambda f, var: cls(fun=f, value_and_grad=bool(var.get("vag")), has_aux=bool(var.get("aux")), **o), scalar)


def V(cls, name, f, **o):
  return ("vector", lambda g, var: cls(**{name: g}, has_aux=bool(var.get("aux")), **o), vector(f))


box = lambda D: ((-D["u"], D["u"]),)
none = lambda D: ()
lam = lambda D: (.1,)
# name -> (kind, make, function factory), hyperparameters, point of the auxiliary output
SOLVERS = {
    "GradientDescent": (S(jaxopt.GradientDescent), none, "any"),
    "GradientDescent/plain": (S(jaxopt.GradientDescent, acceleration=False), none, "any"),
    "GradientDescent/const": (S(jaxopt.GradientDescent, stepsize=.05), none, "any"),
    "ProximalGradient": (S(jaxopt.ProximalGradient, prox=JP.prox_lasso), lam, "any"),
    "ProximalGradient/plain": (S(jaxopt.ProximalGradient, prox=JP.prox_ridge, acceleration=False, stepsize=lambda k: .1 / (1 + k)), lam, "any"),
    "ProjectedGradient": (S(jaxopt.ProjectedGradient, projection=JQ.projection_box), box, "any"),
    "MirrorDescent": (("vector", lambda f, var: jaxopt.MirrorDescent(fun=f, has_aux=bool(var.get("aux")), stepsize=.1, projection_grad=lambda x, g, t, h: x * jnp.exp(-t * jnp.tanh(g))), vector(f_flat)), lambda D: (None,), "any"),
    "ArmijoSGD": (S(jaxopt.ArmijoSGD), none, "any"),
    "ArmijoSGD/momentum": (S(jaxopt.ArmijoSGD, momentum=.5, reset_option="goldstein"), none, "any"),
    "PolyakSGD": (S(jaxopt.PolyakSGD, max_stepsize=.2, fun_min=-20.), none, "any"),
    "PolyakSGD/momentum": (S(jaxopt.PolyakSGD, max_stepsize=.2, fun_min=-20., momentum=.5), none, "any"),
    "OptaxSolver": (S(jaxopt.OptaxSolver, opt=optax.adam(.1)), none, "any"),
    "BFGS/backtracking": (S(jaxopt.BFGS, linesearch="backtracking"), none, "new"),
    "BFGS/zoom": (S(jaxopt.BFGS), none, "new"),
    "BFGS/const": (S(jaxopt.BFGS, stepsize=.3), none, "new"),
    "LBFGS/backtracking": (S(jaxopt.LBFGS, linesearch="backtracking"), none, "new"),
    "LBFGS/zoom": (S(jaxopt.LBFGS, history_size=2), none, "new"),
    "LBFGS/hager-zhang": (S(jaxopt.LBFGS, linesearch="hager-zhang"), none, "new"),
    "LBFGS/const": (S(jaxopt.LBFGS, stepsize=.3), none, "new"),
    "LBFGSB/backtracking": (S(jaxopt.LBFGSB, linesearch="backtracking"), box, "new"),
    "LBFGSB/zoom": (S(jaxopt.LBFGSB), box, "new"),
    "NonlinearCG/backtracking": (S(jaxopt.NonlinearCG, linesearch="backtracking"), none, "new"),
    "NonlinearCG/zoom": (S(jaxopt.NonlinearCG, method="hestenes-stiefel"), none, "new"),
    "GaussNewton": (V(jaxopt.GaussNewton, "residual_fun", resid), none, "any"),
    "LevenbergMarquardt": (V(jaxopt.LevenbergMarquardt, "residual_fun", resid), none, "new"),
    "LevenbergMarquardt/qr": (V(jaxopt.LevenbergMarquardt, "residual_fun", resid, materialize_jac=True, solver="qr", geodesic=True), none, "new"),
    "FixedPointIteration": (V(jaxopt.FixedPointIteration, "fixed_point_fun", fpm), none, "any"),
    "AndersonAcceleration": (V(jaxopt.AndersonAcceleration, "fixed_point_fun", fpm, history_size=2), none, "extrapolated"),
    "Broyden": (V(jaxopt.Broyden, "fun", root), none, "new"),
    "Broyden/const": (V(jaxopt.Broyden, "fun", root, stepsize=.7), none, "new"),
}
SLOW = ("zoom", "hager")
FULL = dict(fun=[dict(aux="dict"), dict(vag=True), dict(vag=True, aux="tuple"), dict(kw=True), dict(kw=True, vag=True, aux="array"), dict(aux="none"), dict(vag=True, aux="empty")],
            vector=[dict(aux="dict"), dict(kw=True), dict(kw=True, aux="tuple"), dict(aux="none"), dict(aux="array")])


def cfgs(tier):
  out = []
  for i, n in enumerate(SOLVERS):
    vs = FULL[SOLVERS[n][0][0]]
    if tier == "quick":
      if n == "LBFGS/hager-zhang": continue
      vs = [vs[2]] if any(s in n for s in SLOW) else [vs[1], vs[2], vs[4]] if i % 2 else [vs[0], vs[2], vs[3]]
    out.append(dict(n=n, vs=vs))
  return out


def strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), k=st.integers(0, 6), scale=st.sampled_from([.3, 1., 1., 3.]), vi=st.integers(0, len(cfg["vs"]) - 1))


def data(c):
  D = problem(N, c["seed"], c["kind"]); r = gen.rng(c["seed"] + 1)
  W = r.standard_normal((N, N)); D["W"] = W * (.6 / np.linalg.norm(W, 2)); D["u"] = r.uniform(.1, 2, N)
  x0 = r.standard_normal(N) * c["scale"]
  if "LBFGSB" in str(c["cfg"]): x0 = np.clip(x0, -D["u"], D["u"])
  return jax.tree_util.tree_map(jnp.asarray, D), jnp.asarray(x0)


COUNTERS = ("num_fun_eval", "num_grad_eval", "num_linesearch_iter", "num_jac_eval", "num_prox_eval", "num_proj_eval")


def runner(n, var):
  (kind, make, form), hyper, _ = SOLVERS[n]

  def go(x0, D, k):
    if n == "MirrorDescent": x0 = jnp.exp(x0)
    s = make(form(var), var)
    s.tol = 0.; s.implicit_diff = True
    h = hyper(D)

    def at(m):
      if isinstance(m, int):      # initial state
        st_ = s.init_state(x0, *h, D=D) if var.get("kw") else s.init_state(x0, *h, D)
        return x0, st_
      s.maxiter = m
      if getattr(s, "_pg", None) is not None: s._pg.tol, s._pg.maxiter = 0., m
      return tuple(s.run(x0, *h, D=D) if var.get("kw") else s.run(x0, *h, D))
    p, s1 = at(k)
    out = dict(p=p, error=s1.error, iter_num=s1.iter_num, **{a: getattr(s1, a) for a in COUNTERS if hasattr(s1, a)})
    for a in ("value", "stepsize"):
      if getattr(s1, a, None) is not None: out[a] = getattr(s1, a)
    if var.get("aux") in ("dict", "tuple", "array"):
      q, s0 = at(jnp.maximum(k - 1, 0))
      out["aux"] = read(var["aux"], s1.aux)
      out["points"] = [p, q] + [getattr(t, "velocity") for t in (s1, s0) if getattr(t, "velocity", None) is not None]
    elif var.get("aux"): out["auxtree"] = s1.aux
    return out
  return cached(("c12", n, repr(var)), lambda: jax.jit(go))


@sub("C12", "equivalence", strat, quick=9, thorough=350, cfgs=cfgs, cost=4)
def equivalence(c, T):
  n, var = c["cfg"]["n"], c["cfg"]["vs"][c["vi"]]
  D, x0 = data(c)
  ref = runner(n, {})(x0, D, c["k"]); got = runner(n, var)(x0, D, c["k"])
  P = np64(ref["p"])
  if not np.all(np.isfinite(P)) or np.abs(P).max() > 1e8: T.label("diverges"); T.trivial(); return
  if c["k"] == 0: T.label("no iteration")
  for key in ref:
    a, b = np64(got[key]), np64(ref[key])
    if key in COUNTERS or key == "iter_num":
      if n == "MirrorDescent" and key == "num_fun_eval": T.ok(abs(int(a) - int(b)) <= 1, f"{n}: {key}", got=a, want=b); continue    # init_state calls fun for its aux
      T.ok(np.array_equal(a, b), f"{n}: {key} depends on the way of passing the function", got=a, want=b, var=str(var))
    else:
      T.ok(a.shape == b.shape and np.all((np.abs(a - b) <= 1e-7 * (1 + np.abs(b).max(initial=0) + np.abs(P).max())) | (np.isinf(b) & (a == b))), f"{n}: {key} depends on the way of passing the function", got=a, want=b, var=str(var))
  if "auxtree" in got:
    T.ok(got["auxtree"] == (None if var["aux"] == "none" else {}), f"{n}: structure of aux", got=str(got["auxtree"]))
  if "aux" in got:
    z, v = (np64(t) for t in got["aux"])
    where = SOLVERS[n][2]
    pts = [np64(t) for t in got["points"]]
    if where == "new": pts = pts[:1]
    if where != "extrapolated":
      d = min(np.abs(z - t).max() for t in pts)
      T.ok(d <= 1e-9 * (1 + np.abs(z).max()), f"{n}: aux was not computed at " + ("the returned parameters" if where == "new" else "an iterate"), z=z, points=str(pts)[:200])
    f = {"GaussNewton": resid, "LevenbergMarquardt": resid, "FixedPointIteration": fpm, "AndersonAcceleration": fpm, "Broyden": root}.get(n.split("/")[0], f_flat)
    T.close(v, float(jnp.sum(f(jnp.asarray(z), D))), rtol=1e-9, atol=1e-9 * (1 + np.abs(v)), msg=f"{n}: aux inconsistent")
  if np.abs(P - np64(x0)).max() < 1e-12 and c["k"]: T.trivial()


# ---------------------------------------------------------------- counters
class Count:
  fun = grad = 0


def counted_scalar(cnt, var):
  """Objective whose calls, and whose differentiations, are counted when it runs uncompiled."""
  if var.get("vag"):
    def f(x, D):
      cnt.fun += 1; cnt.grad += 1
      v, g = jax.value_and_grad(f_flat)(x, D)
      return ((v, x), g) if var.get("aux") else (v, g)
    return f

  def f(x, D):
    cnt.fun += 1
    if isinstance(x, jax.core.Tracer): cnt.grad += 1
    v = f_flat(x, D)
    return (v, x) if var.get("aux") else v
  return f


def counted_vector(g):
  def make(cnt, var):
    def f(x, D):
      cnt.fun += 1
      return (g(x, D), x) if var.get("aux") else g(x, D)
    return f
  return make


def CS(cls, **o): return (lambda f, var: cls(fun=f, value_and_grad=bool(var.get("vag")), has_aux=bool(var.get("aux")), jit=False, unroll=True, implicit_diff=False, maxiter=50, tol=0., **o), counted_scalar, none)
def CV(cls, name, g, **o): return (lambda f, var: cls(**{name: f}, has_aux=bool(var.get("aux")), jit=False, unroll=True, implicit_diff=False, maxiter=50, tol=0., **o), counted_vector(g), none)


CNT = {}
for ls in ("zoom", "backtracking"):
  CNT[f"BFGS/{ls}"] = CS(jaxopt.BFGS, linesearch=ls)
  CNT[f"LBFGS/{ls}"] = CS(jaxopt.LBFGS, linesearch=ls)
  CNT[f"NonlinearCG/{ls}"] = CS(jaxopt.NonlinearCG, linesearch=ls)
  CNT[f"LBFGSB/{ls}"] = CS(jaxopt.LBFGSB, linesearch=ls)[:2] + (box,)
CNT["BFGS/const"] = CS(jaxopt.BFGS, stepsize=.1)
CNT["LBFGS/const"] = CS(jaxopt.LBFGS, stepsize=.1)
CNT["LBFGSB/const"] = CS(jaxopt.LBFGSB, stepsize=.1)[:2] + (box,)
CNT["LBFGS/goldstein"] = CS(jaxopt.LBFGS, linesearch="backtracking", condition="goldstein", linesearch_init="max")
CNT["BFGS/wolfe"] = CS(jaxopt.BFGS, linesearch="backtracking", condition="wolfe", linesearch_init="current")
CNT["PolyakSGD"] = CS(jaxopt.PolyakSGD, max_stepsize=.2, fun_min=-20.)
CNT["MirrorDescent"] = (lambda f, var: jaxopt.MirrorDescent(fun=f, has_aux=bool(var.get("aux")), stepsize=.1, jit=False, unroll=True, implicit_diff=False, tol=0., projection_grad=lambda x, g, t, h: x * jnp.exp(-t * jnp.tanh(g))),
                        lambda cnt, var: counted_scalar(cnt, dict(var, vag=False)), lambda D: (None,))
CNT["FixedPointIteration"] = CV(jaxopt.FixedPointIteration, "fixed_point_fun", fpm)
CNT["AndersonAcceleration"] = CV(jaxopt.AndersonAcceleration, "fixed_point_fun", fpm, history_size=2)
CNT["Broyden"] = CV(jaxopt.Broyden, "fun", root)
CNT["Broyden/const"] = CV(jaxopt.Broyden, "fun", root, stepsize=.7)
VARS = [{}, dict(vag=True), dict(aux=True), dict(vag=True, aux=True)]


def cnt_cfgs(tier): return list(CNT)


def cnt_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.3, 1., 3.]), var=st.integers(0, 3), k=st.integers(1, 3))


@sub("C12", "counters", cnt_strat, quick=3, thorough=60, cfgs=cnt_cfgs, cost=4)
def counters(c, T):
  n, var = c["cfg"], VARS[c["var"]]
  make, form, hyper = CNT[n]
  D, x0 = data(c)
  if n == "MirrorDescent": x0 = jnp.exp(x0)
  cnt = Count()
  s = make(form(cnt, var), var)
  state = s.init_state(x0, *hyper(D), D)
  p = x0
  last = {}
  for k in range(c["k"] + 1):
    if k: p, state = s.update(p, state, *hyper(D), D)
    cur = {a: int(getattr(state, a)) for a in COUNTERS if hasattr(state, a)}
    T.ok(all(cur[a] >= last.get(a, 0) for a in cur), f"{n}: a counter decreases", got=cur, want=last)
    T.ok(cur["num_fun_eval"] == cnt.fun, f"{n}: num_fun_eval is not the number of calls of fun", got=cur["num_fun_eval"], want=cnt.fun, var=str(var), after=k)
    if "num_grad_eval" in cur and n != "MirrorDescent":
      # a function given with its gradient always computes both
      T.ok(cur["num_grad_eval"] == cnt.grad or var.get("vag") and cur["num_grad_eval"] <= cnt.grad, f"{n}: num_grad_eval is not the number of gradients", got=cur["num_grad_eval"], want=cnt.grad, var=str(var), after=k)
    last = cur
  if np.abs(np64(p) - np64(x0)).max() < 1e-12: T.trivial()


# calls counted at run time in a compiled run, for functions given with their gradient
class Runtime:
  calls = 0


def tick(*_):
  Runtime.calls += 1
  return np.zeros((), np.float64)


def rt_fun(x, D):
  t = jax.experimental.io_callback(tick, jax.ShapeDtypeStruct((), jnp.float64), ordered=True)
  v, g = jax.value_and_grad(f_flat)(x, D)
  return v + t, g


# calls of the function and of its gradient, counted at run time
class Calls:
  fun = grad = 0


def tick_fun():
  Calls.fun += 1
  return np.zeros((), np.float64)


def tick_grad():
  Calls.grad += 1
  return np.zeros((), np.float64)


def stamp(cb): return jax.experimental.io_callback(cb, jax.ShapeDtypeStruct((), jnp.float64), ordered=True)


@jax.custom_jvp
def noted(x, D): return f_flat(x, D) + stamp(tick_fun)


@noted.defjvp
def _(primals, tangents):
  (x, D), (dx, _) = primals, tangents
  v, g = jax.value_and_grad(f_flat)(x, D)
  return v + stamp(tick_fun), jnp.vdot(g + stamp(tick_grad), dx)


RT = {f"{cls.__name__}/{ls}": (cls, dict(linesearch=ls), box if cls is jaxopt.LBFGSB else none) for cls in (jaxopt.BFGS, jaxopt.LBFGS, jaxopt.NonlinearCG, jaxopt.LBFGSB) for ls in ("zoom", "backtracking", "hager-zhang")}


def rt_cfgs(tier):
  return [[n, vag] for n in RT for vag in (True, False) if tier != "quick" or [n, vag] in (["LBFGS/hager-zhang", True], ["LBFGS/zoom", True], ["BFGS/backtracking", False], ["LBFGSB/backtracking", True], ["NonlinearCG/zoom", False], ["BFGS/hager-zhang", False])]


def rt_strat(cfg): return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.3, 1., 3.]), k=st.integers(1, 5))


@sub("C12", "compiled_counters", rt_strat, quick=10, thorough=200, cfgs=rt_cfgs, cost=8)
def compiled_counters(c, T):
  n, vag = c["cfg"]; cls, o, hyper = RT[n]
  D, x0 = data(c)

  def build():
    def go(x0, D, k):
      s = cls(fun=rt_fun if vag else noted, value_and_grad=vag, **o); s.tol = 0.; s.maxiter = k; s.implicit_diff = True
      return s.run(x0, *hyper(D), D)
    return jax.jit(go)
  f = cached(("c12rt", n, vag), build)
  Runtime.calls = Calls.fun = Calls.grad = 0
  p, state = jax.block_until_ready(f(x0, D, c["k"]))
  jax.effects_barrier()
  if not vag:
    T.ok(int(state.num_fun_eval) == Calls.fun, f"{n}: num_fun_eval is not the number of calls of fun", got=int(state.num_fun_eval), want=Calls.fun)
    T.ok(int(state.num_grad_eval) == Calls.grad, f"{n}: num_grad_eval is not the number of gradients", got=int(state.num_grad_eval), want=Calls.grad)
    return
  T.ok(int(state.num_fun_eval) == Runtime.calls, f"{n}: num_fun_eval is not the number of calls of fun", got=int(state.num_fun_eval), want=Runtime.calls)
  T.ok(int(state.num_grad_eval) <= Runtime.calls, f"{n}: num_grad_eval exceeds the number of calls of fun", got=int(state.num_grad_eval), want=Runtime.calls)


LSC = {f"bt/{k}": (jaxopt.BacktrackingLineSearch, dict(condition=k, decrease_factor=.5, max_stepsize=100.)) for k in ("armijo", "goldstein", "wolfe", "strong-wolfe")}
LSC.update({"zoom": (jaxopt.ZoomLineSearch, {}), "hz": (jaxopt.HagerZhangLineSearch, {})})


@sub("C12", "linesearch_counters", lambda cfg: gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.3, 1., 3.]), maxiter=st.sampled_from([1, 2, 3, 5, 30]), t0=st.sampled_from([1e-4, .1, 1., 1., 30., 1e4]),
                                                         length=st.sampled_from([1e-3, 1., 30.])), quick=12, thorough=400, cfgs=[[n, g] for n in LSC for g in (False, True)], cost=4)
def linesearch_counters(c, T):
  n, given = c["cfg"]
  cls, o = LSC[n]
  D, x0 = data(c)
  x0 = jnp.asarray(x0)

  def build():
    def go(x, D, t0, maxiter, length):
      s = cls(fun=noted, **o); s.maxiter = maxiter
      kw = {}
      v, g = jax.value_and_grad(f_flat)(x, D)
      if given: kw = dict(value=v, grad=g)
      return s.run(t0, x, descent_direction=-length * g, fun_args=[D], **kw)
    return jax.jit(go)
  f = cached(("c12ls", n, given), build)
  jax.effects_barrier()
  Calls.fun = Calls.grad = 0
  t, state = jax.block_until_ready(f(x0, D, c["t0"], c["maxiter"], c["length"]))
  jax.effects_barrier()
  T.ok(int(state.num_fun_eval) == Calls.fun, f"{n}: num_fun_eval is not the number of calls of fun", got=int(state.num_fun_eval), want=Calls.fun, failed=bool(state.failed))
  T.ok(int(state.num_grad_eval) == Calls.grad, f"{n}: num_grad_eval is not the number of gradients", got=int(state.num_grad_eval), want=Calls.grad, failed=bool(state.failed))
  if bool(state.failed): T.label("failed search")
  if int(state.iter_num) <= 1: T.trivial()
