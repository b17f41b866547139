"""C21: SciPy wrappers are faithful."""
import copy, warnings
import numpy as np
import scipy.optimize as so
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c14 import unflat, flatj, contraction_data, T_tree, T_np
from pbt.checks.c22 import problem, f_flat

describe("C21", "case = (wrapper, method, loss and options, problem, start, bounds, structure and dtype); oracle = scipy.optimize called directly on the "
         "flat float64 problem with the same function, and the implicit-function-theorem derivative computed from exact Hessians at the returned "
         "point; non-trivial = SciPy made at least one iteration from a start that is not a solution",
         ["the reference evaluates the same compiled JAX function, so that both runs of SciPy see the same numbers"])

CONVEX = ["quad", "quartic", "logcosh"]


def cast(spec, v, dt):
  return trees.build(spec, v, lambda a: jnp.asarray(a, dt))


def same(T, a, b, msg, loose=1e-9):
  a, b = np64(a), np64(b)
  T.close(a, b, rtol=loose, atol=loose * (1 + np.abs(b).max(initial=0)), msg=msg)


def quiet(f, *a, **k):
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    return f(*a, **k)


def check_tree(T, p, spec, dt, what="params"):
  T.ok(jax.tree_util.tree_structure(p) == jax.tree_util.tree_structure(trees.build(spec, np.zeros(trees.size(spec)))), f"structure of {what}")
  for l, w in zip(jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(trees.build(spec, np.zeros(trees.size(spec))))):
    T.ok(l.shape == w.shape and l.dtype == dt, f"shape and dtype of {what}", got=[str(l.shape), str(l.dtype)], want=[str(w.shape), str(dt)])


# ---------------------------------------------------------------- minimize
MIN = [dict(m="BFGS", spec="leaf4", opt=dict(gtol=1e-8)), dict(m="L-BFGS-B", spec="nested", aux=True, tol=1e-10), dict(m="CG", spec="dict", vag=True, dt="float32"), dict(m="Newton-CG", spec="tuple", vag=True, aux=True),
       dict(m="TNC", spec="list", kw=True, jit=False), dict(m="SLSQP", spec="mat", cb=True, opt=dict(ftol=1e-12)), dict(m="Nelder-Mead", spec="tuple", opt=dict(xatol=1e-6, fatol=1e-6)), dict(m="Powell", spec="dict", dt="float32"),
       dict(m="COBYLA", spec="leaf1"), dict(m="trust-constr", spec="leaf4", tol=1e-6), dict(m="BFGS", spec="nested", cb=True, opt=dict(gtol=1e-3), dt="float32", aux=True), dict(m="L-BFGS-B", spec="leaf4", opt=dict(maxcor=2, ftol=1e-14), kw=True)]


def min_fun(cfg):
  def f(x, D): return f_flat(flatj(x).astype(D["b"].dtype), D)

  def fun(x, D):
    if cfg.get("vag"):
      v, g = jax.value_and_grad(f)(x, D)
      return ((v, dict(k=D["b"])), g) if cfg.get("aux") else (v, g)
    return (f(x, D), dict(k=D["b"])) if cfg.get("aux") else f(x, D)
  return f, fun


def data(n, c, dt):
  D = problem(n, c["seed"], c["kind"])
  return {k: jnp.asarray(v, dt) for k, v in D.items()}


def min_strat(cfg):
  return gen.fixed(seed=gen.seeds, diff=st.sampled_from([0, 0, 1]), kind=st.sampled_from(CONVEX), scale=st.sampled_from([.1, 1., 1., 3.]), maxiter=st.sampled_from([1, 3, 50, 500, 500]), box=st.sampled_from(["none", "tight", "tight", "wide", "oneside", "fixed"]))


def ref_minimize(cfg, c, f, x0, D, bounds, cb):
  vg = cached(("c21vg", repr(cfg)), lambda: jax.jit(jax.value_and_grad(f)))
  dt = jnp.dtype(cfg.get("dt", "float64"))

  def fun(z):
    v, g = vg(cast(cfg["spec"], z, dt), D)
    return float(np64(v)), np64(trees.flat(g))
  return quiet(so.minimize, fun, np64(np.asarray(x0, dt)), jac=True, method=cfg["m"], tol=cfg.get("tol"), bounds=bounds, callback=cb, options=dict(cfg.get("opt", {}), maxiter=c["maxiter"]))


def check_min(T, c, cfg, p, s, res, loose):
  same(T, trees.flat(p), np64(np.asarray(res.x, jnp.dtype(cfg.get("dt", "float64")))), "solution equals SciPy's", loose)
  same(T, s.fun_val, res.fun, "fun_val", loose)
  T.ok(bool(s.success) == bool(res.success) and int(s.status) == int(res.status), "success and status", got=[bool(s.success), int(s.status)], want=[bool(res.success), int(res.status)])
  if hasattr(res, "nit"): T.ok(int(s.iter_num) == int(res.nit), "iter_num", got=int(s.iter_num), want=int(res.nit))
  for a, b in (("num_fun_eval", "nfev"), ("num_jac_eval", "njev"), ("num_hess_eval", "nhev")):
    T.ok(int(getattr(s, a)) == int(getattr(res, b, 0)), a, got=int(getattr(s, a)), want=int(getattr(res, b, 0)))
  if isinstance(getattr(res, "hess_inv", None), np.ndarray): same(T, s.hess_inv, res.hess_inv, "hess_inv", 1e-6)
  elif getattr(res, "hess_inv", None) is not None:
    v = np.arange(1., 1 + len(res.x))
    same(T, s.hess_inv.matvec(v), res.hess_inv.matvec(v), "hess_inv of L-BFGS-B applied to a vector", 1e-5)


@sub("C21", "minimize", min_strat, quick=7, thorough=300, cfgs=MIN, cost=3)
def minimize(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec); dt = jnp.dtype(cfg.get("dt", "float64"))
  f, fun = min_fun(cfg); D = data(n, c, dt)
  x0 = gen.rng(c["seed"] + 1).standard_normal(n) * c["scale"]
  opt = dict(cfg["opt"]) if "opt" in cfg else None
  before = copy.deepcopy(opt)
  seen, ref_seen = [], []
  make = lambda: jaxopt.ScipyMinimize(fun=fun, method=cfg["m"], tol=cfg.get("tol"), options=opt, maxiter=c["maxiter"], has_aux=bool(cfg.get("aux")), value_and_grad=bool(cfg.get("vag")),
                                      jit=cfg.get("jit", True), callback=(lambda x: seen.append(x)) if cfg.get("cb") else None)
  s = make()
  T.ok(opt == before, "options given by the user are modified", got=opt, want=before)
  try: make()
  except Exception as e: T.ok(False, f"a second solver with the same options dictionary: {e!r}"[:200])
  p0 = cast(spec, x0, dt)
  p, info = quiet(s.run, p0, **({"D": D} if cfg.get("kw") else {})) if cfg.get("kw") else quiet(s.run, p0, D)
  check_tree(T, p, spec, dt)
  res = ref_minimize(cfg, c, f, x0, D, None, (lambda z: ref_seen.append(np.array(z))) if cfg.get("cb") else None)
  loose = 1e-5 if cfg.get("vag") or cfg.get("aux") or not cfg.get("jit", True) else 1e-9
  if cfg.get("dt") == "float32": loose = max(loose, 1e-5)
  exact = np.allclose(np64(trees.flat(p)), np.asarray(res.x, dt), rtol=1e-12, atol=1e-12)
  if not exact and loose > 1e-9:
    # a differently compiled function may round differently: only the solutions can be compared
    T.label("rounding differs")
    if c["maxiter"] == 500 and res.success:
      T.ok(float(f(p, D)) <= float(res.fun) + 1e-3 * (1 + abs(float(res.fun))), "solution much worse than SciPy's", got=float(f(p, D)), want=float(res.fun))
  else: check_min(T, c, cfg, p, info, res, loose)
  if cfg.get("cb"):
    T.ok(len(seen) == len(ref_seen) or not exact, "number of calls of the callback", got=len(seen), want=len(ref_seen))
    for a, b in zip(seen, ref_seen):
      check_tree(T, a, spec, dt, "argument of the callback")
      if exact: same(T, trees.flat(a), np.asarray(b, dt), "argument of the callback", 1e-6)
  if int(getattr(res, "nit", 1)) < 1: T.trivial()
  # derivative by the implicit function theorem
  if cfg["m"] in ("BFGS", "L-BFGS-B", "SLSQP", "Newton-CG") and c["maxiter"] == 500 and dt == np.float64 and c["diff"]:
    u = gen.rng(c["seed"] + 2).standard_normal(n)
    J = pull(lambda z: flatj(s.run(p0, D=dict(D, **z)).params if cfg.get("kw") else s.run(p0, dict(D, **z)).params), {k: D[k] for k in ("b", "w")}, u)
    H, C = cached(("c21h", n), lambda: (jax.jit(jax.hessian(f_flat)), jax.jit(jax.jacobian(jax.grad(f_flat), argnums=1))))
    xs = jnp.asarray(trees.flat(p)); h = np64(H(xs, D))
    for k in ("b", "w"):
      want = u @ -np.linalg.solve(h, np64(C(xs, D)[k]))
      T.close(J[k], want, rtol=1e-4, atol=1e-5 * (1 + np.abs(want).max()) * max(1., np.linalg.cond(h) / 100), msg=f"derivative of the solution with respect to D[{k!r}]")


def pull(f, z, u):
  """u^T times the Jacobian of f at z."""
  return jax.tree_util.tree_map(np64, quiet(lambda: jax.vjp(f, z)[1](jnp.asarray(u))[0]))


BMIN = [dict(m="L-BFGS-B", spec="leaf4"), dict(m="L-BFGS-B", spec="nested", aux=True, opt=dict(ftol=1e-14, gtol=1e-9)), dict(m="TNC", spec="dict", kw=True), dict(m="SLSQP", spec="tuple", vag=True, opt=dict(ftol=1e-13)),
        dict(m="trust-constr", spec="leaf4"), dict(m="L-BFGS-B", spec="list", dt="float32"), dict(m="Powell", spec="tuple")]


def make_bounds(c, x0, r):
  n = len(x0); lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
  if c["box"] == "tight": lo, hi = x0 - r.uniform(.01, .6, n), x0 + r.uniform(.01, .6, n)
  if c["box"] == "wide": lo, hi = x0 - 30., x0 + 30.
  if c["box"] == "oneside": lo = np.where(r.uniform(size=n) < .7, x0 - r.uniform(0., .5, n), -np.inf)
  if c["box"] == "fixed": lo, hi = x0 - .3, x0 + .3; lo[0] = hi[0] = x0[0]
  return lo, hi


@sub("C21", "bounded_minimize", min_strat, quick=7, thorough=300, cfgs=BMIN, cost=3)
def bounded_minimize(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec); dt = jnp.dtype(cfg.get("dt", "float64"))
  f, fun = min_fun(cfg); D = data(n, c, dt)
  r = gen.rng(c["seed"] + 1); x0 = np64(np.asarray(r.standard_normal(n) * c["scale"], dt))
  lo, hi = (np64(np.asarray(v, dt)) for v in make_bounds(c, x0, r))
  none = c["box"] == "none"
  if cfg["m"] in ("trust-constr", "Powell") and c["box"] == "fixed": T.trivial(); return
  s = jaxopt.ScipyBoundedMinimize(fun=fun, method=cfg["m"], options=cfg.get("opt"), maxiter=c["maxiter"], has_aux=bool(cfg.get("aux")), value_and_grad=bool(cfg.get("vag")))
  bounds = None if none else (cast(spec, lo, dt), cast(spec, hi, dt))
  p0 = cast(spec, x0, dt)
  p, info = quiet(s.run, p0, bounds, D=D) if cfg.get("kw") else quiet(s.run, p0, bounds, D)
  check_tree(T, p, spec, dt)
  x = np64(trees.flat(p))
  if True:
    tol = 1e-6 if dt == np.float32 else 1e-9
    T.ok(np.all(x >= lo - tol * (1 + np.abs(x))) and np.all(x <= hi + tol * (1 + np.abs(x))), "bounds violated", x=x, lo=lo, hi=hi)
  res = ref_minimize(cfg, c, f, x0, D, None if none else so.Bounds(lo, hi), None)
  exact = np.allclose(x, np.asarray(res.x, dt), rtol=1e-12, atol=1e-12)
  if exact or not (cfg.get("vag") or cfg.get("aux")): check_min(T, c, cfg, p, info, res, 1e-5 if dt == np.float32 else 1e-9)
  elif c["maxiter"] == 500 and res.success: T.label("rounding differs"); same(T, x, res.x, "solution equals SciPy's", 1e-2)
  if int(getattr(res, "nit", 1)) < 1: T.trivial()
  if cfg["m"] in ("L-BFGS-B", "SLSQP") and c["maxiter"] == 500 and dt == np.float64 and c["box"] != "fixed" and c["diff"]:
    H, C, G = cached(("c21hb", n), lambda: (jax.jit(jax.hessian(f_flat)), jax.jit(jax.jacobian(jax.grad(f_flat), argnums=1)), jax.jit(jax.grad(f_flat))))
    xs = jnp.asarray(x); g = np64(G(xs, D))
    z = x - g
    free = (z > lo) & (z < hi)
    gap = np.minimum(np.abs(z - lo), np.abs(z - hi)).min()
    if gap < 1e-4: T.label("degenerate bounds"); return
    u = r.standard_normal(n)
    J = pull(lambda b: flatj((s.run(p0, bounds, D=dict(D, b=b)) if cfg.get("kw") else s.run(p0, bounds, dict(D, b=b))).params), D["b"], u)
    h = np64(H(xs, D)); want = np.zeros((n, n)); F = np.flatnonzero(free)
    if len(F): want[F] = -np.linalg.solve(h[np.ix_(F, F)], np64(C(xs, D)["b"])[F])
    want = u @ want
    T.close(J, want, rtol=1e-4, atol=1e-5 * (1 + np.abs(want).max()) * max(1., np.linalg.cond(h) / 100), msg="derivative of the solution with respect to b")
    if not free.all(): T.label("active bounds")


# ---------------------------------------------------------------- least squares
RHO = dict(linear=lambda z: z, huber=lambda z: jnp.where(z <= 1, z, 2 * jnp.sqrt(jnp.where(z <= 1, 1., z)) - 1), soft_l1=lambda z: 2 * (jnp.sqrt(1 + z) - 1), cauchy=jnp.log1p, arctan=jnp.arctan)
LS = [dict(m="lm", loss="linear", spec="leaf4"), dict(m="trf", loss="huber", spec="dict", fs=.5), dict(m="trf", loss="soft_l1", spec="nested", fs=2., aux=True), dict(m="dogbox", loss="cauchy", spec="tuple", rev=False),
      dict(m="trf", loss="arctan", spec="leaf4", fs=3., out="dict"), dict(m="dogbox", loss="huber", spec="list", fs=.3, kw=True), dict(m="trf", loss="linear", spec="mat", xs="tree", opt=dict(ftol=1e-12, xtol=1e-12, gtol=1e-12)),
      dict(m="trf", loss="huber", spec="leaf4", xs="array", jit=False), dict(m="trf", loss="linear", spec="dict", xs="jac", dt="float32"), dict(m=None, loss="linear", spec="tuple", xs="int", out="tuple", aux=True), dict(m="trf", loss="linear", spec="leaf4", opt=dict(max_nfev=2))]


def ls_strat(cfg):
  return gen.fixed(seed=gen.seeds, diff=st.sampled_from([0, 0, 1]), scale=st.sampled_from([.1, 1., 1., 3.]), noise=st.sampled_from([.01, .3, 3., 10.]), nonlin=st.sampled_from([0., 0., .3]), box=st.sampled_from(["none", "tight", "wide", "oneside"]))


def ls_data(n, c, dt):
  r = gen.rng(c["seed"]); m = n + 4
  A = r.standard_normal((m, n)) + np.vstack([np.eye(n) * 2, np.zeros((4, n))])
  y = A @ r.standard_normal(n) + r.standard_normal(m) * c["noise"]
  return {k: jnp.asarray(v, dt) for k, v in dict(A=A, y=y, q=np.array(c["nonlin"])).items()}


def ls_res(x, D):
  z = D["A"] @ x
  return z + D["q"] * jnp.tanh(z) - D["y"]


def ls_fun(cfg):
  def fun(x, D):
    r = ls_res(flatj(x), D)
    if cfg.get("out") == "dict": r = dict(a=r[:3], b=dict(c=r[3:].reshape(-1, 1)))
    if cfg.get("out") == "tuple": r = (r[0], r[1:])
    return (r, D["y"]) if cfg.get("aux") else r
  return fun


def ls_common(c, T, bounded):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec); dt = jnp.dtype(cfg.get("dt", "float64"))
  D = ls_data(n, c, dt); r = gen.rng(c["seed"] + 1); x0 = np64(np.asarray(r.standard_normal(n) * c["scale"], dt))
  fs = cfg.get("fs", 1.)
  xs = r.uniform(.3, 3., n)
  opt = dict(cfg.get("opt", {}))
  if "fs" in cfg: opt["f_scale"] = fs
  if "xs" in cfg: opt["x_scale"] = dict(tree=lambda: trees.build(spec, xs, jnp.asarray), array=lambda: xs, jac=lambda: "jac", int=lambda: 1)[cfg["xs"]]()
  given = opt if opt else None
  before = dict(opt)
  cls = jaxopt.ScipyBoundedLeastSquares if bounded else jaxopt.ScipyLeastSquares
  s = cls(fun=ls_fun(cfg), method=cfg["m"], loss=cfg["loss"], options=given, has_aux=bool(cfg.get("aux")), use_jacrev=cfg.get("rev", True), jit=cfg.get("jit", True))
  T.ok(set(opt) == set(before) and all(opt[k] is before[k] for k in before), "options given by the user are modified", got=sorted(opt), want=sorted(before))
  p0 = cast(spec, x0, dt)
  lo, hi = make_bounds(c, x0, r)
  lo, hi = (np64(np.asarray(v, dt)) for v in (lo, hi))
  none = not bounded or c["box"] == "none"
  a = (p0,) + ((() if not bounded else ((None,) if none else ((cast(spec, lo, dt), cast(spec, hi, dt)),))))
  go = (lambda E: quiet(s.run, *a, D=E)) if cfg.get("kw") else (lambda E: quiet(s.run, *a, E))
  p, info = go(D)
  check_tree(T, p, spec, dt)
  x = np64(trees.flat(p))
  rj = cached(("c21ls", n, str(dt)), lambda: (jax.jit(ls_res), jax.jit(jax.jacobian(ls_res))))
  cs = lambda z: jnp.asarray(z, dt)
  refopt = dict(cfg.get("opt", {}), f_scale=fs)
  if "xs" in cfg: refopt["x_scale"] = dict(tree=xs, array=xs, jac="jac", int=1.)[cfg["xs"]]
  res = quiet(so.least_squares, lambda z: np64(rj[0](cs(z), D)), x0, jac=lambda z: np64(rj[1](cs(z), D)), bounds=(-np.inf, np.inf) if none else (lo, hi), method=cfg["m"] or "trf", loss=cfg["loss"], **refopt)
  loose = 1e-3 if dt == np.float32 else 1e-7
  if c["nonlin"] or cfg["loss"] in ("cauchy", "arctan"): loose = max(loose, 1e-4)
  same_x = np.abs(x - res.x).max() <= loose * (1 + np.abs(res.x).max())
  if not same_x and (cfg["loss"] in ("cauchy", "arctan") or c["nonlin"]): T.label("another local minimum"); return
  # a termination test met within rounding may change the last iteration
  T.ok(same_x or abs(float(info.cost_val) - res.cost) <= 1e-6 * (1e-9 + res.cost), "solution equals SciPy's", got=x, want=res.x)
  same(T, info.cost_val, res.cost, "cost_val", 1e-4 if dt == np.float32 else 1e-6)
  same(T, np.sort(np64(info.fun_val)), np.sort(res.fun), "fun_val", 1e-2 if dt == np.float32 else 1e-4)
  T.ok(bool(info.success) == bool(res.success), "success", got=bool(info.success), want=bool(res.success))
  if same_x and dt == np.float64 and not c["nonlin"]:
    T.ok(abs(int(info.num_fun_eval) - int(res.nfev)) <= 1, "num_fun_eval", got=int(info.num_fun_eval), want=int(res.nfev))
    T.ok(int(info.status) == int(res.status) or res.status in (1, 2, 3, 4) and int(info.status) in (1, 2, 3, 4), "status", got=int(info.status), want=int(res.status))
  if not none: T.ok(np.all(x >= lo - 1e-6) and np.all(x <= hi + 1e-6), "bounds violated", x=x, lo=lo, hi=hi)
  if res.nfev < 2: T.trivial()
  # keyword arguments are documented as not supported by the implicit derivatives of least squares
  if dt != np.float64 or "max_nfev" in refopt or cfg.get("kw") or not c["diff"]: return
  # implicit derivative with respect to the targets
  cost = lambda z, E: .5 * fs ** 2 * jnp.sum(RHO[cfg["loss"]]((ls_res(z, E) / fs) ** 2))
  G, H, C = cached(("c21lsd", n, cfg["loss"], fs), lambda: (jax.jit(jax.grad(cost)), jax.jit(jax.hessian(cost)), jax.jit(jax.jacobian(jax.grad(cost), argnums=1))))
  xj = jnp.asarray(x); g = np64(G(xj, D)); h = np64(H(xj, D)); cr = np64(C(xj, D)["y"])
  if cfg["loss"] == "huber" and np.abs(np.abs(np64(ls_res(xj, D))) / fs - 1).min() < 1e-3: T.label("kink of the loss"); return
  if none: F = np.arange(n)
  else:
    # the sign of the gradient decides which variables stay at their bound
    at = (x - lo < 1e-4) | (hi - x < 1e-4)
    if np.any(at & (np.abs(g) < 1e-3)) or np.any(~at & (np.abs(g) > 1e-4)): T.label("degenerate bounds"); return
    # trf stays strictly inside the bounds; the projected fixed point is evaluated at its answer
    F = np.flatnonzero(~at)
    if at.any(): T.label("active bounds")
    step = g / len(np64(ls_res(xj, D)))
    z = x - step
    if np.any(at & ((z > lo) & (z < hi))): T.label("degenerate bounds"); return
  sub_h = h[np.ix_(F, F)]
  if len(F) and np.linalg.cond(sub_h) > 1e5: T.label("ill-conditioned"); return
  if len(F) and np.linalg.eigvalsh(sub_h).min() <= 0: T.label("not a strict minimum"); return
  want = np.zeros((n, len(np64(D["y"]))))
  if len(F): want[F] = -np.linalg.solve(sub_h, cr[F])
  u = r.standard_normal(n); want = u @ want
  J = pull(lambda y: flatj(go(dict(D, y=y)).params), D["y"], u)
  T.close(J, want, rtol=1e-3, atol=1e-4 * (1 + np.abs(want).max()), msg="derivative of the solution with respect to the targets")
  T.label("derivative checked")


@sub("C21", "least_squares", ls_strat, quick=7, thorough=300, cfgs=LS, cost=3)
def least_squares(c, T): ls_common(c, T, False)


@sub("C21", "bounded_least_squares", ls_strat, quick=7, thorough=300, cfgs=[l for l in LS if l["m"] != "lm"], cost=3)
def bounded_least_squares(c, T): ls_common(c, T, True)


# ---------------------------------------------------------------- roots
RT = [dict(m="hybr", spec="leaf4"), dict(m=None, spec="dict", aux=True), dict(m="lm", spec="nested", rev=False), dict(m="broyden1", spec="tuple"), dict(m="broyden2", spec="leaf4", aux=True), dict(m="anderson", spec="list", opt=dict(M=3)),
      dict(m="diagbroyden", spec="leaf4"), dict(m="krylov", spec="dict", opt=dict(fatol=1e-9)), dict(m="df-sane", spec="mat"), dict(m="df-sane", spec="tuple", aux=True, kw=True), dict(m="hybr", spec="leaf4", dt="float32", kw=True), dict(m="hybr", spec="nested", aux=True, jit=False, opt=dict(xtol=1e-12))]


def rt_strat(cfg):
  return gen.fixed(seed=gen.seeds, diff=st.sampled_from([0, 0, 1]), q=st.sampled_from([.05, .3, .5]), s=st.sampled_from([0., .3]), start=st.sampled_from(["zero", "random", "random"]), tol=st.sampled_from([None, None, 1e-9, 1e-3]))


@sub("C21", "root", rt_strat, quick=7, thorough=300, cfgs=RT, cost=3)
def root(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec); dt = jnp.dtype(cfg.get("dt", "float64"))
  r = gen.rng(c["seed"])
  M = r.standard_normal((n, n)); M *= c["q"] / np.linalg.norm(M, 2)
  D = {k: jnp.asarray(v, dt) for k, v in dict(M=M, c=r.standard_normal(n), s=np.array(c["s"])).items()}

  def flat_fun(x, D): return x - D["M"] @ x - D["s"] * jnp.sin(x) - D["c"]

  def fun(x, D):
    y = flat_fun(flatj(x), D); i = 0; out = []
    ls, td = jax.tree_util.tree_flatten(x)
    for l in ls: out.append(y[i:i + l.size].reshape(l.shape)); i += l.size
    o = jax.tree_util.tree_unflatten(td, out)
    return (o, dict(n=y.sum())) if cfg.get("aux") else o
  x0 = np.zeros(n) if c["start"] == "zero" else r.standard_normal(n)
  opt = cfg.get("opt"); given = dict(opt) if opt else None
  s = jaxopt.ScipyRootFinding(optimality_fun=fun, method=cfg["m"], tol=c["tol"], options=given, has_aux=bool(cfg.get("aux")), use_jacrev=cfg.get("rev", True), jit=cfg.get("jit", True))
  p0 = cast(spec, x0, dt)
  go = (lambda E: quiet(s.run, p0, D=E)) if cfg.get("kw") else (lambda E: quiet(s.run, p0, E))
  p, info = go(D)
  T.ok(given == (dict(opt) if opt else None), "options given by the user are modified")
  check_tree(T, p, spec, dt)
  ff, jf = cached(("c21rt", n, str(dt)), lambda: (jax.jit(flat_fun), jax.jit(jax.jacobian(flat_fun))))
  cs = lambda z: jnp.asarray(z, dt)
  m = cfg["m"] or "hybr"
  x0 = np64(np.asarray(x0, dt))
  res = quiet(so.root, lambda z: np64(ff(cs(z), D)), x0, jac=(lambda z: np64(jf(cs(z), D))) if m in ("hybr", "lm") else None, method=m, tol=c["tol"], options=dict(opt) if opt else None)
  x = np64(trees.flat(p))
  T.ok(bool(info.success) == bool(res.success) or not res.success, "success", got=bool(info.success), want=bool(res.success))
  if res.success:
    acc = {None: 1e-4, 1e-9: 1e-6, 1e-3: 2e-2}[c["tol"]] if m not in ("hybr", "lm") else (1e-4 if c["tol"] != 1e-3 else 2e-2)
    if m == "krylov" and opt: acc = 1e-3
    same(T, x, res.x, "root equals SciPy's", acc)
    same(T, info.fun_val, np64(ff(cs(x), D)), "fun_val", 1e-5 if dt == np.float32 else 1e-7)
    if getattr(res, "nit", None) is not None and info.iter_num is not None: T.ok(abs(int(info.iter_num) - int(res.nit)) <= 2, "iter_num", got=int(info.iter_num), want=int(res.nit))
    if m in ("hybr", "lm") and dt == np.float64: T.ok(abs(int(info.num_fun_eval) - int(res.nfev)) <= 2, "num_fun_eval", got=int(info.num_fun_eval), want=int(res.nfev))
    if dt == np.float64 and cfg["m"] not in ("krylov", "anderson") and c["diff"]:
      u = r.standard_normal(n)
      J = pull(lambda v: flatj(go(dict(D, c=v)).params), D["c"], u)
      want = u @ np.linalg.inv(np64(jf(cs(x), D)))
      T.close(J, want, rtol=1e-4, atol=1e-5 * (1 + np.abs(want).max()), msg="derivative of the root with respect to c")
  else: T.label("SciPy does not converge")
  if np.abs(np64(ff(cs(x0), D))).max() < 1e-6: T.trivial()
