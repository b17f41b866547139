"""C23: complex problems behave as the equivalent real problem."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import tree_util as tu
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c14 import flatj
from pbt.checks.c22 import problem, f_flat

describe("C23", "case = (solver or line search and options, real function of real and imaginary parts, structure of the complex parameters, start, "
         "number of steps); oracle = the same solver on the equivalent problem whose variables are the real and imaginary parts (params, value, "
         "step size, error, iteration and evaluation counts after every number of steps), and the known minimizer at convergence; "
         "non-trivial = the real run moves",
         ["complex parameters are documented for LBFGS, NonlinearCG and the line searches",
          "iterates are compared before convergence only: near it, rounding decides whether a step is accepted"])


def mk(spec, v):
  """Complex pytree from the 2n real numbers v = (real parts, imaginary parts)."""
  n = trees.size(spec)
  return trees.build(spec, np.asarray(v[:n]) + 1j * np.asarray(v[n:]), jnp.asarray)


def parts(z):
  z = flatj(z)
  return jnp.concatenate([z.real, z.imag])


def back(z):
  z = trees.flat(z)
  return np.concatenate([z.real, z.imag])


LS = ("backtracking", "zoom", "hager-zhang")
CFG = [dict(s="LBFGS", spec="leaf4", o=dict(linesearch="backtracking")), dict(s="LBFGS", spec="dict", o=dict(linesearch="zoom", history_size=2)), dict(s="LBFGS", spec="tuple", o=dict(stepsize=.05, use_gamma=False)),
       dict(s="LBFGS", spec="nested", o=dict(linesearch="backtracking", history_size=3, linesearch_init="max", condition="wolfe"), aux=True), dict(s="LBFGS", spec="list", o=dict(linesearch="hager-zhang"), slow=True),
       dict(s="LBFGS", spec="leaf1", o=dict(linesearch="backtracking", history_size=4, condition="goldstein"), vag=True), dict(s="LBFGS", spec="mat", o=dict(linesearch="zoom", use_gamma=False), vag=True, aux=True, slow=True),
       dict(s="NonlinearCG", spec="leaf4", o=dict(linesearch="zoom", method="polak-ribiere")), dict(s="NonlinearCG", spec="dict", o=dict(linesearch="backtracking", method="fletcher-reeves")),
       dict(s="NonlinearCG", spec="tuple", o=dict(linesearch="backtracking", method="hestenes-stiefel"), aux=True), dict(s="NonlinearCG", spec="nested", o=dict(linesearch="zoom", method="fletcher-reeves"), slow=True),
       dict(s="NonlinearCG", spec="leaf1", o=dict(linesearch="hager-zhang", method="polak-ribiere"), slow=True), dict(s="NonlinearCG", spec="list", o=dict(linesearch="backtracking", method="polak-ribiere"), vag=True)]


def cfgs(tier): return [c for c in CFG if tier != "quick" or not c.get("slow")]


def strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(["quad", "quad", "quartic", "logcosh", "nonconvex"]), k=st.integers(0, 7), scale=st.sampled_from([.3, 1., 3.]), real=st.sampled_from(["both", "both", "both", "real", "imag"]))


def form(f, cfg):
  aux = cfg.get("aux")
  if cfg.get("vag"):
    def fun(x, D):
      v, g = jax.value_and_grad(f)(x, D)
      return ((v, dict(m=v * 2)), g) if aux else (v, g)
    return fun
  return (lambda x, D: (f(x, D), dict(m=f(x, D) * 2))) if aux else f


def f_complex(z, D): return f_flat(parts(z), D)


def data(c, spec):
  n = 2 * trees.size(spec)
  D = problem(n, c["seed"], c["kind"])
  r = gen.rng(c["seed"] + 1); v = r.standard_normal(n) * c["scale"]
  if c["real"] == "real": v[n // 2:] = 0
  if c["real"] == "imag": v[:n // 2] = 0
  return jax.tree_util.tree_map(jnp.asarray, D), v


KEYS = ("error", "iter_num", "stepsize", "value", "num_fun_eval", "num_grad_eval", "num_linesearch_iter", "failed_linesearch", "gamma", "beta")


def fns(cfg):
  def build():
    cls = getattr(jaxopt, cfg["s"])

    def go(f, x0, D, k, tol):
      s = cls(fun=form(f, cfg), has_aux=bool(cfg.get("aux")), value_and_grad=bool(cfg.get("vag")), **cfg["o"])
      s.tol, s.maxiter, s.implicit_diff = tol, k, True
      p, state = s.run(x0, D)
      return p, {a: getattr(state, a) for a in KEYS if hasattr(state, a)}, state.grad, state.aux
    return jax.jit(lambda *a: go(f_flat, *a)), jax.jit(lambda *a: go(f_complex, *a))
  return cached(("c23", repr(cfg)), build)


@sub("C23", "solvers", strat, quick=14, thorough=600, cfgs=cfgs, cost=4)
def solvers(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]
  D, v = data(c, spec)
  real, comp = fns(cfg)
  z0 = mk(spec, v)
  pr, sr, gr, ar = real(jnp.asarray(v), D, c["k"], 0.)
  pc, sc, gc, ac = comp(z0, D, c["k"], 0.)
  for a, b in zip(jax.tree_util.tree_leaves(pc), jax.tree_util.tree_leaves(z0)):
    T.ok(a.shape == b.shape and a.dtype == b.dtype, "shape and dtype of the parameters", got=[str(a.shape), str(a.dtype)])
  T.ok(jax.tree_util.tree_structure(pc) == jax.tree_util.tree_structure(z0), "structure of the parameters")
  for a in sc: T.ok(not jnp.iscomplexobj(sc[a]) and jnp.asarray(sc[a]).dtype == jnp.asarray(sr[a]).dtype, f"state.{a} is not real", got=str(jnp.asarray(sc[a]).dtype))
  P, size = np64(pr), 1 + np.abs(np64(pr)).max()
  if not np.all(np.isfinite(P)) or size > 1e8: T.label("diverges"); T.trivial(); return
  if np.abs(P - v).max() < 1e-12 and c["k"]: T.trivial()
  if float(sr["error"]) < 1e-6 * size: T.label("converged"); T.close(back(pc), P, rtol=0, atol=1e-4 * size, msg="converged parameters"); return
  r = gen.rng(c["seed"] + 3)
  for _ in range(3):
    p2, s2, _, _ = real(jnp.asarray(v * (1 + 1e-14 * r.standard_normal(len(v)))), D, c["k"], 0.)
    if not np.abs(np64(p2) - P).max() <= 1e-9 * size or any(int(s2[a]) != int(sr[a]) for a in s2 if a.startswith("num")): T.label("decided by rounding"); T.trivial(); return
  T.close(back(pc), P, rtol=0, atol=1e-7 * size, msg="parameters differ from those of the real problem")
  for a in sr:
    x, y = np64(sc[a]), np64(sr[a])
    if "hager" in cfg["o"].get("linesearch", "") and "num_" in a: continue  # rounding decides how many points it tries
    if x.dtype.kind in "iub" or a.startswith("num") or a in ("iter_num", "failed_linesearch"): T.ok(np.array_equal(x, y), f"state.{a}", got=x, want=y)
    else: T.ok(np.all((np.abs(x - y) <= 1e-5 * (np.abs(y) + 1e-3)) | (x == y) | (np.isnan(x) & np.isnan(y))), f"state.{a}", got=x, want=y)
  # JAX's gradient of a function of complex numbers is the conjugate of the direction of steepest ascent
  T.close(back(tu.tree_conj(gc)), np64(gr), rtol=0, atol=1e-6 * (1 + np.abs(np64(gr)).max()), msg="state.grad")
  if cfg.get("aux"): T.close(ac["m"], 2 * sr["value"] if "value" in sr else ar["m"], rtol=1e-7, atol=1e-9, msg="aux")


def conv_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.just("quad"), scale=st.sampled_from([.3, 1., 3.]), real=st.sampled_from(["both", "real"]))


@sub("C23", "minimizer", conv_strat, quick=8, thorough=200, cfgs=cfgs, cost=3)
def minimizer(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]
  if cfg["o"].get("stepsize"): T.trivial(); return
  D, v = data(c, spec)
  real, comp = fns(cfg)
  pr, sr, _, _ = real(jnp.asarray(v), D, 400, 1e-7)
  p, s, _, _ = comp(mk(spec, v), D, 400, 1e-7)
  x = np.linalg.solve(np64(D["A"]), np64(D["b"]))
  size = 1 + np.abs(x).max()
  gap = np.abs(np64(pr) - x).max()
  # How close the real run gets (rounding decides where a line search gives up) bounds how close the complex one must get
  if not gap <= 1e-2 * size: T.label("the real run does not converge"); T.trivial(); return
  T.close(back(p), x, rtol=0, atol=max(1e-5 * size, 30 * gap), msg="minimizer")


# ---------------------------------------------------------------- line searches
LSC = [dict(ls="BacktrackingLineSearch", spec="dict", o=dict(condition="wolfe")), dict(ls="BacktrackingLineSearch", spec="leaf4", o=dict(condition="armijo"), dir=False), dict(ls="BacktrackingLineSearch", spec="tuple", o=dict(condition="goldstein", max_stepsize=5.)),
       dict(ls="BacktrackingLineSearch", spec="leaf1", o=dict(condition="strong-wolfe"), given=True), dict(ls="ZoomLineSearch", spec="nested", o={}), dict(ls="ZoomLineSearch", spec="leaf4", o=dict(c2=.1), given=True), dict(ls="HagerZhangLineSearch", spec="tuple", o={}),
       dict(ls="ZoomLineSearch", spec="list", o=dict(max_stepsize=.3), dir=False), dict(ls="HagerZhangLineSearch", spec="dict", o={}, dir=False, given=True)]


def ls_cfgs(tier): return [c for i, c in enumerate(LSC) if tier != "quick" or i != 7]


def ls_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from((["quad"] if "Zoom" not in cfg["ls"] else []) + ["quartic", "logcosh", "nonconvex"]), scale=st.sampled_from([.3, 1., 3.]), real=st.sampled_from(["both", "both", "real", "imag"]), step=st.sampled_from([.1, 1., 1., 10.]), length=st.sampled_from([.1, 1., 5.]))


def ls_fns(cfg):
  def build():
    cls = getattr(jaxopt, cfg["ls"])

    def go(f, x, d, D, t):
      s = cls(fun=f, maxiter=20, **cfg["o"])
      kw = dict(fun_args=(D,))
      if cfg.get("dir", True): kw["descent_direction"] = d
      if cfg.get("given"):
        kw["value"], kw["grad"] = jax.value_and_grad(f)(x, D)
      t, state = s.run(t, x, **kw)
      return t, state.params, {a: getattr(state, a) for a in ("failed", "done", "error", "value", "num_fun_eval", "num_grad_eval", "iter_num") if hasattr(state, a)}
    return jax.jit(lambda *a: go(f_flat, *a)), jax.jit(lambda *a: go(f_complex, *a)), jax.jit(jax.grad(f_flat))
  return cached(("c23ls", repr(cfg)), build)


@sub("C23", "linesearch", ls_strat, quick=40, thorough=1500, cfgs=ls_cfgs, cost=3)
def linesearch(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]
  D, v = data(c, spec)
  real, comp, gfun = ls_fns(cfg)
  r = gen.rng(c["seed"] + 2)
  # a descent direction that is not the negative gradient
  g = np64(gfun(jnp.asarray(v), D))
  w = r.standard_normal(len(v)); w -= (w @ g) / max(g @ g, 1e-30) * g
  d = (-g + .7 * w * np.linalg.norm(g) / max(np.linalg.norm(w), 1e-30)) * c["length"]
  tr, pr, sr = real(jnp.asarray(v), jnp.asarray(d), D, c["step"])
  tc, pc, sc = comp(mk(spec, v), mk(spec, d), D, c["step"])
  if np.linalg.norm(g) < 1e-9: T.trivial(); return
  T.ok(not jnp.iscomplexobj(tc), "the step size is not real", got=str(tc))
  P = np64(pr)
  if not np.all(np.isfinite(P)): T.label("not finite"); return
  size = 1 + np.abs(P).max()
  # Interpolation amplifies rounding: where disturbing the real problem by rounding already changes the answer, nothing is compared
  for _ in range(4):
    e = lambda a: jnp.asarray(a * (1 + 1e-14 * r.standard_normal(len(a))))
    t2, _, s2 = real(e(v), e(d), D, c["step"])
    if abs(float(t2) - float(tr)) > 1e-8 * abs(float(tr)) or any(float(s2[a]) != float(sr[a]) for a in s2 if a not in ("error", "value")): T.label("decided by rounding"); T.trivial(); return
  T.close(tc, tr, rtol=1e-6, atol=1e-9, msg="step size differs from that of the real problem")
  T.close(back(pc), P, rtol=0, atol=1e-6 * size, msg="point reached differs from that of the real problem")
  for a in sr:
    x, y = np64(sc[a]), np64(sr[a])
    if a in ("error", "value"): T.ok(abs(x - y) <= 1e-6 * (1 + abs(y)) or x == y, f"state.{a}", got=x, want=y)
    elif "Hager" not in cfg["ls"] or a == "failed": T.ok(np.array_equal(x, y), f"state.{a}", got=x, want=y)


# ---------------------------------------------------------------- tree utilities
def tu_strat(cfg): return gen.fixed(seed=gen.seeds, spec=st.sampled_from(["leaf1", "leaf4", "mat", "dict", "tuple", "nested", "list"]), dt=st.sampled_from(["complex128", "complex64"]), scale=st.sampled_from([1e-2, 1., 50.]))


@sub("C23", "inner_products", tu_strat, quick=300, thorough=8000)
def inner_products(c, T):
  """Norms and real inner products are those of the vector of real and imaginary parts."""
  n = trees.size(c["spec"]); r = gen.rng(c["seed"])
  a, b = (r.standard_normal(2 * n) * c["scale"] for _ in range(2))
  cast = lambda t: jax.tree_util.tree_map(lambda l: l.astype(c["dt"]), t)
  x, y = cast(mk(c["spec"], a)), cast(mk(c["spec"], b))
  e = 1e-4 if c["dt"] == "complex64" else 1e-12
  s = np.linalg.norm(a) * np.linalg.norm(b)
  T.close(tu.tree_vdot_real(x, y), a @ b, rtol=0, atol=e * s, msg="tree_vdot_real")
  T.close(np.real(tu.tree_vdot(x, y)), a @ b, rtol=0, atol=e * s, msg="real part of tree_vdot")
  T.close(np.imag(tu.tree_vdot(x, y)), a[:n] @ b[n:] - a[n:] @ b[:n], rtol=0, atol=e * s, msg="imaginary part of tree_vdot")
  T.close(tu.tree_l2_norm(x), np.linalg.norm(a), rtol=e, atol=0, msg="tree_l2_norm")
  T.close(tu.tree_l2_norm(x, squared=True), a @ a, rtol=e, atol=0, msg="squared tree_l2_norm")
  T.close(tu.tree_inf_norm(x), np.hypot(a[:n], a[n:]).max(), rtol=e, atol=0, msg="tree_inf_norm")
  T.close(back(tu.tree_conj(x)), np.concatenate([a[:n], -a[n:]]), rtol=e, atol=0, msg="tree_conj")
  T.close(trees.flat(tu.tree_real(x)), a[:n], rtol=e, atol=0, msg="tree_real"); T.close(trees.flat(tu.tree_imag(x)), a[n:], rtol=e, atol=0, msg="tree_imag")
