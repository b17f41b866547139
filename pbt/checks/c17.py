"""C17: pytree structure is irrelevant to the result and is preserved."""
import numpy as np
import scipy.sparse  # noqa: F401
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt, optax
from jaxopt import tree_util as tu, prox as JP, projection as JQ, linear_solve as LS, objective as JO
from jaxopt._src import tree_util as tui
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c14 import unflat, flatj
from pbt.checks.c22 import problem, f_flat

describe("C17", "case = a generated pytree (nesting, shapes including scalars and empty leaves, dtypes, values), or (solver or operator and options, problem, "
         "start, structure, number of steps); oracle = the same operation on the concatenation of the leaves, done in NumPy for the tree "
         "utilities and by the library on a single vector for solvers and operators; structure, shapes and dtypes of the outputs are compared "
         "with those of the inputs; non-trivial = at least two leaves or a leaf with two dimensions",
         ["inputs where the flat run takes a discrete decision within rounding (converged iterates) are compared loosely"])

SHAPES = [(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (0,)]


def tree_shape():
  leaf = st.sampled_from(SHAPES).map(lambda s: dict(s=list(s)))
  return st.recursive(leaf, lambda ch: st.one_of(st.lists(ch, min_size=1, max_size=3).map(lambda l: dict(l=l)), st.lists(ch, min_size=1, max_size=3).map(lambda l: dict(t=l)),
                                                st.lists(ch, min_size=1, max_size=3).map(lambda l: dict(d=l))), max_leaves=6)


def build(sh, f):
  if "s" in sh: return f(tuple(sh["s"]))
  k = next(iter(sh)); ch = [build(s, f) for s in sh[k]]
  return ch if k == "l" else tuple(ch) if k == "t" else {f"k{i}": c for i, c in enumerate(ch)}


def alg_strat(cfg):
  return gen.fixed(shape=tree_shape(), seed=gen.seeds, dt=st.sampled_from(["float64", "float32", "complex128", "complex64", "float64"]), scale=st.sampled_from([1., 1e-3, 100.]), m=st.integers(1, 4), special=st.sampled_from([0, 0, 1]))


def cat(t): return np.concatenate([np.zeros(0)] + [np.asarray(l).reshape(-1) for l in jax.tree_util.tree_leaves(t)])


def like(T, got, want, name):
  T.ok(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want), f"{name}: structure", got=str(jax.tree_util.tree_structure(got)))
  for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
    T.ok(np.shape(g) == np.shape(w) and jnp.result_type(g) == jnp.result_type(w), f"{name}: shape and dtype of a leaf", got=[str(np.shape(g)), str(jnp.result_type(g))], want=[str(np.shape(w)), str(jnp.result_type(w))])


def eq(T, got, want, name, eps, size=None):
  got, want = np.asarray(got), np.asarray(want)
  size = np.abs(want).max(initial=0) if size is None else size
  ok = np.all(np.abs(got - want) <= eps * (size + np.abs(want)) + 1e-300)
  T.ok(got.shape == want.shape and bool(ok), f"{name}: value", got=str(got)[:200], want=str(want)[:200])


@sub("C17", "algebra", alg_strat, quick=400, thorough=20000)
def algebra(c, T):
  r = gen.rng(c["seed"]); dt = np.dtype(c["dt"]); cx = dt.kind == "c"
  eps = 1e-5 if dt in (np.float32, np.complex64) else 1e-13

  def draw(s):
    a = r.standard_normal(s) * c["scale"]
    if c["special"]: a = np.where(r.uniform(size=s) < .4, 0., a)
    if cx: a = a + 1j * r.standard_normal(s) * c["scale"]
    return jnp.asarray(a, dt)
  x, y = build(c["shape"], draw), build(c["shape"], draw)
  f = lambda t: cat(t).astype(np.complex128 if cx else np.float64)
  X, Y = f(x), f(y); n = X.size
  leaves = jax.tree_util.tree_leaves(x)
  a = float(np.asarray(r.standard_normal(), np.float32))
  if len(leaves) < 2 and np.ndim(leaves[0]) < 2: T.trivial()
  jit = c["seed"] % 23 == 0
  J = jax.jit if jit else (lambda g: g)

  def both(name, got, want, size=None):
    like(T, got, x, name); eq(T, f(got), want, name, eps, size)
  both("tree_add", J(tu.tree_add)(x, y), X + Y, np.abs(X).max(initial=0))
  both("tree_sub", J(tu.tree_sub)(x, y), X - Y, np.abs(X).max(initial=0))
  both("tree_mul", tu.tree_mul(x, y), X * Y)
  if np.all(Y != 0): both("tree_div", tu.tree_div(x, y), X / Y)
  both("tree_scalar_mul", tu.tree_scalar_mul(a, x), a * X)
  both("tree_add_scalar_mul", tu.tree_add_scalar_mul(x, a, y), X + a * Y, np.abs(X).max(initial=0) + np.abs(a * Y).max(initial=0))
  both("tree_negative", tu.tree_negative(x), -X)
  both("tree_zeros_like", tu.tree_zeros_like(x), 0 * X)
  both("tree_ones_like", tu.tree_ones_like(x), 0 * X + 1)
  both("tree_conj", tu.tree_conj(x), X.conj())
  if np.all(X != 0): both("tree_reciproqual", tui.tree_reciproqual(x), 1 / X)
  for nm, g, w in (("tree_real", tu.tree_real(x), X.real), ("tree_imag", tu.tree_imag(x), X.imag)):
    T.ok(jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(x), f"{nm}: structure")
    T.ok(all(l.dtype == tui.get_real_dtype(dt) for l in jax.tree_util.tree_leaves(g)), f"{nm}: dtype"); eq(T, cat(g), w, nm, eps)
  s = np.abs(X).max(initial=0) * np.abs(Y).max(initial=0) * max(n, 1)
  for nm, g, w in (("tree_vdot", J(tu.tree_vdot)(x, y), np.vdot(X, Y)), ("tree_vdot_real", tu.tree_vdot_real(x, y), np.vdot(X, Y).real)):
    T.ok(np.shape(g) == (), f"{nm}: scalar"); eq(T, g, w, nm, eps, s)
  T.ok(not jnp.iscomplexobj(tu.tree_vdot_real(x, y)), "tree_vdot_real: real")
  eq(T, tu.tree_sum(x), X.sum(), "tree_sum", eps, np.abs(X).sum())
  eq(T, J(tu.tree_l2_norm)(x), np.linalg.norm(X), "tree_l2_norm", eps)
  eq(T, tu.tree_l2_norm(x, squared=True), np.vdot(X, X).real, "squared tree_l2_norm", eps)
  T.ok(not jnp.iscomplexobj(tu.tree_l2_norm(x)), "tree_l2_norm: real")
  if n: eq(T, tu.tree_inf_norm(x), np.abs(X).max(), "tree_inf_norm", eps)
  if len({np.size(l) for l in leaves}) == 1 and n: eq(T, tui.tree_mean(x), X.mean(), "tree_mean", eps, np.abs(X).max())
  T.ok(tui.tree_single_dtype(x) == dt, "tree_single_dtype", got=str(tui.tree_single_dtype(x)), want=str(dt))
  # batches
  B = build(c["shape"], lambda s: draw((c["m"],) + s)); w = r.standard_normal(c["m"])
  FB = np.stack([f(jax.tree_util.tree_map(lambda l: l[i], B)) for i in range(c["m"])])
  both("tree_average", tui.tree_average(B, jnp.asarray(w, tui.get_real_dtype(dt))), w @ FB, np.abs(w) @ np.abs(FB).max(1, initial=0))
  G = FB.conj() @ FB.T; got = np.asarray(tui.tree_gram(B))
  if cx: got, G = got.real, G.real     # which argument is conjugated is not specified
  eq(T, got, G, "tree_gram", eps, np.abs(FB).max(initial=0) ** 2 * max(n, 1))
  # selection with broadcasting
  mask = build(c["shape"], lambda s: jnp.asarray(r.uniform(size=s) < .5)); M = cat(mask).astype(bool)
  both("tree_where", tu.tree_where(mask, x, y), np.where(M, X, Y))
  both("tree_where scalar condition", J(tu.tree_where)(jnp.asarray(bool(M.sum() % 2)), x, y), X if M.sum() % 2 else Y)
  sc = jnp.asarray(a, dt)
  both("tree_where scalar branch", tu.tree_where(mask, x, sc), np.where(M, X, np.asarray(sc)))
  both("tree_where scalar first branch", tu.tree_where(mask, sc, y), np.where(M, np.asarray(sc), Y))
  both("tree_map", tu.tree_map(lambda u, v: u * 2 + v, x, y), 2 * X + Y, np.abs(X).max(initial=0) * 2)
  bx, ba, by = tu.broadcast_pytrees(x, sc, y)
  like(T, bx, x, "broadcast_pytrees"); like(T, by, y, "broadcast_pytrees")
  T.ok(jax.tree_util.tree_structure(ba) == jax.tree_util.tree_structure(x) and all(np.all(np.asarray(l) == np.asarray(sc)) for l in jax.tree_util.tree_leaves(ba)), "broadcast_pytrees: broadcast leaf")
  # block-diagonal products
  mats = jax.tree_util.tree_map(lambda l: jnp.asarray(r.standard_normal((2,) + np.shape(l)[:1]), dt) if np.ndim(l) == 1 else jnp.asarray(r.standard_normal((2, np.shape(l)[0])), dt) if np.ndim(l) == 2 else jnp.asarray(a, dt), x)
  g = tu.tree_dot(mats, x)
  for u, v, w_ in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(mats), leaves):
    eq(T, u, np.dot(np.asarray(v), np.asarray(w_)), "tree_dot", eps * 10, np.abs(np.asarray(v)).max(initial=0) * np.abs(np.asarray(w_)).max(initial=0) * 3)


def bad_strat(cfg):
  return gen.fixed(a=tree_shape(), b=tree_shape(), mixed=st.booleans())


@sub("C17", "rejection", bad_strat, quick=150, thorough=4000)
def rejection(c, T):
  """Structures that differ are not silently broadcast; mixed dtypes are not reported as a single one."""
  x, y = (build(c[k], lambda s: jnp.ones(s)) for k in "ab")
  tx, ty = (jax.tree_util.tree_structure(v) for v in (x, y))
  leaf = lambda t: jax.tree_util.treedef_is_leaf(t)
  if tx != ty and not leaf(tx) and not leaf(ty):
    for nm, f in (("broadcast_pytrees", lambda: tu.broadcast_pytrees(x, y)), ("tree_where", lambda: tu.tree_where(jnp.asarray(True), x, y)), ("tree_add", lambda: tu.tree_add(x, y))):
      try: f()
      except (ValueError, TypeError): continue
      T.ok(False, f"{nm} accepts different structures", got=[str(tx), str(ty)])
  else: T.trivial()
  ls, td = jax.tree_util.tree_flatten(x)
  if len(ls) > 1 and c["mixed"]:
    z = jax.tree_util.tree_unflatten(td, ls[:-1] + [ls[-1].astype(jnp.float32)])
    try: tui.tree_single_dtype(z); T.ok(False, "tree_single_dtype accepts several dtypes")
    except ValueError: pass


# ---------------------------------------------------------------- solvers
def fdict(cfg):
  """fun(x, D) over any pytree."""
  return lambda x, D: f_flat(flatj(x), D)


def resid(x, D):
  z = D["A"] @ flatj(x)
  return z + .1 * jnp.sin(z) - D["b"]


def spec_of(x):
  return jax.tree_util.tree_structure(x), [np.shape(l) for l in jax.tree_util.tree_leaves(x)]


def as_tree(x, v):
  """Vector v in the structure of x."""
  ls, td = jax.tree_util.tree_flatten(x)
  i, out = 0, []
  for l in ls: out.append(jnp.reshape(v[i:i + jnp.size(l)], jnp.shape(l))); i += jnp.size(l)
  return jax.tree_util.tree_unflatten(td, out)


def fpm(x, D): return as_tree(x, D["W"] @ jnp.tanh(flatj(x)) + D["b"])


def F(cls, **o): return lambda: cls(fun=lambda x, D: f_flat(flatj(x), D), **o)


plain = lambda x0, h, D: (x0, D)
# name -> (make, arguments from (init tree, dict of hyperparameter trees, D))
SOLVERS = {
    "GradientDescent": (F(jaxopt.GradientDescent), plain),
    "GradientDescent/const": (F(jaxopt.GradientDescent, stepsize=.05, acceleration=False), plain),
    "BFGS/backtracking": (F(jaxopt.BFGS, linesearch="backtracking"), plain),
    "BFGS/zoom": (F(jaxopt.BFGS), plain),
    "LBFGS/backtracking": (F(jaxopt.LBFGS, linesearch="backtracking", history_size=2), plain),
    "LBFGS/zoom": (F(jaxopt.LBFGS, history_size=3), plain),
    "LBFGS/hager-zhang": (F(jaxopt.LBFGS, linesearch="hager-zhang"), plain),
    "LBFGSB": (F(jaxopt.LBFGSB, linesearch="backtracking"), lambda x0, h, D: (x0, (h["lo"], h["hi"]), D)),
    "NonlinearCG/backtracking": (F(jaxopt.NonlinearCG, linesearch="backtracking"), plain),
    "NonlinearCG/zoom": (F(jaxopt.NonlinearCG, method="fletcher-reeves"), plain),
    "ProximalGradient/lasso": (F(jaxopt.ProximalGradient, prox=JP.prox_lasso), lambda x0, h, D: (x0, .2, D)),
    "ProximalGradient/elastic": (F(jaxopt.ProximalGradient, prox=JP.prox_elastic_net, acceleration=False), lambda x0, h, D: (x0, (.2, .3), D)),
    "ProximalGradient/group": (F(jaxopt.ProximalGradient, prox=JP.prox_group_lasso, acceleration=False), lambda x0, h, D: (x0, .3, D)),
    "ProjectedGradient/box": (F(jaxopt.ProjectedGradient, projection=JQ.projection_box), lambda x0, h, D: (x0, (h["lo"], h["hi"]), D)),
    "ProjectedGradient/nonneg": (F(jaxopt.ProjectedGradient, projection=JQ.projection_non_negative), lambda x0, h, D: (x0, None, D)),
    "ProjectedGradient/l2": (F(jaxopt.ProjectedGradient, projection=JQ.projection_l2_ball), lambda x0, h, D: (x0, 1.3, D)),
    "ProjectedGradient/linf": (F(jaxopt.ProjectedGradient, projection=JQ.projection_linf_ball), lambda x0, h, D: (x0, .7, D)),
    "MirrorDescent": (F(jaxopt.MirrorDescent, stepsize=.1, projection_grad=lambda x, g, t, h: jax.tree_util.tree_map(lambda u, v: u * jnp.exp(-t * jnp.tanh(v)), x, g)), lambda x0, h, D: (jax.tree_util.tree_map(jnp.exp, x0), None, D)),
    "ArmijoSGD": (F(jaxopt.ArmijoSGD), plain),
    "ArmijoSGD/momentum": (F(jaxopt.ArmijoSGD, momentum=.6, reset_option="goldstein"), plain),
    "PolyakSGD": (F(jaxopt.PolyakSGD, max_stepsize=.3, fun_min=-30.), plain),
    "PolyakSGD/momentum": (F(jaxopt.PolyakSGD, max_stepsize=.3, fun_min=-30., momentum=.6), plain),
    "OptaxSolver": (F(jaxopt.OptaxSolver, opt=optax.adam(.1)), plain),
    "GaussNewton": (lambda: jaxopt.GaussNewton(residual_fun=resid), plain),
    "FixedPointIteration": (lambda: jaxopt.FixedPointIteration(fixed_point_fun=fpm), plain),
    "AndersonAcceleration": (lambda: jaxopt.AndersonAcceleration(fixed_point_fun=fpm, history_size=3, mixing_frequency=2, beta=.8), plain),
    "AndersonWrapper": (lambda: jaxopt.AndersonWrapper(F(jaxopt.GradientDescent, stepsize=.05, acceleration=False)(), history_size=3, mixing_frequency=2), plain),
    "Broyden": (lambda: jaxopt.Broyden(fun=lambda x, D: as_tree(x, flatj(x) - flatj(fpm(x, D))), history_size=3), plain),
    "Broyden/const": (lambda: jaxopt.Broyden(fun=lambda x, D: as_tree(x, flatj(x) - flatj(fpm(x, D))), stepsize=.8), plain),
}
FPS = ("FixedPoint", "Anderson", "Broyden")
TREES = ["dict", "tuple", "nested", "list", "mat"]
SLOWER = ("zoom", "hager")


def solver_cfgs(tier):
  out = []
  for i, n in enumerate(SOLVERS):
    slow = any(v in n for v in SLOWER)
    if tier != "quick": out += [dict(n=n, spec=t, dt=d) for t in TREES for d in ("float64", "float32")]
    elif n == "LBFGS/hager-zhang": continue
    else:
      out += [dict(n=n, spec=TREES[i % 5], dt="float64")]
      if not slow and i % 3 == 0: out += [dict(n=n, spec=TREES[(i + 2) % 5], dt="float64")]
      if not slow: out += [dict(n=n, spec=TREES[(i + 1) % 5], dt="float32")]
  return out


def sol_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(["quad", "quartic", "logcosh", "nonconvex"]), k=st.integers(1, 8), scale=st.sampled_from([.3, 1., 1., 3.]))


def solver_data(n, c, dt):
  D = problem(n, c["seed"], c["kind"]); r = gen.rng(c["seed"] + 1)
  W = r.standard_normal((n, n)); D["W"] = W * (.6 / np.linalg.norm(W, 2))
  h = dict(lo=-r.uniform(.05, 1.5, n), hi=r.uniform(.05, 1.5, n))
  x0 = r.standard_normal(n) * c["scale"]
  x0 = np.clip(x0, h["lo"], h["hi"]) if r.uniform() < .3 else x0
  J = lambda t: jax.tree_util.tree_map(lambda a: jnp.asarray(a, dt), t)
  return J(D), J(h), jnp.asarray(x0, dt)


def solver_fns(n, spec):
  mk, args = SOLVERS[n]

  def build():
    def go(x0, h, D, k):
      a = args(x0, h, D)
      s = mk(); s.tol = 0.; s.maxiter = k
      if hasattr(s, "_pg") and s._pg is not None: s._pg.tol, s._pg.maxiter = 0., k
      s.implicit_diff = True
      p, state = s.run(a[0], *a[1:])
      return p, dict(error=state.error, iter_num=state.iter_num)
    return jax.jit(go), jax.jit(lambda x0, h, D, k: go(x0, h, D, k))
  return cached(("c17", n, spec), build)


@sub("C17", "solvers", sol_strat, quick=8, thorough=250, cfgs=solver_cfgs, cost=3)
def solvers(c, T):
  n, spec = c["cfg"]["n"], c["cfg"]["spec"]
  N = trees.size(spec); dt = np.dtype(c["cfg"]["dt"])
  D, h, x0 = solver_data(N, c, dt)
  flat, tree = solver_fns(n, spec)
  mkt = lambda v: trees.build(spec, v, jnp.asarray)
  t0 = mkt(x0)
  pt, st_ = tree(t0, {k: mkt(v) for k, v in h.items()}, D, c["k"])
  pf, sf = flat(x0, h, D, c["k"])
  like(T, pt, t0, f"{n}: params")
  like(T, pf, x0, f"{n}: params of a vector problem")
  T.ok(int(st_["iter_num"]) == int(sf["iter_num"]) or not np.all(np.isfinite(np64(pf))), f"{n}: number of iterations", got=int(st_["iter_num"]), want=int(sf["iter_num"]))
  pf, pt = np64(pf), np64(trees.flat(pt))
  ef = float(sf["error"])
  size = 1 + np.abs(pf).max(initial=0)
  if not np.all(np.isfinite(pf)) or size > 1e6: T.label("diverges"); T.trivial(); return
  conv = ef < 1e-6 * size or dt == np.float32
  if dt == np.float32:
    # discrete decisions of line searches are sensitive to single-precision rounding
    if np.abs(pf - pt).max() > 1e-2 * size: T.label("single precision decision")
    T.ok(np.all(np.isfinite(pt)), f"{n}: finite"); return
  tol = 1e-4 if conv else 1e-6
  T.close(pt, pf, rtol=0, atol=tol * size, msg=f"{n}: result on the pytree differs from the result on the vector")
  if not conv: T.close(float(st_["error"]), ef, rtol=1e-4, atol=1e-5 * size, msg=f"{n}: error")


# ---------------------------------------------------------------- implicit differentiation
DIFF = ["GradientDescent", "LBFGS/backtracking", "BFGS/backtracking", "LBFGSB", "NonlinearCG/backtracking", "ProximalGradient/lasso", "ProjectedGradient/box", "ProjectedGradient/l2", "GaussNewton", "FixedPointIteration", "AndersonAcceleration", "Broyden"]


def diff_cfgs(tier):
  return [dict(n=n, spec=TREES[(i + j) % 5]) for i, n in enumerate(DIFF) for j in range(1 if tier == "quick" else 5)]


def diff_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(["quad", "quartic", "logcosh"]), scale=st.sampled_from([.3, 1.]))


@sub("C17", "derivative", diff_strat, quick=4, thorough=120, cfgs=diff_cfgs, cost=4)
def derivative(c, T):
  """The implicit derivative of a solution in any structure is the derivative of the flattened one."""
  n, spec = c["cfg"]["n"], c["cfg"]["spec"]
  N = trees.size(spec); D, h, x0 = solver_data(N, c, np.float64)
  mk, args = SOLVERS[n]
  mkt = lambda v: trees.build(spec, v, jnp.asarray)

  def build():
    def sol(z, x0, h, D):
      a = args(x0, h, dict(D, b=z))
      s = mk(); s.tol = 1e-9; s.maxiter = 2000
      p, state = s.run(a[0], *a[1:])
      return flatj(p), state.error

    def go(x0, h, D, u):
      x, vjp, err = jax.vjp(lambda z: sol(z, x0, h, D), D["b"], has_aux=True)
      return x, vjp(u)[0], err
    return jax.jit(go), jax.jit(lambda *a: go(*a))
  flat, tree = cached(("c17d", n, spec), build)
  u = jnp.asarray(gen.rng(c["seed"] + 5).standard_normal(N))
  xf, df, ef = flat(x0, h, D, u)
  xt, dt_, et = tree(mkt(x0), {k: mkt(v) for k, v in h.items()}, D, u)
  if not (float(ef) < 1e-7 and float(et) < 1e-7): T.label("not converged"); T.trivial(); return
  size = 1 + np.abs(np64(xf)).max()
  if np.abs(np64(xf) - np64(xt)).max() > 1e-5 * size: T.label("two solutions"); T.ok(n == "GaussNewton", f"{n}: solution on the pytree differs", got=xt, want=xf); return
  if "Projected" in n or "LBFGSB" in n:
    X = np64(xf); lo, hi = (np64(h[k]) for k in ("lo", "hi"))
    if n != "ProjectedGradient/l2" and np.any((np.minimum(np.abs(X - lo), np.abs(X - hi)) < 1e-4) & (np.abs(np64(jax.grad(f_flat)(xf, D))) < 1e-3)): T.label("degenerate bounds"); return
  T.close(dt_, df, rtol=0, atol=1e-4 * (1 + np.abs(np64(df)).max()), msg=f"{n}: derivative on the pytree differs from the derivative on the vector")
