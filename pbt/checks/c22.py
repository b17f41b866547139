"""C22: quasi-Newton memories represent the documented approximation."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt._src import lbfgs as L
from jaxopt import base
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks import c14
from pbt.checks.c14 import unflat, flatj, hist

describe("C22", "case = (solver options, objective, start, number of steps); the points visited by the solver are replayed in NumPy: the dense "
         "BFGS (Broyden) matrix is rebuilt from the true parameter and gradient differences of the most recent pairs, and the next step taken "
         "by the solver must be the reported step size times the direction this matrix gives; non-trivial = at least three steps were judged",
         ["pairs with (numerically) zero curvature are left out of the judgement: from such a pair on the case is not judged"])

KINDS = ["quad", "quad", "quartic", "nonconvex", "logcosh", "illcond"]


def problem(n, seed, kind):
  r = gen.rng(seed)
  A = gen.spd(n, seed, cond=1e3 if kind == "illcond" else 10., scale=float(r.choice([.5, 1., 4.])))
  if kind == "nonconvex": A = A - float(r.uniform(.3, 1.)) * np.abs(A).max() * np.eye(n)
  return dict(A=A, b=r.standard_normal(n) * 2, w=np.array([r.uniform(.05, .5) if kind == "quartic" else 0., r.uniform(.2, 1.) if kind == "logcosh" else 0.,
                                                           r.uniform(.2, 1.) if kind == "nonconvex" else 0., .02 if kind == "nonconvex" else 0.]))


def f_flat(x, D, m=jnp):
  w = D["w"]
  return (.5 * m.dot(x, m.dot(D["A"], x)) - m.dot(D["b"], x) + w[0] * m.sum(x ** 4) + w[1] * m.sum(m.logaddexp(3 * x, -3 * x))
          + w[2] * m.sum(m.cos(2 * x)) + w[3] * m.sum(x ** 4))


def g_np(x, D):
  w = D["w"]
  return D["A"] @ x - D["b"] + 4 * (w[0] + w[3]) * x ** 3 + 3 * w[1] * np.tanh(3 * x) - 2 * w[2] * np.sin(2 * x)


def make_fun(cfg):
  aux = cfg.get("aux")
  if cfg.get("vag"):
    def fun(x, D):
      v, g = jax.value_and_grad(lambda z: f_flat(flatj(z), D))(x)
      return ((v, jnp.max(flatj(x))), g) if aux else (v, g)
    return fun
  return lambda x, D: (f_flat(flatj(x), D), jnp.max(flatj(x))) if aux else f_flat(flatj(x), D)


def make(cls, cfg, **kw):
  o = dict(cfg["o"], **kw)
  if o.get("stepsize") == "callable": o["stepsize"] = lambda k: .3 / (1. + .2 * k)
  return cls(fun=make_fun(cfg), has_aux=bool(cfg.get("aux")), value_and_grad=bool(cfg.get("vag")), **{"maxiter": 50, **o})


def fns(cls, cfg, bounded=False):
  def build():
    spec = cfg["spec"]

    def ex(lo, hi): return ((unflat(spec, lo), unflat(spec, hi)),) if bounded else ()

    def init(x, D, lo, hi): return make(cls, cfg).init_state(unflat(spec, x), *ex(lo, hi), D)

    def warm(p, state, D, lo, hi): return make(cls, cfg).init_state(base.OptStep(p, state), *ex(lo, hi), D)

    def step(p, state, D, lo, hi): return make(cls, cfg).update(p, state, *ex(lo, hi), D)
    return jax.jit(init), jax.jit(step), jax.jit(warm)
  return cached(("c22", cls.__name__, repr(cfg)), build)


def strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.1, 1., 1., 5.]), steps=st.integers(2, 14), warm=st.sampled_from([None, None, 1, 3, 7]))


def bfgs_update(H, s, y):
  rho = 1. / (s @ y)
  V = np.eye(len(s)) - rho * np.outer(s, y)
  return V @ H @ V.T + rho * np.outer(s, s)


def amplification(pairs, g):
  """Bound on the relative error of a matrix built from rounded pairs."""
  a = 1.
  for s, y, gs in pairs:
    a = max(a, np.linalg.norm(s) * np.linalg.norm(y) / abs(s @ y) * gs / np.linalg.norm(y))
  return a


def degenerate(s, y, g, x):
  ns, ny = np.linalg.norm(s), np.linalg.norm(y)
  return ns < 1e-7 * (1 + np.linalg.norm(x)) or ny < 1e-7 * (1e-3 + np.linalg.norm(g)) or abs(s @ y) < 1e-6 * ns * ny


def drive(c, T, cls, n, matrix, after=None, full_judge=lambda k: True):
  """Runs the solver and judges every step against -matrix(pairs) @ gradient."""
  cfg = c["cfg"]; spec = cfg["spec"]
  D = problem(n, c["seed"], c["kind"])
  x = gen.rng(c["seed"] + 1).standard_normal(n) * c["scale"]
  init, step, warm = fns(cls, cfg)
  p = unflat(spec, jnp.asarray(x)); state = init(x, D, 0, 0)
  s_opt = make(cls, cfg)
  pairs = []; judged = 0
  for k in range(c["steps"]):
    if c.get("warm") == k and cls is jaxopt.LBFGS:
      old = state
      state = warm(p, state, D, 0, 0)
      T.ok(int(state.iter_num) == int(old.iter_num), "warm start keeps the iteration count", got=int(state.iter_num), want=int(old.iter_num))
      T.label("warm start")
    g = g_np(x, D)
    if np.linalg.norm(g) < 1e-6: break
    H, amp = matrix(pairs, D)
    d = -H @ g
    p, state = step(p, state, D, 0, 0)
    xn = trees.flat(p)
    if not np.all(np.isfinite(xn)) or np.abs(xn).max() > 1e6: T.label("diverges"); break
    t = float(state.stepsize)
    if not (isinstance(cfg["o"].get("stepsize"), float) or cfg["o"].get("stepsize") == "callable"):
      if bool(getattr(state, "failed_linesearch", False)): T.label("line search failed"); break
      if np.linalg.norm(xn - x) == 0: T.label("no step"); break
    else:
      T.close(t, s_opt.stepsize(k) if callable(s_opt.stepsize) else s_opt.stepsize, rtol=1e-6, atol=0, msg="stepsize option")
    T.close(xn - x, t * d, rtol=0, atol=1e-9 * t * np.linalg.norm(H, 2) * np.linalg.norm(g) * amp + 1e-13 * np.abs(x).max(),
            msg=f"{cls.__name__} step {k}: step = stepsize * direction of the dense matrix of the last pairs")
    judged += 1
    gn = g_np(xn, D)
    T.close(trees.flat(state.grad), gn, rtol=1e-8, atol=1e-9 * (1 + np.abs(g).max()), msg="state.grad")
    T.close(state.error, np.linalg.norm(gn), rtol=1e-8, atol=1e-9 * (1 + np.abs(g).max()), msg="state.error")
    sv, yv = xn - x, gn - g
    x = xn
    if after is not None: after(pairs, sv, yv, state, k, D)
    if degenerate(sv, yv, gn, x): T.label("degenerate pair"); break
    if sv @ yv < 0: T.label("negative curvature")
    pairs.append((sv, yv, np.linalg.norm(gn) + np.linalg.norm(g)))
  T.count(judged)
  if judged < 3: T.trivial()
  return pairs


def rows_present(T, tree, m, vecs, what):
  rows = hist(tree, m)
  for v in vecs:
    e = np.abs(rows - v).max(axis=1).min()
    T.ok(e <= 1e-8 * (1 + np.abs(v).max()), f"{what} of one of the last pairs is not in the memory", want=v, got=rows)


LB = [dict(spec="leaf4", o=dict(history_size=3, stepsize=.3)), dict(spec="dict", o=dict(history_size=2)), dict(spec="nested", aux=True, o=dict(history_size=4, linesearch="backtracking")),
      dict(spec="list", o=dict(history_size=1, stepsize="callable")), dict(spec="mat", o=dict(history_size=5, use_gamma=False, linesearch="hager-zhang")),
      dict(spec="tuple", vag=True, o=dict(history_size=3, use_gamma=False, stepsize=.2)), dict(spec="leaf4", o=dict(history_size=30, linesearch_init="current")),
      dict(spec="dict", vag=True, aux=True, o=dict(history_size=3, linesearch="hager-zhang", linesearch_init="max")), dict(spec="leaf1", o=dict(history_size=2, stepsize=.1))]


@sub("C22", "lbfgs_direction", strat, quick=25, thorough=1500, cfgs=LB, cost=5)
def lbfgs_direction(c, T):
  cfg = c["cfg"]; m = cfg["o"]["history_size"]; use_gamma = cfg["o"].get("use_gamma", True)
  n = trees.size(cfg["spec"])

  def matrix(pairs, D):
    last = pairs[-m:]
    gamma = last[-1][0] @ last[-1][1] / (last[-1][1] @ last[-1][1]) if (last and use_gamma) else 1.
    H = gamma * np.eye(n)
    for s, y, _ in last: H = bfgs_update(H, s, y)
    if len(pairs) > m: T.label("memory wrapped")
    return H, amplification(last, None)

  def after(pairs, sv, yv, state, k, D):
    last = (pairs + [(sv, yv, 0.)])[-m:]
    rows_present(T, state.s_history, m, [q[0] for q in last], "parameter difference")
    rows_present(T, state.y_history, m, [q[1] for q in last], "gradient difference")
  drive(c, T, jaxopt.LBFGS, n, matrix, after)


BF = [dict(spec="leaf4", o=dict(stepsize=.3)), dict(spec="dict", o=dict()), dict(spec="nested", aux=True, o=dict(linesearch="backtracking")), dict(spec="list", o=dict(stepsize="callable")),
      dict(spec="mat", vag=True, o=dict(linesearch="hager-zhang")), dict(spec="tuple", vag=True, aux=True, o=dict(linesearch_init="max")), dict(spec="leaf1", o=dict(stepsize=.1))]


@sub("C22", "bfgs_direction", strat, quick=25, thorough=1500, cfgs=BF, cost=5)
def bfgs_direction(c, T):
  n = trees.size(c["cfg"]["spec"])

  def matrix(pairs, D):
    H = np.eye(n)
    for s, y, _ in pairs: H = bfgs_update(H, s, y)
    return H, amplification(pairs, None) * (1 + 3 * len(pairs))

  def after(pairs, sv, yv, state, k, D):
    H = np64(state.H)
    if degenerate(sv, yv, trees.flat(state.grad), sv): return
    amp = amplification([(sv, yv, np.linalg.norm(trees.flat(state.grad)) + np.linalg.norm(yv))], None)
    T.close(H @ yv, sv, rtol=0, atol=1e-8 * amp * np.linalg.norm(H, 2) * np.linalg.norm(yv), msg=f"BFGS step {k}: secant equation H y = s")
    T.close(H, H.T, rtol=0, atol=1e-8 * amp * np.linalg.norm(H, 2), msg="H symmetric")
    T.ok(H.dtype == np.float64, "dtype of H")
  drive(c, T, jaxopt.BFGS, n, matrix, after)


@sub("C22", "lbfgs_full_memory_is_bfgs", strat, quick=25, thorough=1200, cost=4,
     cfgs=[dict(spec="leaf4", o=dict(stepsize=.2)), dict(spec="nested", o=dict()), dict(spec="dict", o=dict(linesearch="hager-zhang")), dict(spec="tuple", o=dict(linesearch="backtracking", linesearch_init="current"))])
def lbfgs_full_memory_is_bfgs(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec)
  D = problem(n, c["seed"], c["kind"])
  x = gen.rng(c["seed"] + 1).standard_normal(n) * c["scale"]
  ib, sb, _ = fns(jaxopt.BFGS, cfg)
  il, sl, _ = fns(jaxopt.LBFGS, dict(cfg, o=dict(cfg["o"], history_size=20, use_gamma=False)))
  pb, pl = (unflat(spec, jnp.asarray(x)),) * 2
  tb, tl = ib(x, D, 0, 0), il(x, D, 0, 0)
  steps = 0; amp = 1.
  for k in range(c["steps"]):
    xo = trees.flat(pb); go = trees.flat(tb.grad)
    pb, tb = sb(pb, tb, D, 0, 0); pl, tl = sl(pl, tl, D, 0, 0)
    a, b = trees.flat(pb), trees.flat(pl)
    if not np.all(np.isfinite(a)) or np.abs(a).max() > 1e4: T.label("diverges"); break
    s, y = a - xo, trees.flat(tb.grad) - go
    # closeness is judged in the absence of bifurcations of the line search
    amp *= 4
    if not np.isclose(float(tb.stepsize), float(tl.stepsize), rtol=1e-4): T.label("line searches differ by rounding"); T.ok(amp > 1e3, "step sizes differ"); break
    T.close(b, a, rtol=0, atol=min(1e-3, 1e-9 * amp) * (1 + np.abs(a).max()), msg=f"iterate {k} of L-BFGS with full memory and of BFGS")
    steps += 1
    if np.linalg.norm(trees.flat(tb.grad)) < 1e-5 or degenerate(s, y, trees.flat(tb.grad), a): break
  if steps < 3: T.trivial()


# ---------------------------------------------------------------- the two-loop recursion itself
def ihp_strat(cfg):
  return gen.fixed(seed=gen.seeds, m=st.sampled_from([1, 2, 5]), filled=st.integers(0, 5), start=st.integers(0, 11), gamma=gen.pos(.05, 3), neg=st.booleans(), spec=st.sampled_from(["leaf1", "nested", "tuple", "mat"]))


@sub("C22", "two_loop_product", ihp_strat, quick=150, thorough=6000, cost=2)
def two_loop_product(c, T):
  n = trees.size(c["spec"]); m = c["m"]; k = min(c["filled"], m); r = gen.rng(c["seed"])
  A = gen.spd(n, c["seed"], cond=20.) - (.4 * np.eye(n) if c["neg"] else 0)
  S = r.standard_normal((m, n)); Y = S @ A
  H = c["gamma"] * np.eye(n); start = c["start"] % m
  rho = np.zeros(m); amp = 1.
  used = np.zeros((m, n)), np.zeros((m, n))
  # positions start, start+1, ... hold the oldest, ..., newest pairs; a memory not yet full has its empty slots first
  for j in range(m):
    i = (start + j) % m
    if j < m - k: continue
    s, y = S[i], Y[i]
    if abs(s @ y) < .02 * np.linalg.norm(s) * np.linalg.norm(y): continue
    rho[i] = 1. / (s @ y); used[0][i], used[1][i] = s, y
    H = bfgs_update(H, s, y); amp *= 1 + np.linalg.norm(s) * np.linalg.norm(y) / abs(s @ y)
  v = r.standard_normal(n)

  def stack(M):
    return jax.tree_util.tree_map(lambda *l: jnp.stack(l), *[trees.build(c["spec"], row, jnp.asarray) for row in M])
  prod = cached(("c22ihp",), lambda: jax.jit(L.inv_hessian_product))
  out = prod(trees.build(c["spec"], v, jnp.asarray), stack(used[0]), stack(used[1]), jnp.asarray(rho), c["gamma"], start)
  T.ok(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(trees.build(c["spec"], v)), "structure of the product")
  T.close(trees.flat(out), H @ v, rtol=0, atol=1e-12 * amp ** 2 * (1 + np.abs(H).max()) * np.abs(v).max(), msg="two-loop product = dense BFGS matrix times vector")
  if not rho.any(): T.trivial()


# ---------------------------------------------------------------- L-BFGS-B
def lb_strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.1, 1., 1., 5.]), steps=st.integers(2, 12), box=st.sampled_from(["none", "none", "wide", "tight", "mixed", "oneside"]))


def cauchy_subspace(x, g, lo, hi, B):
  """Generalized Cauchy point and truncated subspace step of Byrd et al., with the dense matrix B; also how close the decisions were."""
  n = len(x)
  with np.errstate(all="ignore"):
    t = np.where(np.abs(g) < np.finfo(float).eps, np.inf, np.where(g < 0, (x - hi) / g, (x - lo) / g))
  d = np.where(t < 1e-15, 0., -g)
  margin = np.inf
  ts = sorted(set(t[t > 1e-15]))
  z = np.zeros(n); told = 0.
  free = t > 1e-15
  for tb in ts + [np.inf]:
    df = g @ d + d @ B @ z; ddf = d @ B @ d
    if not np.any(d) : break
    if ddf <= 0: return None, None, 0.
    dt = -df / ddf
    if np.isfinite(tb): margin = min(margin, abs(dt - (tb - told)) / (abs(dt) + abs(tb - told) + 1e-300))
    if dt < tb - told or not np.isfinite(tb):
      z = z + max(dt, 0.) * d
      break
    z = z + (tb - told) * d
    hit = t == tb
    d = np.where(hit, 0., d); free = free & ~hit; told = tb
  xc = x + z
  # the variables that reached their bound sit exactly on it
  xc = np.where((t > 1e-15) & ~free, np.where(g < 0, hi, lo), xc)
  out = xc.copy()
  if free.any():
    F = np.flatnonzero(free)
    r = (g + B @ (xc - x))[F]
    du = -np.linalg.solve(B[np.ix_(F, F)], r)
    with np.errstate(all="ignore"):
      al = np.where(du > 0, (hi[F] - xc[F]) / du, np.where(du < 0, (lo[F] - xc[F]) / du, 1.))
    a = min(1., al.min())
    out[F] = xc[F] + a * du
  return out - x, free, margin


LBB = [dict(spec="leaf4", o=dict(history_size=3, stepsize=.5)), dict(spec="dict", o=dict(history_size=2)), dict(spec="nested", aux=True, o=dict(history_size=4, linesearch="backtracking")),
       dict(spec="list", vag=True, o=dict(history_size=20, use_gamma=False, theta=2.)), dict(spec="mat", o=dict(history_size=5, theta=.5, stepsize=.7)), dict(spec="tuple", o=dict(history_size=1))]


@sub("C22", "lbfgsb_direction", lb_strat, quick=25, thorough=1500, cfgs=LBB, cost=6)
def lbfgsb_direction(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]; n = trees.size(spec); m = cfg["o"]["history_size"]
  D = problem(n, c["seed"], c["kind"]); r = gen.rng(c["seed"] + 1)
  x = r.standard_normal(n) * c["scale"]
  lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
  if c["box"] == "wide": lo, hi = x - 50., x + 50.
  if c["box"] == "tight": lo, hi = x - r.uniform(.01, .5, n), x + r.uniform(.01, .5, n)
  if c["box"] == "mixed":
    lo = np.where(r.uniform(size=n) < .5, x - r.uniform(0, 1, n), -np.inf); hi = np.where(r.uniform(size=n) < .5, x + r.uniform(0, 1, n), np.inf)
  if c["box"] == "oneside": lo = x - r.uniform(0, 1, n) * (r.uniform(size=n) < .7)
  init, step, _ = fns(jaxopt.LBFGSB, cfg, bounded=True)
  p = unflat(spec, jnp.asarray(x)); state = init(x, D, lo, hi)
  theta0 = cfg["o"].get("theta", 1.); theta = theta0
  pairs = []; judged = 0
  for k in range(c["steps"]):
    g = g_np(x, D)
    if np.abs(np.clip(x - g, lo, hi) - x).max() < 1e-6: break
    last = pairs[-m:]
    B = theta * np.eye(n)
    for s, y, _ in last: B = B - np.outer(B @ s, B @ s) / (s @ B @ s) + np.outer(y, y) / (s @ y)
    if len(pairs) > m: T.label("memory wrapped")
    d, free, margin = cauchy_subspace(x, g, lo, hi, B)
    cond = np.linalg.cond(B)
    if d is None or margin < 1e-6 or cond > 1e7: T.label("decision by rounding"); break
    p, state = step(p, state, D, lo, hi)
    xn = trees.flat(p)
    if not np.all(np.isfinite(xn)) or np.abs(xn).max() > 1e6: T.label("diverges"); break
    t = float(state.stepsize)
    if "stepsize" not in cfg["o"] and bool(state.failed_linesearch): T.label("line search failed"); break
    want = np.clip(x + t * d, lo, hi)
    amp = amplification(last, None)
    T.close(xn, want, rtol=0, atol=1e-9 * cond * amp * (t * np.abs(d).max() + 1e-3 * np.linalg.norm(d)) + 1e-12 * (1 + np.abs(x).max()),
            msg=f"L-BFGS-B step {k} with {len(last)} pairs (memory {m}): step towards the subspace minimizer of the dense quadratic model")
    judged += 1
    if not free.all(): T.label("active bound")
    gn = g_np(xn, D)
    s, y = xn - x, gn - g; x = xn
    if degenerate(s, y, gn, x): T.label("degenerate pair"); break
    if s @ y > 0:
      pairs.append((s, y, np.linalg.norm(gn) + np.linalg.norm(g)))
      theta = theta0 * (y @ y) / (s @ y) if cfg["o"].get("use_gamma", True) else theta0
      rows_present(T, state.s_history, m, [q[0] for q in pairs[-m:]], "parameter difference")
      rows_present(T, state.y_history, m, [q[1] for q in pairs[-m:]], "gradient difference")
    else: T.label("pair skipped")
    T.ok(int(state.num_updates) == len(pairs), "number of accepted pairs", got=int(state.num_updates), want=len(pairs))
  T.count(judged)
  if judged < 3: T.trivial()


sub("C22", "broyden_matrix", c14.bro_strat, quick=20, thorough=1000, cfgs=[b for i, b in enumerate(c14.BRO) if i in (1, 4, 5, 7)], cost=4)(c14.broyden)
