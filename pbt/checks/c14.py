"""C14: root finders and fixed-point solvers."""
import functools
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C14", "case = (solver and options, parametrised function, start, structure); oracle = step-by-step NumPy replica of the documented "
         "method (bisection bracket, fixed-point map, constrained least squares of Anderson, dense rank-one updates of Broyden) plus the "
         "residual of the returned point; non-trivial = at least two iterations were made and the start was not a solution",
         ["AndersonAcceleration reports the residual of the last extrapolated point, whose image is returned"])

# ---------------------------------------------------------------- bisection
FAM = ["poly", "mixed", "kink", "flat", "end_low", "end_high"]


def scalar_f(x, th, m=jnp):
  """Continuous; th = (shift, slope, cubic, sine amplitude, sine frequency, kink, sign)."""
  return th[6] * (th[0] + th[1] * x + th[2] * x ** 3 + th[3] * m.sin(th[4] * x) + th[5] * m.abs(x) - th[7] * m.maximum(0., 1. - m.abs(x - th[0])))


def bis_strat(cfg):
  return gen.fixed(seed=gen.seeds, fam=st.sampled_from(FAM), decreasing=st.booleans(), lo=gen.nums(-8, 3), width=st.sampled_from([1e-6, .1, 1., 4., 4., 30., 1e3]),
                   maxiter=st.sampled_from([1, 2, 5, 30, 30, 80]), tol=st.sampled_from([0., 1e-12, 1e-8, 1e-5, 1e-2]))


def bis_problem(c):
  r = gen.rng(c["seed"])
  th = np.zeros(8)
  th[1:3] = r.uniform(.1, 2, 2) * (r.uniform(size=2) < .8)
  th[6] = -1. if c["decreasing"] else 1.
  if c["fam"] == "mixed": th[3:5] = r.uniform(-3, 3, 2)
  if c["fam"] == "kink": th[5] = r.uniform(-2, 2)
  if c["fam"] == "flat": th[1] = 0.; th[2] = r.uniform(.5, 2)
  if th[1] + th[2] == 0: th[1] = 1.
  lo = c["lo"]; hi = lo + c["width"]
  f0 = lambda x: scalar_f(x, th, np)
  # put the zero inside (at a random place), or exactly at an end where f is exactly 0
  at = lo + c["width"] * r.uniform()
  if c["fam"] == "end_low": at = lo
  if c["fam"] == "end_high": at = hi
  base = th.copy(); base[6] = 1.
  shift = -scalar_f(at, base, np)
  th[0] = shift
  return th, lo, hi


def bis_run(mode):
  def build():
    def go(th, lo, hi, maxiter, tol):
      s = jaxopt.Bisection(optimality_fun=(lambda x, th: (scalar_f(x, th), (x, th[0]))) if mode["aux"] else scalar_f, lower=lo, upper=hi,
                           check_bracket=False, has_aux=mode["aux"], jit=True)
      s.maxiter, s.tol = maxiter, tol
      return s.run(None, th)

    def step(th, lo, hi, i, st_):
      s = jaxopt.Bisection(optimality_fun=scalar_f, lower=lo, upper=hi, check_bracket=False)
      return s.update(None, st_, th)

    def init(th, lo, hi):
      return jaxopt.Bisection(optimality_fun=scalar_f, lower=lo, upper=hi, check_bracket=False).init_state(None, th)
    return jax.jit(go), jax.jit(step), jax.jit(init)
  return cached(("c14bis", mode["aux"]), build)


@sub("C14", "bisection", bis_strat, quick=150, thorough=6000, cfgs=[dict(aux=False), dict(aux=True)], cost=1)
def bisection(c, T):
  th, lo, hi = bis_problem(c)
  f = lambda x: float(scalar_f(x, th, np))
  go, step, init = bis_run(c["cfg"])
  flo, fhi = float(scalar_f(jnp.asarray(lo), jnp.asarray(th))), float(scalar_f(jnp.asarray(hi), jnp.asarray(th)))
  bracket = flo * fhi <= 0
  if not bracket: T.label("no sign change")
  # eager construction: rejects exactly the invalid brackets
  s = jaxopt.Bisection(optimality_fun=scalar_f, lower=lo, upper=hi, jit=False)
  try:
    s.init_state(None, jnp.asarray(th)); accepted = True
  except ValueError:
    accepted = False
  T.ok(accepted == bracket, f"check_bracket accepted={accepted}, f(lower)={flo}, f(upper)={fhi}")
  if not bracket: return
  x, state = go(th, lo, hi, c["maxiter"], c["tol"])
  x = float(x); k = int(state.iter_num)
  a, b = float(state.low), float(state.high)
  T.ok(lo <= a <= b <= hi and lo <= x <= hi, f"bracket [{a},{b}] or x={x} left [{lo},{hi}]")
  T.ok(1 <= k <= c["maxiter"], f"{k} iterations with maxiter={c['maxiter']}")
  err = float(state.error)
  scale = abs(th[0]) + abs(th[1] * x) + abs(th[2] * x ** 3) + abs(th[3]) + abs(th[5] * x) + 1e-300
  T.ok(abs(err - abs(f(x))) <= 1e-13 * scale * 4, f"error {err} but |f(x)| = {abs(f(x))}")
  T.close(state.value, f(x), rtol=0, atol=1e-13 * 4 * scale, msg="state.value")
  T.ok(err <= c["tol"] or k == c["maxiter"], f"stopped at {k} of {c['maxiter']} with error {err} > tol {c['tol']}")
  T.ok(int(state.num_fun_eval) == k + 2, f"num_fun_eval {int(state.num_fun_eval)} after {k} iterations (+2)")
  ulp = 4 * np.spacing(max(abs(lo), abs(hi)))
  T.ok(abs((b - a) - (hi - lo) / 2. ** k) <= ulp, f"width {b - a} after {k} halvings of {hi - lo}")
  # the bracket still contains a sign change: a root is within it
  noise = 8e-16 * scale * 4
  fa, fb = f(a), f(b)
  T.ok(min(fa, fb) <= noise and max(fa, fb) >= -noise, f"no sign change left on [{a},{b}]: {fa}, {fb}")
  if c["cfg"]["aux"]:
    T.close(state.aux[0], x, rtol=1e-15, atol=0, msg="aux is that of the last midpoint")
    T.close(state.aux[1], th[0], rtol=1e-15, atol=0, msg="aux is that of the last midpoint")
  else:
    # manual loop: same path as run, one halving each
    st_ = init(th, lo, hi)
    for i in range(k):
      m = .5 * (float(st_.low) + float(st_.high))
      xm, st_ = step(th, lo, hi, i, st_)
      T.close(xm, m, rtol=1e-15, atol=1e-300, msg="evaluates the midpoint")
    T.close(xm, x, rtol=0, atol=0, msg="run equals the loop of updates")
  if k < 2 or flo == 0 or fhi == 0: T.trivial()


# ---------------------------------------------------------------- contractions
SPEC = ["leaf4", "dict", "nested", "list", "mat"]


def contraction_data(spec, seed, q, kind):
  n = trees.size(spec)
  r = gen.rng(seed)
  W = r.standard_normal((n, n))
  if kind == "symmetric": W = W + W.T
  if kind == "rotation": W = np.linalg.qr(W)[0]
  if kind == "rank1": W = np.outer(r.standard_normal(n), r.standard_normal(n))
  if kind == "diag": W = np.diag(r.uniform(-1, 1, n))
  if kind == "zero": W = np.zeros((n, n))
  nrm = np.linalg.norm(W, 2)
  W = W * (q / nrm) if nrm > 0 else W
  return dict(W=W, c=r.standard_normal(n) * r.choice([.1, 1., 10.]), s=np.array(r.choice([0., 1.])))


def T_np(x, D): return D["W"] @ ((1 - D["s"]) * x + D["s"] * np.tanh(x)) + D["c"]


def unflat(spec, v):
  """jnp pytree from a flat jnp vector."""
  pos = [0]
  def go(s):
    if trees._is_shape(s):
      n = int(np.prod(s)) if s else 1
      a = v[pos[0]:pos[0] + n].reshape(s); pos[0] += n
      return a
    if isinstance(s, dict): return {k: go(s[k]) for k in sorted(s)}
    return type(s)(go(t) for t in s)
  return go(trees.SPECS[spec])


def flatj(t): return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def T_tree(spec, aux=False):
  def fp(x, D):
    v = flatj(x)
    out = unflat(spec, jnp.dot(D["W"], (1 - D["s"]) * v + D["s"] * jnp.tanh(v)) + D["c"])
    return (out, jnp.sum(v)) if aux else out
  return fp


KINDS = ["general", "symmetric", "rotation", "rank1", "diag", "zero"]


def fp_strat(cfg):
  return gen.fixed(seed=gen.seeds, q=st.sampled_from([.05, .3, .6, .9]), kind=st.sampled_from(KINDS), start=st.sampled_from(["random", "random", "random", "zero", "far", "solution"]),
                   maxiter=st.sampled_from([1, 3, 8, 60, 400]), tol=st.sampled_from([0., 1e-9, 1e-5, 1e-2]))


def fixed_point(D):
  x = np.zeros(len(D["c"]))
  if D["s"] == 0: return np.linalg.solve(np.eye(len(x)) - D["W"], D["c"])
  for _ in range(3000):
    y = T_np(x, D)
    if np.array_equal(x, y): break
    x = y
  return x


def start(c, D):
  n = len(D["c"])
  if c["start"] == "zero": return np.zeros(n)
  if c["start"] == "solution": return fixed_point(D)
  return gen.rng(c["seed"] + 7).standard_normal(n) * (1e3 if c["start"] == "far" else 2.)


def fp_solver(cfg):
  aux = cfg.get("aux", False); spec = cfg["spec"]; m = cfg["solver"]
  T = T_tree(spec, aux)
  if m == "fixed": return jaxopt.FixedPointIteration(fixed_point_fun=T, has_aux=aux)
  if m == "anderson":
    return jaxopt.AndersonAcceleration(fixed_point_fun=T, has_aux=aux, **cfg["opts"])
  if m == "wrapper":
    def fun(x, D):        # gradient steps of this quadratic-ish function are the map below
      v = flatj(x)
      return .5 * jnp.dot(v, jnp.dot(D["H"], v)) - jnp.dot(D["g"], v)
    return jaxopt.AndersonWrapper(jaxopt.GradientDescent(fun=fun, stepsize=cfg["step"], acceleration=False), **cfg["opts"])


def fp_fns(cfg):
  def build():
    s0 = fp_solver(cfg)
    spec = cfg["spec"]

    def run(x, D, maxiter, tol):
      s = fp_solver(cfg)
      s.maxiter, s.tol = maxiter, tol
      p, state = s.run(unflat(spec, x), D)
      return flatj(p), state.error, state.iter_num, getattr(state, "aux", None), getattr(state, "num_fun_eval", 0)

    def loop(x, D, K):
      p = unflat(spec, x); state = s0.init_state(p, D)
      def body(carry, _):
        p, state = carry
        p, state = s0.update(p, state, D)
        return (p, state), (flatj(p), state.error, state.iter_num, getattr(state, "aux", None))
      return jax.lax.scan(body, tuple(s0.update(p, state, D)), None, length=LOOP - 1)[1], flatj(s0.update(p, state, D)[0])
    return jax.jit(run), jax.jit(loop, static_argnums=2)
  return cached(("c14fp", repr(cfg)), build)


LOOP = 14


def anderson_iterates(x, F, K, m, freq, beta, ridge):
  """The documented method, from dense histories. Returns iterates, errors, conditioning seen."""
  P, R = [], []
  xs, es, worst = [], [], 1.
  for k in range(K):
    if k >= m and k % freq == 0:
      Pm, Rm = np.array(P[-m:]), np.array(R[-m:])
      G = Rm @ Rm.T + ridge * np.eye(m)
      worst = max(worst, np.linalg.cond(G))
      w = np.linalg.solve(G, np.ones(m)); a = w / w.sum()      # argmin a'Ga s.t. sum a = 1
      worst = max(worst, np.abs(a).max())
      e = a @ Pm + beta * (a @ Rm)
    else:
      e = x
    y = F(e)
    P.append(e); R.append(y - e)
    x = y
    xs.append(y); es.append(np.linalg.norm(R[-1]))
  return np.array(xs), np.array(es), worst


FP_CFGS = ([dict(solver="fixed", spec=s, aux=a) for s, a in (("leaf4", False), ("nested", True), ("mat", False))] +
           [dict(solver="anderson", spec=s, aux=a, opts=o) for s, a, o in (
               ("leaf4", False, {}), ("dict", True, dict(history_size=2)), ("nested", False, dict(history_size=3, mixing_frequency=2)),
               ("leaf4", True, dict(history_size=4, beta=.5, ridge=1e-3)), ("list", False, dict(history_size=3, mixing_frequency=5, beta=1.3)),
               ("mat", False, dict(history_size=2, ridge=1e-8, mixing_frequency=3)))])


@sub("C14", "fixed_point", fp_strat, quick=60, thorough=2500, cfgs=FP_CFGS, cost=2)
def fixed_point_solvers(c, T):
  cfg = c["cfg"]
  D = contraction_data(cfg["spec"], c["seed"], c["q"], c["kind"])
  x0 = start(c, D); xstar = fixed_point(D)
  run, loop = fp_fns(cfg)
  F = lambda v: T_np(v, D)
  o = cfg.get("opts", {})
  m, freq, beta, ridge = o.get("history_size", 5), o.get("mixing_frequency", 1), o.get("beta", 1.), o.get("ridge", 1e-5)
  sc = max(1., np.abs(x0).max(), np.abs(D["c"]).max())
  K = LOOP
  (xs, es, its, aux), first = loop(x0, D, K)
  xs = np.vstack([np64(first)[None], np64(xs)]); es = np64(es); its = np.asarray(its)
  T.finite(xs, "iterates")
  T.ok(list(its) == list(range(2, K + 1)), f"iter_num {list(its)}")
  if cfg["solver"] == "fixed":
    y, want, we, worst = x0, [], [], 1.
    for _ in range(K):
      z = F(y); want.append(z); we.append(np.linalg.norm(z - y)); y = z
    want, we = np.array(want), np.array(we)
  else:
    want, we, worst = anderson_iterates(x0, F, K, m, freq, beta, ridge)
  atol = 1e-13 * sc * min(worst, 1e30) * 30 + 1e-12 * sc
  if atol < 1e-3 * sc:
    T.close(xs, want, rtol=0, atol=atol, msg=f"iterates of the documented method (conditioning {worst:.1e})")
    T.close(es, we[1:], rtol=0, atol=atol * 3, msg="reported error = residual of the evaluated point")
  else:
    T.label("ill conditioned extrapolation: iterates not compared")
  # consistency of the reported error along the solver's own path (no extrapolation on this step)
  for k in range(1, K):
    if cfg["solver"] == "fixed" or k < m or k % freq:
      r = np.linalg.norm(F(xs[k - 1]) - xs[k - 1])
      T.ok(abs(es[k - 1] - r) <= 1e-12 * sc + 1e-9 * r, f"step {k}: error {es[k-1]}, residual {r}")
      T.close(xs[k], F(xs[k - 1]), rtol=1e-12, atol=1e-12 * sc, msg=f"step {k} is a plain step")
      if cfg.get("aux"): T.close(np64(aux)[k - 1], xs[k - 1].sum(), rtol=1e-10, atol=1e-11 * sc, msg="aux of the evaluated point")
  # the loop driver
  x, err, it, aux, nf = run(x0, D, c["maxiter"], c["tol"])
  x = np64(x); it = int(it); err = float(err)
  T.finite(x, "result")
  T.ok(1 <= it <= c["maxiter"] and (it == c["maxiter"] or err <= c["tol"]), f"stopped at {it} of {c['maxiter']}, error {err}, tol {c['tol']}")
  T.ok(int(nf) == it + (cfg["solver"] == "anderson"), f"num_fun_eval {int(nf)} after {it} iterations")
  # truthful: the returned point is the image of a point with residual err, so its distance to the fixed point is bounded
  q = c["q"] if D["W"].any() else 0.
  dist = np.linalg.norm(x - xstar)
  T.ok(dist <= q / (1 - q) * err * (1 + 1e-6) + 1e-12 * sc, f"error {err} reported, yet the solution is {dist} away (factor {q})")
  if cfg["solver"] == "fixed":
    T.ok(dist <= q ** it * np.linalg.norm(x0 - xstar) * (1 + 1e-6) + 1e-12 * sc, f"no contraction: {dist}")
  if c["maxiter"] == 400 and (cfg["solver"] == "fixed" or ridge >= 1e-6):
    lim = max(c["tol"], 1e-11 * sc)
    T.ok(np.linalg.norm(F(x) - x) <= lim * 1.01 + 1e-12 * sc, f"residual {np.linalg.norm(F(x) - x)} after {it} iterations (tol {c['tol']})")
  if it < 2 or c["start"] == "solution": T.trivial()


def wrap_strat(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 3., 20.]), start=st.sampled_from(["random", "random", "zero", "far"]),
                   maxiter=st.sampled_from([1, 4, 30, 600]), tol=st.sampled_from([0., 1e-8, 1e-3]))


WRAP = [dict(solver="wrapper", spec="leaf4", step=.9, opts={}), dict(solver="wrapper", spec="dict", step=.5, opts=dict(history_size=3)),
        dict(solver="wrapper", spec="nested", step=1.2, opts=dict(history_size=2, mixing_frequency=1, beta=.6, ridge=1e-4)),
        dict(solver="wrapper", spec="list", step=.9, opts=dict(history_size=3, mixing_frequency=2, ridge=1e-3))]


@sub("C14", "anderson_wrapper", wrap_strat, quick=50, thorough=2000, cfgs=WRAP, cost=3)
def anderson_wrapper(c, T):
  cfg = c["cfg"]
  n = trees.size(cfg["spec"]); r = gen.rng(c["seed"])
  Q = np.linalg.qr(r.standard_normal((n, n)))[0]
  H = (Q * np.geomspace(1 / c["cond"], 1, n)) @ Q.T
  D = dict(H=(H + H.T) / 2, g=r.standard_normal(n))
  sol = np.linalg.solve(D["H"], D["g"])
  x0 = np.zeros(n) if c["start"] == "zero" else r.standard_normal(n) * (100. if c["start"] == "far" else 1.)
  run, loop = fp_fns(cfg)
  F = lambda v: v - cfg["step"] * (D["H"] @ v - D["g"])
  o = cfg["opts"]
  m = o.get("history_size", 5); freq = o.get("mixing_frequency", m)
  sc = max(1., np.abs(x0).max(), np.abs(sol).max())
  (xs, es, its, _), first = loop(x0, D, LOOP)
  xs = np.vstack([np64(first)[None], np64(xs)])
  T.finite(xs, "iterates")
  want, we, worst = anderson_iterates(x0, F, LOOP, m, freq, o.get("beta", 1.), o.get("ridge", 1e-5))
  atol = 1e-13 * sc * worst * 30 + 1e-12 * sc
  if atol < 1e-3 * sc: T.close(xs, want, rtol=0, atol=atol, msg=f"iterates of accelerated gradient descent (conditioning {worst:.1e})")
  else: T.label("ill conditioned extrapolation: iterates not compared")
  T.ok(list(np.asarray(its)) == list(range(2, LOOP + 1)), "iter_num")
  x, err, it, _, _ = run(x0, D, c["maxiter"], c["tol"])
  x = np64(x)
  T.finite(x, "result")
  T.ok(int(it) == c["maxiter"] or float(err) <= c["tol"], f"stopped at {int(it)} of {c['maxiter']} with error {float(err)} > {c['tol']}")
  # error of the inner solver: its gradient criterion at the returned point bounds the distance
  g = np.linalg.norm(D["H"] @ x - D["g"])
  T.ok(g <= float(err) * 3 + 1e-11 * sc, f"error {float(err)}, gradient norm {g}")
  if c["maxiter"] == 600: T.ok(g <= max(c["tol"], (1e-10 if c["cond"] <= 3 else 1e-4) * sc) * 3, f"gradient norm {g} after {int(it)} iterations, tol {c['tol']}")
  if int(it) < 2: T.trivial()


# ---------------------------------------------------------------- Broyden
def bro_F(spec, aux=False):
  fp = T_tree(spec)
  def F(x, D):
    y = jax.tree_util.tree_map(lambda a, b: (a - b) * D["sign"], x, fp(x, D))
    return (y, jnp.sum(flatj(x))) if aux else y
  return F


BRO = [dict(spec="leaf4", o={}), dict(spec="dict", o=dict(history_size=50)), dict(spec="nested", aux=True, o=dict(stepsize=1.)), dict(spec="list", o=dict(stepsize="callable", history_size=30)),
       dict(spec="leaf4", o=dict(history_size=3, stepsize=.8)), dict(spec="mat", o=dict(history_size=4, stepsize=1.)), dict(spec="tuple", aux=True, o=dict(condition="armijo", history_size=20)),
       dict(spec="leaf4", o=dict(gamma=.5, stepsize=1., history_size=2)), dict(spec="dict", o=dict(history_size=3, condition="goldstein"))]


def bro_solver(cfg, **kw):
  o = dict(cfg["o"])
  if o.get("stepsize") == "callable": o["stepsize"] = lambda k: 1. - .5 / (k + 2.)
  return jaxopt.Broyden(fun=bro_F(cfg["spec"], cfg.get("aux", False)), has_aux=cfg.get("aux", False), **{"maxiter": 60, **o, **kw})


def bro_fns(cfg):
  def build():
    spec = cfg["spec"]

    def run(x, D, maxiter, tol):
      s = bro_solver(cfg)
      s.maxiter, s.tol = maxiter, tol
      p, state = s.run(unflat(spec, x), D)
      return flatj(p), state

    def init(x, D): return bro_solver(cfg).init_state(unflat(spec, x), D)

    def step(p, state, D): return bro_solver(cfg).update(p, state, D)
    return jax.jit(run), jax.jit(init), jax.jit(step)
  return cached(("c14bro", repr(cfg)), build)


def bro_strat(cfg):
  return gen.fixed(seed=gen.seeds, q=st.sampled_from([.05, .3, .6, .8]), kind=st.sampled_from(KINDS), start=st.sampled_from(["random", "random", "random", "zero", "far", "solution"]),
                   maxiter=st.sampled_from([1, 3, 10, 60]), tol=st.sampled_from([1e-9, 1e-6, 1e-3, 0.]), steps=st.integers(1, 12))


def hist(tree, H):
  """History pytree -> rows of flat vectors."""
  ls = jax.tree_util.tree_leaves(tree)
  return np.concatenate([np.asarray(l).reshape(H, -1) for l in ls], axis=1)


@sub("C14", "broyden", bro_strat, quick=50, thorough=2000, cfgs=BRO, cost=4)
def broyden(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]
  D = contraction_data(spec, c["seed"], c["q"], c["kind"])
  D["sign"] = np.array(1.)
  x = start(c, D)
  F = lambda v: v - T_np(v, D)
  run, init, step = bro_fns(cfg)
  n = len(x); s = bro_solver(cfg); H = s.history_size
  sc = max(1., np.abs(x).max(), np.abs(D["c"]).max())
  B = s.gamma * np.eye(n); pairs = []
  p = unflat(spec, jnp.asarray(x)); state = init(x, D)
  compare = True
  for k in range(c["steps"]):
    f = F(x)
    if np.linalg.norm(f) < 1e-9 * sc: break
    d = -B @ f
    p, state = step(p, state, D)
    xn = trees.flat(p)
    T.finite(xn, f"iterate {k}")
    dx = xn - x
    t = float(state.stepsize)
    T.ok(t > 0, f"step size {t}")
    if compare:
      T.close(dx, t * d, rtol=0, atol=1e-8 * sc * (1 + np.abs(B).max()), msg=f"step {k}: x moves along -B F(x) by the reported step size")
    if not isinstance(s.stepsize, float) or s.stepsize > 0:
      want = s.stepsize(k) if callable(s.stepsize) else s.stepsize
      T.close(t, want, rtol=1e-7, atol=0, msg="stepsize option")
    elif not bool(state.failed_linesearch):
      # the search accepts violations of its condition up to 1e-2 (on the squared norm)
      T.ok(np.sum(F(xn) ** 2) <= np.sum(f ** 2) * 1.01 + .012 or cfg["o"].get("condition") == "goldstein",
           f"step {k}: line search succeeded but ||F|| rose from {np.linalg.norm(f)} to {np.linalg.norm(F(xn))}")
    df = F(xn) - f
    T.close(trees.flat(state.value), F(xn), rtol=1e-9, atol=1e-11 * sc, msg="state.value = F(x)")
    T.close(state.error, np.linalg.norm(F(xn)), rtol=1e-9, atol=1e-11 * sc, msg="state.error = ||F(x)||")
    if cfg.get("aux"): T.close(state.aux, xn.sum(), rtol=1e-9, atol=1e-10 * sc, msg="state.aux")
    # the documented rank-one update (oldest pair dropped first), from the solver's own points
    if len(pairs) == H: pairs.pop(0)
    B0 = s.gamma * np.eye(n) + sum((np.outer(cc, dd) for cc, dd in pairs), np.zeros((n, n)))
    v = B0.T @ dx
    den = v @ df
    if abs(den) < 1e-10 * (np.linalg.norm(v) * np.linalg.norm(df) + 1e-300) or np.linalg.norm(dx) < 1e-9 * sc: compare = False; break
    pairs.append((dx - B0 @ df, v / den))
    B = B0 + np.outer(*pairs[-1])
    x = xn
    got = s.gamma * np.eye(n) + hist(state.c_history, H).T @ hist(state.d_history, H)
    amp = np.linalg.norm(df) / np.linalg.norm(dx)
    T.close(got @ df, dx, rtol=0, atol=1e-6 * np.linalg.norm(dx) * (1 + np.abs(got).max() * amp), msg=f"secant equation after step {k} (memory {H})")
    T.close(got, B, rtol=1e-5, atol=1e-6 * (1 + np.abs(B).max()) / min(1., abs(den) / (np.linalg.norm(v) * np.linalg.norm(df))), msg=f"inverse Jacobian after step {k} (memory {H})")
    if len(pairs) == H and k >= H: T.label("memory wrapped")
  x0 = start(c, D)
  xr, state = run(x0, D, c["maxiter"], c["tol"])
  xr = np64(xr); it = int(state.iter_num)
  T.ok(1 <= it <= c["maxiter"] and (it == c["maxiter"] or float(state.error) <= c["tol"]), f"stopped at {it} of {c['maxiter']} with error {float(state.error)}")
  T.finite(xr, "result of run")
  T.ok(abs(float(state.error) - np.linalg.norm(F(xr))) <= 1e-10 * sc, f"error {float(state.error)}, residual {np.linalg.norm(F(xr))}")
  if c["maxiter"] == 60 and D["s"] == 0 and H > 2 * n + 2 and c["q"] <= .6 and s.gamma == 1.:
    T.ok(np.linalg.norm(F(xr)) <= max(c["tol"], 1e-9 * sc), f"residual {np.linalg.norm(F(xr))} after {it} iterations on a linear system")
  if it < 2 or c["start"] == "solution": T.trivial()


# ---------------------------------------------------------------- SciPy root finding
@sub("C14", "scipy_root", fp_strat, quick=15, thorough=500, cfgs=[dict(method=m, spec=s, jac=j) for m, s, j in (
    ("hybr", "leaf4", True), ("hybr", "nested", False), ("lm", "dict", True), ("krylov", "leaf4", False), ("broyden1", "mat", False), ("hybr", "list", False))], cost=1)
def scipy_root(c, T):
  cfg = c["cfg"]; spec = cfg["spec"]
  D = contraction_data(spec, c["seed"], min(c["q"], .6), c["kind"])
  D["sign"] = np.array(1.)
  F = cached(("c14sr", spec), lambda: jax.jit(bro_F(spec)))
  x0 = start(c, D)
  if c["start"] == "far": x0 = x0 / 100
  s = jaxopt.ScipyRootFinding(optimality_fun=F, method=cfg["method"], tol=1e-9, use_jacrev=cfg["jac"])
  p, state = s.run(unflat(spec, jnp.asarray(x0)), {k: jnp.asarray(v) for k, v in D.items()})
  x = trees.flat(p)
  r = np.abs(x - T_np(x, D)).max()
  T.ok(jax.tree_util.tree_structure(p) == jax.tree_util.tree_structure(unflat(spec, jnp.asarray(x0))), "structure")
  if bool(state.success):
    T.ok(r <= 1e-5 * max(1., np.abs(x0).max(), np.abs(D["c"]).max()), f"success reported with residual {r}")
  elif cfg["method"] in ("hybr", "lm"):
    T.ok(r > 1e-6 or c["start"] == "solution", f"failure reported, residual {r}") if False else T.label("scipy reports failure")
  T.close(np64(trees.flat(state.fun_val)), x - T_np(x, D), rtol=1e-6, atol=1e-9 * max(1., np.abs(x).max()), msg="fun_val")
  if c["start"] == "solution": T.trivial()
