"""C16: stochastic solvers on arbitrary streams of batches."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt, optax
from pbt import gen
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C16", "case = (solver and options, hook, stream of batches incl. zero, huge, tiny and repeated ones, iterator length vs maxiter); oracle = NumPy replica of "
         "the documented update from the solver's own state (optax itself for OptaxSolver), the manual loop for run_iterator; "
         "non-trivial = at least two updates with a nonzero gradient",
         ["the first batch drawn by run_iterator only initializes the state (as the code states)",
          "ArmijoSGD's state.value is judged without momentum only (the documentation does not say at which point it is taken)"])

NB, NF = 4, 3


def batch(seed, kind):
  r = gen.rng(seed)
  X, y = r.standard_normal((NB, NF)), r.standard_normal(NB)
  if kind == "zero": X, y = np.zeros_like(X), np.zeros_like(y)
  if kind == "big": X, y = X * 30, y * 30
  if kind == "tiny": X, y = X * 1e-4, y * 1e-4
  if kind == "same": X, y = np.ones_like(X), np.ones_like(y)
  if kind == "exact": y = X @ np.array([.5, -.25, .1]) + .2
  return X, y


def loss(p, l2, data, m=jnp):
  X, y = data
  z = m.dot(X, p["w"]) + p["b"] - y
  return .5 * m.mean(z ** 2) + .5 * l2 * (m.sum(p["w"] ** 2) + m.sum(p["b"] ** 2))


def loss_aux(p, l2, data): return loss(p, l2, data), dict(n=jnp.sum(p["w"]), d=data[1][0])


value_grad = jax.value_and_grad(loss)


def value_grad_aux(p, l2, data):
  v, g = value_grad(p, l2, data)
  return (v, dict(n=jnp.sum(p["w"]), d=data[1][0])), g


def value_np(p, l2, data): return float(loss(p, l2, data, np))


def grad_np(p, l2, data):
  X, y = data
  z = (X @ p["w"] + p["b"] - y) / len(y)
  return dict(w=X.T @ z + l2 * p["w"], b=z.sum() + l2 * p["b"])


def pre_scale(p, s, *a, **k): return jax.tree_util.tree_map(lambda x: .9 * x + .01, p), s


def pre_halve(p, s, l2, data):
  """Uses the batch and rewrites the state."""
  return jax.tree_util.tree_map(lambda x: x - .01 * jnp.mean(data[1]), p), s._replace(stepsize=s.stepsize * .5)


def pre_reset(p, s, l2, data): return p, s._replace(velocity=jax.tree_util.tree_map(jnp.zeros_like, s.velocity))


def pre_clip(p, s, *a, **k): return jax.tree_util.tree_map(lambda x: jnp.clip(x, -1, 1), p), s


POLYAK = [dict(), dict(variant="SPS+"), dict(momentum=.7, has_aux=True), dict(max_stepsize=.05, delta=.5), dict(fun_min=-1., momentum=.3, pre="scale", has_aux=True, vg=True),
          dict(variant="SPS+", momentum=.5, pre="reset"), dict(fun_min=.2, vg=True, max_stepsize=1e3), dict(pre="clip", max_stepsize=10., delta=1e-3)]
ARMIJO = [dict(), dict(reset_option="conservative"), dict(reset_option="goldstein"), dict(momentum=.6, has_aux=True), dict(reset_option="goldstein", momentum=.3, max_stepsize=5., vg=True),
          dict(aggressiveness=.3, max_stepsize=3., maxls=30, has_aux=True, vg=True), dict(decrease_factor=.5, increase_factor=3., max_stepsize=50., maxls=4, pre="halve"),
          dict(reset_option="conservative", momentum=.5, pre="reset"), dict(aggressiveness=.7, pre="scale", maxls=60, max_stepsize=100.)]
OPTAX = [dict(opt="sgd"), dict(opt="adam", has_aux=True), dict(opt="chain", vg=True), dict(opt="adamw", pre="clip", has_aux=True, vg=True), dict(opt="schedule"), dict(opt="rms", pre="scale")]
OPT = dict(sgd=lambda: optax.sgd(.1, momentum=.9, nesterov=True), adam=lambda: optax.adam(.05), chain=lambda: optax.chain(optax.clip_by_global_norm(.5), optax.sgd(.3)),
           adamw=lambda: optax.adamw(.02, weight_decay=.1), schedule=lambda: optax.sgd(optax.exponential_decay(.3, 2, .5)), rms=lambda: optax.rmsprop(.01))
PRE = dict(scale=pre_scale, halve=pre_halve, reset=pre_reset, clip=pre_clip)


def make(cfg, **kw):
  o = {k: v for k, v in cfg.items() if k not in ("solver", "pre", "vg", "opt")}
  aux, vg = cfg.get("has_aux", False), cfg.get("vg", False)
  fun = {(0, 0): loss, (1, 0): loss_aux, (0, 1): value_grad, (1, 1): value_grad_aux}[int(aux), int(vg)]
  if cfg.get("pre"): o["pre_update"] = PRE[cfg["pre"]]
  o.update(fun=fun, value_and_grad=vg, **kw)
  if cfg["solver"] == "optax": return jaxopt.OptaxSolver(opt=OPT[cfg["opt"]](), **o)
  return dict(polyak=jaxopt.PolyakSGD, armijo=jaxopt.ArmijoSGD)[cfg["solver"]](**o)


def fns(cfg):
  def build():
    s = make(cfg)
    return (s, jax.jit(lambda p, l2, d: s.init_state(p, l2, data=d)), jax.jit(lambda p, st_, l2, d: s.update(p, st_, l2, data=d)),
            jax.jit(lambda p, st_, l2, d: (PRE[cfg["pre"]](p, st_, l2, data=d) if cfg.get("pre") else (p, st_))))
  return cached(("c16", repr(cfg)), build)


CFGS = [dict(solver="polyak", **o) for o in POLYAK] + [dict(solver="armijo", **o) for o in ARMIJO] + [dict(solver="optax", **o) for o in OPTAX]
KIND = ["normal", "normal", "normal", "zero", "big", "tiny", "same", "exact"]


def strat(cfg):
  @st.composite
  def s(draw):
    n = draw(st.integers(1, 10))
    return dict(seed=draw(gen.seeds), kinds=draw(st.lists(st.sampled_from(KIND), min_size=n, max_size=n)), l2=draw(st.sampled_from([0., .01, 1.])),
                start=draw(st.sampled_from(["random", "zero", "far", "exact"])), repeat=draw(st.booleans()))
  return s()


def start(c):
  r = gen.rng(c["seed"] + 99)
  if c["start"] == "exact": return dict(w=np.array([.5, -.25, .1]), b=np.array(.2))
  s = dict(random=1., zero=0., far=50.)[c["start"]]
  return dict(w=r.standard_normal(NF) * s, b=np.array(r.standard_normal() * s))


def N(p): return {k: np64(v) for k, v in p.items()}
def vec(p): return np.concatenate([p["w"].ravel(), np.ravel(p["b"])])
def axpy(p, a, q): return {k: p[k] + a * q[k] for k in p}


def armijo_search(s, p, g, f, step, l2, d):
  """The documented search; returns (step, finished, a comparison was too close to call)."""
  coef = 1 - s.aggressiveness
  g2 = vec(g) @ vec(g); close = False
  F = lambda t: value_np(axpy(p, -t, g), l2, d)
  eps = lambda fn: 1e-12 * (abs(f) + abs(fn)) + 1e-300
  if not g2: return step, True, True
  violated = True
  for it in range(s.maxls):
    fn = F(step); m = fn - (f - step * coef * g2)
    close |= abs(m) <= eps(fn)
    v1 = m > 0
    if v1: step = min(step * s.decrease_factor, s.max_stepsize)
    v2 = False
    if s.reset_option == "goldstein":
      fn = F(step); m = (f - step * (1 - coef) * g2) - fn
      close |= abs(m) <= eps(fn)
      v2 = m > 0
      if v2: step = min(step * s.increase_factor, s.max_stepsize)
    violated = v1 or v2
    if not violated: break
  return step, not violated, close


@sub("C16", "steps", strat, quick=150, thorough=1500, cfgs=CFGS, cost=2)
def steps(c, T):
  cfg = c["cfg"]
  s, init, update, pre = fns(cfg)
  data = [batch(c["seed"] + (0 if c["repeat"] else i), k) for i, k in enumerate(c["kinds"])]
  l2 = c["l2"]
  p = start(c)
  st_ = init(p, l2, data[0])
  T.ok(int(st_.iter_num) == 0 and np.isinf(float(st_.error)), "initial state")
  if cfg["solver"] == "armijo": T.close(st_.stepsize, s.max_stepsize, rtol=1e-12, atol=0, msg="initial stepsize")
  live = 0
  for k, d in enumerate(data):
    q, sq = pre(p, st_, l2, d)
    q = N(q)
    g = grad_np(q, l2, d); f = value_np(q, l2, d); g2 = vec(g) @ vec(g)
    pn, sn = update(p, st_, l2, d)
    pn = N(pn); x = vec(pn)
    sc = 1 + np.abs(vec(q)).max(); gs = np.abs(vec(g)).max() + 1e-12 * (np.abs(d[0]).max() ** 2 * sc + np.abs(d[0]).max() * np.abs(d[1]).max())
    if not np.isfinite(g2) or g2 > 1e24: T.label("diverged"); break
    live += g2 > 1e-20
    T.finite(x, f"params after step {k}")
    T.ok(int(sn.iter_num) == k + 1, "iter_num")
    T.close(sn.error, np.sqrt(g2), rtol=1e-9, atol=1e-10 * gs + 1e-13, msg=f"step {k}: error is the gradient norm at the evaluated point")
    if cfg.get("has_aux"):
      T.close(sn.aux["n"], q["w"].sum(), rtol=1e-10, atol=1e-12 * sc, msg="aux of the evaluated point")
      T.close(sn.aux["d"], d[1][0], rtol=0, atol=0, msg="aux of the current batch")
    else: T.ok(sn.aux is None, "aux without has_aux")
    fscale = 1e-12 * (1 + abs(f) + np.abs(d[1]).max() ** 2)
    if cfg["solver"] != "armijo": T.close(sn.value, f, rtol=1e-9, atol=fscale, msg=f"step {k}: value at the evaluated point")
    if cfg["solver"] == "polyak":
      gap = f - s.fun_min
      if s.variant == "SPS_max":
        den = g2 + s.delta
        want = min(gap / den, s.max_stepsize) if den > 0 else (s.max_stepsize if gap > 0 else None)
        loose = 1e-6 + 1e3 * fscale / abs(gap) if gap else 1.
      else:
        want = 0. if g2 <= np.finfo(np.float64).eps else max(gap / g2, 0.)
        loose = 1e-6 + 1e3 * fscale / abs(gap) if gap else 1.
        if abs(g2 / np.finfo(np.float64).eps - 1) < 1e-3: want = None
      t = float(sn.stepsize)
      if want is None or g2 < 1e-22: T.label("vanishing gradient")
      else: T.close(t, want, rtol=loose, atol=0, msg=f"step {k}: Polyak step (gap {gap}, |g|^2 {g2})")
      T.ok(t <= s.max_stepsize * (1 + 1e-12) or s.variant == "SPS+", f"step {t} above the cap {s.max_stepsize}")
      if s.momentum:
        v = N(sq.velocity); v = {i: s.momentum * v[i] - t * g[i] for i in v}
        T.close(vec(N(sn.velocity)), vec(v), rtol=1e-9, atol=1e-9 * (sc + abs(t) * gs), msg=f"step {k}: velocity")
        want = vec(q) + vec(v)
      else:
        want = vec(q) - t * vec(g)
      T.close(x, want, rtol=1e-9, atol=1e-10 * (sc + abs(t) * gs), msg=f"step {k}: x + velocity")
      T.ok(int(sn.num_fun_eval) == k + 2 and int(sn.num_grad_eval) == k + 1, f"counters {int(sn.num_fun_eval)}, {int(sn.num_grad_eval)} after {k + 1} updates")
    elif cfg["solver"] == "armijo":
      t0 = float(sq.stepsize)
      if s.reset_option == "increase": t0 = min(t0 * s.increase_factor, s.max_stepsize)
      want, finished, close = armijo_search(s, q, g, f, t0, l2, d)
      t = float(sn.stepsize)
      T.ok(0 < t <= max(s.max_stepsize, t0) * (1 + 1e-12), f"stepsize {t}, cap {s.max_stepsize}")
      if close: T.label("borderline search")
      else: T.close(t, want, rtol=1e-9, atol=0, msg=f"step {k}: stepsize of the search from {t0}")
      y = axpy(q, -t, g); fy = value_np(y, l2, d)
      if finished and not close:
        T.ok(fy <= f - t * (1 - s.aggressiveness) * g2 + 1e-10 * (abs(f) + abs(fy)), f"step {k}: no sufficient decrease: {f} -> {fy} with step {t}")
        if s.reset_option == "goldstein":
          T.ok(fy >= f - t * s.aggressiveness * g2 - 1e-10 * (abs(f) + abs(fy)), f"step {k}: curvature condition fails, step {t}")
      if s.reset_option == "conservative": T.ok(t <= float(sq.stepsize) * (1 + 1e-12), "conservative stepsizes never increase")
      Xe = np.hstack([d[0], np.ones((NB, 1))]); L = np.linalg.norm(Xe, 2) ** 2 / NB + l2
      if k == 0 and finished and not close and cfg.get("pre") is None and s.aggressiveness > .5 and 2 * s.aggressiveness * s.decrease_factor >= 1:
        T.ok(t >= min(1 / L, s.max_stepsize) * (1 - 1e-9), f"first step {t} below min(1/L, max_stepsize) = {min(1 / L, s.max_stepsize)}")
      if s.momentum:
        v = N(sq.velocity)
        y = axpy(y, s.momentum, v)
        T.close(vec(N(sn.velocity)), vec(y) - vec(q), rtol=1e-9, atol=1e-9 * (sc + t * gs), msg=f"step {k}: velocity")
      else: T.close(sn.value, fy, rtol=1e-8, atol=fscale + 1e-12 * abs(f), msg=f"step {k}: value")
      T.close(x, vec(y), rtol=1e-9, atol=1e-10 * (sc + t * gs), msg=f"step {k}: gradient step plus momentum")
    else:
      opt = s.opt
      jg = {i: jnp.asarray(g[i]) for i in g}
      up, inner = jitted_opt(cfg["opt"])(jg, sq.internal_state, q)
      near = g2 < 1e-20 and cfg["opt"] in ("adam", "adamw", "rms")   # sign-like methods amplify rounding of a zero gradient
      if not near:
        T.close(x, vec(q) + vec(N(up)), rtol=1e-6, atol=1e-7 * sc, msg=f"step {k}: optax update")
        a, b = jax.tree_util.tree_leaves(sn.internal_state), jax.tree_util.tree_leaves(inner)
        T.ok(jax.tree_util.tree_structure(sn.internal_state) == jax.tree_util.tree_structure(inner), "optax state structure")
        for u, v in zip(a, b): T.close(u, v, rtol=1e-6, atol=1e-7 * (1 + gs), msg=f"step {k}: optax state")
    p, st_ = pn, sn
  if live < 2: T.trivial()


def jitted_opt(name):
  return cached(("c16opt", name), lambda: jax.jit(OPT[name]().update))


ITER = [CFGS[2], CFGS[4], CFGS[8 + 3], CFGS[8 + 6], CFGS[17 + 1], CFGS[17 + 3]]


def it_strat(cfg):
  return gen.fixed(seed=gen.seeds, length=st.sampled_from([1, 1, 2, 3, 5, 6, 7, 9]), maxiter=st.sampled_from([1, 2, 5, 6]), l2=st.sampled_from([0., .1]), kw=st.booleans(),
                   start=st.sampled_from(["random", "zero"]), kinds=st.lists(st.sampled_from(KIND[:-4]), min_size=9, max_size=9), gen=st.booleans())


@sub("C16", "run_iterator", it_strat, quick=8, thorough=200, cfgs=ITER, cost=6)
def run_iterator(c, T):
  cfg = c["cfg"]
  s = make(cfg, maxiter=c["maxiter"])
  _, init, update, _ = fns(cfg)
  data = [batch(c["seed"] + i, k) for i, k in enumerate(c["kinds"][:c["length"]])]
  used = []
  def stream():
    for i, d in enumerate(data):
      used.append(i)
      yield d
  p0 = start(c)
  jp = {k: jnp.asarray(v) for k, v in p0.items()}
  args, kw = ((), dict(l2=c["l2"])) if c["kw"] else ((c["l2"],), {})
  if c["kw"] and cfg.get("pre") not in (None, "scale", "clip"): args, kw = (c["l2"],), {}
  p, state = s.run_iterator(jp, stream(), *args, **kw)
  n = min(c["maxiter"], c["length"] - 1)
  T.ok(used == list(range(min(c["length"], c["maxiter"] + 1))), f"{len(used)} batches consumed of {c['length']} with maxiter {c['maxiter']}")
  T.ok(int(state.iter_num) == n, f"iter_num {int(state.iter_num)}, expected {n}")
  q, sq = jp, init(jp, c["l2"], data[0])
  for d in data[1:n + 1]: q, sq = update(q, sq, c["l2"], d)
  sc = 1 + max(np.abs(vec(N(q))).max(), np.abs(vec(p0)).max())
  T.close(vec(N(p)), vec(N(q)), rtol=1e-7, atol=1e-8 * sc, msg="run_iterator equals the loop over the batches")
  T.close(state.error, sq.error, rtol=1e-6, atol=1e-7 * sc, msg="error")
  if n < 2: T.trivial()
