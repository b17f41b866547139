"""C11: line searches accept only steps satisfying their condition."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c14 import unflat, flatj

describe("C11", "case = (line search and options, function along a direction, start, direction, initial step, budget, tolerance); oracle = the documented "
         "inequalities evaluated in NumPy at the returned step, the exact sequence of trial steps for backtracking, and success on profiles "
         "where a suitable step is guaranteed; non-trivial = the first trial step was not accepted",
         ["rounding slack of 1e-10 relative to the size of the function values", "ZoomLineSearch at max_stepsize may return a step that only decreases the function (documented)"])

KINDS = ["quad", "quad", "quartic", "nonconvex", "logcosh", "exp", "barrier", "wiggly"]


def problem(n, seed, kind, scale):
  r = gen.rng(seed)
  A = gen.spd(n, seed, cond=float(r.choice([1., 10., 100.])), scale=float(r.choice([.1, 1., 10., 100.])))
  w = np.zeros(6)
  if kind == "quartic": w[0] = r.uniform(.05, 2)
  if kind == "logcosh": A = A * .05; w[1] = r.uniform(.2, 2)
  if kind == "nonconvex": A = A - .5 * np.abs(A).max() * np.eye(n); w[0] = .2; w[2] = r.uniform(.3, 2)
  if kind == "exp": A = A * .01; w[3] = r.uniform(.2, 2)
  if kind == "barrier": w[4] = r.uniform(.1, 1)
  if kind == "wiggly": A = A * .2; w[5] = r.uniform(.5, 3)
  x = r.standard_normal(n) * scale
  if kind == "barrier": x = np.tanh(x) * .95
  return dict(A=A, b=r.standard_normal(n) * float(r.choice([.3, 2.])), w=w, e=np.array(float(r.choice([0., 0., 3., -40.])))), x


def f(x, D, m=jnp):
  w = D["w"]
  v = .5 * m.dot(x, m.dot(D["A"], x)) - m.dot(D["b"], x) + D["e"] + w[0] * m.sum(x ** 4) + w[1] * m.sum(m.logaddexp(3 * x, -3 * x)) + w[2] * m.sum(m.cos(2 * x)) + w[3] * m.sum(m.exp(m.where(w[3] > 0, x, 0.))) + w[5] * m.sum(m.sin(7 * x))
  return v - m.where(w[4] > 0, w[4] * m.sum(m.log(m.where(w[4] > 0, 1 - x ** 2, 1.))), 0.)


def df(x, D):
  w = D["w"]
  with np.errstate(all="ignore"):
    return (D["A"] @ x - D["b"] + 4 * w[0] * x ** 3 + 3 * w[1] * np.tanh(3 * x) - 2 * w[2] * np.sin(2 * x) + (w[3] * np.exp(x) if w[3] > 0 else 0.) + 7 * w[5] * np.cos(7 * x)
            + (w[4] * 2 * x / (1 - x ** 2) if w[4] > 0 else 0.))


def fnp(x, D):
  with np.errstate(all="ignore"): return float(f(x, D, np))


CLS = dict(bt=jaxopt.BacktrackingLineSearch, zoom=jaxopt.ZoomLineSearch, hz=jaxopt.HagerZhangLineSearch)


def build(cfg):
  def mk():
    def fun0(x, D): return f(flatj(x), D)

    def aux_of(x, D): return dict(m=jnp.max(flatj(x)), s=D["e"])
    if cfg.get("vag"):
      def fun(x, D):
        v, g = jax.value_and_grad(fun0)(x, D)
        return ((v, aux_of(x, D)), g) if cfg.get("aux") else (v, g)
    else:
      def fun(x, D): return (fun0(x, D), aux_of(x, D)) if cfg.get("aux") else fun0(x, D)

    def go(x, d, t0, maxiter, tol, D):
      s = CLS[cfg["ls"]](fun=fun, value_and_grad=bool(cfg.get("vag")), has_aux=bool(cfg.get("aux")), **cfg["o"])
      s.maxiter, s.tol = maxiter, tol
      p = unflat(cfg["spec"], x)
      kw = dict(fun_args=[D]) if not cfg.get("kw") else dict(fun_kwargs=dict(D=D))
      if cfg.get("given"):
        v, g = jax.value_and_grad(fun0)(p, D)
        kw.update(value=v, grad=g)
      if cfg.get("dir") != "none": kw["descent_direction"] = unflat(cfg["spec"], d)
      out = s.run(t0, p, **kw)
      return out.stepsize, out.state
    return jax.jit(go)
  return cached(("c11", repr(cfg)), mk)


def strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), scale=st.sampled_from([.1, 1., 1., 4.]), dirk=st.sampled_from(["grad", "grad", "scaled", "newton", "random", "coord", "tiny"]),
                   t0=st.sampled_from([1., 1., 1., .1, 1e-3, 3., 50., 1e-6]), maxiter=st.sampled_from([1, 2, 5, 30, 30, 30, 60]), tol=st.sampled_from([0., 0., 0., 0., 1e-3, .1]))


def setup(c, T):
  cfg = c["cfg"]; n = trees.size(cfg["spec"])
  D, x = problem(n, c["seed"], c["kind"], c["scale"])
  g = df(x, D); r = gen.rng(c["seed"] + 7)
  k = c["dirk"] if cfg.get("dir") != "none" else "grad"
  if k == "grad": d = -g
  elif k == "scaled": d = -g * float(r.choice([.01, .1, 10., 100.]))
  elif k == "newton": d = -np.linalg.solve(D["A"] + (1. if c["kind"] != "quad" else 0.) * np.abs(D["A"]).max() * np.eye(n), g); d = d if g @ d < 0 else -g
  elif k == "random": d = r.standard_normal(n); d = d if g @ d < 0 else -d
  elif k == "coord": d = np.zeros(n); i = int(r.integers(n)); d[i] = -np.sign(g[i]) if g[i] else 0.
  else: d = -g * 1e-3
  return D, x, g, d, float(g @ d)


def conditions(cfg, f0, slope, ft, st_, t):
  """Dict of violations (<= 0 is satisfied) of the line search's own condition at step t."""
  o = cfg["o"]
  c1 = o.get("c1", dict(bt=1e-4, zoom=1e-4, hz=.1)[cfg["ls"]]); c2 = o.get("c2", .9)
  if not np.isfinite(ft): return np.inf
  arm = ft - (f0 + c1 * t * slope)
  if cfg["ls"] == "bt":
    k = o.get("condition", "strong-wolfe")
    if k == "armijo": return arm
    if k == "goldstein": return max(arm, f0 + (1 - c1) * t * slope - ft)
    if k == "wolfe": return max(arm, c2 * slope - st_)
    return max(arm, abs(st_) - c2 * abs(slope))
  if cfg["ls"] == "zoom":
    approx = max(st_ - (2 * c1 - 1) * slope, ft - f0 - o.get("c3", 1e-6) * abs(f0))
    return max(min(arm, approx), abs(st_) - c2 * abs(slope))
  approx = max(st_ - (2 * c1 - 1) * slope, ft - (f0 + 1e-6 * abs(f0)))
  return max(min(arm, approx), c2 * slope - st_)


def common(c, T, maxcap):
  cfg = c["cfg"]
  D, x, g, d, slope = setup(c, T)
  f0 = fnp(x, D)
  if not slope < -1e-12 * max(1., abs(f0)): T.trivial(); T.label("not a descent direction"); return None
  t, s = build(cfg)(x, d, c["t0"], c["maxiter"], c["tol"], D)
  t = float(t); xt = x + t * d; ft = fnp(xt, D)
  with np.errstate(all="ignore"): gt = df(xt, D)
  st_ = float(gt @ d)
  fsc = max(abs(f0), abs(ft) if np.isfinite(ft) else 0., 1.)
  T.close(trees.flat(s.params), xt, rtol=1e-12, atol=1e-12 * (np.abs(x).max() + np.abs(t * d).max()), msg="state.params = start + stepsize * direction")
  if np.isfinite(ft):
    T.close(s.value, ft, rtol=1e-9, atol=1e-11 * fsc, msg="state.value = f(state.params)")
    T.close(trees.flat(s.grad), gt, rtol=1e-7, atol=1e-9 * max(np.abs(gt).max(), np.abs(g).max()), msg="state.grad = gradient at state.params")
    if cfg.get("aux"):
      T.close(s.aux["m"], xt.max(), rtol=1e-12, atol=1e-12 * np.abs(xt).max(), msg="state.aux is the auxiliary output at state.params")
  failed = bool(s.failed)
  T.ok(t >= 0 and np.isfinite(t), f"step size {t}")
  T.ok(int(s.iter_num) <= max(c["maxiter"], 1), "iterations beyond maxiter", got=int(s.iter_num))
  # rounding: relative to the function values, and to the slopes for the curvature part
  slack = 1e-10 * fsc + 1e-9 * abs(slope)
  v = conditions(cfg, f0, slope, ft, st_, t)
  if not failed:
    T.ok(t > 0 or c["tol"] > 0, "zero step reported as a success")
    T.ok(t <= maxcap * (1 + 1e-12), f"step size {t} beyond max_stepsize {maxcap}")
  if failed: T.label("failed")
  return dict(D=D, x=x, d=d, g=g, slope=slope, f0=f0, t=t, s=s, ft=ft, st=st_, v=v, slack=slack, failed=failed, fsc=fsc)


BT = [dict(ls="bt", spec="leaf4", o=dict(condition="armijo")), dict(ls="bt", spec="dict", aux=True, o=dict(condition="wolfe", decrease_factor=.5)), dict(ls="bt", spec="tuple", vag=True, given=True, o=dict(condition="strong-wolfe", max_stepsize=10.)),
      dict(ls="bt", spec="nested", vag=True, aux=True, kw=True, o=dict(condition="goldstein", c1=.3, decrease_factor=.7)), dict(ls="bt", spec="list", given=True, dir="none", o=dict(condition="armijo", c1=.4, max_stepsize=100., decrease_factor=.3)),
      dict(ls="bt", spec="mat", o=dict(condition="strong-wolfe", c2=.3, max_stepsize=2.)), dict(ls="bt", spec="leaf1", given=True, aux=True, o=dict(condition="goldstein", c1=.1, max_stepsize=.5))]


@sub("C11", "backtracking", strat, quick=60, thorough=3000, cfgs=BT, cost=3)
def backtracking(c, T):
  cfg = c["cfg"]; o = cfg["o"]
  r = common(c, T, o.get("max_stepsize", 1.))
  if r is None: return
  tol = c["tol"]
  if r["failed"]: T.ok(r["t"] == 0 or not (r["v"] < tol - r["slack"]), f"failure reported at a step satisfying the condition (violation {r['v']}, tol {tol})")
  else: T.ok(r["v"] <= tol + r["slack"], f"accepted step {r['t']} violates the condition by {r['v']} (tol {tol})")
  # exact sequence of trial steps
  t = min(c["t0"], o.get("max_stepsize", 1.)); k = 0; border = False
  while True:
    xt = r["x"] + t * r["d"]; ft = fnp(xt, r["D"])
    with np.errstate(all="ignore"): v = conditions(cfg, r["f0"], r["slope"], ft, float(df(xt, r["D"]) @ r["d"]), t)
    if np.isnan(v): v = np.inf
    border |= abs(v - tol) <= r["slack"]
    k += 1
    if v <= tol or k >= c["maxiter"]: break
    t *= o.get("decrease_factor", .8)
  if border: T.label("decision by rounding"); return
  T.close(r["t"], t, rtol=1e-9, atol=0, msg="first acceptable step of the sequence (or the last one)")
  T.ok(r["failed"] == (not v <= tol), f"failed={r['failed']} although violation {v}")
  T.ok(int(r["s"].iter_num) == k, "number of trial steps", got=int(r["s"].iter_num), want=k)
  if k == 1: T.trivial()


ZM = [dict(ls="zoom", spec="leaf4", o=dict()), dict(ls="zoom", spec="dict", aux=True, given=True, o=dict(max_stepsize=1.)), dict(ls="zoom", spec="tuple", vag=True, o=dict(c2=.1)),
      dict(ls="zoom", spec="nested", vag=True, aux=True, kw=True, o=dict(c1=.1, c2=.4, increase_factor=3., max_stepsize=1e4)), dict(ls="zoom", spec="leaf1", dir="none", given=True, o=dict(c3=1e-3, max_stepsize=20.))]
NICE = ("quad", "quartic", "logcosh", "nonconvex", "wiggly")


def wolfe_exists(r, cfg, lim):
  """A step in a fine grid up to lim that comfortably satisfies the condition."""
  for t in np.geomspace(1e-4, lim, 400):
    xt = r["x"] + t * r["d"]
    if conditions(cfg, r["f0"], r["slope"], fnp(xt, r["D"]), float(df(xt, r["D"]) @ r["d"]), t) < -1e-3 * abs(r["slope"]): return True
  return False


@sub("C11", "zoom", strat, quick=60, thorough=3000, cfgs=ZM, cost=4)
def zoom(c, T):
  cfg = c["cfg"]; o = cfg["o"]
  cap = o.get("max_stepsize", 2. ** 30)
  r = common(c, T, cap)
  if r is None: return
  tol = c["tol"]; c1 = o.get("c1", 1e-4)
  decrease = conditions(dict(ls="zoom", o=dict(o, c2=1e30)), r["f0"], r["slope"], r["ft"], r["st"], r["t"])
  if not r["failed"]:
    if r["v"] > tol + r["slack"]:
      T.label("curvature condition not met at the cap")
      T.ok(r["t"] >= cap * (1 - 1e-12), f"accepted step {r['t']} violates the conditions by {r['v']} (tol {tol})")
      T.ok(decrease <= tol + r["slack"] and r["st"] < r["slack"], f"step at the cap does not decrease the function (violation {decrease}, slope {r['st']})")
  else:
    T.ok(r["t"] == 0 or not (r["v"] < tol - r["slack"]), f"failure reported at a step satisfying the conditions (violation {r['v']}, tol {tol})")
    # a failed search still returns a point of sufficient decrease when its first trial point is one
    t1 = min(c["t0"], cap); x1 = r["x"] + t1 * r["d"]
    d1 = conditions(dict(ls="zoom", o=dict(o, c2=1e30)), r["f0"], r["slope"], fnp(x1, r["D"]), float(df(x1, r["D"]) @ r["d"]), t1)
    if d1 < tol - r["slack"]:
      T.ok(decrease <= tol + r["slack"], f"failed search lost the sufficient decrease of its first trial step (violation {decrease})")
    if c["maxiter"] >= 60 and c["kind"] in NICE and c["dirk"] in ("grad", "newton") and c["t0"] >= .1 and tol == 0 and abs(r["slope"]) > 1e-6 * r["fsc"]:
      T.ok(not wolfe_exists(r, cfg, min(cap, 10.)), f"search failed (step {r['t']}) although acceptable steps exist")
  if int(r["s"].iter_num) <= 1: T.trivial()


HZ = [dict(ls="hz", spec="leaf4", o=dict()), dict(ls="hz", spec="dict", aux=True, given=True, o=dict(c1=.01)), dict(ls="hz", spec="tuple", vag=True, o=dict(c2=.5)),
      dict(ls="hz", spec="nested", vag=True, aux=True, kw=True, o=dict(c1=.3, c2=.4)), dict(ls="hz", spec="leaf1", dir="none", given=True, o=dict(shrinkage_factor=.5))]


@sub("C11", "hager_zhang", strat, quick=60, thorough=3000, cfgs=HZ, cost=4)
def hager_zhang(c, T):
  cfg = c["cfg"]
  r = common(c, T, np.inf)
  if r is None: return
  tol = c["tol"]
  if not r["failed"]: T.ok(r["v"] <= tol + r["slack"], f"accepted step {r['t']} violates the conditions by {r['v']} (tol {tol})")
  else:
    T.ok(r["t"] == 0 or not (r["v"] < tol - r["slack"]), f"failure reported at a step satisfying the conditions (violation {r['v']}, tol {tol})")
    if c["maxiter"] >= 30 and c["kind"] in NICE and c["dirk"] in ("grad", "newton") and tol == 0 and abs(r["slope"]) > 1e-6 * r["fsc"]:
      T.ok(not wolfe_exists(r, cfg, 10.), f"search failed (step {r['t']}) although acceptable steps exist")
  if int(r["s"].iter_num) <= 1 and abs(r["t"] - 1.) < 1e-12: T.trivial()


# ---------------------------------------------------------------- many one-dimensional profiles at a time
BATCH = 600
PROFILES = ["poly", "wavy", "expo", "cliff", "mixed"]


def phi(x, P, m=jnp):
  """P = (linear, quadratic, quartic, amplitudes (2,), frequencies (2,), phases (2,), exponential weight and rate, offset)."""
  v = P["c"][0] * x + P["c"][1] * x ** 2 + P["c"][2] * x ** 4 + m.sum(P["a"] * m.sin(P["w"] * x + P["p"])) + P["e"][2]
  return v + P["e"][0] * m.exp(P["e"][1] * x)


def batch_search(cfg):
  def mk():
    def one(x, t0, d, P, maxiter):
      s = CLS[cfg["ls"]](fun=lambda z, P: phi(z[0], P), **cfg["o"])
      s.maxiter = maxiter
      t, state = s.run(t0, x[None], descent_direction=d[None], fun_args=[P])
      return t, state.failed, state.params[0], state.value, state.grad[0], state.iter_num
    return jax.jit(jax.vmap(one, in_axes=(0, 0, 0, 0, None)))
  return cached(("c11batch", repr(cfg)), mk)


BCFG = ([dict(ls="bt", o=dict(condition=k, decrease_factor=.5, max_stepsize=50.)) for k in ("armijo", "goldstein", "wolfe", "strong-wolfe")] +
        [dict(ls="zoom", o=dict()), dict(ls="zoom", o=dict(c1=.2, c2=.3, max_stepsize=5.)), dict(ls="hz", o=dict()), dict(ls="hz", o=dict(c1=.3, c2=.4))])


@sub("C11", "profile_batches", lambda cfg: gen.fixed(seed=gen.seeds, profile=st.sampled_from(PROFILES), steps=st.sampled_from([0., 2., 5.]), scale=st.sampled_from([-2., 0., 0., 2.]), maxiter=st.sampled_from([1, 3, 10, 30, 60])),
     quick=8, thorough=500, cfgs=BCFG, cost=2)
def profile_batches(c, T):
  cfg = c["cfg"]; r = gen.rng(c["seed"]); n = BATCH; k = c["profile"]
  P = dict(c=r.standard_normal((n, 3)), a=r.standard_normal((n, 2)), w=10. ** r.uniform(-1, 1, (n, 2)), p=r.uniform(0, 6, (n, 2)), e=np.zeros((n, 3)))
  P["c"][:, 1:] = np.abs(P["c"][:, 1:]) * 10. ** r.uniform(-2, 1, (n, 2))
  if k == "poly": P["a"] *= 0
  if k == "wavy": P["c"][:, 2] = 0.
  if k in ("expo", "mixed"): P["e"][:, 0] = np.abs(r.standard_normal(n)) * 10. ** r.uniform(-3, 0, n); P["e"][:, 1] = r.uniform(-3, 3, n)
  if k == "cliff": P["c"][:, 2] = 10. ** r.uniform(2, 6, n)
  P["e"][:, 2] = np.where(r.random(n) < .3, r.choice([-5., 5., 100.], n), 0.)
  for q in "ac": P[q] *= 10. ** c["scale"]
  x = r.standard_normal(n) * 10. ** r.uniform(-1, .5, n)

  def ev(z):
    with np.errstate(all="ignore"):
      ex = P["e"][:, 0] * np.exp(P["e"][:, 1] * z)
      s, co = P["a"] * np.sin(P["w"] * z[:, None] + P["p"]), P["a"] * P["w"] * np.cos(P["w"] * z[:, None] + P["p"])
      terms = np.stack([P["c"][:, 0] * z, P["c"][:, 1] * z ** 2, P["c"][:, 2] * z ** 4, s[:, 0], s[:, 1], P["e"][:, 2], ex])
      gt = np.stack([P["c"][:, 0], 2 * P["c"][:, 1] * z, 4 * P["c"][:, 2] * z ** 3, co[:, 0], co[:, 1], P["e"][:, 1] * ex])
      return terms.sum(0), gt.sum(0), abs(terms).sum(0), abs(gt).sum(0)
  f0, g0, sf0, sg0 = ev(x)
  d = -np.sign(g0) * 10. ** r.uniform(-2, 1, n)
  d = np.where(r.random(n) < .5, -g0, d)
  slope = g0 * d
  t0 = 10. ** (r.uniform(-1, 1, n) * c["steps"])
  good = (slope < -1e-6 * (sf0 + 1e-3)) & np.isfinite(f0)
  t, failed, xt, v, g, it = (np.asarray(q) for q in batch_search(cfg)(x, t0, d, P, c["maxiter"]))
  ft, gt, sft, sgt = ev(xt); st_ = gt * d
  fin = np.isfinite(ft)

  def every(bad, msg):
    bad = bad & good
    i = int(np.argmax(bad))
    T.ok(not bad.any(), f"profile {i} of the batch: {msg}", x=x[i], d=d[i], t0=t0[i], step=t[i], failed=failed[i], P=str({q: u[i].tolist() for q, u in P.items()}))
  every(~(np.isfinite(t) & (t >= 0)), "step size")
  with np.errstate(all="ignore"):
    every(~(abs(xt - x - t * d) <= 1e-12 * (abs(x) + abs(t * d))), "state.params")
    every(fin & ~(abs(v - ft) <= 1e-11 * sft), "state.value")
    every(fin & ~(abs(g - gt) <= 1e-10 * (sgt + sg0)), "state.grad")
    every(it > max(c["maxiter"], 1), "iterations beyond maxiter")
    o = cfg["o"]; c1 = o.get("c1", dict(bt=1e-4, zoom=1e-4, hz=.1)[cfg["ls"]]); c2 = o.get("c2", .9)
    cap = o.get("max_stepsize", dict(bt=1., zoom=2. ** 30, hz=np.inf)[cfg["ls"]])
    slack = 1e-12 * (sf0 + np.where(fin, sft, 0)) + 1e-10 * abs(slope) + 1e-11 * np.where(fin, sgt * abs(d), 0)
    arm = ft - (f0 + c1 * t * slope); strong = abs(st_) - c2 * abs(slope)
    approx = np.maximum(st_ - (2 * c1 - 1) * slope, ft - f0 - 1e-6 * abs(f0))
    if cfg["ls"] == "bt":
      viol = dict(armijo=arm, goldstein=np.maximum(arm, f0 + (1 - c1) * t * slope - ft), wolfe=np.maximum(arm, c2 * slope - st_)).get(o["condition"], np.maximum(arm, strong))
    elif cfg["ls"] == "zoom": viol = np.maximum(np.minimum(arm, approx), strong)
    else: viol = np.maximum(np.minimum(arm, approx), c2 * slope - st_)
    viol = np.where(fin, viol, np.inf)
    every(~failed & ~(t > 0), "zero step reported as a success")
    every(~failed & (t > cap * (1 + 1e-12)), "step beyond max_stepsize")
    bad = ~failed & (viol > slack)
    if cfg["ls"] == "zoom":
      bad &= ~((t >= cap * (1 - 1e-12)) & (np.minimum(arm, approx) <= slack) & (st_ < slack))
      every(failed & (np.where(fin, np.minimum(arm, approx), np.inf) > slack) & (ft > f0 + slack) & (t > 0) & (it > 0) & (f_first(ev, x, d, np.minimum(t0, cap), f0, slope, c1) < -slack), "a failed search lost the sufficient decrease of its first trial step")
    every(bad, "the accepted step violates the condition")
    every(failed & (t > 0) & (viol < -slack), "failure reported at a step satisfying the condition")
  T.count(int(good.sum()))
  if (it[good] <= 1).mean() > .95 and c["maxiter"] > 1: T.label("mostly first steps")


def f_first(ev, x, d, t, f0, slope, c1):
  f1 = ev(x + t * d)[0]
  return np.where(np.isfinite(f1), f1 - (f0 + c1 * t * slope), np.inf)
