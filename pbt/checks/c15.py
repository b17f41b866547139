"""C15: nonlinear least squares."""
import numpy as np, scipy.optimize as so
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import linear_solve as LS
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64
from pbt.checks.c14 import unflat, flatj

describe("C15", "case = (solver options, residual family member, start, number of steps); oracle = NumPy replica of one Levenberg-Marquardt / Gauss-Newton "
         "step from the solver's own state, monotone objective, state recomputed from the returned params, SciPy least squares as the reference minimizer; "
         "non-trivial = the start is not stationary",
         ["iterative linear solvers inside LM are judged by descent and by the documented damping rule, not by exact steps"])

NP, NR = 3, 6
KIND = ["linear", "mild", "mild", "curved", "curved", "expo", "log", "square", "rankdef"]


def data(seed, kind, zero_resid):
  r = gen.rng(seed)
  R = r.standard_normal((NR, NP))
  if kind == "square": R = R.copy(); R[NP:] = 0.
  if kind == "rankdef": R[:, 2] = R[:, 0] - R[:, 1]
  D = dict(R=R, w=np.zeros(5), b=np.zeros(NR), P=np.abs(r.standard_normal((NR, NP))) + .1)
  D["w"][0] = 1.
  if kind == "mild": D["w"][1] = .2
  if kind == "curved": D["w"][2] = r.uniform(.1, 1.)
  if kind == "expo": D["w"][3] = 1.; D["w"][0] = .1
  if kind == "log": D["w"][4] = 1.; D["w"][0] = .1
  x = np.abs(r.standard_normal(NP)) + .1
  D["b"] = resid(x, D, np) + (0. if zero_resid else r.standard_normal(NR) * r.choice([.1, 1.]))
  return D


def resid(x, D, m=jnp):
  """Residual family selected by D['w']; the log term is only defined for positive P x."""
  z = m.dot(D["R"], x)
  with np.errstate(all="ignore"):
    lg = m.where(D["w"][4] > 0, m.log(m.dot(D["P"], x) + (D["w"][4] <= 0) * 1e9), 0.) if m is jnp else (np.log(D["P"] @ x) if D["w"][4] > 0 else 0.)
    ex = m.where(D["w"][3] > 0, m.exp(m.where(D["w"][3] > 0, z, 0.)), 0.)
  return D["w"][0] * z + D["w"][1] * m.sin(z) + D["w"][2] * z ** 2 + ex + D["w"][4] * lg - D["b"]


jac_fun = jax.jacrev(resid)
Jac = jax.jit(jac_fun)
Hess = jax.jit(jax.jacfwd(jax.jacfwd(resid)))


def jac_np(x, D): return np64(Jac(x, {k: jnp.asarray(v) for k, v in D.items()}))


def with_aux(x, D): return resid(x, D), (jnp.sum(x), D["b"][0])


LM = [dict(), dict(solver="cholesky", materialize_jac=True), dict(solver="lu", materialize_jac=True), dict(solver="qr", materialize_jac=True),
      dict(solver="inv", materialize_jac=True), dict(solver="cholesky"), dict(solver="lu"), dict(solver="inv"),
      dict(solver="cholesky", materialize_jac=True, geodesic=True), dict(solver="lu", materialize_jac=True, geodesic=True),
      dict(solver="qr", materialize_jac=True, geodesic=True), dict(solver="inv", materialize_jac=True, geodesic=True), dict(solver="cholesky", geodesic=True),
      dict(geodesic=True), dict(solver="cg", materialize_jac=True), dict(solver="qr", materialize_jac=True, jac_fun=True, has_aux=True),
      dict(solver="cholesky", materialize_jac=True, jac_fun=True, geodesic=True), dict(solver="lu", has_aux=True, stop_criterion="madsen-nielsen"),
      dict(solver="qr", materialize_jac=True, has_aux=True, stop_criterion="madsen-nielsen"), dict(solver="normal_cg", has_aux=True)]


def lm_cfgs(tier):
  return LM


def lm_solver(cfg, **kw):
  o = dict(cfg)
  if o.get("solver") == "cg": o["solver"] = LS.solve_cg
  if o.get("solver") == "normal_cg": o["solver"] = LS.solve_bicgstab
  if o.get("jac_fun"): o["jac_fun"] = jac_fun
  return jaxopt.LevenbergMarquardt(residual_fun=with_aux if cfg.get("has_aux") else resid, **{**o, **kw})


def exact(cfg):
  """Whether the step is the exact solution of the documented equations."""
  return isinstance(cfg.get("solver"), str) and ("cg" not in cfg["solver"] or cfg.get("materialize_jac", False))


def lm_fns(cfg):
  def build():
    def step(x, state, D): return lm_solver(cfg).update(x, state, D)

    def init(x, D, mu): return lm_solver(cfg, damping_parameter=mu).init_state(x, D)

    def run(x, D, maxiter, tol, mu, xtol):
      s = lm_solver(cfg, damping_parameter=mu)
      s.maxiter, s.tol, s.gtol, s.xtol = maxiter, tol, tol, xtol
      return s.run(x, D)
    return jax.jit(step), jax.jit(init), jax.jit(run)
  return cached(("c15", repr(cfg)), build)


def strat(cfg):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KIND), zero=st.booleans(), start=st.sampled_from(["near", "random", "random", "far", "solution"]),
                   mu=st.sampled_from([1e-6, 1e-6, 1e-3, .1, 1., 100.]), steps=st.integers(1, 8), maxiter=st.sampled_from([1, 5, 30, 300]), tol=st.sampled_from([1e-3, 1e-6, 1e-9]), xtol=st.sampled_from([.5, .05, 1e-3, 1e-6]))


def point(c, D):
  r = gen.rng(c["seed"] + 3)
  x = np.abs(gen.rng(c["seed"]).standard_normal(NP)) + .1
  if c["start"] == "solution" and c["zero"]:
    r0 = gen.rng(c["seed"]); r0.standard_normal((NR, NP)); r0.standard_normal((NR, NP))
  s = dict(near=.1, random=1., far=6., solution=.5)[c["start"]]
  y = x + s * r.standard_normal(NP)
  if c["kind"] == "log": y = np.abs(y) + .05
  if c["kind"] == "expo": y = np.clip(y, -2, 2)
  return y


def check_state(T, x, st_, D, cfg, msg, aux_at=None):
  r = resid(x, D, np); J = jac_np(x, D)
  sc = 1 + np.abs(r).max() + np.abs(D["b"]).max() + np.abs(J).max() * np.abs(x).max()
  gs = 1 + np.abs(J).max() * sc * NR
  T.close(st_.residual, r, rtol=1e-10, atol=1e-12 * sc, msg=msg + ": residual")
  T.close(st_.value, .5 * r @ r, rtol=1e-9, atol=1e-13 * sc * (1 + np.abs(r).max()), msg=msg + ": value")
  T.close(st_.gradient, J.T @ r, rtol=1e-8, atol=1e-11 * gs, msg=msg + ": gradient")
  T.close(st_.error, np.linalg.norm(J.T @ r), rtol=1e-8, atol=1e-11 * gs, msg=msg + ": error")
  if cfg.get("materialize_jac"):
    T.close(st_.jac, J, rtol=1e-9, atol=1e-11 * (1 + np.abs(J).max()), msg=msg + ": jac")
    T.close(st_.jtj, J.T @ J, rtol=1e-9, atol=1e-11 * (1 + np.abs(J).max() ** 2), msg=msg + ": jtj")
  if cfg.get("has_aux"):
    T.close(st_.aux[0], x.sum(), rtol=1e-12, atol=1e-12 * (1 + np.abs(x).max()), msg=msg + ": aux")
    T.close(st_.aux[1], D["b"][0], rtol=1e-12, atol=1e-12, msg=msg + ": aux")


@sub("C15", "levenberg_marquardt", strat, quick=35, thorough=2000, cfgs=lm_cfgs, cost=3)
def levenberg(c, T):
  cfg = c["cfg"]
  D = data(c["seed"], c["kind"], c["zero"])
  x = point(c, D)
  step, init, run = lm_fns(cfg)
  if np.linalg.norm(jac_np(x, D)) > 1e8: T.trivial(); return
  s = init(x, D, c["mu"])
  check_state(T, x, s, D, cfg, "initial")
  J = jac_np(x, D)
  T.close(s.damping_factor, c["mu"] * (J * J).sum(0).max(), rtol=1e-8, atol=0, msg="initial damping")
  moved = 0
  if float(s.error) < 1e-8: T.trivial()
  for k in range(c["steps"]):
    f0 = float(s.value); mu, nu = float(s.damping_factor), float(s.increase_factor)
    J = jac_np(x, D); r = resid(x, D, np); g = J.T @ r
    if np.linalg.norm(g) < 1e-9 * (1 + np.abs(J).max() * np.abs(r).max()): break
    xn, sn = step(x, s, D)
    xn = np64(xn)
    T.finite(xn, f"params after step {k}")
    for name in ("value", "residual", "gradient", "error", "damping_factor", "increase_factor"):
      T.finite(getattr(sn, name), f"state.{name} after step {k}")
    T.ok(int(sn.iter_num) == k + 1, "iter_num")
    f1 = .5 * np.sum(resid(xn, D, np) ** 2)
    T.ok(f1 <= f0 * (1 + 1e-12) + 1e-300, f"step {k}: objective rose from {f0} to {f1}")
    T.ok(float(sn.damping_factor) > 0, f"damping {float(sn.damping_factor)}")
    check_state(T, xn, sn, D, cfg, f"step {k}")
    accepted = not np.array_equal(xn, x)
    moved += accepted
    d = np64(sn.delta)
    T.close(xn, x + d if accepted else x, rtol=1e-12, atol=1e-14 * (1 + np.abs(x).max()), msg="accepted step adds delta, rejected step keeps params")
    # documented damping rule, from the trial step reported in delta
    den = abs(.5 * d @ (mu * d - g))      # negative for some geodesic steps
    ft = .5 * np.sum(resid(x + d, D, np) ** 2)
    if accepted:
      gain = (f0 - ft) / den if den else np.nan
      want = mu * max(1 / 3, 1 - (2 * gain - 1) ** 3)
      noise = 1e-13 * (f0 + ft) / abs(den) if den else np.inf
      if noise < 1e-4 and np.isfinite(gain):
        T.close(sn.damping_factor, want, rtol=1e-7 + 100 * noise * max(1, (2 * gain - 1) ** 2) * 6, atol=mu * 100 * noise, msg=f"damping after acceptance (gain ratio {gain})")
      T.close(sn.increase_factor, 2, rtol=0, atol=1e-12, msg="increase factor after acceptance")
    else:
      T.close(sn.damping_factor, min(mu * nu, 2. ** 32), rtol=1e-12, atol=0, msg="damping after rejection")
      T.close(sn.increase_factor, min(2 * nu, 2. ** 32), rtol=1e-12, atol=0, msg="increase factor after rejection")
      if not cfg.get("geodesic") and np.isfinite(ft) and den > 0:
        T.ok(f0 - ft <= 1e-11 * (f0 + abs(ft)), f"step {k}: a decrease from {f0} to {ft} was rejected")
    M = J.T @ J + mu * np.eye(NP)
    cd = np.linalg.cond(M)
    if exact(cfg) and cd < 1e9:
      v = np.linalg.solve(M, g); a = 0.
      if cfg.get("geodesic"):
        H = np64(Hess(x, {k_: jnp.asarray(v_) for k_, v_ in D.items()}))
        a = np.linalg.solve(M, J.T @ ((H @ v) @ v))
        ratio = np.linalg.norm(a) / np.linalg.norm(v)
        if accepted: T.ok(ratio <= .75 * (1 + 1e-6) + 1e-9, f"accepted although acceleration/velocity = {ratio}")
        elif ratio < .75 * (1 - 1e-6) and np.isfinite(ft) and den > 0:
          T.ok(f0 - ft <= 1e-11 * (f0 + abs(ft)), f"step {k}: a decrease from {f0} to {ft} was rejected")
      T.close(d, -(v + .5 * a), rtol=0, atol=1e-12 * cd * np.abs(v + .5 * a).max() * (1 + np.linalg.norm(a) / np.linalg.norm(v)) * 10 +
              1e-14 * np.linalg.norm(np.linalg.inv(M), 2) * np.abs(J).max() * (1 + np.abs(D["b"]).max() + np.abs(J).max() * np.abs(x).max()) * 10, msg=f"step {k}: the damped Gauss-Newton step (conditioning {cd:.0e})")
    x, s = xn, sn
  if not moved: T.label("no accepted step")
  # the loop driver
  x0 = point(c, D)
  xr, sr = run(x0, D, c["maxiter"], c["tol"], c["mu"], c["xtol"])
  xr = np64(xr); it = int(sr.iter_num)
  T.finite(xr, "result")
  check_state(T, xr, sr, D, cfg, "result of run")
  f0, fr = .5 * np.sum(resid(x0, D, np) ** 2), float(sr.value)
  T.ok(fr <= f0 * (1 + 1e-12), f"run: objective {f0} -> {fr}")
  g = float(sr.error)
  if cfg.get("stop_criterion") == "madsen-nielsen":
    d = np.linalg.norm(np64(sr.delta)); gi = np.abs(np64(sr.gradient)).max()
    lim = c["xtol"] * (np.linalg.norm(xr) + c["xtol"])
    T.ok(it == c["maxiter"] or gi <= c["tol"] * (1 + 1e-9) or d <= lim * (1 + 1e-9), f"stopped at {it} of {c['maxiter']}: |gradient| {gi}, |delta| {d}, limits {c['tol']}, {lim}")
    if it > 1:
      xq, sq = run(x0, D, it - 1, c["tol"], c["mu"], c["xtol"])
      d = np.linalg.norm(np64(sq.delta)); gi = np.abs(np64(sq.gradient)).max(); lim = c["xtol"] * (np.linalg.norm(np64(xq)) + c["xtol"])
      T.ok(gi > c["tol"] * (1 - 1e-9) and d > lim * (1 - 1e-9), f"went on after {it - 1} iterations although |gradient| {gi} and |delta| {d} (limits {c['tol']}, {lim})")
  else:
    T.ok(it == c["maxiter"] or g <= c["tol"], f"stopped at {it} of {c['maxiter']} with error {g} > {c['tol']}")
  if c["kind"] in ("linear", "mild", "square") and c["maxiter"] == 300 and c["mu"] <= 1e-3 and np.linalg.cond(jac_np(xr, D)[:NP if c["kind"] == "square" else NR]) < 30:
    ref = so.least_squares(lambda z: resid(z, D, np), x0, method="lm", xtol=1e-14, ftol=1e-14, gtol=1e-14)
    sc = 1 + np.abs(D["b"]).max()
    s0 = np.linalg.svd(jac_np(xr, D), compute_uv=False)[-1]
    if cfg.get("stop_criterion") != "madsen-nielsen":
      T.ok(g <= max(c["tol"], 1e-7 * sc), f"gradient norm {g} after {it} iterations")
    if g <= c["tol"]:
      T.close(xr, ref.x, rtol=0, atol=4 * g / s0 ** 2 * (1 + sc) + 1e-6 * sc, msg="the reference minimizer")


# ---------------------------------------------------------------- descent on badly scaled problems, many at a time
BATCH, BSTEPS = 400, 12


def quad_resid(x, P):
  A, B, c = P
  return A @ x + jnp.einsum("kij,i,j->k", B, x, x) - c


def batch_fn(cfg):
  def build():
    s = jaxopt.LevenbergMarquardt(residual_fun=quad_resid, tol=0., xtol=0., gtol=0., **cfg)

    def one(x, P):
      state = s.init_state(x, P)

      def body(carry, _):
        x, state = s.update(*carry, P)
        return (x, state), (x, state.value, state.damping_factor)
      return jax.lax.scan(body, (x, state), None, length=BSTEPS)[1]
    return jax.jit(jax.vmap(one))
  return cached(("c15batch", repr(cfg)), build)


@sub("C15", "descent_batches", lambda cfg: gen.fixed(seed=gen.seeds, spread=st.sampled_from([0., 2., 4., 6.]), curve=st.sampled_from([-3., -1., 0., 1., 2.]), rhs=st.sampled_from([-1., 0., 1., 2.]),
                                                      start=st.sampled_from([-2., -1., 0., 1.])),
     quick=8, thorough=400, cfgs=[dict(solver="qr", materialize_jac=True), dict(materialize_jac=True, geodesic=True), dict(solver="cholesky", materialize_jac=True, geodesic=True), dict(solver="qr", materialize_jac=True, geodesic=True)], cost=2)
def descent_batches(c, T):
  r = gen.rng(c["seed"])
  m, n = 3, 2
  A = r.standard_normal((BATCH, m, n)) * 10. ** (r.uniform(-1, 1, (BATCH, 1, n)) * c["spread"] / 2)
  B = r.standard_normal((BATCH, m, n, n)) * 10. ** (c["curve"] + r.uniform(-1, 1, (BATCH, 1, 1, 1)))
  b = r.standard_normal((BATCH, m)) * 10. ** (c["rhs"] + r.uniform(-1, 1, (BATCH, 1)))
  x0 = r.standard_normal((BATCH, n)) * 10. ** (c["start"] + r.uniform(-1, 1, (BATCH, 1)))
  xs, vs, mus = (np64(t) for t in batch_fn(c["cfg"])(x0, (A, B, b)))
  X = np.concatenate([x0[:, None], xs], 1)
  T.finite(X, "params"); T.finite(vs, "value")
  T.ok(bool((mus > 0).all()), "damping")
  R = np.einsum("bkn,btn->btk", A, X) + np.einsum("bkij,bti,btj->btk", B, X, X) - b[:, None]
  S = np.einsum("bkn,btn->btk", abs(A), abs(X)) + np.einsum("bkij,bti,btj->btk", abs(B), abs(X), abs(X)) + abs(b[:, None])
  f, noise = .5 * (R ** 2).sum(-1), (abs(R) * S).sum(-1) * 1e-13 + 1e-26 * (S ** 2).sum(-1)
  T.ok(bool((abs(vs - f[:, 1:]) <= 1e-9 * f[:, 1:] + noise[:, 1:]).all()), "value is not half the squared residual at the params")
  rise = f[:, 1:] - f[:, :-1] - 1e-9 * f[:, :-1] - noise[:, 1:] - noise[:, :-1]
  i, t = np.unravel_index(np.argmax(rise), rise.shape)
  T.ok(rise[i, t] <= 0, f"problem {i}: objective rose from {f[i, t]} to {f[i, t + 1]} in step {t}", x0=x0[i], A=A[i].tolist(), B=B[i].tolist(), b=b[i])
  T.count(BATCH - 1)


# ---------------------------------------------------------------- Gauss-Newton
GN = [dict(spec="leaf3"), dict(spec="dict", has_aux=True), dict(spec="tuple")]




def build3(spec, v):
  if spec == "leaf3": return v
  if spec == "dict": return dict(a=v[:2], b=v[2])
  return (v[:1], [v[1], v[2]])


def gn_solver(cfg):
  f = with_aux if cfg.get("has_aux") else resid
  return jaxopt.GaussNewton(residual_fun=lambda p, D: f(flatj(p), D), has_aux=cfg.get("has_aux", False))


def gn_fns(cfg):
  def build():
    sp = cfg["spec"]

    def step(p, state, D): return gn_solver(cfg).update(p, state, D)

    def init(x, D):
      p = build3(sp, x)
      return p, gn_solver(cfg).init_state(p, D)

    def run(x, D, maxiter, tol):
      s = gn_solver(cfg); s.maxiter, s.tol = maxiter, tol
      p, state = s.run(build3(sp, x), D)
      return flatj(p), state
    return jax.jit(step), jax.jit(init), jax.jit(run)
  return cached(("c15gn", repr(cfg)), build)


@sub("C15", "gauss_newton", strat, quick=120, thorough=5000, cfgs=GN, cost=2)
def gauss_newton(c, T):
  cfg = c["cfg"]
  kind = c["kind"] if c["kind"] != "log" else "mild"
  D = data(c["seed"], kind, c["zero"])
  x = point(dict(c, kind=kind), D)
  step, init, run = gn_fns(cfg)
  p, s = init(x, D)
  for k in range(min(c["steps"], 4)):
    J = jac_np(x, D); r = resid(x, D, np); g = J.T @ r
    cd = np.linalg.cond(J)
    if not np.isfinite(g).all() or np.abs(g).max() > 1e6 or np.linalg.norm(g) < 1e-8: break
    p, s = step(p, s, D)
    xn = np64(flatj(p))
    d = np64(flatj(s.delta))
    T.close(xn, x - d, rtol=1e-12, atol=1e-12 * (1 + np.abs(x).max() + np.abs(d).max()), msg="params moved by -delta")
    T.close(s.error, np.linalg.norm(d), rtol=1e-9, atol=0, msg="error is the norm of the last update")
    T.close(s.residual, r, rtol=1e-9, atol=1e-11 * (1 + np.abs(r).max()), msg="residual at the evaluated point")
    T.close(s.value, .5 * r @ r, rtol=1e-9, atol=1e-12, msg="value at the evaluated point")
    T.close(flatj(s.gradient), g, rtol=1e-8, atol=1e-10 * (1 + np.abs(J).max() * np.abs(r).max()), msg="gradient at the evaluated point")
    T.ok(int(s.iter_num) == k + 1, "iter_num")
    if cfg.get("has_aux"): T.close(s.aux[0], x.sum(), rtol=1e-12, atol=1e-12 * (1 + np.abs(x).max()), msg="aux")
    if cd < 1e3:
      res = np.linalg.norm(J.T @ (J @ d) - g)
      T.ok(res <= 2e-5 * np.linalg.norm(g) + 1e-12, f"step {k}: normal equations residual {res} of {np.linalg.norm(g)}")
    x = xn
    if not np.isfinite(x).all() or np.abs(x).max() > 1e3: break
  x0 = point(dict(c, kind=kind), D)
  xr, sr = run(x0, D, c["maxiter"], c["tol"])
  xr = np64(xr); it = int(sr.iter_num)
  if kind in ("linear", "mild", "square"):
    T.finite(xr, "result")
    T.ok(it == c["maxiter"] or float(sr.error) <= c["tol"], f"stopped at {it} of {c['maxiter']} with error {float(sr.error)}")
    sv = np.linalg.svd(jac_np(xr, D), compute_uv=False)
    if c["maxiter"] >= 30 and sv[0] / sv[-1] < 100 and (kind != "mild" or c["zero"] or np.linalg.norm(resid(xr, D, np)) < 1):
      g = jac_np(xr, D).T @ resid(xr, D, np)
      sc = 1 + np.abs(D["b"]).max()
      T.ok(np.linalg.norm(g) <= 2 * sv[0] ** 2 * max(c["tol"], 1e-9 * sc), f"gradient norm {np.linalg.norm(g)} after {it} iterations, tol {c['tol']}")
  if np.linalg.norm(jac_np(x0, D).T @ resid(x0, D, np)) < 1e-8: T.trivial()
