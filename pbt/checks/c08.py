"""C08: implicit differentiation returns the true derivative of the solution map."""
from functools import partial
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import linear_solve as LS, implicit_diff as IDF, prox as JP, projection as JQ, objective as JO
from jaxopt._src.base import KKTSolution
from pbt import gen, problems as pb
from pbt.core import sub, describe, cached, HarnessError
from pbt.util import np64, krylov_deficient
from pbt.checks import c06, c07

describe("C08", "case = (solver or custom_root/custom_fixed_point wrapper, argument layout, linear solver, problem, "
         "direction in parameter space, cotangent); oracle = implicit function theorem in NumPy at an independently "
         "computed solution, or two-sided finite differences of an independent NumPy solution map; non-trivial = the "
         "derivative in that direction is not zero", ["solution maps differentiable at the case (one-sided differences agree)"])

N = 4
EPS = 1e-5

SOLVE = {None: None, "default": None, "cg": partial(LS.solve_cg, tol=1e-12), "normal_cg": partial(LS.solve_normal_cg, tol=1e-12),
         "gmres": partial(LS.solve_gmres, tol=1e-12), "bicgstab": partial(LS.solve_bicgstab, tol=1e-12), "lu": LS.solve_lu,
         "inv": LS.solve_inv, "cholesky": LS.solve_cholesky, "qr": LS.solve_qr}


def flat(t):
  return [np64(v) for v in jax.tree_util.tree_leaves(t)]


def direction(t, r, keep=lambda path: True):
  return jax.tree_util.tree_map(lambda v: r.standard_normal(np.shape(v)), t)


def add(t, d, e):
  return jax.tree_util.tree_map(lambda a, b: np64(a) + e * b, t, d)


def inner(a, b):
  return sum(float(np.sum(x * y)) for x, y in zip(flat(a), flat(b)))


def compare(T, got, want, rtol, msg, scale=0.0, **kw):
  if abs(want) < 1e-8: T.trivial()
  T.ok(np.isfinite(got), f"{msg}: derivative is not finite", got=got, **kw)
  T.ok(abs(got - want) <= rtol * (1 + abs(want) + scale), f"{msg}: wrong derivative", got=got, want=want, **kw)


# --- root_vjp / root_jvp ------------------------------------------------------
def Fnp(x, th):
  return th["W"] @ x + .3 * np.tanh(th["s"][0] * x) - th["s"][1] * th["b"]


def Fjx(x, W, b, s):
  return jnp.dot(W, x) + .3 * jnp.tanh(s[0] * x) - s[1] * b


def root_of(th):
  x = np.linalg.solve(th["W"], th["s"][1] * th["b"])
  a = .15 * th["s"][0]
  for _ in range(100): x = np.linalg.solve(th["W"] + a * np.eye(N), th["s"][1] * th["b"] - .3 * np.tanh(th["s"][0] * x) + a * x)
  if np.abs(Fnp(x, th)).max() > 1e-9: raise HarnessError("root not found")
  J = th["W"] + .3 * np.diag(th["s"][0] / np.cosh(th["s"][0] * x) ** 2)
  return x, J


def theta(c):
  r = gen.rng(c["seed"])
  K = .4 * np.triu(r.standard_normal((N, N)), 1)
  W = gen.spd(N, int(r.integers(2**31)), cond=c["cond"]) + (0 if c.get("sym") else K - K.T) + .5 * np.eye(N)
  if c.get("sym"): W = (W + W.T) / 2
  return dict(W=W, b=r.standard_normal(N), s=np.array([r.uniform(0, .8), r.uniform(.5, 2)])), r


def strat_root(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 3., 8.]), sym=st.just(cfg in ("cg", "cholesky")) if cfg in ("cg", "cholesky") else st.booleans())


@sub("C08", "root_products", strat_root, quick=60, thorough=2000, cfgs=[k for k in SOLVE if k])
def root_products(c, T):
  """root_vjp and root_jvp, several arguments, each a separate leaf; forward and reverse agree."""
  th, r = theta(c)
  x, J = root_of(th)
  if np.linalg.cond(J) > 40: T.trivial(); return
  order = ("W", "b", "s")
  args = tuple(th[k] for k in order)
  d = {k: r.standard_normal(th[k].shape) for k in order}
  dF = (Fnp(x, add(th, d, EPS)) - Fnp(x, add(th, d, -EPS))) / (2 * EPS)
  want = -np.linalg.solve(J, dF)
  u = r.standard_normal(N)
  if c["cfg"] in ("gmres", "bicgstab") and (krylov_deficient(J, J @ want) or krylov_deficient(J.T, u)):
    T.trivial(); return
  def build():
    kw = {} if c["cfg"] == "default" else dict(solve=SOLVE[c["cfg"]])
    return jax.jit(lambda x, args, d, u: (IDF.root_jvp(Fjx, x, args, d, **kw), IDF.root_vjp(Fjx, x, args, u, **kw)))
  tol = 1e-6 if c["cfg"] != "default" else 2e-3
  jv, vj = cached(("c08root", c["cfg"]), build)(x, args, tuple(d[k] for k in order), u)
  T.close(np64(jv), want, tol, tol * (1 + np.abs(want).max()), "root_jvp")
  T.ok(isinstance(vj, tuple) and len(vj) == 3 and all(np.shape(a) == np.shape(b) for a, b in zip(vj, args)), "root_vjp structure")
  got = sum(float(np.sum(np64(v) * d[k])) for v, k in zip(vj, order))
  compare(T, got, float(u @ want), 5 * tol, "root_vjp", scale=np.abs(want).max() * np.linalg.norm(u))


# --- custom_root / custom_fixed_point with argument layouts ---------------------
def layouts():
  """name -> (decorate, call); every call returns the solution as a function of (init, W, b, s)."""
  sg = jax.lax.stop_gradient
  def root_solver(init, W, b, s):     # a contraction: the symmetric part of W is at least .5 I
    a = .15 * s[0]
    M = W + a * jnp.eye(N)
    body = lambda x, _: (jnp.linalg.solve(M, s[1] * b - .3 * jnp.tanh(s[0] * x) + a * x), None)
    return sg(jax.lax.scan(body, init, None, length=60)[0])
  L = {}
  L["positional"] = (lambda solve: IDF.custom_root(Fjx, solve=solve)(root_solver), lambda f, x0, W, b, s: f(x0, W, b, s))
  L["keyword"] = (L["positional"][0], lambda f, x0, W, b, s: f(x0, s=s, b=b, W=W))
  L["mixed"] = (L["positional"][0], lambda f, x0, W, b, s: f(x0, W, s=s, b=b))
  def aux_solver(init, W, b, s):
    x = root_solver(init, W, b, s)
    return x, {"it": jnp.sum(W) * jnp.sum(b), "k": jnp.int32(3)}
  L["aux"] = (lambda solve: IDF.custom_root(Fjx, has_aux=True, solve=solve)(aux_solver), lambda f, x0, W, b, s: f(x0, W, b=b, s=s)[0])
  def Fdef(x, W, b, s, *, k=2.0): return Fjx(x, W, b, s)
  def tree_F(p, th): return {"u": Fjx(jnp.concatenate([p["u"], p["v"]]), th[0], th[1]["b"], th[1]["s"])[:2],
                             "v": Fjx(jnp.concatenate([p["u"], p["v"]]), th[0], th[1]["b"], th[1]["s"])[2:]}
  def tree_solver(init, th):
    z = root_solver(jnp.concatenate([init["u"], init["v"]]), th[0], th[1]["b"], th[1]["s"])
    return {"u": z[:2], "v": z[2:]}
  def call_tree(f, x0, W, b, s):
    o = f({"u": x0[:2], "v": x0[2:]}, (W, {"b": b, "s": s}))
    return jnp.concatenate([o["u"], o["v"]])
  L["pytree"] = (lambda solve: IDF.custom_root(tree_F, solve=solve)(tree_solver), call_tree)
  # a function with a default in the signature, an integer argument and swapped roles
  def F2(x, n, W, b, s=(0., 1.)): return Fjx(x, W, b, jnp.asarray(s)) * jnp.asarray(n, float)
  def solver2(init, n, W, b, s=(0., 1.)): return root_solver(init, W, b, jnp.asarray(s))
  L["integer"] = (lambda solve: IDF.custom_root(F2, solve=solve)(solver2), lambda f, x0, W, b, s: f(x0, 2, W, b, s))
  L["integer_kw"] = (lambda solve: IDF.custom_root(F2, solve=solve)(solver2), lambda f, x0, W, b, s: f(x0, s=s, n=3, b=b, W=W))
  # catch-all solver and optimality function, disambiguated by reference_signature
  def Fany(*a, **k):
    return Fjx(*a, **k)
  def Sany(init, *a, **k):
    return root_solver(init, *a, **k)
  L["reference_signature"] = (lambda solve: IDF.custom_root(Fany, solve=solve, reference_signature=Fjx)(Sany), lambda f, x0, W, b, s: f(x0, W, s=s, b=b))
  def Tfp(x, W, b, s): return x - .3 * Fjx(x, W, b, s)
  L["fixed_point"] = (lambda solve: IDF.custom_fixed_point(Tfp, solve=solve)(root_solver), lambda f, x0, W, b, s: f(x0, W, b, s))
  L["fixed_point_kw_aux"] = (lambda solve: IDF.custom_fixed_point(Tfp, has_aux=True, solve=solve)(aux_solver), lambda f, x0, W, b, s: f(x0, b=b, W=W, s=s)[0])
  def Tany(*a, **k): return Tfp(*a, **k)
  L["fixed_point_reference"] = (lambda solve: IDF.custom_fixed_point(Tany, solve=solve, reference_signature=Tfp)(Sany), lambda f, x0, W, b, s: f(x0, W, b=b, s=s))
  return L


LAY = ["positional", "keyword", "mixed", "aux", "pytree", "integer", "integer_kw", "reference_signature", "fixed_point",
       "fixed_point_kw_aux", "fixed_point_reference"]


def strat_w(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 3., 8.]))


@sub("C08", "wrappers", strat_w, quick=25, thorough=1000, cost=2,
     cfgs=[[l, s] for i, l in enumerate(LAY) for s in ("normal_cg", ("lu" if l != "pytree" else "gmres"), None)[:2 + (i % 4 == 0)]])
def wrappers(c, T):
  lay, sv = c["cfg"]
  th, r = theta(c)
  x, J = root_of(th)
  if np.linalg.cond(J) > 40: T.trivial(); return
  d = {k: r.standard_normal(th[k].shape) for k in th}
  want = -np.linalg.solve(J, (Fnp(x, add(th, d, EPS)) - Fnp(x, add(th, d, -EPS))) / (2 * EPS))
  u = r.standard_normal(N)
  if sv == "gmres" and (krylov_deficient(J, J @ want) or krylov_deficient(J.T, u)): T.trivial(); return
  x0 = r.standard_normal(N) * .1
  def build():
    dec, call = layouts()[lay]
    f = dec(SOLVE[sv])
    def go(x0, W, b, s, u):
      out, vjp = jax.vjp(lambda x0, W, b, s: call(f, x0, W, b, s), x0, W, b, s)
      return out, vjp(u)
    return jax.jit(go)
  out, (g0, gW, gb, gs) = cached(("c08w", lay, sv), build)(x0, th["W"], th["b"], th["s"], u)
  T.close(np64(out), x, 1e-6, 1e-7, "value of the wrapped solver")
  T.ok(np.all(np64(g0) == 0), "non-zero derivative with respect to the initial guess", g=g0)
  got = inner({"W": gW, "b": gb, "s": gs}, {k: d[k] for k in ("W", "b", "s")})
  compare(T, got, float(u @ want), 1e-4 if sv else 3e-3, f"{lay} {sv}", scale=np.linalg.norm(want) * np.linalg.norm(u))


# --- unconstrained solvers ------------------------------------------------------
UNC = [["GradientDescent", "pos", None], ["GradientDescent", "kw", "cg"], ["BFGS", "pos", "cg"], ["BFGS", "kw", "lu"],
       ["LBFGS", "kw", "normal_cg"], ["LBFGS", "tree", "cg"], ["NonlinearCG", "pos", "gmres"], ["LBFGSB", "pos", "cg"],
       ["LBFGS", "aux", "bicgstab"], ["LBFGS", "vg", "cholesky"], ["BFGS", "aux", "inv"], ["GradientDescent", "tree", None],
       ["GradientDescent", "vg", "qr"], ["NonlinearCG", "kw", "cg"], ["ArmijoSGD", "kw", "cg"], ["PolyakSGD", "kw", None],
       ["GradientDescent", "fwd_unroll", None], ["GradientDescent", "unroll", None]]


def unc_build(cfg):
  name, style, sv = cfg
  cls = getattr(jaxopt, name)
  f = lambda x, D: pb.fun(x, D)
  if style == "tree": f = lambda p, D: pb.fun(jnp.concatenate([p["a"], p["b"]]), D)
  if style == "aux": f = lambda x, D: (pb.fun(x, D), {"aux": jnp.sum(x) * D["c"]})
  if style == "vg": f = jax.value_and_grad(lambda x, D: pb.fun(x, D))
  un = "unroll" in style
  kw = dict(tol=1e-9, maxiter=60 if un and name != "GradientDescent" else 400 if un else 5000, implicit_diff=not un)
  if not un: kw["implicit_diff_solve"] = SOLVE[sv]
  if style == "aux": kw["has_aux"] = True
  if style == "vg": kw["value_and_grad"] = True
  if name == "PolyakSGD": kw.update(max_stepsize=.5); f0 = f; f = lambda x, D: f0(x, D) + 100.
  if name == "ArmijoSGD": kw.update(maxls=30)
  if un: kw.update(stepsize=.9 if name == "GradientDescent" else 0., jit=True)
  if un and name == "GradientDescent": kw.update(acceleration=False)
  if name in ("ArmijoSGD", "PolyakSGD"): kw.update(implicit_diff=True)
  s = cls(fun=f, **kw)
  def solve(x0, D):
    a = (None,) if name == "LBFGSB" else ()
    p0 = {"a": x0[:2], "b": x0[2:]} if style == "tree" else x0
    p, state = s.run(p0, *a, D=D) if style in ("kw", "tree") else s.run(p0, *a, D)
    return jnp.concatenate([p["a"], p["b"]]) if style == "tree" else p
  if style == "fwd_unroll":
    return jax.jit(lambda x0, D, u, d: (solve(x0, D), jax.jvp(lambda D: solve(x0, D), (D,), (d,))[1]))
  def go(x0, D, u, d):
    out, vjp = jax.vjp(solve, x0, D)
    return out, vjp(u)
  return jax.jit(go)


def strat_unc(cfg):
  return gen.fixed(p=pb.strat(N, (1.0, 4.0)), sseed=gen.seeds, near=st.booleans())


@sub("C08", "unconstrained", strat_unc, quick=25, thorough=1000, cfgs=UNC, cost=5)
def unconstrained(c, T):
  name, style, sv = c["cfg"]
  D = pb.normalized(pb.data(N, c["p"]["seed"], c["p"]["kind"], c["p"]["cond"], c["p"]["scale"]))
  x = pb.minimizer(D)
  r = gen.rng(c["sseed"])
  d, u = direction(D, r), r.standard_normal(N)
  d["Q"] = d["Q"] + d["Q"].T
  want = -np.linalg.solve(pb.hess(x, D), (pb.grad(x, add(D, d, EPS)) - pb.grad(x, add(D, d, -EPS))) / (2 * EPS))
  H = pb.hess(x, D)
  if sv in ("gmres", "bicgstab") and krylov_deficient(H, u): T.trivial(); return
  if name == "PolyakSGD" : T.label("polyak")
  x0 = x + .1 * r.standard_normal(N) if c["near"] else r.standard_normal(N)
  out = cached(("c08unc", repr(c["cfg"])), lambda: unc_build(c["cfg"]))(x0, D, u, d)
  sc = np.linalg.norm(want) * np.linalg.norm(u)
  if name in ("PolyakSGD",):   # Polyak steps need not converge: derivative at the returned point
    T.label("not judged" if np.linalg.norm(np64(out[0]) - x) > 1e-5 else "converged")
    if np.linalg.norm(np64(out[0]) - x) > 1e-5: T.trivial(); return
  T.close(np64(out[0]), x, 1e-4, 1e-5, f"{name}: solution")
  if style == "fwd_unroll":
    compare(T, float(u @ np64(out[1])), float(u @ want), 1e-2, f"{name} unrolled (forward mode)", scale=sc)
    return
  g0, gD = out[1]
  un = style == "unroll"
  if not un:
    T.ok(np.all(np64(g0) == 0), "non-zero derivative with respect to the initial guess", g=g0)
  compare(T, inner(gD, d), float(u @ want), (1e-2 if un else 3e-3 if sv is None else 1e-4), f"{name} {style} {sv}", scale=sc)


# --- proximal, projected, mirror, block coordinate ----------------------------------
KPROX = [k for k in c06.PROX if k not in ("lasso_vec",)]
CON = [["prox", k, (None, "normal_cg", "gmres", "lu")[i % 4]] for i, k in enumerate(KPROX)] + \
      [["proj", k, ("normal_cg", None, "lu", "gmres")[i % 4]] for i, k in enumerate(c06.PROJ)] + \
      [["prox_unroll", "lasso", None], ["proj_unroll", "simplex", None], ["mirror", "simplex", "normal_cg"], ["mirror", "simplex", None]]


def con_build(cfg):
  kind, name, sv = cfg
  un = "unroll" in kind
  kw = dict(tol=1e-9, maxiter=300 if un else 20000, implicit_diff=not un)
  if not un: kw["implicit_diff_solve"] = SOLVE[sv]
  if un: kw.update(stepsize=.9)
  if kind.startswith("prox"):
    s = jaxopt.ProximalGradient(fun=pb.fun, prox=c06.PROX[name][0], **kw)
  elif kind.startswith("proj"):
    s = jaxopt.ProjectedGradient(fun=pb.fun, projection=c06.PROJ[name][0], **kw)
  else:
    s = jaxopt.MirrorDescent(fun=pb.fun, stepsize=1., projection_grad=jaxopt.MirrorDescent.make_projection_grad(
        lambda y, h: h * jax.nn.softmax(y), jnp.log), **kw)
  def go(x0, h, D, u):
    out, vjp = jax.vjp(lambda x0, h, D: s.run(x0, h, D=D).params, x0, h, D)
    return out, vjp(u)
  return jax.jit(go)


def con_solution(P, h, D, x):
  """Accelerated proximal gradient in NumPy."""
  y, t = x, 1.0
  for _ in range(1500):
    xn = P(y - pb.grad(y, D), h)
    if np.abs(xn - y).max() < 1e-15 : return xn
    if (y - xn) @ (xn - x) > 0: t = 1.0
    tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
    y, x, t = xn + (t - 1) / tn * (xn - x), xn, tn
  return x


def strat_con(cfg):
  menu = c06.PROJ if cfg[0] != "prox" and cfg[0] != "prox_unroll" else c06.PROX
  return gen.fixed(p=pb.strat(N, (1.0, 4.0)), h=menu[cfg[1]][1], sseed=gen.seeds, near=st.booleans())


def smooth_direction(sol, h, D, dh, dD, u, x):
  """Two-sided derivative of u'x*(h, D), or None if the one-sided ones differ."""
  e = 1e-4
  f = lambda s: float(u @ sol(add(h, dh, s) if h is not None else None, add(D, dD, s)))
  f0, fp, fm, fp2, fm2 = f(0.), f(e), f(-e), f(2 * e), f(-2 * e)
  a, b = (fp - f0) / e, (f0 - fm) / e
  two, wide = (fp - fm) / (2 * e), (fp2 - fm2) / (4 * e)
  if abs(a - b) > 2e-2 * (1 + abs(a)) or abs(two - wide) > 1e-4 * (1 + abs(two)):
    return None
  return two + (two - wide) / 3


@sub("C08", "composite", strat_con, quick=25, thorough=1000, cfgs=CON, cost=6)
def composite(c, T):
  kind, name, sv = c["cfg"]
  D = pb.normalized(pb.data(N, c["p"]["seed"], c["p"]["kind"], c["p"]["cond"], c["p"]["scale"]))
  h = c06.hyper(c["h"])
  P = (c06.PROX if kind.startswith("prox") else c06.PROJ)[name][2]
  if name in ("hyperplane", "halfspace") and np.linalg.norm(h[0]) < .3: T.trivial(); return
  r = gen.rng(c["sseed"])
  dD, u = direction(D, r), r.standard_normal(N)
  dD["Q"] = dD["Q"] + dD["Q"].T
  dh = direction(h, r)
  if name == "lasso" and h is not None and float(h) < 1e-3: T.trivial(); return
  x = con_solution(P, h, D, np.zeros(N))
  if kind == "mirror" and (x.min() < .02 * float(h)): T.trivial(); return   # entropic steps need an interior solution
  want = smooth_direction(lambda h, D: con_solution(P, h, D, x), h, D, dh, dD, u, x)
  if want is None:
    T.label("kink"); T.trivial(); return
  if sv in ("gmres",):
    e = 1e-6      # fixed point residual Jacobian
    R = lambda x: P(x - pb.grad(x, D), h) - x
    J = np.stack([(R(x + e * v) - R(x - e * v)) / (2 * e) for v in np.eye(N)], 1)
    if krylov_deficient(J.T, u, 1e-3) or np.linalg.cond(J) > 1e4: T.trivial(); return
  x0 = x + .05 * r.standard_normal(N) if c["near"] else r.standard_normal(N)
  if kind == "mirror": x0 = np.abs(x0) + .1; x0 = x0 / x0.sum() * h
  out, (g0, gh, gD) = cached(("c08con", repr(c["cfg"])), lambda: con_build(c["cfg"]))(x0, h, D, u)
  T.close(np64(out), x, 1e-4, 1e-5, f"{kind} {name}: solution")
  un = "unroll" in kind
  if not un: T.ok(np.all(np64(g0) == 0), "non-zero derivative with respect to the initial guess", g=g0)
  got = inner(gD, dD) + (inner(gh, dh) if h is not None else 0.)
  compare(T, got, want, 2e-2 if un else 5e-3 if sv is None else 1e-3, f"{kind} {name} {sv}", scale=np.linalg.norm(u), h=c["h"])


BC = [["least_squares", "lasso"], ["least_squares", "elastic"], ["binary_logreg", "elastic"], ["least_squares_multi", "group"]]


def strat_bc(cfg):
  return gen.fixed(seed=gen.seeds, h=st.tuples(gen.pos(.02, .3), gen.pos(.25, 2)))


@sub("C08", "block_cd", strat_bc, quick=30, thorough=1000, cfgs=BC, cost=4)
def block_cd(c, T):
  fun, px = c["cfg"]
  r = gen.rng(c["seed"])
  n, p, k = 6, 3, 2
  X = r.standard_normal((n, p))
  h = np64(c["h"][0]) if px != "elastic" else tuple(np64(v) for v in c["h"])
  multi = fun == "least_squares_multi"
  y = r.integers(0, 2, n) if fun == "binary_logreg" else r.standard_normal((n, k) if multi else n)
  shape = (p, k) if multi else (p,)
  def grad(W, X, y):
    z = X @ W
    return X.T @ ((1 / (1 + np.exp(-z)) if fun == "binary_logreg" else z) - y) / (n * (k if multi else 1))
  L = np.linalg.eigvalsh(X.T @ X)[-1] / (n * (k if multi else 1))
  ev = np.linalg.eigvalsh(X.T @ X); 
  if ev[0] < .3: T.trivial(); return
  P = lambda z, t: np.stack([c06.PROX[px][2](v, t) for v in z]) if multi else c06.PROX[px][2](z, t)
  def sol(hh, A):
    W = np.zeros(shape)
    hs = tuple(a / L for a in hh[:1]) + tuple(hh[1:]) if isinstance(hh, tuple) else hh / L
    if px == "elastic":      # prox of s*(h0 |x| + h0 h1 x^2 / 2)
      hs = (hh[0] / L, hh[1])
    yv = A[1] if fun != "binary_logreg" else y
    for i in range(6000):
      Wn = P(W - grad(W, A[0], yv) / L, hs)
      if np.abs(Wn - W).max() < 1e-14: break
      W = Wn
    return W.ravel()
  A = (X, np64(y) if fun != "binary_logreg" else np.zeros(1))
  dA, dh, u = direction(A, r), direction(h, r), r.standard_normal(int(np.prod(shape)))
  want = smooth_direction(sol, h, A, dh, dA, u, None)
  if want is None: T.label("kink"); T.trivial(); return
  def build():
    f = getattr(JO, "least_squares" if multi else fun)
    s = jaxopt.BlockCoordinateDescent(fun=f, block_prox=c06.PROX[px][0], tol=1e-10, maxiter=5000, implicit_diff_solve=SOLVE["normal_cg"])
    def go(W0, h, X, y, u):
      if fun == "binary_logreg":
        out, vjp = jax.vjp(lambda h, X: s.run(W0, h, (X, y)).params, h, X)
      else:
        out, vjp = jax.vjp(lambda h, X, y: s.run(W0, h, (X, y)).params, h, X, y)
      return out, vjp(u.reshape(out.shape))
    return jax.jit(go)
  out, g = cached(("c08bc", repr(c["cfg"])), build)(np.zeros(shape), h, X, y, u)
  T.close(np64(out).ravel(), sol(h, A), 1e-4, 1e-6, "block CD solution")
  got = inner(g[0], dh) + inner(g[1], dA[0]) + (inner(g[2], dA[1]) if fun != "binary_logreg" else 0.)
  compare(T, got, want, 1e-3, f"BlockCoordinateDescent {fun} {px}", scale=np.linalg.norm(u))


# --- box-constrained: BoxCDQP, LBFGSB -------------------------------------------------
def strat_box(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4.]), kinds=st.lists(st.sampled_from(["in", "lo", "hi"]), min_size=N, max_size=N))


@sub("C08", "box", strat_box, quick=40, thorough=1500, cfgs=[["BoxCDQP", "normal_cg"], ["BoxCDQP", None], ["LBFGSB", "normal_cg"], ["LBFGSB", "lu"]], cost=3)
def box(c, T):
  name, sv = c["cfg"]
  r = gen.rng(c["seed"])
  Q = gen.spd(N, int(r.integers(2**31)), cond=c["cond"])
  x, m = r.standard_normal(N), np.zeros(N)
  lo, hi = x - r.uniform(.3, 2, N), x + r.uniform(.3, 2, N)
  for i, k in enumerate(c["kinds"]):
    if k == "lo": lo[i] = x[i]; m[i] = r.uniform(.2, 1)
    if k == "hi": hi[i] = x[i]; m[i] = -r.uniform(.2, 1)
  cc = m - Q @ x
  act = np.array([k != "in" for k in c["kinds"]])
  if act.all(): T.label("all active")
  dQ, dc, dl, du_ = r.standard_normal((N, N)), r.standard_normal(N), r.standard_normal(N), r.standard_normal(N)
  dQ = dQ + dQ.T
  u = r.standard_normal(N)
  db = np.where([k == "lo" for k in c["kinds"]], dl, du_)
  dx = np.where(act, db, 0.)
  F = ~act
  if F.any():
    dx[F] = -np.linalg.solve(Q[np.ix_(F, F)], (dQ @ x + dc)[F] + Q[np.ix_(F, act)] @ dx[act])
  def build():
    if name == "BoxCDQP":
      s = jaxopt.BoxCDQP(tol=1e-11, maxiter=5000, implicit_diff_solve=SOLVE[sv])
      run = lambda Q, c, l, h: s.run(jnp.zeros(N), params_obj=(Q, c), params_ineq=(l, h)).params
    else:
      s = jaxopt.LBFGSB(fun=lambda x, Q, c: .5 * jnp.vdot(x, jnp.dot(Q, x)) + jnp.vdot(c, x), tol=1e-9, maxiter=500, implicit_diff_solve=SOLVE[sv])
      run = lambda Q, c, l, h: s.run(jnp.zeros(N), (l, h), Q, c=c).params
    def go(u, *a):
      out, vjp = jax.vjp(run, *a)
      return out, vjp(u)
    return jax.jit(go)
  out, g = cached(("c08box", repr(c["cfg"])), build)(u, Q, cc, lo, hi)
  T.close(np64(out), x, 1e-5, 1e-6, f"{name}: solution")
  # Q enters the optimality conditions through Q x: only its symmetric part is determined for LBFGSB
  got = inner(g, (dQ, dc, dl, du_))
  compare(T, got, float(u @ dx), 1e-4 if sv else 3e-3, f"{name} {sv}", scale=np.linalg.norm(dx) * np.linalg.norm(u), kinds=c["kinds"])


# --- quadratic programs ----------------------------------------------------------------
QP = [dict(solver="EqQP", eq=2, ineq=0, form="dense"), dict(solver="EqQP", eq=1, ineq=0, form="matvec"), dict(solver="EqQP", eq=1, ineq=0, form="fun"),
      dict(solver="OSQP", eq=1, ineq=3, form="dense"), dict(solver="OSQP", eq=0, ineq=3, form="dense"), dict(solver="OSQP", eq=1, ineq=3, form="dense", lu=1),
      dict(solver="OSQP", eq=1, ineq=3, form="matvec"), dict(solver="OSQP", eq=1, ineq=2, form="fun"), dict(solver="BoxOSQP", eq=1, ineq=3, form="dense"),
      dict(solver="BoxOSQP", eq=1, ineq=3, form="dense", unroll=1)]


def qp_sol(p, act):
  """Primal-dual solution for a fixed active set."""
  B = np.concatenate([p["A"], p["G"][act]])
  n, k = len(p["c"]), len(B)
  z = np.linalg.solve(np.block([[p["Q"], B.T], [B, np.zeros((k, k))]]), np.concatenate([-p["c"], p["b"], p["h"][act]]))
  lam = np.zeros(len(p["h"])); lam[act] = z[n + len(p["b"]):]
  return z[:n], z[n:n + len(p["b"])], lam


def strat_qp(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 4.]), active=st.integers(0, 7), dual=st.booleans())


@sub("C08", "qp", strat_qp, quick=30, thorough=1000, cfgs=QP, cost=6)
def qp(c, T):
  cfg = c["cfg"]
  n, me, mi = 4, cfg["eq"], cfg["ineq"]
  p = c07.make_qp(c["seed"], n, me, mi, c["cond"], False, 1.0, c["active"])
  act = np.array([(c["active"] >> i) & 1 for i in range(mi)], bool)
  B = np.concatenate([p["A"], p["G"][act]])
  if len(B) >= n or len(B) and np.linalg.svd(B)[1][-1] < .4 or me and np.abs(p["nu"]).min() < .1: T.trivial(); return
  r = gen.rng(c["seed"] + 1)
  keys = ("Q", "c", "A", "b", "G", "h")
  d = {k: r.standard_normal(p[k].shape) for k in keys}
  d["Q"] = d["Q"] + d["Q"].T
  dual = c["dual"] and cfg["solver"] != "BoxOSQP"
  ux = r.standard_normal(n)
  un, ul = (r.standard_normal(me), r.standard_normal(mi) * act) if dual else (np.zeros(me), np.zeros(mi))
  dot = lambda z: float(ux @ z[0] + un @ z[1] + ul @ z[2])
  e = 1e-5
  pp, pm = ({k: p[k] + s * d[k] for k in keys} for s in (e, -e))
  want = (dot(qp_sol(pp, act)) - dot(qp_sol(pm, act))) / (2 * e)
  def build():
    form = cfg["form"]
    kw = {}
    if form == "matvec": kw.update(matvec_Q=lambda P, v: jnp.dot(P, v), matvec_A=lambda P, v: jnp.dot(P, v))
    if form == "fun": kw.update(fun=lambda x, P: .5 * jnp.vdot(x, jnp.dot(P[0], x)) + jnp.vdot(P[1], x))
    sv = SOLVE["normal_cg"]
    if cfg["solver"] == "EqQP":
      s = jaxopt.EqualityConstrainedQP(tol=1e-12, implicit_diff_solve=sv, solve=SOLVE["normal_cg"] and LS.solve_normal_cg, **kw)
    elif cfg["solver"] == "OSQP":
      if form == "matvec": kw.update(matvec_G=lambda P, v: jnp.dot(P, v))
      s = jaxopt.OSQP(tol=1e-9, maxiter=20000, implicit_diff_solve=sv, eq_qp_solve="lu" if cfg.get("lu") else "cg", **kw)
    else:
      s = jaxopt.BoxOSQP(tol=1e-9, maxiter=20000 if not cfg.get("unroll") else 600, implicit_diff=not cfg.get("unroll"), implicit_diff_solve=sv if not cfg.get("unroll") else None,
                         eq_qp_solve="lu" if cfg.get("unroll") else "cg", stepsize_updates_frequency=10 if not cfg.get("unroll") else 10**6, **kw)
    def run(Q, c, A, b, G, h):
      obj, eq, ineq = (Q, c), (A, b) if me else None, (G, h) if mi else None
      if cfg["solver"] == "EqQP":
        init = KKTSolution(jnp.zeros(n), jnp.zeros(me), None)
        o = s.run(init, obj, eq).params
        return o.primal, o.dual_eq, jnp.zeros(0)
      if cfg["solver"] == "OSQP":
        init = KKTSolution(jnp.zeros(n), jnp.zeros(me) if me else None, jnp.zeros(mi) if mi else None)
        o = s.run(init, obj, eq, ineq).params
        return o.primal, o.dual_eq if me else jnp.zeros(0), o.dual_ineq
      o = s.run(None, obj, jnp.concatenate([A, G]), (jnp.concatenate([b, jnp.full(mi, -jnp.inf)]), jnp.concatenate([b, h]))).params
      return o.primal[0], jnp.zeros(me), jnp.zeros(mi)
    def go(u, *a):
      out, vjp = jax.vjp(run, *a)
      return out, vjp(u)
    return jax.jit(go)
  out, g = cached(("c08qp", repr(cfg)), build)((ux, un, ul), *[p[k] for k in keys])
  T.close(np64(out[0]), p["x"], 1e-4, 1e-5, "QP solution")
  got = inner(g, tuple(d[k] for k in keys))
  compare(T, got, want, 2e-2 if cfg.get("unroll") else 1e-3, f"{cfg}", scale=10.)


# --- fixed points, roots, least squares -------------------------------------------------
FR = [["FixedPointIteration", "normal_cg"], ["FixedPointIteration", None], ["AndersonAcceleration", "gmres"], ["AndersonAcceleration", "normal_cg"],
      ["Broyden", "normal_cg"], ["Broyden", "lu"], ["Bisection", None], ["GaussNewton", "normal_cg"], ["LevenbergMarquardt", "normal_cg"],
      ["LevenbergMarquardt", "cg"], ["IterativeRefinement", "normal_cg"], ["FixedPointIteration", "unroll"], ["AndersonWrapper", "normal_cg"]]


def strat_fr(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 3.]))


@sub("C08", "roots", strat_fr, quick=30, thorough=1000, cfgs=FR, cost=4)
def roots(c, T):
  name, sv = c["cfg"]
  r = gen.rng(c["seed"])
  un = sv == "unroll"
  kw = dict(implicit_diff_solve=SOLVE[sv]) if not un else dict(implicit_diff=False)
  rtol = 3e-3 if sv is None else 1e-3 if un else 2e-4
  u = r.standard_normal(N)
  if name in ("FixedPointIteration", "AndersonAcceleration", "Broyden"):
    W = r.standard_normal((N, N)); W *= .45 / np.linalg.norm(W, 2)
    th = dict(W=W, b=r.standard_normal(N))
    G = lambda x, th: th["W"] @ np.tanh(x) + th["b"]
    J = lambda x: W / np.cosh(x) ** 2 - np.eye(N)
    x = np.zeros(N)
    for _ in range(200): x = G(x, th)
    R = lambda x, th: G(x, th) - x
    jG = lambda x, W, b: jnp.dot(W, jnp.tanh(x)) + b
    def build():
      if name == "Broyden":
        s = jaxopt.Broyden(fun=lambda x, W, b: jG(x, W, b) - x, tol=1e-10, maxiter=300, **kw)
      elif name == "AndersonAcceleration":
        s = jaxopt.AndersonAcceleration(fixed_point_fun=jG, tol=1e-10, maxiter=300, history_size=3, ridge=1e-8, **kw)
      else:
        s = jaxopt.FixedPointIteration(fixed_point_fun=jG, tol=1e-11, maxiter=100 if un else 500, **kw)
      return lambda x0, th: s.run(x0, th["W"], b=th["b"]).params
  elif name == "Bisection":
    th = dict(a=np64(r.uniform(.2, 2)), b=np64(r.uniform(-3, 3)))
    R = lambda x, th: np.array([x[0] ** 3 + th["a"] * x[0] - th["b"]])
    x = np.zeros(1)
    rt = np.roots([1, 0, th["a"], -th["b"]]); x[0] = rt[np.argmin(np.abs(rt.imag))].real
    J = lambda x: np.array([[3 * x[0] ** 2 + float(th["a"])]])
    u = u[:1]
    def build():
      s = jaxopt.Bisection(optimality_fun=lambda x, a, b: x ** 3 + a * x - b, lower=-5., upper=5., tol=1e-12, maxiter=100, check_bracket=False, implicit_diff_solve=LS.solve_cg)
      return lambda x0, th: jnp.reshape(s.run(None, th["a"], b=th["b"]).params, (1,))
  elif name in ("GaussNewton", "LevenbergMarquardt"):
    A = r.standard_normal((6, N)) + np.eye(6)[:, :N] * 2
    th = dict(A=A, b=r.standard_normal(6) * .3)
    def resid(x, th): return th["A"] @ x + .1 * np.sin(th["A"] @ x) - th["b"]
    def R(x, th):
      z = th["A"] @ x
      return th["A"].T @ ((1 + .1 * np.cos(z)) * resid(x, th))
    def J(x):
      e = 1e-6
      return np.stack([(R(x + e * v, th) - R(x - e * v, th)) / (2 * e) for v in np.eye(N)], 1)
    x = np.linalg.lstsq(A, th["b"], rcond=None)[0]
    for _ in range(50): x = x - np.linalg.solve(J(x), R(x, th))
    jr = lambda x, A, b: jnp.dot(A, x) + .1 * jnp.sin(jnp.dot(A, x)) - b
    if np.linalg.cond(J(x)) > 100 or np.abs(R(x, th)).max() > 1e-9: T.trivial(); return
    def build():
      if name == "GaussNewton":
        s = jaxopt.GaussNewton(residual_fun=jr, tol=1e-10, maxiter=100, **kw)
      else:
        s = jaxopt.LevenbergMarquardt(residual_fun=jr, tol=1e-10, gtol=1e-10, xtol=1e-14, maxiter=200, solver="cholesky", **kw)
      return lambda x0, th: s.run(x0, th["A"], b=th["b"]).params
  elif name == "AndersonWrapper":
    D = pb.normalized(pb.data(N, c["seed"] % 1000, "mixed", c["cond"], 1.))
    th = D
    R = lambda x, th: pb.grad(x, th)
    J = lambda x: pb.hess(x, D)
    x = pb.minimizer(D)
    def build():
      s = jaxopt.AndersonWrapper(jaxopt.GradientDescent(fun=pb.fun, tol=1e-9, maxiter=500, stepsize=.9, acceleration=False, **kw), history_size=3, ridge=1e-6)
      return lambda x0, th: s.run(x0, th).params
  else:
    M = gen.spd(N, c["seed"], cond=c["cond"])
    th = dict(A=M, b=r.standard_normal(N))
    R = lambda x, th: th["A"] @ x - th["b"]
    J = lambda x: M
    x = np.linalg.solve(M, th["b"])
    def build():
      s = jaxopt.IterativeRefinement(tol=1e-10, solve=partial(LS.solve_gmres, ridge=1e-6), **kw)
      return lambda x0, th: s.run(None, th["A"], th["b"]).params
  d = direction(th, r)
  if name == "AndersonWrapper": d["Q"] = d["Q"] + d["Q"].T
  Jx = J(x)
  want = -np.linalg.solve(Jx, (R(x, add(th, d, EPS)) - R(x, add(th, d, -EPS))) / (2 * EPS))
  if sv == "gmres" and krylov_deficient(Jx.T, u): T.trivial(); return
  if name == "IterativeRefinement" and krylov_deficient(M + 1e-6 * np.eye(N), th["b"]): T.trivial(); return
  def b2():
    solve = build()
    def go(x0, th, u):
      out, vjp = jax.vjp(solve, x0, th)
      return out, vjp(u)
    return jax.jit(go)
  out, (g0, g) = cached(("c08fr", repr(c["cfg"])), b2)(np.zeros_like(x) if name != "Broyden" else x + .1 * r.standard_normal(N), th, u)
  T.close(np64(out), x, 1e-4, 1e-5, f"{name}: solution")
  if not un and g0 is not None: T.ok(np.all(np64(g0) == 0), "non-zero derivative with respect to the initial guess", g=g0)
  compare(T, inner(g, d), float(u @ want), rtol, f"{name} {sv}", scale=np.linalg.norm(want) * np.linalg.norm(u))


# --- second order -----------------------------------------------------------------------
@sub("C08", "second_order", lambda cfg: gen.fixed(seed=gen.seeds, lam=gen.pos(.3, 3)), quick=20, thorough=500,
     cfgs=["root", "solver"], cost=3)
def second_order(c, T):
  """Derivative of the derivative: ridge regression in its penalty."""
  r = gen.rng(c["seed"])
  X, y, u = r.standard_normal((6, 3)), r.standard_normal(6), r.standard_normal(3)
  lam = float(c["lam"])
  M = X.T @ X + lam * np.eye(3)
  x = np.linalg.solve(M, X.T @ y)
  d1 = -np.linalg.solve(M, x); d2 = -2 * np.linalg.solve(M, d1)
  def build():
    sv = partial(LS.solve_cg, tol=1e-13)
    F = jax.grad(lambda w, lam, X, y: .5 * jnp.sum((jnp.dot(X, w) - y) ** 2) + .5 * lam * jnp.sum(w ** 2))
    if c["cfg"] == "root":
      f = IDF.custom_root(F, solve=sv)(lambda w0, lam, X, y: jnp.linalg.solve(jnp.dot(X.T, X) + lam * jnp.eye(3), jnp.dot(X.T, y)))
      sol = lambda lam, X, y: f(None, lam, X, y)
    else:
      s = jaxopt.LBFGS(fun=lambda w, lam, X, y: .5 * jnp.sum((jnp.dot(X, w) - y) ** 2) + .5 * lam * jnp.sum(w ** 2), tol=1e-11, maxiter=200, implicit_diff_solve=sv)
      sol = lambda lam, X, y: s.run(jnp.zeros(3), lam, X, y=y).params
    g1 = lambda lam, X, y, u: jax.grad(lambda l: jnp.vdot(u, sol(l, X, y)))(lam)
    return jax.jit(lambda lam, X, y, u: (g1(lam, X, y, u), jax.grad(g1)(lam, X, y, u)))
  a, b = cached(("c08so", c["cfg"]), build)(lam, X, y, u)
  compare(T, float(a), float(u @ d1), 1e-5, "first derivative")
  compare(T, float(b), float(u @ d2), 1e-4, "second derivative", scale=np.linalg.norm(d2) * np.linalg.norm(u))


# --- the user's linear solver is the one that is used -----------------------------------

@sub("C08", "linear_solver_option", lambda cfg: gen.fixed(seed=gen.seeds, ridge=st.sampled_from([0., .5, 2.])), quick=4, thorough=60,
     cfgs=["GradientDescent", "BFGS", "LBFGS", "NonlinearCG", "LBFGSB", "ProximalGradient", "ProjectedGradient", "MirrorDescent",
           "ArmijoSGD", "PolyakSGD"], cost=3)
def linear_solver_option(c, T):
  """implicit_diff_solve is honoured by every solver: the vjp is the one of the given solve (seen through its ridge)."""
  name = c["cfg"]
  r = gen.rng(c["seed"])
  Q, cc, u = gen.spd(N, c["seed"], cond=3.), r.standard_normal(N), r.standard_normal(N)
  f = lambda x, c: .5 * jnp.vdot(x, jnp.dot(Q, x)) + jnp.vdot(c, x) + 100.
  extra = dict(ProximalGradient=dict(prox=JP.prox_none), ProjectedGradient=dict(projection=lambda x, h=None: x),
               MirrorDescent=dict(projection_grad=lambda x, g, t, h: x - t * g, stepsize=.3), ArmijoSGD=dict(implicit_diff=True), PolyakSGD=dict(max_stepsize=.3, implicit_diff=True)).get(name, {})
  s = getattr(jaxopt, name)(fun=f, tol=1e-6, maxiter=2000, implicit_diff_solve=partial(LS.solve_lu, ridge=c["ridge"]), **extra)
  pos = dict(ProximalGradient=(None,), ProjectedGradient=(None,), MirrorDescent=(None,), LBFGSB=((jnp.full(N, -1e6), jnp.full(N, 1e6)),)).get(name, ())
  _, vjp = jax.vjp(lambda cc: s.run(jnp.zeros(N), *pos, cc).params, cc)
  got = np64(vjp(u)[0])
  J = Q
  # solvers whose optimality condition is a proximal residual: x - (x - grad), same Jacobian up to sign
  want = -np.linalg.solve(J + c["ridge"] * np.eye(N), u)
  alt = -np.linalg.solve(J - c["ridge"] * np.eye(N), u)
  ok = min(np.abs(got - want).max(), np.abs(got - alt).max())
  T.ok(ok <= 1e-6 * (1 + np.abs(want).max() + np.abs(alt).max()), f"{name}: implicit_diff_solve is not used", got=got, want=want)
