"""C04: derivatives of projections, proxes, isotonic regression and losses."""
import itertools
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jaxopt import projection as P, prox, loss
from jaxopt.isotonic import isotonic_l2_pav
from jaxopt.loss import make_fenchel_young_loss
from pbt import gen
from pbt.core import sub, describe, jitted
from pbt.util import np64, krylov_deficient, kkt_matrix
from pbt.checks.c01 import boxsec_ref, poly_ref, strat_poly

describe("C04", "case = (operator, input, differentiable hyperparameters, joint dense direction, "
         "cotangent); oracle = central finite differences of the (C01/C02/C03-checked) float64 value, "
         "or of an exact numpy reference for iteratively solved projections, at points where left and "
         "right difference quotients agree; plus adjointness <c, J d> = <J^T c, d> everywhere; "
         "non-trivial = differentiable there with nonzero derivative",
         ["a dense random direction of all arguments crosses every kink through the point, so agreeing "
          "one-sided quotients mean differentiability"])

X4 = lambda: gen.vec(4)


def A(*ss):
  return st.tuples(*ss).map(list)


rad = lambda: gen.pos(0.25, 4)
nonz = lambda: gen.vec(4).map(lambda v: v if np.abs(v).max() > 0.1 else (np64(v) + 1).tolist())
sorted_box = lambda: st.tuples(gen.vec(4, -3, 1), gen.vec(4, 0.25, 3)).map(lambda t: (np64(t[0]), np64(t[0]) + np.maximum(np64(t[1]), .25)))


def box_args():
  return st.tuples(X4(), sorted_box()).map(lambda t: [t[0], t[1][0].tolist(), t[1][1].tolist()])


# name -> (function of the differentiable arguments, strategy of the list of arguments)
ITEMS = {
    "non_negative": (P.projection_non_negative, A(X4())),
    "box": (lambda x, l, u: P.projection_box(x, (l, u)), box_args()),
    "box_scalar": (lambda x, l, w: P.projection_box(x, (l, l + w)), A(X4(), gen.nums(-3, 1), rad())),
    "hypercube": (P.projection_hypercube, A(X4(), rad())),
    "simplex": (P.projection_simplex, A(X4(), rad())),
    "simplex_default": (P.projection_simplex, A(X4())),
    "sparse_simplex": (lambda x, v: P.projection_sparse_simplex(x, 2, False, v), A(X4(), rad())),
    "sparse_simplex3_default": (lambda x: P.projection_sparse_simplex(x, 3), A(X4())),
    "l1_sphere": (P.projection_l1_sphere, A(X4(), rad())),
    "l1_ball": (P.projection_l1_ball, A(X4(), rad())),
    "l2_sphere": (P.projection_l2_sphere, A(nonz(), rad())),
    "l2_ball": (P.projection_l2_ball, A(X4(), rad())),
    "linf_ball": (P.projection_linf_ball, A(X4(), rad())),
    "hyperplane": (lambda x, a, b: P.projection_hyperplane(x, (a, b)), A(X4(), nonz(), gen.nums())),
    "halfspace": (lambda x, a, b: P.projection_halfspace(x, (a, b)), A(X4(), nonz(), gen.nums())),
    "prox_none": (lambda x, s: prox.prox_none(x, None, s), A(X4(), rad())),
    "prox_lasso": (prox.prox_lasso, A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "prox_lasso_vec": (prox.prox_lasso, A(X4(), gen.vec(4, 0.05, 3), gen.pos(0.05, 3))),
    "prox_nn_lasso": (prox.prox_non_negative_lasso, A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "prox_elastic_net": (lambda x, a, b, s: prox.prox_elastic_net(x, (a, b), s),
                         A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "prox_elastic_net_vec": (lambda x, a, b, s: prox.prox_elastic_net(x, (a, b), s),
                             A(X4(), gen.vec(4, 0.05, 3), gen.vec(4, 0.05, 3), gen.pos(0.05, 3))),
    "prox_group_lasso": (prox.prox_group_lasso, A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "prox_ridge": (prox.prox_ridge, A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "prox_nn_ridge": (prox.prox_non_negative_ridge, A(X4(), gen.pos(0.05, 3), gen.pos(0.05, 3))),
    "isotonic_inc": (isotonic_l2_pav, A(gen.vec(6))),
    "isotonic_dec": (lambda y: isotonic_l2_pav(y, increasing=False), A(gen.vec(6))),
    "isotonic_bounds": (lambda y, a, w: isotonic_l2_pav(y, a, a + w), A(gen.vec(6), gen.nums(-2, 1), rad())),
    "huber": (lambda t, p, d: jax.vmap(loss.huber_loss, in_axes=(0, 0, None))(t, p, d), A(X4(), X4(), rad())),
    "binary_losses": (lambda x: jnp.concatenate([jax.vmap(f, in_axes=(None, 0))(l, x) for l in (0, 1) for f in (
        loss.binary_logistic_loss, loss.binary_sparsemax_loss, loss.binary_hinge_loss,
        loss.binary_perceptron_loss)] + [loss.sparse_plus(x), loss.sparse_sigmoid(x)]), A(X4())),
    "multiclass_losses": (lambda x: jnp.stack([f(l, x) for l in (0, 2) for f in (
        loss.multiclass_logistic_loss, loss.multiclass_sparsemax_loss, loss.multiclass_hinge_loss,
        loss.multiclass_perceptron_loss)]), A(X4())),
    "grad_losses": (lambda x: jnp.concatenate([jax.grad(f, argnums=1)(1, x) for f in (
        loss.multiclass_logistic_loss, loss.multiclass_sparsemax_loss)]), A(X4())),
    "fenchel_young": (lambda y, s: make_fenchel_young_loss(jax.scipy.special.logsumexp)(y, s)[None], A(X4(), X4())),
}


def _dirs(args, draw):
  return gen.rng(draw(gen.seeds)).standard_normal(sum(np.size(a) for a in args)).tolist()


def strat(name):
  @st.composite
  def s(draw):
    args = draw(ITEMS[name][1])
    if draw(st.integers(0, 9)) == 0:
      args[0] = (np64(args[0]) * 0).tolist() if name != "l2_sphere" else args[0]
    return dict(args=args, d=_dirs(args, draw), c=draw(gen.seeds), batch=draw(st.integers(0, 3)) == 0)
  return s()


def split(args, d):
  out, i = [], 0
  for a in args:
    n = np.size(a)
    out.append(np64(d[i:i + n]).reshape(np.shape(a)))
    i += n
  return out


H = 1e-6


def bundle(f):
  def run(args, d, c):
    out, t = jax.jvp(f, tuple(args), tuple(d))
    _, pull = jax.vjp(f, *args)
    rev = pull(c)
    step = lambda h: f(*[a + h * v for a, v in zip(args, d)])
    return out, t, rev, step(H), step(-H), step(2 * H), step(-2 * H)
  return run


def compare(T, name, out, t, rev, fp, fm, fp2, fm2, d, c, batched=""):
  """t may be None (reverse-only)."""
  out, fp, fm, fp2, fm2 = map(np64, (out, fp, fm, fp2, fm2))
  right, left, cen, cen2 = (fp - out) / H, (out - fm) / H, (fp - fm) / (2 * H), (fp2 - fm2) / (4 * H)
  sc = 1 + np.abs(cen).max()
  smooth = max(np.abs(right - left).max(), np.abs(cen - cen2).max()) <= 2e-5 * sc
  rd = sum(float(np.vdot(np64(r), v)) for r, v in zip(rev, d))
  if t is not None and np.all(np.isfinite(np64(t))) and np.isfinite(rd):
    a = float(np.vdot(c, np64(t)))
    T.ok(abs(a - rd) <= 1e-8 * (1 + sum(np.abs(np64(r)).sum() * np.abs(v).max() for r, v in zip(rev, d)) + np.abs(c).sum() * sc),
         f"{name}{batched}: forward and reverse mode are not adjoint", forward=a, reverse=rd)
  if not smooth:
    T.label("kink")
    T.trivial()
    return
  for r in rev:
    T.finite(r, f"{name}{batched}: reverse-mode derivative at a point of differentiability")
  want = float(np.vdot(c, cen))
  tol = 1e-4 * sc * (1 + np.abs(c).sum())
  if t is not None:
    T.finite(t, f"{name}{batched}: forward-mode derivative at a point of differentiability")
    T.ok(np.abs(np64(t) - cen).max() <= 1e-4 * sc, f"{name}{batched}: jvp differs from finite differences",
         jvp=t, fd=cen)
  T.ok(abs(rd - want) <= tol, f"{name}{batched}: vjp differs from finite differences", vjp=rd, fd=want)
  if np.abs(cen).max() == 0:
    T.trivial()


@sub("C04", "explicit", strat, quick=110, thorough=4000, cfgs=sorted(ITEMS), cost=1)
def explicit(case, T):
  name = case["cfg"]
  f = ITEMS[name][0]
  args = [np64(a) for a in case["args"]]
  d = split(args, case["d"])
  m = len(jax.eval_shape(f, *args))
  c = gen.gauss(m, case["c"])
  compare(T, name, *jitted(("d", name), bundle(f))(args, d, c), d, c)
  if case["batch"]:
    # the same point inside a batch: no row may contaminate it
    r = gen.rng(case["c"] + 1)
    # perturb only first argument in the other row: generic point
    other = [args[0] + r.standard_normal(args[0].shape)] + args[1:]
    B = [np.stack([a, o]) for a, o in zip(args, other)]
    D, C = [np.stack([v, v]) for v in d], np.stack([c, c])
    out = jitted(("dv", name), bundle(jax.vmap(f)))(B, D, C)
    first = lambda v: np64(v)[0]
    o, t, rev, *fs = out
    compare(T, name, first(o), first(t), [first(v) for v in rev], *[first(v) for v in fs], d, c, " (vmap)")


# ----------------------------------------------- projections computed by iterative solvers

def strat_affine(cfg):
  @st.composite
  def s(draw):
    n, m = cfg
    M = np64(draw(gen.array((m, n), -2, 2)))
    M = M + 2.0 * np.eye(m, n)
    u, sv, vt = np.linalg.svd(M, full_matrices=False)
    M = (u * np.clip(sv, 0.7, 4.0)) @ vt
    args = [draw(gen.vec(n)), M.tolist(), draw(gen.vec(m))]
    return dict(args=args, d=_dirs(args, draw), c=draw(gen.seeds))
  return s()


def ref_fd(ref, args, d):
  step = lambda h: ref(*[a + h * v for a, v in zip(args, d)])
  return [step(0.0)], (step(H), step(-H), step(2 * H), step(-2 * H))


@sub("C04", "affine_set", strat_affine, quick=60, thorough=1500, cfgs=[[2, 1], [3, 2], [5, 3]], cost=3)
def affine(case, T):
  args = [np64(a) for a in case["args"]]
  d = split(args, case["d"])
  n = len(args[0])
  c = gen.gauss(n, case["c"])
  f = lambda x, M, b: P.projection_affine_set(x, (M, b))
  def run(args, c):
    out, pull = jax.vjp(f, *args)
    return out, pull(c)
  out, rev = jitted("aff-vjp", run)(args, c)
  x, M, b = args
  if not (np.isfinite(np64(out)).all() and all(np.isfinite(np64(r)).all() for r in rev)):
    K = kkt_matrix(np.eye(n), M)
    if krylov_deficient(K, np.concatenate([x, b])) or krylov_deficient(K, np.concatenate([c, 0 * b])):
      T.known("gmres-breakdown-affine-derivative")
  _, fs = ref_fd(lambda x, M, b: x - np.linalg.pinv(M) @ (M @ x - b), args, d)
  cen = (fs[0] - fs[1]) / (2 * H)
  sc = 1 + np.abs(cen).max()
  rd = sum(float(np.vdot(np64(r), v)) for r, v in zip(rev, d))
  T.ok(np.isfinite(rd), "affine set: derivative not finite", rev=rev)
  # inner systems are solved to relative accuracy 1e-5
  T.ok(abs(rd - c @ cen) <= 2e-3 * sc * (1 + np.abs(c).sum()), "affine set: vjp differs from finite differences of the exact projection",
       vjp=rd, fd=c @ cen)


def strat_bs(cfg):
  @st.composite
  def s(draw):
    n = 3
    al, w = np64(draw(gen.vec(n, -3, 2))), np.maximum(np64(draw(gen.vec(n, 0.5, 2))), .5)
    be = al + np.maximum(np64(draw(gen.vec(n, 0.25, 3))), .25)
    t = draw(gen.floats(0.05, 0.95))
    args = [draw(gen.vec(n)), al.tolist(), be.tolist(), w.tolist(), float(w @ al + t * (w @ be - w @ al))]
    return dict(args=args, d=_dirs(args, draw), c=draw(gen.seeds))
  return s()


@sub("C04", "box_section", strat_bs, quick=200, thorough=4000, cost=2)
def box_section(case, T):
  args = [np64(a) for a in case["args"]]
  d = split(args, case["d"])
  c = gen.gauss(3, case["c"])
  f = lambda x, al, be, w, cc: P.projection_box_section(x, (al, be, w, cc))
  def run(args, c):
    out, pull = jax.vjp(f, *args)
    return out, pull(c)
  out, rev = jitted("bs-vjp", run)(args, c)
  out0, fs = ref_fd(boxsec_ref, args, d)
  x, al, be, w, cc = args
  y = out0[0]
  # the active set must be determined beyond the accuracy of the bisection
  inner = (y > al + 1e-9) & (y < be - 1e-9)
  if not inner.any():
    T.trivial(); T.label("vertex")
    return
  k = np.nonzero(inner)[0][0]
  z = x + w * (y[k] - x[k]) / w[k]
  if min(np.abs(z - al).min(), np.abs(z - be).min()) < 1e-3:
    T.trivial(); T.label("kink")
    return
  compare(T, "box_section", out0[0], None, rev, *fs, d, c)


def strat_poly4(cfg):
  @st.composite
  def s(draw):
    c = draw(strat_poly(dict(shape=cfg)))
    args = [c["x"], c["A"], c["b"], c["G"], c["h"]]
    return dict(args=args, d=_dirs(args, draw), c=draw(gen.seeds))
  return s()


@sub("C04", "polyhedron", strat_poly4, quick=220, thorough=2500, cfgs=[[3, 1, 2], [2, 1, 2]], cost=6)
def polyhedron(case, T):
  args = [np64(a) for a in case["args"]]
  x, Am, b, G, h = args
  n = len(x)
  d = split(args, case["d"])
  c = gen.gauss(n, case["c"])
  y = poly_ref(*args)
  act = np.abs(G @ y - h) < 1e-7
  # domain: strict complementarity and well-conditioned active constraints
  M = np.vstack([Am, G[act]])
  sv = np.linalg.svd(M, compute_uv=False)
  if len(M) > n or sv.min() < 0.4:
    T.trivial(); T.label("degenerate")
    return
  mult = np.linalg.lstsq(M.T, x - y, rcond=None)[0]
  eqm, mult = np.abs(mult[:len(b)]), mult[len(b):]
  if 1e-6 < eqm.min() < 0.1:   # nearly the known finding below
    T.trivial(); T.label("kink")
    return
  if (len(mult) and mult.min() < 0.1) or ((~act).any() and (h - G @ y)[~act].min() < 0.1):
    T.trivial(); T.label("kink")
    return
  f = lambda x, A_, b_, G_, h_: P.projection_polyhedron(x, (A_, b_, G_, h_), check_feasible=False)
  def run(args, c):
    out, pull = jax.vjp(f, *args)
    return out, pull(c)
  out, rev = jitted("poly-vjp", run)(args, c)
  # reference: derivative of the equality-constrained projection on the active set
  def ref(x, A_, b_, G_, h_):
    M, r = np.vstack([A_, G_[act]]), np.concatenate([b_, h_[act]])
    return x - np.linalg.pinv(M) @ (M @ x - r)
  _, fs = ref_fd(ref, args, d)
  cen = (fs[0] - fs[1]) / (2 * H)
  sc = 1 + np.abs(cen).max()
  rd = sum(float(np.vdot(np64(r), v)) for r, v in zip(rev, d))
  T.ok(np.isfinite(rd), "polyhedron: derivative not finite", rev=rev)
  if eqm.min() <= 1e-6 and not abs(rd - c @ cen) <= 3e-2 * sc * (1 + np.abs(c).sum()) / sv.min() ** 2:
    T.known("osqp-zero-multiplier-equality-derivative")
  # primal/dual solution known to ~1e-3: perturbation of the KKT system
  T.ok(abs(rd - c @ cen) <= 3e-2 * sc * (1 + np.abs(c).sum()) / sv.min() ** 2,
       "polyhedron: vjp differs from the derivative on the active set", vjp=rd, fd=c @ cen, active=act)
