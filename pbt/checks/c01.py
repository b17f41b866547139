"""C01: Euclidean projections return the closest feasible point."""
import itertools
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jaxopt import projection as P
from pbt import gen, trees
from pbt.util import krylov_deficient, kkt_matrix
from pbt.core import sub, describe, jitted, cached

describe("C01", "case = (set, set parameters, input vector/pytree) drawn from grid, "
         "continuous, Gaussian, sparse and tied flavours plus feasible and boundary "
         "points; oracle = feasibility residual and variational-inequality gap via the "
         "set's support function (exact optimality certificate), brute force for "
         "non-convex sets; non-trivial = the input is not already feasible (for the "
         "idempotence checks: any distinct case)",
         ["tolerances: 1e-9 relative in float64, solver tolerance for bisection/QP based sets"])

NS = [1, 2, 3, 5, 8]


def _np(x):
  return np.asarray(x, dtype=np.float64)


# ---------------------------------------------------------------------------
# name -> (call, hyperparameter strategy, feasibility residual, support function)
def _sup_simplex(g, v): return v * g.max()
def _sup_l1(g, v): return v * np.abs(g).max()
def _sup_l2(g, v): return v * np.linalg.norm(g)
def _sup_box(g, lu):
  l, u = _np(lu[0]), _np(lu[1])
  with np.errstate(invalid="ignore"):
    return np.sum(np.where(g > 0, g * np.broadcast_to(u, g.shape), np.where(g < 0, g * np.broadcast_to(l, g.shape), 0)))


def hp_radius(n): return gen.pos(0.1, 6.0)


@st.composite
def hp_box(draw, n):
  kind = draw(st.sampled_from(["scalar", "array", "inf", "equal"]))
  if kind == "scalar":
    a, b = sorted([draw(gen.nums()), draw(gen.nums())])
    return [a, b]
  a, b = _np(draw(gen.vec(n))), _np(draw(gen.vec(n)))
  lo, hi = np.minimum(a, b), np.maximum(a, b)
  if kind == "inf":
    m = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    lo = np.where(np.isin(m, [1, 3]), -np.inf, lo)
    hi = np.where(np.isin(m, [2, 3]), np.inf, hi)
  if kind == "equal":
    hi = lo.copy()
  return [lo.tolist(), hi.tolist()]


@st.composite
def hp_plane(draw, n):
  a = _np(draw(gen.vec(n)))
  if np.abs(a).max() < 0.1:
    a = a + 1.0
  return [a.tolist(), draw(gen.nums())]


SETS = {
    "non_negative": dict(f=lambda x, h: P.projection_non_negative(x), hp=lambda n: st.none(),
                         feas=lambda p, h: max(0, -p.min()),
                         gap=lambda g, p, h: max(g.max(), 0) * 10 - g @ p),
    "box": dict(f=P.projection_box, hp=hp_box,
                feas=lambda p, h: max(0, (_np(h[0]) - p).max(), (p - _np(h[1])).max()),
                sup=_sup_box),
    "hypercube": dict(f=P.projection_hypercube, hp=hp_radius,
                      feas=lambda p, h: max(0, -p.min(), (p - h).max()),
                      sup=lambda g, h: _sup_box(g, (0., h))),
    "hypercube_default": dict(f=lambda x, h: P.projection_hypercube(x), hp=lambda n: st.none(),
                              feas=lambda p, h: max(0, -p.min(), (p - 1).max()),
                              sup=lambda g, h: _sup_box(g, (0., 1.))),
    "simplex": dict(f=P.projection_simplex, hp=hp_radius,
                    feas=lambda p, h: max(0, -p.min(), abs(p.sum() - h)), sup=_sup_simplex),
    "simplex_default": dict(f=lambda x, h: P.projection_simplex(x), hp=lambda n: st.none(),
                            feas=lambda p, h: max(0, -p.min(), abs(p.sum() - 1)),
                            sup=lambda g, h: _sup_simplex(g, 1.)),
    "l1_ball": dict(f=P.projection_l1_ball, hp=hp_radius,
                    feas=lambda p, h: max(0, np.abs(p).sum() - h), sup=_sup_l1),
    "l1_ball_default": dict(f=lambda x, h: P.projection_l1_ball(x), hp=lambda n: st.none(),
                            feas=lambda p, h: max(0, np.abs(p).sum() - 1),
                            sup=lambda g, h: _sup_l1(g, 1.)),
    "l2_ball": dict(f=P.projection_l2_ball, hp=hp_radius,
                    feas=lambda p, h: max(0, np.linalg.norm(p) - h), sup=_sup_l2),
    "l2_ball_default": dict(f=lambda x, h: P.projection_l2_ball(x), hp=lambda n: st.none(),
                            feas=lambda p, h: max(0, np.linalg.norm(p) - 1),
                            sup=lambda g, h: _sup_l2(g, 1.)),
    "linf_ball": dict(f=P.projection_linf_ball, hp=hp_radius,
                      feas=lambda p, h: max(0, np.abs(p).max() - h),
                      sup=lambda g, h: h * np.abs(g).sum()),
    "linf_ball_default": dict(f=lambda x, h: P.projection_linf_ball(x), hp=lambda n: st.none(),
                              feas=lambda p, h: max(0, np.abs(p).max() - 1),
                              sup=lambda g, h: np.abs(g).sum()),
    "hyperplane": dict(f=P.projection_hyperplane, hp=hp_plane,
                       feas=lambda p, h: abs(_np(h[0]) @ p - h[1]),
                       gap=lambda g, p, h: np.linalg.norm(g - (g @ _np(h[0])) / (_np(h[0]) @ _np(h[0])) * _np(h[0]))),
    "halfspace": dict(f=P.projection_halfspace, hp=hp_plane,
                      feas=lambda p, h: max(0, _np(h[0]) @ p - h[1]),
                      gap=lambda g, p, h: _gap_half(g, p, _np(h[0]), h[1])),
}


def _gap_half(g, p, a, b):
  lam = (g @ a) / (a @ a)
  return max(np.linalg.norm(g - lam * a), -lam, lam * (b - a @ p))


def conv(h):
  """JSON hyperparameters to what a user passes: arrays, scalars, tuples."""
  if h is None or np.isscalar(h):
    return h
  return tuple(jnp.asarray(v) if isinstance(v, list) else v for v in h)


def call(name, x, h):
  f = jitted(("c01", name), SETS[name]["f"])
  return f(x, conv(h))


def certify(T, name, x, p, h, tol, scale=None):
  S = SETS[name]
  T.ok(p.shape == x.shape, "shape changed", got=p.shape)
  T.finite(p, f"projection {name}")
  scale = scale or (1 + np.abs(x).max() ** 2 + (h if np.isscalar(h) and h is not None else 1) ** 2) * len(x)
  if name in ("hyperplane", "halfspace"):
    scale *= 1 + abs(h[1]) + np.abs(h[0]).max() ** 2 + 1 / np.abs(h[0]).max() ** 2
  fe = S["feas"](p, h)
  T.ok(fe <= tol * scale, f"{name}: infeasible result", violation=fe, p=p)
  g = x - p
  gap = S["gap"](g, p, h) if "gap" in S else S["sup"](g, h) - g @ p
  T.ok(gap <= tol * scale, f"{name}: a closer feasible point exists", gap=gap, p=p)


def strat_cert(name):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from(NS))
    h = draw(SETS[name]["hp"](n))
    mag = draw(st.sampled_from([1, 1, 1, 100, 0.01]))
    x = (_np(draw(gen.vec(n))) * mag).tolist()
    y = (_np(draw(gen.vec(n))) * mag).tolist()
    return dict(h=h, x=x, y=y)
  return s()


@sub("C01", "certificate", strat_cert, quick=260, thorough=6000, cfgs=sorted(SETS), cost=0.5)
def certificate(c, T):
  name, h = c["cfg"], c["h"]
  x, y = _np(c["x"]), _np(c["y"])
  p = _np(call(name, x, h))
  certify(T, name, x, p, h, 1e-9)
  if SETS[name]["feas"](x, h) <= 0:
    T.label("already feasible")
    T.close(p, x, 1e-12, 1e-12, f"{name}: feasible input moved")
  pp = _np(call(name, p, h))
  sc = 1 + np.abs(x).max()
  T.close(pp, p, 1e-9, 1e-9 * sc, f"{name}: not idempotent")
  q = _np(call(name, y, h))
  T.ok(np.linalg.norm(p - q) <= np.linalg.norm(x - y) * (1 + 1e-9) + 1e-9 * sc,
       f"{name}: expansive", x=x, y=y)
  if np.abs(x - p).max() < 1e-12:
    T.trivial()


@sub("C01", "certificate_f32", strat_cert, quick=120, thorough=3000, x64=False, cfgs=sorted(SETS), cost=0.4)
def certificate_f32(c, T):
  name, h = c["cfg"], c["h"]
  x = np.asarray(c["x"], np.float32)
  p32 = call(name, x, h)
  T.ok(p32.dtype == jnp.float32, "dtype changed", got=p32.dtype)
  certify(T, name, x.astype(float), _np(p32), h, 3e-5)


def strat_feasible(name):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from(NS))
    h = draw(SETS[name]["hp"](n))
    return dict(h=h, u=draw(gen.vec(n, 0.0, 1.0)), t=draw(st.sampled_from([0.0, 0.5, 0.999, 1.0])),
                s=draw(st.lists(st.sampled_from([-1, 1]), min_size=n, max_size=n)))
  return s()


@sub("C01", "feasible_fixed", strat_feasible, quick=120, thorough=3000, cost=0.3,
     cfgs=["simplex", "simplex_default", "l1_ball", "l2_ball", "linf_ball", "hypercube", "box", "l2_ball_default", "l1_ball_default"])
def feasible_fixed(c, T):
  """Points constructed inside or on the boundary of the set do not move."""
  name, h = c["cfg"], c["h"]
  u, t, sg = _np(c["u"]), c["t"], _np(c["s"])
  r = 1.0 if h is None else h
  if name.startswith("simplex"):
    x = (u + 1e-300) / (u + 1e-300).sum() * r if u.sum() > 0 else np.full(len(u), r / len(u))
  elif name.startswith("l1"):
    x = sg * (u / max(u.sum(), 1e-9)) * r * t
  elif name.startswith("l2"):
    x = sg * u / max(np.linalg.norm(u), 1e-9) * r * t
  elif name == "linf_ball":
    x = sg * u * r
  elif name == "hypercube":
    x = u * r
  else:
    lo, hi = _np(h[0]), _np(h[1])
    lo = np.broadcast_to(np.where(np.isinf(lo), np.minimum(hi, 5) - 2, lo), u.shape)
    hi = np.broadcast_to(np.where(np.isinf(hi), np.maximum(lo, -5) + 2, hi), u.shape)
    x = np.clip(lo + u * (hi - lo), lo, hi)
  p = _np(call(name, x, h))
  T.close(p, x, 1e-12, 1e-12 * (1 + np.abs(x).max()), f"{name}: feasible point moved")


# --- non-convex sets --------------------------------------------------------
def simplex_ref(x, v):
  """Independent reference: bisection-free, by enumeration of support sizes."""
  u = np.sort(x)[::-1]
  best, arg = np.inf, None
  for k in range(1, len(x) + 1):
    tau = (u[:k].sum() - v) / k
    p = np.maximum(x - tau, 0)
    if abs(p.sum() - v) <= 1e-9 * (1 + abs(v) + np.abs(x).max()):
      d = ((p - x) ** 2).sum()
      if d < best:
        best, arg = d, p
  return arg, best


def strat_sparse(cfg):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from([2, 3, 5, 6]))
    k = draw(st.integers(1, n))
    return dict(x=draw(gen.vec(n)), k=k, v=draw(st.one_of(st.none(), hp_radius(n))))
  return s()


@sub("C01", "sparse_simplex", strat_sparse, quick=350, thorough=6000, cost=0.6, cfgs=[False, True])
def sparse_simplex(c, T):
  x, k, v = _np(c["x"]), c["k"], c["v"]
  approx = c["cfg"]
  if v is None:
    p = _np(jitted(("sps", k, approx), lambda x: P.projection_sparse_simplex(x, k, approx))(x))
    v = 1.0
  else:
    p = _np(jitted(("spsv", k, approx), lambda x, v: P.projection_sparse_simplex(x, k, approx, v))(x, v))
  T.finite(p, "sparse simplex")
  T.ok(p.shape == x.shape, "shape")
  sc = (1 + np.abs(x).max() + v) ** 2
  T.ok(p.min() >= -1e-12 and abs(p.sum() - v) <= 1e-9 * sc and (p > 0).sum() <= k,
       "sparse simplex: infeasible", p=p, k=k, v=v)
  best = np.inf
  for s in itertools.combinations(range(len(x)), k):
    s = list(s)
    _, d = simplex_ref(x[s], v)
    best = min(best, d + (x ** 2).sum() - (x[s] ** 2).sum())
  d = ((x - p) ** 2).sum()
  T.ok(d <= best + 1e-8 * sc, "sparse simplex: not closest", d=d, best=best, p=p)
  T.ok(d >= best - 1e-8 * sc, "impossible distance")


def strat_sphere(cfg):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from(NS))
    x = _np(draw(gen.vec(n)))
    if cfg.startswith("l2") and np.abs(x).max() < 1e-3:
      x = x + 1.0   # projection of the origin onto the l2 sphere is not a function
    return dict(x=x.tolist(), v=draw(hp_radius(n)))
  return s()


@sub("C01", "sphere", strat_sphere, quick=400, thorough=8000, cfgs=["l1", "l2", "l1_default", "l2_default"], cost=0.3)
def sphere(c, T):
  x, v, kind = _np(c["x"]), c["v"], c["cfg"]
  base = P.projection_l1_sphere if kind.startswith("l1") else P.projection_l2_sphere
  if kind.endswith("default"):
    p, v = _np(jitted(("sph", kind), lambda x: base(x))(x)), 1.0
  else:
    p = _np(jitted(("sph", kind), base)(x, v))
  T.ok(p.shape == x.shape, "shape")
  T.finite(p, kind)
  sc = (1 + np.abs(x).max() + v) ** 2 * len(x)
  if kind.startswith("l1"):
    T.ok(abs(np.abs(p).sum() - v) <= 1e-9 * sc, "l1 sphere: wrong norm", p=p, x=x, v=v)
    _, best = simplex_ref(np.abs(x), v)
  else:
    T.ok(abs(np.linalg.norm(p) - v) <= 1e-9 * sc, "l2 sphere: wrong norm", p=p)
    best = (np.linalg.norm(x) - v) ** 2
  d = ((x - p) ** 2).sum()
  T.ok(d <= best + 1e-8 * sc, f"{kind} sphere: not closest", d=d, best=best, p=p)


# --- box section ------------------------------------------------------------
def strat_boxsec(cfg):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from([1, 2, 3, 5]))
    a, b = _np(draw(gen.vec(n, -3, 3))), _np(draw(gen.vec(n, 0, 3)))
    w = _np(draw(gen.vec(n, 0.5, 2.0)))
    w = np.maximum(w, 0.5)
    beta = a + b
    t = draw(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.9, 0.1]))
    t2 = draw(gen.floats(0, 1))
    use = draw(st.booleans())
    c = w @ a + (t if use else t2) * (w @ beta - w @ a)
    return dict(x=draw(gen.vec(n)), alpha=a.tolist(), beta=beta.tolist(), w=w.tolist(), c=float(c))
  return s()


def boxsec_ref(x, al, be, w, c):
  """Exact: w.clip(x + w t) is piecewise linear and increasing in t."""
  bp = np.sort(np.concatenate([(al - x) / w, (be - x) / w]))
  F = lambda t: w @ np.clip(x + w * t, al, be)
  vals = np.array([F(t) for t in bp])
  if c <= vals[0]:
    return np.clip(x + w * bp[0], al, be)
  if c >= vals[-1]:
    return np.clip(x + w * bp[-1], al, be)
  i = np.searchsorted(vals, c, side="left")
  t0, t1, v0, v1 = bp[i - 1], bp[i], vals[i - 1], vals[i]
  t = t0 if v1 <= v0 else t0 + (c - v0) / (v1 - v0) * (t1 - t0)
  return np.clip(x + w * t, al, be)


@sub("C01", "box_section_checked", strat_boxsec, quick=40, thorough=500, cfgs=["check_feasible"], cost=8)
def box_section_checked(c, T):
  box_section(c, T)


@sub("C01", "box_section", strat_boxsec, quick=500, thorough=8000, cfgs=["jit", "f32"], cost=0.8)
def box_section(c, T):
  f32 = c["cfg"] == "f32"
  dt = np.float32 if f32 else np.float64
  x, al, be, w = (np.asarray(c[k], dt) for k in ("x", "alpha", "beta", "w"))
  cc = c["c"]
  if c["cfg"] == "check_feasible":
    # rounding of c at the ends of the feasible range may legitimately be rejected
    lo, hi = float(jnp.dot(w, al)), float(jnp.dot(w, be))
    f = cached("bxs", lambda: P.projection_box_section)
    if not (lo <= cc <= hi):
      if cc < lo - 1e-6 or cc > hi + 1e-6:
        raise AssertionError
      T.trivial()
      return
    if T and len(x) > 2:
      T.label("eager")
    p = _np(P.projection_box_section(jnp.asarray(x), tuple(map(jnp.asarray, (al, be, w))) + (cc,), check_feasible=True))
  else:
    p = _np(jitted("bxs", P.projection_box_section)(x, (al, be, w, dt(cc))))
  T.finite(p, "box section")
  ref = boxsec_ref(*[v.astype(float) for v in (x, al, be, w)], cc)
  width = float(((be - x) / w).max() - ((al - x) / w).min())
  # accuracy of the inner bisection: residual 1e-5, or its 30 halvings
  tol = 3e-5 + 4 * width * 2.0**-29 + (2e-5 * (1 + np.abs(x).max() + np.abs(al).max() + np.abs(be).max()) * len(x) if f32 else 0)
  T.ok((p >= al - 1e-6).all() and (p <= be + 1e-6).all(), "box section: outside the box", p=p)
  T.ok(abs(w @ p - cc) <= 4 * tol, "box section: off the plane", r=float(w @ p - cc), p=p, ref=ref)
  T.close(p, ref, 0, 12 * tol, "box section: not the closest point")


def strat_boxsec_inf(cfg):
  @st.composite
  def s(draw):
    c = draw(strat_boxsec(None))
    w, al, be = _np(c["w"]), _np(c["alpha"]), _np(c["beta"])
    d = draw(st.floats(0.05, 3.0))
    c["c"] = float(w @ be + d) if cfg == "above" else float(w @ al - d)
    return c
  return s()


@sub("C01", "box_section_infeasible", strat_boxsec_inf, quick=25, thorough=300, cfgs=["above", "below"], cost=2)
def box_section_infeasible(c, T):
  hp = tuple(jnp.asarray(c[k]) for k in ("alpha", "beta", "w")) + (c["c"],)
  try:
    P.projection_box_section(jnp.asarray(c["x"]), hp, check_feasible=True)
  except ValueError:
    return
  T.ok(False, "infeasible box section accepted with check_feasible=True")


# --- affine sets and polyhedra ----------------------------------------------
def strat_affine(cfg):
  @st.composite
  def s(draw):
    n, m = cfg
    A = _np(draw(gen.array((m, n), -2, 2)))
    # keep A well conditioned: the solver documents no support for redundancy
    A = A + 2.0 * np.eye(m, n) * draw(st.sampled_from([1, -1]))
    u, sv, vt = np.linalg.svd(A, full_matrices=False)
    A = (u * np.clip(sv, 0.7, 4.0)) @ vt
    return dict(A=A.tolist(), b=draw(gen.vec(m)), x=draw(gen.vec(n)))
  return s()


@sub("C01", "affine_set", strat_affine, quick=150, thorough=3000, cfgs=[[2, 1], [3, 2], [5, 3], [3, 3], [1, 1]], cost=0.8)
def affine_set(c, T):
  A, b, x = _np(c["A"]), _np(c["b"]), _np(c["x"])
  p = _np(jitted("aff", P.projection_affine_set)(x, (A, b)))
  if not np.isfinite(p).all() and krylov_deficient(
      kkt_matrix(np.eye(len(x)), A), np.concatenate([x, b])):
    T.known("gmres-breakdown-affine")
  T.finite(p, "affine set")
  ref = x - np.linalg.pinv(A) @ (A @ x - b)
  T.close(A @ p, b, 1e-4, 1e-4, "affine set: off the set")
  T.close(p, ref, 2e-4, 2e-4, "affine set: not the closest point")


def poly_ref(x, A, b, G, h):
  """Exact projection by enumerating active sets of the inequalities."""
  best, arg = np.inf, None
  m = len(h)
  for k in range(m + 1):
    for act in itertools.combinations(range(m), k):
      M = np.vstack([A, G[list(act)]]) if k else A
      r = np.concatenate([b, h[list(act)]]) if k else b
      if len(r):
        y = x - np.linalg.pinv(M) @ (M @ x - r)
        if np.abs(M @ y - r).max() > 1e-8:
          continue
      else:
        y = x
      if m and (G @ y - h).max() > 1e-8:
        continue
      d = ((x - y) ** 2).sum()
      if d < best:
        best, arg = d, y
  return arg


def strat_poly(cfg):
  @st.composite
  def s(draw):
    n, me, mi = cfg["shape"]
    G = _np(draw(gen.array((mi, n), -2, 2, flavors=("grid", "gauss", "cont"))))
    nr = np.linalg.norm(G, axis=1)
    G = np.where(nr[:, None] < 0.5, 1.0, G)
    A = _np(draw(gen.array((me, n), -2, 2, flavors=("grid", "gauss"))))
    A = A + 2.0 * np.eye(me, n)
    x0 = _np(draw(gen.vec(n, -2, 2)))          # a point of the polyhedron
    slack = _np(draw(gen.vec(mi, 0, 2)))
    x = x0 if draw(st.integers(0, 9)) == 0 else _np(draw(gen.vec(n)))
    return dict(A=A.tolist(), b=(A @ x0).tolist(), G=G.tolist(), h=(G @ x0 + slack).tolist(), x=x.tolist())
  return s()


@sub("C01", "polyhedron_checked", strat_poly, quick=8, thorough=200, cost=20,
     cfgs=[dict(shape=[3, 1, 4], check=True), dict(shape=[2, 1, 2], check=True),
           dict(shape=[2, 1, 3], check=True), dict(shape=[3, 2, 2], check=True)])
def polyhedron_checked(c, T):
  polyhedron(c, T)


@sub("C01", "polyhedron", strat_poly, quick=120, thorough=2000, cost=2,
     cfgs=[dict(shape=[2, 1, 2], check=False), dict(shape=[3, 1, 4], check=False)])
def polyhedron(c, T):
  A, b, G, h, x = (_np(c[k]) for k in ("A", "b", "G", "h", "x"))
  n = len(x)
  A, G = A.reshape(-1, n), G.reshape(-1, n)
  chk = c["cfg"]["check"]
  if chk:
    p = _np(P.projection_polyhedron(jnp.asarray(x), tuple(map(jnp.asarray, (A, b, G, h))), check_feasible=True))
  else:
    p = _np(jitted("poly", lambda x, hp: P.projection_polyhedron(x, hp, check_feasible=False))(x, (A, b, G, h)))
  T.finite(p, "polyhedron")
  # the default solver stops when its residuals are below 1e-3 in inf norm
  T.ok(np.abs(A @ p - b).max() <= 2.5e-3 and (G @ p - h).max() <= 2.5e-3, "polyhedron: infeasible", p=p,
       eq=np.abs(A @ p - b).max(), ineq=(G @ p - h).max())
  # p must be the exact projection (up to 1e-3, projections being non-expansive) onto
  # the polyhedron whose constraints are moved by these residuals; unlike the distance
  # to the unperturbed solution this does not depend on the conditioning of the set
  near = np.abs(G @ p - h) <= 2.5e-3
  ref = poly_ref(x, A, A @ p, G, np.where(near | (G @ p > h), G @ p, h))
  T.close(p, ref, 0, 1e-2, "polyhedron: not the closest point")
  if np.abs(x - p).max() < 1e-6:
    T.trivial()


# --- pytrees ----------------------------------------------------------------
TREE_SETS = ["non_negative", "box", "box_tree", "hypercube", "l2_ball", "linf_ball", "hyperplane", "halfspace", "l2_sphere"]


def strat_tree(name):
  @st.composite
  def s(draw):
    t = draw(st.sampled_from(["dict", "tuple", "nested", "mat", "leaf4", "list"]))
    n = trees.size(t)
    x = _np(draw(gen.vec(n)))
    if name == "l2_sphere":
      h = draw(hp_radius(n))
      if np.abs(x).max() < 1e-3:
        x = x + 1.0
    elif name == "box_tree":
      a, b = _np(draw(gen.vec(n))), _np(draw(gen.vec(n)))
      h = [np.minimum(a, b).tolist(), np.maximum(a, b).tolist()]
    elif name == "box":
      h = sorted([draw(gen.nums()), draw(gen.nums())])
    else:
      h = draw(SETS[name]["hp"](n))
    return dict(t=t, x=x.tolist(), h=h)
  return s()


@sub("C01", "pytree", strat_tree, quick=60, thorough=1000, cfgs=TREE_SETS, cost=1.5)
def pytree(c, T):
  """A pytree is projected like the concatenation of its leaves."""
  name, t, x, h = c["cfg"], c["t"], _np(c["x"]), c["h"]
  tx = trees.build(t, x, jnp.asarray)
  th = h
  if name in ("hyperplane", "halfspace"):
    th = (trees.build(t, _np(h[0]), jnp.asarray), h[1])
  elif name == "box_tree":
    th = (trees.build(t, _np(h[0]), jnp.asarray), trees.build(t, _np(h[1]), jnp.asarray))
  elif name == "box":
    th = tuple(h)
  f = P.projection_l2_sphere if name == "l2_sphere" else SETS[name.replace("_tree", "")]["f"]
  out = f(tx, th)
  T.ok(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(tx), "structure changed")
  for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(tx)):
    T.ok(a.shape == b.shape and a.dtype == b.dtype, "leaf shape/dtype changed", got=(a.shape, a.dtype), want=(b.shape, b.dtype))
  p = trees.flat(out)
  if name == "l2_sphere":
    T.close(p, x * h / np.linalg.norm(x), 1e-9, 1e-9, "l2 sphere pytree")
  else:
    certify(T, name.replace("_tree", ""), x, p, h, 1e-9)


# --- batching ---------------------------------------------------------------
def strat_vmap(name):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from([2, 4]))
    hs = SETS[name]["hp"](n)
    return dict(h=draw(hs), x=draw(gen.array((3, n))))
  return s()


@sub("C01", "vmap", strat_vmap, quick=60, thorough=1000, cfgs=["simplex", "l1_ball", "l2_ball", "halfspace"], cost=0.6)
def vmapped(c, T):
  """Batching does not change any row (feasible and infeasible rows mixed)."""
  name, X, h = c["cfg"], _np(c["x"]), conv(c["h"])
  f = SETS[name]["f"]
  got = _np(jitted(("vm", name), jax.vmap(f, in_axes=(0, None)))(X, h))
  for r in range(3):
    T.close(got[r], _np(call(name, X[r], c["h"])), 1e-10, 1e-10, f"{name}: batched row differs")
