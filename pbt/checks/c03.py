"""C03: losses and objectives equal their definitions and are stable."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jax.scipy.special import logsumexp
from jaxopt import loss, objective, base
from jaxopt._src import linear_operator
from pbt import gen, trees
from pbt.core import sub, describe, jitted
from pbt.util import np64

describe("C03", "case = (loss or objective, labels, logits of magnitude 1e-3..1e6 with ties and "
         "breakpoints, class counts, data matrices, regularization); oracle = numpy float64 "
         "implementation of the documented formula and of its gradient, Fenchel-Young identities, "
         "curvature bounds; non-trivial = not all logits zero",
         ["nonsmooth losses are checked by subgradient inclusion at kinks"])

# ------------------------------------------------------------------ scalar losses

def np_sparse_plus(x):
  return np.where(x <= -1, 0.0, np.where(x >= 1, x, (np.clip(x, -1, 1) + 1) ** 2 / 4))


def np_sigmoid(x):
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def scalar_ref(name, a, x, delta):
  """Value, lower and upper derivative w.r.t. the second argument."""
  if name == "huber":
    d = x - a
    v = np.where(np.abs(d) > delta, delta * (np.abs(d) - .5 * delta), .5 * np.minimum(np.abs(d), 2 * delta) ** 2)
    g = np.clip(d, -delta, delta)
    return v, g, g
  sg = 2 * a - 1
  m = np.where(a == 1, -x, x)
  if name == "binary_logistic":
    g = np.where(a == 1, -np_sigmoid(-x), np_sigmoid(x))
    return np.logaddexp(0, m), g, g
  if name == "binary_sparsemax":
    g = -sg * np.clip((m + 1) / 2, 0, 1)
    return np_sparse_plus(m), g, g
  if name == "sparse_plus":
    g = np.clip((x + 1) / 2, 0, 1)
    return np_sparse_plus(x), g, g
  if name == "sparse_sigmoid":
    g = np.where((x > -1) & (x < 1), 0.5, 0.0)
    k = np.abs(x) == 1
    return np.clip((x + 1) / 2, 0, 1), np.where(k, 0, g), np.where(k, .5, g)
  off = 1.0 if name == "binary_hinge" else 0.0
  z = off - sg * x
  g = np.where(z > 0, -sg, 0.0)
  k = z == 0
  return np.maximum(0, z), np.where(k, np.minimum(-sg, 0), g), np.where(k, np.maximum(-sg, 0), g)


SCALAR = dict(huber=lambda a, x, d: loss.huber_loss(a, x, d),
              binary_logistic=lambda a, x, d: loss.binary_logistic_loss(a, x),
              binary_sparsemax=lambda a, x, d: loss.binary_sparsemax_loss(a, x),
              sparse_plus=lambda a, x, d: loss.sparse_plus(x),
              sparse_sigmoid=lambda a, x, d: loss.sparse_sigmoid(x),
              binary_hinge=lambda a, x, d: loss.binary_hinge_loss(a, x),
              binary_perceptron=lambda a, x, d: loss.binary_perceptron_loss(a, x))
MAGS = [1, 1, 1, 1e-3, 30, 1e3, 1e6]


def strat_scalar(name):
  @st.composite
  def s(draw):
    x = np64(draw(gen.vec(6))) * draw(st.sampled_from(MAGS))
    if name == "huber":
      a = draw(gen.vec(6))
    else:
      a = draw(st.lists(st.integers(0, 1), min_size=6, max_size=6))
    return dict(x=np.asarray(x, np.float32).tolist(), a=a, d=draw(gen.pos(0.05, 4)),
                form=draw(st.sampled_from(["array", "python"])), i=draw(st.integers(0, 5)))
  return s()


def scalar_loss(c, T, dt, tol):
  name = c["cfg"]
  f = SCALAR[name]
  x = np.asarray(c["x"], dt)
  a = np.asarray(c["a"], dt if name == "huber" else np.int32)
  d = np.asarray(c["d"], dt)
  if not x.any():
    T.trivial()
  vg = jitted(("sl", name), jax.vmap(jax.value_and_grad(f, argnums=1), in_axes=(0, 0, None)))
  v, g = vg(a, x, d)
  rv, lo, hi = scalar_ref(name, np64(a), np64(x), np64(d))
  sc = np.abs(np64(x)) + 1
  T.ok(np.asarray(v).dtype == dt, "dtype", got=np.asarray(v).dtype)
  T.finite(v, name); T.finite(g, name + " gradient")
  rel = sc if name != "binary_logistic" else np.abs(rv)
  if name == "huber":
    rel = (sc + np.abs(np64(a))) * max(1.0, float(c["d"])) ** 2
  T.ok(np.all(np.abs(np64(v) - rv) <= tol * rel + 1e-37), f"{name}: value", got=v, want=rv, x=x, a=a, d=d)
  g = np64(g)
  gt = tol * (1 + np.abs(np64(a)) + (np.abs(np64(x)) if name == "huber" else 0))
  T.ok(np.all((g >= lo - gt) & (g <= hi + gt)), f"{name}: gradient", got=g, lo=lo, hi=hi, x=x, a=a, d=d)
  i = c["i"]
  v1 = f(a[i] if c["form"] == "array" else a[i].item(),
         x[i] if c["form"] == "array" else x[i].item(), d if c["form"] == "array" else d.item())
  T.ok(abs(float(v1) - rv[i]) <= tol * np.broadcast_to(rel, rv.shape)[i] + 1e-37,
       f"{name}: eager scalar value", got=v1, want=rv[i], x=x[i], a=a[i])
  if name == "huber" and c["d"] == 1:
    T.close(loss.huber_loss(a, x), rv, tol, tol * 4, "huber default delta")


@sub("C03", "scalar", strat_scalar, quick=120, thorough=4000, cfgs=sorted(SCALAR))
def scalar(c, T):
  scalar_loss(c, T, np.float64, 1e-13)


@sub("C03", "scalar_f32", strat_scalar, quick=60, thorough=2000, cfgs=sorted(SCALAR), x64=False)
def scalar_f32(c, T):
  scalar_loss(c, T, np.float32, 2e-6)


# ---------------------------------------------------------------- multiclass losses

def np_softmax(s):
  e = np.exp(s - s.max())
  return e / e.sum()


def np_sparsemax(s):
  u = np.sort(s)[::-1]
  # exact threshold, relative to the maximum to avoid cancellation
  v = u - u[0]
  k = np.arange(1, len(v) + 1)
  t = (np.cumsum(v) - 1) / k
  r = np.nonzero(v - t > 0)[0][-1]
  return np.maximum(s - u[0] - t[r], 0)


def multi_ref(name, y, s):
  o = np.zeros(len(s)); o[y] = 1
  r = s - s[y]
  if name == "logistic":
    m = r.max()
    v = m + np.log(np.exp(r - m).sum()) if m > 0 else np.log1p(np.exp(np.delete(r, y)).sum())
    return v, np_softmax(s) - o
  if name == "sparsemax":
    p = np_sparsemax(s)
    return p @ r + 0.5 * (1 - p @ p), p - o
  a = r + (1 - o if name == "hinge" else 0)
  return a.max(), (a, o)


MULTI = dict(logistic=loss.multiclass_logistic_loss, sparsemax=loss.multiclass_sparsemax_loss,
             hinge=loss.multiclass_hinge_loss, perceptron=loss.multiclass_perceptron_loss)


def strat_multi(cfg):
  @st.composite
  def s(draw):
    k = draw(st.sampled_from([1, 2, 3, 5]))
    x = np64(draw(gen.vec(k))) * draw(st.sampled_from(MAGS)) + draw(st.sampled_from([0, 0, 0, 100]))
    return dict(x=np.asarray(x, np.float32).tolist(), y=draw(st.integers(0, k - 1)),
                lab=draw(st.sampled_from(["int", "array", "py"])))
  return s()


def multi_loss(c, T, dt, tol):
  name = c["cfg"]
  f = MULTI[name]
  s = np.asarray(c["x"], dt)
  y = dict(int=np.int32(c["y"]), array=jnp.asarray(c["y"]), py=c["y"])[c["lab"]]
  v, g = jitted(("ml", name), jax.value_and_grad(f, argnums=1))(y, s)
  if not s.any() or len(s) == 1:
    T.trivial()
  s64 = np64(s)
  # the projection inside the sparsemax loss cancels at the scale of the scores
  ts = tol * (1 + np.abs(s64).max())
  rv, rg = multi_ref(name, c["y"], s64)
  T.finite(v, name); T.finite(g, name + " gradient")
  T.ok(abs(float(v) - rv) <= 4 * ts * (1 if name != "sparsemax" else 1 + np.ptp(s64)),
       f"{name}: value", got=v, want=rv, s=s, y=y)
  T.ok(float(v) >= -4 * ts * (1 if name != "sparsemax" else 1 + np.ptp(s64)), f"{name}: negative loss", got=v)
  g = np64(g)
  if name in ("hinge", "perceptron"):
    a, o = rg
    q = g + o                     # must be a distribution on the maximizers
    T.ok(abs(q.sum() - 1) <= 1e-6 and q.min() >= -1e-6, f"{name}: gradient + onehot is a distribution", q=q)
    sup = a >= a.max() - 8 * ts
    T.ok(np.all(np.abs(q[~sup]) <= 1e-6), f"{name}: gradient outside the maximizers", g=g, s=s, y=y)
  else:
    T.ok(np.max(np.abs(g - rg)) <= 4 * ts, f"{name}: gradient is not prediction - target",
         got=g, want=rg, s=s, y=y)
  v2 = f(y, jnp.asarray(s))
  T.ok(abs(float(v2) - float(v)) <= 8 * ts * (1 if name != "sparsemax" else 1 + np.ptp(s64)), f"{name}: eager value", v=v, v2=v2)


@sub("C03", "multiclass", strat_multi, quick=150, thorough=4000, cfgs=sorted(MULTI))
def multiclass(c, T):
  multi_loss(c, T, np.float64, 1e-13)


@sub("C03", "multiclass_f32", strat_multi, quick=80, thorough=2000, cfgs=sorted(MULTI), x64=False)
def multiclass_f32(c, T):
  multi_loss(c, T, np.float32, 2e-6)


# ------------------------------------------------------------- Fenchel-Young losses

def gini_max(s, temp=1.0):
  from jaxopt.projection import projection_simplex
  p = jax.lax.stop_gradient(projection_simplex(s / temp))
  return jnp.vdot(p, s) - temp * 0.5 * jnp.vdot(p, p)


MAXF = dict(logsumexp=logsumexp, gini=gini_max,
            temp=lambda s, temp=1.0: temp * logsumexp(s / temp), hard=jnp.max)


def strat_fy(cfg):
  @st.composite
  def s(draw):
    n = draw(st.sampled_from([1, 3, 5]))
    return dict(s=draw(gen.vec(n)), y=draw(gen.vec(n, 0, 4)), temp=draw(gen.pos(0.2, 3)),
                norm=draw(st.booleans()), target=draw(st.booleans()))
  return s()


@sub("C03", "fenchel_young", strat_fy, quick=120, thorough=3000, cfgs=sorted(MAXF))
def fenchel_young(c, T):
  name = c["cfg"]
  F = MAXF[name]
  fy = loss.make_fenchel_young_loss(F)
  s, y = np64(c["s"]), np64(c["y"])
  kw = dict(temp=c["temp"]) if name in ("gini", "temp") else {}
  t = kw.get("temp", 1.0)
  if c["norm"] and y.sum() > 0:
    y = y / y.sum()
  if name == "gini":
    p = np_sparsemax(s / t); Fv = p @ s - t * .5 * p @ p
    om = lambda q: t * .5 * q @ q
  elif name == "hard":
    p = (s == s.max()) / (s == s.max()).sum(); Fv = s.max()
    om = lambda q: 0.0
  else:
    p = np_softmax(s / t); Fv = s.max() + t * np.log(np.exp((s - s.max()) / t).sum())
    om = lambda q: t * np.sum(q * np.log(np.where(q > 0, q, 1)))
  if c["target"]:
    y = p
  f = jitted(("fy", name), jax.value_and_grad(fy, argnums=1))
  v, g = f(y, s, **kw)
  if len(s) == 1: T.trivial()
  T.close(v, Fv - y @ s, 1e-11, 1e-10, f"FY({name}) value", y=y, s=s)
  T.close(g, p - y, 1e-9, 1e-10, f"FY({name}) gradient is not argmax - target", y=y, s=s)
  if (c["norm"] or c["target"]) and y.sum() > 0:
    full = float(v) + om(y)       # complete Fenchel-Young loss is nonnegative, 0 at the prediction
    T.ok(full >= -1e-9, f"FY({name}) + Omega(y) negative", full=full)
    if c["target"]:
      T.ok(abs(full) <= 1e-9, f"FY({name}) + Omega(y) nonzero at the prediction", full=full)
  v2 = fy(jnp.asarray(y), jnp.asarray(s), *([t] if kw else []))
  T.close(v2, v, 1e-11, 1e-10, "positional extra argument")


# ---------------------------------------------------------------------- objectives

def obj_ref(name, P, l2, X, y):
  """Value and gradients (list in the order of the parameters)."""
  n = len(X)
  if name in ("least_squares", "ridge_regression"):
    r = X @ P[0] - y
    v, g = .5 / n * r @ r, X.T @ r / n
    if name == "ridge_regression":
      v, g = v + .5 * l2 * P[0] @ P[0], g + l2 * P[0]
    return v, [g]
  if name == "binary_logreg":
    z = X @ P[0]
    v = np.logaddexp(0, np.where(y == 1, -z, z)).mean()
    return v, [X.T @ (np_sigmoid(z) - y) / n]
  if name == "multiclass_linear_svm_dual":
    Y, beta = y, P[0]
    V = X.T @ (Y - beta)
    return -(np.vdot(beta, 1 - Y) - .5 / l2 * np.vdot(V, V)), [-(1 - Y) - X @ V / l2]
  Z = X @ P[0] + (P[1] if len(P) > 1 else 0)
  m = Z.max(1)
  v = (m + np.log(np.exp(Z - m[:, None]).sum(1)) - Z[np.arange(n), y]).mean()
  D = np.stack([np_softmax(z) for z in Z])
  D[np.arange(n), y] -= 1
  D /= n
  g = [X.T @ D] + ([D.sum(0)] if len(P) > 1 else [])
  if name.startswith("l2"):
    v += .5 * l2 * (P[0] ** 2).sum()
    g[0] = g[0] + l2 * P[0]
  return v, g


OBJ = ["least_squares", "ridge_regression", "multiclass_logreg", "multiclass_logreg_with_intercept",
       "l2_multiclass_logreg", "l2_multiclass_logreg_with_intercept", "binary_logreg",
       "multiclass_linear_svm_dual"]
HAS_L2 = ("ridge_regression", "l2_multiclass_logreg", "l2_multiclass_logreg_with_intercept",
          "multiclass_linear_svm_dual")
COMPOSITE = ("least_squares", "multiclass_logreg", "binary_logreg", "multiclass_linear_svm_dual")


def strat_obj(name):
  @st.composite
  def s(draw):
    n, p, k = draw(st.sampled_from([(1, 1, 1), (1, 2, 2), (3, 2, 3), (4, 3, 2), (5, 2, 4)]))
    X = (np64(draw(gen.array((n, p)))) * draw(st.sampled_from([1, 1, 20]))).tolist()
    if name in ("least_squares", "ridge_regression"):
      P, y = [draw(gen.vec(p))], draw(gen.vec(n))
    elif name == "binary_logreg":
      P, y = [draw(gen.vec(p))], draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    else:
      y = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
      if name == "multiclass_linear_svm_dual":
        P = [draw(gen.array((n, k)))]
        y = np.eye(k)[y].tolist()
      else:
        P = [draw(gen.array((p, k)))] + ([draw(gen.vec(k))] if "intercept" in name else [])
    return dict(X=X, y=y, P=P, l2=draw(gen.pos(0.05, 3)), ykw=draw(st.booleans()),
                j=draw(st.integers(0, 4)), d=draw(gen.vec(max(1, k))), dt=draw(gen.nums(-2, 2)))
  return s()


def _obj(c):
  name = c["cfg"]
  X = np64(c["X"])
  y = np64(c["y"]) if name in ("least_squares", "ridge_regression", "multiclass_linear_svm_dual") else np.asarray(c["y"])
  P = [np64(p) for p in c["P"]]
  arg = tuple(P) if len(P) > 1 else P[0]
  args = (c["l2"],) if name in HAS_L2 else ()
  return name, getattr(objective, name), X, y, P, arg, args


@sub("C03", "objective", strat_obj, quick=70, thorough=2500, cfgs=OBJ)
def objectives(c, T):
  name, f, X, y, P, arg, args = _obj(c)
  g = jitted(("obj", name), jax.value_and_grad(f))
  v, gr = g(arg, *args, (X, y)) if not c["ykw"] else g(arg, *args, data=(X, y))
  rv, rg = obj_ref(name, P, c["l2"], X, y)
  sc = 1 + np.abs(X).max() * sum(np.abs(p).sum() for p in P)
  sc = sc ** 2 / min(1, c["l2"])
  if not X.any(): T.trivial()
  T.close(v, rv, 1e-11, 1e-12 * sc, f"{name} value", P=P, X=X, y=y)
  for a, b in zip(gr if len(P) > 1 else [gr], rg):
    T.close(a, b, 1e-10, 1e-12 * sc * (1 + np.abs(X).max()), f"{name} gradient", P=P, X=X, y=y)


@sub("C03", "composite", strat_obj, quick=60, thorough=2000, cfgs=COMPOSITE)
def composite(c, T):
  """fun = subfun(linop(params)) + <params, b>; columnwise constants bound the block curvature."""
  name, f, X, y, P, arg, args = _obj(c)
  W = P[0]
  a = args + ((X, y),)
  lin = f.make_linop(*a)
  M = X.T if name == "multiclass_linear_svm_dual" else X
  pred = lin.matvec(W)
  T.close(pred, M @ W, 1e-11, 1e-9, "predictions")
  sub_ = f.subfun(pred, *a)
  b = f.b(*a)
  tot = float(sub_) + (0 if b is None else np.vdot(W, np64(b)))
  rv, _ = obj_ref(name, P, c["l2"], X, y)
  sc = 1 + np.abs(X).max() * np.abs(W).sum()
  T.close(tot, rv, 1e-10, 1e-11 * sc ** 2 / min(1, c["l2"]), "subfun + linear term")
  L = np64(f.columnwise_lipschitz_const(*a))
  T.ok(L.shape == (M.shape[1],), "one constant per block", got=L.shape)
  n = len(X)
  col = (M ** 2).sum(0)
  # tightest constants of the blocks (sup of the curvature): scale * column norm
  best = col * dict(least_squares=1 / n, binary_logreg=.25 / n, multiclass_logreg=.5 / n,
                    multiclass_linear_svm_dual=1 / c["l2"])[name]
  T.ok(np.all(L >= best * (1 - 1e-9)), "constants smaller than the curvature", L=L, curvature=best, l2=c["l2"], n=n)
  up = best * (n if name != "multiclass_linear_svm_dual" else 1)
  T.ok(np.all(L <= up * (1 + 1e-9) + 1e-12), "constants not tight up to the sample count", L=L, bound=up)
  # quadratic upper bound along one block, at the constants reported
  j = c["j"] % M.shape[1]
  d = np.resize(np64(c["d"]), W[j].shape) if W.ndim == 2 else np64(c["dt"])
  W2 = W.copy(); W2[j] = W2[j] + d
  r1, g1 = obj_ref(name, [W], c["l2"], X, y)
  f2 = float(f(W2, *a))
  bound = r1 + np.vdot(g1[0][j], d) + .5 * L[j] * np.vdot(d, d)
  T.ok(f2 <= bound + 1e-9 * (1 + abs(bound)), "descent lemma fails with the reported constant",
       f2=f2, bound=bound, L=L[j])


def strat_lin(cfg):
  @st.composite
  def s(draw):
    n, p, k = draw(st.sampled_from([(1, 1, 1), (3, 2, 2), (2, 4, 3)]))
    return dict(A=draw(gen.array((n, p))), x=draw(gen.array((p, k))), y=draw(gen.array((n, k))),
                i=draw(st.integers(0, n - 1)), j=draw(st.integers(0, p - 1)),
                d=draw(gen.vec(k)), mat=draw(st.booleans()))
  return s()


@sub("C03", "linop", strat_lin, quick=100, thorough=2000)
def linop(c, T):
  A, x, y, d = np64(c["A"]), np64(c["x"]), np64(c["y"]), np64(c["d"])
  i, j = c["i"], c["j"]
  if not c["mat"]:
    x, y, d = x[:, 0], y[:, 0], d[0]
  op = base.LinearOperator(A)
  if not A.any(): T.trivial()
  C = lambda g, w, m: T.close(g, w, 1e-12, 1e-12 * (1 + np.abs(A).max() * 50), m)
  C(op.matvec(x), A @ x, "matvec")
  C(op.rmatvec(y), A.T @ y, "rmatvec")
  C(op.matvec_element(x, i), (A @ x)[i], "matvec_element")
  C(op.rmatvec_element(y, j), (A.T @ y)[j], "rmatvec_element")
  x2 = x.copy(); x2[j] = x2[j] + d
  C(op.update_matvec(jnp.asarray(A @ x), d, j), A @ x2, "update_matvec")
  if not c["mat"]:
    y2 = y.copy(); y2[i] += d
    C(op.update_rmatvec(jnp.asarray(A.T @ y), d, i), A.T @ y2, "update_rmatvec")
  C(op.column_l2_norms(), np.linalg.norm(A, axis=0), "column norms")
  C(op.column_l2_norms(squared=True), (A ** 2).sum(0), "squared column norms")
  T.ok(tuple(op.shape()) == A.shape, "shape")
  l, t = jax.tree_util.tree_flatten(op)
  C(jax.tree_util.tree_unflatten(t, l).matvec(x), A @ x, "pytree round trip")
  # pytrees of dense matrices, and functional operators
  B = {"a": jnp.asarray(A), "b": jnp.asarray(A.T)}
  xs, ys = {"a": jnp.asarray(x), "b": jnp.asarray(y)}, {"a": jnp.asarray(y), "b": jnp.asarray(x)}
  D = linear_operator._make_linear_operator(None)(B)
  F = linear_operator._make_linear_operator(lambda P, v: {k: P[k] @ v[k] for k in P})(B)
  for o, nm in ((D, "dense"), (F, "functional")):
    mv, rmv = o.matvec_and_rmatvec(xs, ys)
    for z, m in ((mv, "matvec_and_rmatvec"), (o(xs), "call"), (o.matvec(xs), "matvec")):
      C(z["a"], A @ x, f"{nm} {m}"); C(z["b"], A.T @ y, f"{nm} {m}")
    for z, m in ((rmv, "matvec_and_rmatvec"), (o.rmatvec(xs, ys), "rmatvec")):
      C(z["a"], A.T @ y, f"{nm} {m}"); C(z["b"], A @ x, f"{nm} {m}")
    z = o.normal_matvec(xs)
    C(z["a"], A.T @ (A @ x), f"{nm} normal_matvec"); C(z["b"], A @ (A.T @ y), f"{nm} normal_matvec")
  for sq in (False, True):
    z = D.columns_l2_norms(squared=sq)
    C(z["a"], np.linalg.norm(A, axis=0) ** (2 if sq else 1), "dense column norms")
    C(z["b"], np.linalg.norm(A, axis=1) ** (2 if sq else 1), "dense column norms")
  if A.shape[0] == A.shape[1]:
    C(D.diag()["a"], np.diag(A), "diag")
