"""C20: projections onto transport and Birkhoff polytopes."""
import numpy as np
from hypothesis import strategies as st
import scipy.sparse as sp
import jax, jax.numpy as jnp
from jaxopt import projection as P, LBFGS
from pbt import gen
from pbt.core import sub, describe, jitted, HarnessError
from pbt.util import np64

describe("C20", "case = (function, formulation, similarity matrix with ties and extreme entries, "
         "positive marginals of equal total, default or tight inner solver); oracle: marginals within "
         "the inner tolerance, and the plan is the exact optimum for its own marginals (Clarabel QP for "
         "the Euclidean, additive-separability of log P - S for the KL version); derivatives against the "
         "linearised optimality system; non-trivial = plan not constant",
         ["marginals bounded away from 0 (0.05)"])

SHAPES = [(2, 3), (3, 3), (4, 2)]


def marginals(draw, m, n):
  a = np.maximum(np64(draw(gen.vec(m, 0.05, 2))), .05)
  b = np.maximum(np64(draw(gen.vec(n, 0.05, 2))), .05)
  t = draw(st.sampled_from([1.0, 1.0, None]))
  if t is None:
    t = a.sum()
  return (a / a.sum() * t).tolist(), (b / b.sum() * t).tolist()


def strat(cfg):
  @st.composite
  def s(draw):
    kind = cfg[0]
    if "birkhoff" in kind:
      n = draw(st.sampled_from([1, 2, 3]))
      m = n
      ab = (None, None)
    else:
      m, n = draw(st.sampled_from(SHAPES))
      ab = marginals(draw, m, n)
    return dict(S=draw(gen.array((m, n))), a=ab[0], b=ab[1], tight=draw(st.booleans()))
  return s()


def tight(fun):
  return LBFGS(fun=fun, tol=1e-9, maxiter=1000, linesearch="hager-zhang")


def call(cfg, S, a, b, is_tight):
  kind, semi = cfg
  f = getattr(P, kind)
  kw = dict(make_solver=tight) if is_tight else {}
  if semi is not None:
    kw["use_semi_dual"] = semi
  if "birkhoff" in kind:
    return jitted(("tr", kind, semi, is_tight), lambda S: f(S, **kw))(S)
  return jitted(("tr", kind, semi, is_tight), lambda S, a, b: f(S, (a, b), **kw))(S, a, b)


def exact_l2(S, a, b):
  """Euclidean projection of S on {P >= 0, row sums a, column sums b}."""
  import clarabel
  m, n = S.shape
  A = np.vstack([np.kron(np.eye(m), np.ones(n)), np.kron(np.ones(m), np.eye(n))[:n - 1]])
  rhs = np.concatenate([a, b[:n - 1]])
  N = m * n
  st_ = clarabel.DefaultSettings(); st_.verbose = False
  st_.tol_gap_abs = st_.tol_gap_rel = st_.tol_feas = 1e-11
  sol = clarabel.DefaultSolver(sp.csc_matrix(np.eye(N)), -S.ravel(), sp.csc_matrix(np.vstack([A, -np.eye(N)])),
                               np.concatenate([rhs, np.zeros(N)]),
                               [clarabel.ZeroConeT(m + n - 1), clarabel.NonnegativeConeT(N)], st_).solve()
  if "Solved" not in str(sol.status):
    raise HarnessError("reference: " + str(sol.status))
  return np.asarray(sol.x).reshape(m, n)


@sub("C20", "plan", strat, quick=60, thorough=1500, cost=20,
     cfgs=[["projection_transport", None], ["projection_transport", True], ["projection_transport", False],
           ["projection_birkhoff", True], ["projection_birkhoff", False],
           ["kl_projection_transport", True], ["kl_projection_transport", False],
           ["kl_projection_birkhoff", None], ["kl_projection_birkhoff", False]])
def plan(c, T):
  kind, semi = c["cfg"]
  S = np64(c["S"])
  m, n = S.shape
  a = np.ones(m) if c["a"] is None else np64(c["a"])
  b = np.ones(n) if c["b"] is None else np64(c["b"])
  Q = np64(call(c["cfg"], S, a, b, c["tight"]))
  T.ok(Q.shape == (m, n), "shape", got=Q.shape)
  T.finite(Q, kind)
  if np.ptp(Q) < 1e-6: T.trivial()
  T.ok(Q.min() >= 0, "negative mass", Q=Q)
  # the gradient of the (semi-)dual is the marginal violation: at most tol in norm
  e = np.sqrt(((Q.sum(1) - a) ** 2).sum() + ((Q.sum(0) - b) ** 2).sum())
  T.ok(e <= (2e-3 if not c["tight"] else 1e-6), f"{kind}: marginals", violation=e, Q=Q, a=a, b=b)
  if kind.startswith("kl"):
    T.ok(Q.min() > 0, "KL plan must be positive", Q=Q)
    R = np.log(Q) - S
    R = R - R.mean(0) - R.mean(1, keepdims=True) + R.mean()
    T.ok(np.abs(R).max() <= 1e-9, f"{kind}: not of the optimal form u_i v_j exp(S_ij)", residual=R)
  else:
    r, s = Q.sum(1), Q.sum(0)
    ref = exact_l2(S, r, s)
    T.ok(np.abs(ref - Q).max() <= 2e-5, f"{kind}: not the closest plan with its marginals", got=Q, want=ref, S=S)


def strat_d(cfg):
  @st.composite
  def s(draw):
    c = draw(strat(cfg).map(lambda c: c))
    c["S"] = gen.gauss(np.shape(c["S"]), draw(gen.seeds)).tolist()
    c["d"], c["c"] = draw(gen.seeds), draw(gen.seeds)
    return c
  return s()


@sub("C20", "derivative", strat_d, quick=25, thorough=500, cost=45,
     cfgs=[["projection_transport", True], ["kl_projection_transport", True], ["projection_transport", False],
           ["kl_projection_transport", False]])
def derivative(c, T):
  """Reverse-mode derivative w.r.t. S and the marginals, in total-preserving directions."""
  kind, semi = c["cfg"]
  S, a, b = np64(c["S"]), np64(c["a"]), np64(c["b"])
  m, n = S.shape
  f = getattr(P, kind)
  def run(S, a, b, C):
    out, pull = jax.vjp(lambda S, a, b: f(S, (a, b), make_solver=tight, use_semi_dual=semi), S, a, b)
    return out, pull(C)
  C = gen.gauss((m, n), c["c"])
  Q, rev = jitted(("trd", kind, semi), run)(S, a, b, C)
  Q = np64(Q)
  r = gen.rng(c["d"])
  dS, da, db = r.standard_normal((m, n)), r.standard_normal(m), r.standard_normal(n)
  db = db - db.mean() + da.sum() / n
  if kind.startswith("kl"):
    W = Q
    M = lambda u, v: W * (u[:, None] + v)
    base = W * dS
  else:
    W = (Q > 0).astype(float)
    lam = None
    # margin: strict complementarity, support large enough to be well conditioned
    if ((Q > 0) & (Q < 2e-2)).any():
      T.trivial(); T.label("kink"); return
    M = lambda u, v: W * (u[:, None] + v)
    base = W * dS
  K = np.zeros((m + n, m + n))
  for k in range(m + n):
    e = np.zeros(m + n); e[k] = 1
    D = M(e[:m], e[m:])
    K[:, k] = np.concatenate([D.sum(1), D.sum(0)])
  sv = np.linalg.svd(K, compute_uv=False)
  if sv[-2] < 2e-2:
    T.trivial(); T.label("degenerate"); return
  rhs = np.concatenate([da - base.sum(1), db - base.sum(0)])
  u = np.linalg.lstsq(K, rhs, rcond=1e-8)[0]
  dQ = base + M(u[:m], u[m:])
  if not kind.startswith("kl"):
    # off-support entries must stay off support: dual slack bounded below
    al = np.linalg.lstsq(np.array([[float(i == k) for k in range(m)] + [float(j == k) for k in range(n)]
                                   for i in range(m) for j in range(n) if Q[i, j] > 0]),
                         np.array([(Q - S)[i, j] for i in range(m) for j in range(n) if Q[i, j] > 0]), rcond=None)[0]
    z = al[:m, None] + al[m:] + S
    if (z[Q <= 0] > -2e-2).any():
      T.trivial(); T.label("kink"); return
  for g in rev:
    T.finite(g, f"{kind}: derivative")
  got = sum(float(np.vdot(np64(g), d)) for g, d in zip(rev, (dS, da, db)))
  want = float(np.vdot(C, dQ))
  sc = (1 + np.abs(C).sum()) * (1 + np.abs(dQ).max()) / min(1, sv[-2])
  T.ok(abs(got - want) <= 3e-3 * sc, f"{kind}: vjp differs from the linearised optimality system", got=got, want=want)
