"""C13: linear solvers solve the system they are given."""
from functools import partial
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import linear_solve as LS
from jaxopt._src import linear_operator as LO
from jaxopt._src.base import LinearOperator
from jaxopt._src.iterative_refinement import solve_iterative_refinement
from pbt import gen, trees
from pbt.core import sub, describe, cached
from pbt.util import np64, krylov_deficient

describe("C13", "case = (linear solver, operator presentation, matrix, right-hand side, ridge, initial guess); oracle = NumPy "
         "solve of the (ridge-regularized) system; non-trivial = non-zero right-hand side and matrix not a multiple of the identity",
         ["condition number at most ~100; for gmres/bicgstab positive definite symmetric part and full Krylov space"])

DIRECT = ["lu", "cholesky", "inv", "qr"]
FUN = {"lu": LS.solve_lu, "cholesky": LS.solve_cholesky, "inv": LS.solve_inv, "qr": LS.solve_qr, "cg": LS.solve_cg,
       "normal_cg": LS.solve_normal_cg, "gmres": LS.solve_gmres, "bicgstab": LS.solve_bicgstab}
ITER = ["cg", "normal_cg", "gmres", "bicgstab"]


def matrix(n, seed, kind, cond):
  r = gen.rng(seed)
  S = gen.spd(n, int(r.integers(2**31)), cond=cond)
  if kind == "spd": return S
  K = np.triu(r.standard_normal((n, n)), 1) * .5
  if kind == "nonsym": return S + K - K.T
  U, _ = np.linalg.qr(r.standard_normal((n, n)))
  return S @ U


LAY = {"vec": 4, "vec7": 7, "vec1": 1, "mat": 6, "tree": None}
CFG = [[s, l] for s in DIRECT for l in ("vec", "vec7", "vec1")] + [["lu", "mat"], ["cholesky", "mat"]] + \
      [[s, l] for s in ITER for l in ("vec", "vec7", "vec1", "mat", "dict", "nested", "tuple")]


def strat(cfg):
  s, l = cfg
  kinds = ["spd"] if s in ("cg", "cholesky") else ["spd", "nonsym"] if s in ("gmres", "bicgstab") else ["spd", "nonsym", "general"]
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(kinds), cond=st.sampled_from([1., 3., 10., 50.]),
                   b=st.sampled_from(["gauss", "gauss", "eigen", "zero", "large", "small"]), ridge=st.sampled_from([None, None, 0., .1, 1., 10.]),
                   init=st.sampled_from(["none", "zero", "random", "solution"]))


def setup(c, n):
  r = gen.rng(c["seed"] + 1)
  A = matrix(n, c["seed"], c["kind"], c["cond"])
  b = r.standard_normal(n) * dict(large=1e4, small=1e-4).get(c["b"], 1.)
  if c["b"] == "zero": b = 0 * b
  if c["b"] == "eigen": b = A @ np.eye(n)[0]
  return A, b, r


def system(s, A, b, ridge):
  """The system the solver documents to solve."""
  n = A.shape[1]
  if s == "normal_cg": return A.T @ A + (ridge or 0) * np.eye(n), A.T @ b
  return A + (ridge or 0) * np.eye(n), b


def present(lay, v, conv=jnp.asarray):
  if lay.startswith("vec"): return conv(v)
  if lay == "mat" and len(v) == 6: return conv(np.reshape(v, (2, 3)))
  return trees.build(lay, v, conv=conv)


def size(lay): return LAY[lay] if lay in LAY else trees.size(lay)


def flatj(t): return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def unflatj(t, v):
  ls, d = jax.tree_util.tree_flatten(t)
  out, k = [], 0
  for l in ls:
    out.append(v[k:k + l.size].reshape(l.shape)); k += l.size
  return jax.tree_util.tree_unflatten(d, out)


@sub("C13", "solve", strat, quick=60, thorough=3000, cfgs=CFG)
def solve(c, T):
  s, lay = c["cfg"]
  n = size(lay)
  A, b, r = setup(c, n)
  ridge = c["ridge"]
  M, rhs = system(s, A, b, ridge)
  if np.linalg.cond(M) > 3e3: T.trivial(); return
  want = np.linalg.solve(M, rhs)
  if c["b"] == "zero" or n == 1 or (c["kind"] == "spd" and c["cond"] == 1): T.trivial()
  init = c["init"] if s in ITER else "none"
  x0 = {"none": None, "zero": 0 * b, "random": r.standard_normal(n), "solution": want}[init]
  if c["b"] == "zero" and init in ("random", "solution"):
    # relative tolerance 0: JAX iterates past exact convergence and divides 0 by 0
    T.label("zero right-hand side, nonzero guess"); T.trivial(); return
  if s in ("gmres", "bicgstab") and n > 1:
    start = rhs - (M @ x0 if x0 is not None else 0)
    if np.linalg.norm(start) > 1e-12 and krylov_deficient(M, start): T.label("krylov deficient"); T.trivial(); return
    if init == "solution" : T.label("warm start at the solution")
  def build():
    kw = dict(tol=1e-10) if s in ITER else {}
    def go(A, b, ridge, x0):
      mv = lambda x: unflatj(b, jnp.dot(A, flatj(x)))
      k = dict(kw)
      if ridge is not None: k["ridge"] = ridge
      if x0 is not None: k["init"] = x0
      return FUN[s](mv, b, **k)
    return jax.jit(go)
  bb = present(lay, b)
  out = cached(("c13", s, lay), build)(A, bb, ridge, None if x0 is None else present(lay, x0))
  T.ok(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(bb) and
       all(np.shape(p) == np.shape(q) and jnp.result_type(p) == jnp.result_type(q) for p, q in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(bb))),
       f"{s}: structure of the solution")
  got = trees.flat(out)
  T.finite(got, s)
  if s == "bicgstab": # no monotone convergence: the stopping rule is on the recursively updated residual
    T.label("bicgstab converged" if np.linalg.norm(M @ got - rhs) <= 1e-6 * np.linalg.norm(rhs) + 1e-9 else "bicgstab stalled")
  tol = 1e-6 if s == "bicgstab" else 1e-8
  T.ok(np.linalg.norm(got - want) <= tol * (np.linalg.norm(want) + np.linalg.norm(rhs) + (0 if x0 is None else 1e-3 * np.linalg.norm(x0))) + 1e-12,
       f"{s} {lay}: not the solution", got=got, want=want)


@sub("C13", "defaults", lambda cfg: gen.fixed(seed=gen.seeds, kind=st.just("spd"), cond=st.sampled_from([3., 10., 50.]), b=st.sampled_from(["gauss", "large", "small"])),
     quick=25, thorough=1000, cfgs=[[s, x64] for s in FUN for x64 in (True,)] )
def defaults(c, T):
  """Default options: relative residual within the default tolerance 1e-5."""
  s, _ = c["cfg"]
  n = 5
  A, b, r = setup(c, n)
  if s in ("gmres", "bicgstab") and krylov_deficient(A, b): T.trivial(); return
  x = np64(cached(("c13d", s), lambda: jax.jit(lambda A, b: FUN[s](lambda v: jnp.dot(A, v), b)))(A, b))
  M, rhs = system(s, A, b, None)
  T.ok(np.linalg.norm(M @ x - rhs) <= 1.1e-5 * np.linalg.norm(rhs), f"{s}: residual above the default tolerance", res=np.linalg.norm(M @ x - rhs), rhs=np.linalg.norm(rhs))


@sub("C13", "scalar", lambda cfg: gen.fixed(a=gen.pos(.1, 3), b=gen.nums(-3, 3), ridge=st.sampled_from([None, 0., .5]), neg=st.booleans()), quick=15, thorough=300, cfgs=DIRECT)
def scalar(c, T):
  """Scalar right-hand side (not under jit), and a zero operator is rejected."""
  f = FUN[c["cfg"]]
  a = float(c["a"]) * (-1 if c["neg"] and c["cfg"] != "cholesky" else 1)
  den = a + (c["ridge"] or 0)
  kw = {} if c["ridge"] is None else {"ridge": c["ridge"]}
  if abs(den) > 1e-6:
    T.close(float(f(lambda x: a * x, jnp.asarray(float(c["b"])), **kw)), c["b"] / den, 1e-9, 1e-12, "scalar solve")
  try:
    f(lambda x: 0. * x, jnp.asarray(1.0)); T.ok(False, "a zero scalar operator is accepted")
  except ValueError: pass


# --- rectangular least squares through the normal equations ------------------------------
def strat_r(cfg):
  return gen.fixed(seed=gen.seeds, ridge=st.sampled_from([None, 0., .1, 2.]), init=st.sampled_from(["zero", "random"]))


@sub("C13", "rectangular", strat_r, quick=30, thorough=1500, cfgs=["tall", "tall_tree", "wide"])
def rectangular(c, T):
  r = gen.rng(c["seed"])
  m, n = (7, 3) if c["cfg"] != "wide" else (3, 5)
  A, b = r.standard_normal((m, n)), r.standard_normal(m)
  ridge = c["ridge"]
  if c["cfg"] == "wide" and not ridge: ridge = .1
  M = A.T @ A + (ridge or 0) * np.eye(n)
  if np.linalg.cond(M) > 1e4: T.trivial(); return
  x0 = np.zeros(n) if c["init"] == "zero" else r.standard_normal(n)
  def build():
    def go(A, b, ridge, x0):
      if c["cfg"] == "tall_tree":
        mv = lambda p: {"u": jnp.dot(A[:4], jnp.concatenate([p[0], p[1]])), "v": jnp.dot(A[4:], jnp.concatenate([p[0], p[1]]))}
        o = LS.solve_normal_cg(mv, {"u": b[:4], "v": b[4:]}, ridge=ridge, init=(x0[:1], x0[1:]), tol=1e-11)
        return jnp.concatenate(o)
      return LS.solve_normal_cg(lambda x: jnp.dot(A, x), b, ridge=ridge, init=x0, tol=1e-11)
    return jax.jit(go)
  got = np64(cached(("c13r", c["cfg"]), build)(A, b, ridge, x0))
  want = np.linalg.solve(M, A.T @ b)
  T.ok(np.linalg.norm(M @ (got - want)) <= 1e-7 * (1 + np.linalg.norm(A.T @ b)), "normal equations", got=got, want=want)
  if c["init"] == "zero" and c["cfg"] == "tall":
    try:
      LS.solve_normal_cg(lambda x: jnp.dot(jnp.asarray(A), x), jnp.asarray(b)); T.ok(False, "nonsquare matvec without init is accepted")
    except TypeError: pass


# --- derivatives ---------------------------------------------------------------------------
@sub("C13", "derivative", lambda cfg: gen.fixed(seed=gen.seeds, cond=st.sampled_from([3., 10.]), ridge=st.sampled_from([None, .5]),
                                                kind=st.just("spd") if cfg in ("cg", "cholesky") else st.sampled_from(["spd", "nonsym"])),
     quick=25, thorough=1000, cfgs=list(FUN))
def derivative(c, T):
  """Derivative of the solution with respect to the matrix, the right-hand side and the ridge."""
  s = c["cfg"]
  n = 4
  r = gen.rng(c["seed"] + 1)
  A, b = matrix(n, c["seed"], c["kind"], c["cond"]), r.standard_normal(n)
  dA, db, u = r.standard_normal((n, n)), r.standard_normal(n), r.standard_normal(n)
  if s in ("cg", "cholesky"): dA = dA + dA.T      # the operator stays in the documented class
  M, rhs = system(s, A, b, c["ridge"])
  x = np.linalg.solve(M, rhs)
  f = lambda e: np.linalg.solve(*system(s, A + e * dA, b + e * db, c["ridge"]))
  want = (f(1e-6) - f(-1e-6)) / 2e-6
  if s in ("gmres", "bicgstab") and (krylov_deficient(M, rhs) or krylov_deficient(M.T, u) or krylov_deficient(M, M @ want)): T.trivial(); return
  def build():
    kw = dict(tol=1e-11) if s in ITER else {}
    def go(A, b, dA, db, ridge, u):
      g = lambda A, b: FUN[s](lambda v: jnp.dot(A, v), b, **kw, **({} if ridge is None else {"ridge": ridge}))
      return jax.jvp(g, (A, b), (dA, db)), jax.vjp(g, A, b)[1](u)
    return jax.jit(go)
  (p, t), (vA, vb) = cached(("c13g", s), build)(A, b, dA, db, c["ridge"], u)
  sc = 1 + np.abs(want).max()
  tol = 1e-4 if s == "bicgstab" else 1e-5
  T.close(np64(p), x, 1e-6, 1e-6 * sc, f"{s}: solution")
  T.close(np64(t), want, tol, tol * sc, f"{s}: jvp")
  T.close(float(np.sum(np64(vA) * dA) + np64(vb) @ db), float(u @ want), tol, 10 * tol * sc, f"{s}: vjp")


# --- iterative refinement --------------------------------------------------------------------
def strat_ir(cfg):
  return gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 10., 100.]), eps=st.sampled_from([.01, .1, .3]), maxiter=st.integers(0, 6),
                   init=st.sampled_from(["none", "random", "solution"]), tol=st.sampled_from([0., 1e-7, 1e-2]))


@sub("C13", "refinement", strat_ir, quick=80, thorough=2000, cfgs=["A_bar", "ridge", "tree", "matvec", "function"])
def refinement(c, T):
  """x_k = x_{k-1} + Abar^-1 (b - A x_{k-1}) from any initial guess, truthful error, documented stop."""
  cfg = c["cfg"]
  n = 4
  r = gen.rng(c["seed"])
  A = gen.spd(n, c["seed"], cond=c["cond"])
  b = r.standard_normal(n)
  E = r.standard_normal((n, n)) * c["eps"] / 2 if cfg == "A_bar" else c["eps"] * .3 * np.eye(n)
  if cfg == "tree": A = np.block([[A[:2, :2], np.zeros((2, 2))], [np.zeros((2, 2)), A[2:, 2:]]])
  Ab = A + E
  if np.linalg.cond(Ab) > 1e3: T.trivial(); return
  sol = np.linalg.solve(A, b)
  x0 = {"none": np.zeros(n), "random": r.standard_normal(n) * 3, "solution": sol}[c["init"]]
  M = c["maxiter"]
  x, hist = x0.copy(), []
  for k in range(M):
    x = x + np.linalg.solve(Ab, b - A @ x)
    hist.append(np.linalg.norm(b - A @ x))
    if hist[-1] <= c["tol"]: break
  if any(abs(h - c["tol"]) < 1e-9 for h in hist) and c["tol"] > 0 or any(h < 1e-12 for h in hist) or not np.all(np.isfinite(hist)) or hist and max(hist) > 1e8: T.trivial(); return
  if len(hist) < 2: T.trivial()
  lu = lambda ridge: (lambda mv, b, init=None: LS.solve_lu(mv, b, ridge=ridge))
  tlu = lambda ridge: (lambda mv, b, init=None: LS.solve_normal_cg(lambda x: jax.tree_util.tree_map(lambda u, v: u + ridge * v, mv(x), x), b, init=init, tol=1e-13))
  def build():
    def go(A, Ab, b, x0, e, tol, maxiter):
      if cfg == "A_bar": s = jaxopt.IterativeRefinement(solve=lu(None), matvec_A_bar=lambda P, v: jnp.dot(P, v)); args = (A, b, Ab)
      elif cfg == "tree":
        s = jaxopt.IterativeRefinement(solve=tlu(e)); args = ((A[:2, :2], A[2:, 2:]), (b[:2], b[2:]))
        x0 = None if x0 is None else (x0[:2], x0[2:])
      elif cfg == "matvec": s = jaxopt.IterativeRefinement(solve=lu(e), matvec_A=lambda P, v: jnp.dot(P, v)); args = (A, b)
      else: s = jaxopt.IterativeRefinement(solve=lu(e)); args = (A, b)
      s.tol, s.maxiter = tol, maxiter
      p, state = s.run(x0, *args)
      return (jnp.concatenate(p) if cfg == "tree" else p), state
    return jax.jit(go)
  if cfg == "function":
    if M == 0: T.trivial(); return
    mv = lambda v: jnp.dot(jnp.asarray(A), v)
    got = np64(solve_iterative_refinement(mv, jnp.asarray(b), init=None if c["init"] == "none" else jnp.asarray(x0), maxiter=M, tol=c["tol"], solve=lu(float(c["eps"] * .3))))
    T.close(got, x, 1e-7, 1e-8, "solve_iterative_refinement"); return
  p, s = cached(("c13i", cfg), build)(A, Ab, b, None if c["init"] == "none" else x0, c["eps"] * .3, c["tol"], M)
  T.close(np64(p), x, 1e-7, 1e-8 * (1 + np.abs(x).max()), "iterate of iterative refinement", init=c["init"], maxiter=M)
  T.ok(int(s.iter_num) == len(hist), "iterations", got=int(s.iter_num), want=len(hist))
  if hist: T.close(float(s.error), hist[-1], 1e-6, 1e-9, "error is not the residual norm")
  T.close(np64(jnp.concatenate(s.target_residuals) if cfg == "tree" else s.target_residuals), b - A @ x, 1e-6, 1e-9, "target_residuals")
  T.ok(int(s.num_solve_eval) == len(hist), "num_solve_eval", got=int(s.num_solve_eval))


@sub("C13", "refinement_default", lambda cfg: gen.fixed(seed=gen.seeds, cond=st.sampled_from([1., 10., 100.])), quick=20, thorough=500)
def refinement_default(c, T):
  """Default solver reaches its default tolerance 1e-7 on well-conditioned systems."""
  n = 4
  r = gen.rng(c["seed"])
  A, b = gen.spd(n, c["seed"], cond=c["cond"]), r.standard_normal(n)
  if krylov_deficient(A, b): T.trivial(); return
  p, s = cached(("c13rd",), lambda: jax.jit(lambda A, b: jaxopt.IterativeRefinement().run(None, A, b)))(A, b)
  T.ok(float(s.error) <= 1e-7 and np.linalg.norm(A @ np64(p) - b) <= 1.1e-7, "not solved", err=float(s.error), res=np.linalg.norm(A @ np64(p) - b))


# --- linear operators --------------------------------------------------------------------------
@sub("C13", "operators", lambda cfg: gen.fixed(seed=gen.seeds, m=st.integers(1, 5), n=st.integers(1, 5), i=st.integers(0, 4), j=st.integers(0, 4), delta=gen.nums(-2, 2), k=st.integers(1, 3)),
     quick=60, thorough=2000)
def operators(c, T):
  """Dense, functional and element-wise linear operators agree with the matrix they represent."""
  m, n = c["m"], c["n"]
  r = gen.rng(c["seed"])
  A, B, x, y, z = r.standard_normal((m, n)), r.standard_normal((n, m)), r.standard_normal(n), r.standard_normal(m), r.standard_normal(m)
  if min(m, n) < 2: T.trivial()
  i, j = c["i"] % m, c["j"] % n
  L = LinearOperator(A)
  cl = lambda a, b, w: T.close(np64(a), b, 1e-9, 1e-10, w)
  T.ok(tuple(L.shape()) == (m, n), "shape")
  cl(L.matvec(x), A @ x, "matvec"); cl(L.rmatvec(y), A.T @ y, "rmatvec")
  cl(L.matvec_element(x, i), (A @ x)[i], "matvec_element"); cl(L.rmatvec_element(y, j), (A.T @ y)[j], "rmatvec_element")
  x2 = x.copy(); x2[j] += c["delta"]
  cl(L.update_matvec(jnp.asarray(A @ x), c["delta"], j), A @ x2, "update_matvec")
  X = r.standard_normal((n, c["k"])); dX = r.standard_normal(c["k"]); X2 = X.copy(); X2[j] += dX
  cl(L.update_matvec(jnp.asarray(A @ X), jnp.asarray(dX), j), A @ X2, "update_matvec, matrix")
  y2 = y.copy(); y2[i] += c["delta"]
  cl(L.update_rmatvec(jnp.asarray(A.T @ y), c["delta"], i), A.T @ y2, "update_rmatvec")
  cl(L.column_l2_norms(), np.linalg.norm(A, axis=0), "column norms"); cl(L.column_l2_norms(squared=True), (A ** 2).sum(0), "squared column norms")
  leaves, td = jax.tree_util.tree_flatten(L)
  cl(jax.tree_util.tree_unflatten(td, leaves).matvec(x), A @ x, "flatten / unflatten")
  D = LO.DenseLinearOperator({"a": jnp.asarray(A), "b": jnp.asarray(B)})
  xx, yy = {"a": jnp.asarray(x), "b": jnp.asarray(y)}, {"a": jnp.asarray(z), "b": jnp.asarray(x)}
  F = LO.FunctionalLinearOperator(lambda P, v: {"a": jnp.dot(P["a"], v["a"]), "b": jnp.dot(P["b"], v["b"])}, {"a": jnp.asarray(A), "b": jnp.asarray(B)})
  for O, w in ((D, "dense"), (F, "functional")):
    cl(trees.flat(O(xx)), np.concatenate([A @ x, B @ y]), f"{w} call"); cl(trees.flat(O.matvec(xx)), np.concatenate([A @ x, B @ y]), f"{w} matvec")
    cl(trees.flat(O.rmatvec(xx, yy)), np.concatenate([A.T @ z, B.T @ x]), f"{w} rmatvec")
    p, q = O.matvec_and_rmatvec(xx, yy)
    cl(trees.flat(p), np.concatenate([A @ x, B @ y]), f"{w} pair 1"); cl(trees.flat(q), np.concatenate([A.T @ z, B.T @ x]), f"{w} pair 2")
    cl(trees.flat(O.normal_matvec(xx)), np.concatenate([A.T @ A @ x, B.T @ B @ y]), f"{w} normal_matvec")
  cl(trees.flat(D.columns_l2_norms()), np.concatenate([np.linalg.norm(A, axis=0), np.linalg.norm(B, axis=0)]), "dense column norms")
  cl(trees.flat(D.columns_l2_norms(squared=True)), np.concatenate([(A ** 2).sum(0), (B ** 2).sum(0)]), "dense squared column norms")
  S = gen.spd(n, c["seed"])
  cl(trees.flat(LO.DenseLinearOperator({"a": jnp.asarray(S)}).diag()), np.diag(S), "diag")


LARGE = {"lu": 1e3, "cholesky": 1e3, "inv": 1e3, "qr": 1e3, "cg": 1e3, "normal_cg": 50., "gmres": 10., "bicgstab": 10.}


@sub("C13", "large", lambda cfg: gen.fixed(seed=gen.seeds, kind=st.sampled_from(["spd", "general", "nonsym"]), level=st.sampled_from([0., .5, 1., 1.]), b=st.sampled_from(["gauss", "large", "small"]), ridge=st.sampled_from([None, None, .1]),
                                          geometric=st.booleans(), init=st.sampled_from(["none", "random"])), quick=8, thorough=300,
     cfgs=[[s, n] for s in FUN for n in (60, 150)], cost=2)
def large(c, T):
  """Systems that need many iterations (far more than any fixed small number)."""
  s, n = c["cfg"]
  r = gen.rng(c["seed"])
  cond = LARGE[s] ** c["level"] * 2
  sv = np.geomspace(1, cond, n) if c["geometric"] else np.linspace(1, cond, n)
  Q, _ = np.linalg.qr(r.standard_normal((n, n))); A = (Q * sv) @ Q.T
  kind = c["kind"] if s not in ("cg", "cholesky") else "spd"
  if s in ("gmres", "bicgstab") and kind == "general": kind = "nonsym"
  if kind == "general": A = A @ np.linalg.qr(r.standard_normal((n, n)))[0]
  if kind == "nonsym": K = np.triu(r.standard_normal((n, n)), 1) * .3 / np.sqrt(n); A = A + K - K.T
  b = r.standard_normal(n) * dict(large=1e4, small=1e-4).get(c["b"], 1.)
  M, rhs = system(s, A, b, c["ridge"])
  x0 = None if c["init"] == "none" or s not in ITER else r.standard_normal(n) * np.abs(b).max()

  def build():
    def go(A, b, ridge, x0):
      k = dict(tol=1e-8) if s in ITER else {}
      if ridge is not None: k["ridge"] = ridge
      if x0 is not None: k["init"] = dict(u=x0[:5], v=x0[5:].reshape(-1, 5))
      tree = s in ITER
      out = FUN[s]((lambda v: unflatj(v, A @ flatj(v))) if tree else (lambda v: A @ v), dict(u=b[:5], v=b[5:].reshape(-1, 5)) if tree else b, **k)
      return flatj(out)
    return jax.jit(go)
  x = np64(cached(("c13large", s, n), build)(A, b, c["ridge"], x0))
  T.finite(x, s)
  res = np.linalg.norm(M @ x - rhs) / np.linalg.norm(rhs)
  T.ok(res <= (1e-5 if s == "bicgstab" else 1e-7), f"{s}: relative residual {res} of a system of size {n}, condition number {np.linalg.cond(M):.3g}")
