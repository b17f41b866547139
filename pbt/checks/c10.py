"""C10: run equals init_state plus repeated update, stops as documented and can be interrupted and resumed."""
import copy
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from pbt import gen, zoo
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C10", "case = (solver and options, problem, start, maxiter 0..14, tol, interruption point); oracle = manual loop "
         "of update from init_state with the documented stopping rule; non-trivial = at least two iterations",
         ["histories whose error comes within 1e-5 (relative) of tol are not judged on the iteration count"])


def with_limits(e, tol, maxiter, **o):
  if e.name in zoo.STOCHASTIC: o["implicit_diff"] = True     # else unrolled, which needs a static maxiter
  s = e.make(tol=0., maxiter=7, **o)
  for t in (s, getattr(s, "_pg", None)):
    if t is not None:
      t.tol, t.maxiter = tol, maxiter
  return s


def fns(name):
  e = zoo.ENTRIES[name]
  def build():
    def run(x0, D, tol, maxiter):
      i, a, k = e.call(x0, D)
      return with_limits(e, tol, maxiter).run(i, *a, **k)
    def init(x0, D, tol):
      i, a, k = e.call(x0, D)
      s = with_limits(e, tol, 7)
      i = zoo.first_params(s, i, a, k)
      return i, s.init_state(i, *a, **k)
    def update(p, state, x0, D, tol):
      _, a, k = e.call(x0, D)
      return with_limits(e, tol, 7).update(p, state, *a, **k)
    return jax.jit(run), jax.jit(init), jax.jit(update)
  return cached(("c10", name), build)


def stopped(name, state, tol):
  err = float(state.error)
  if name == "LBFGS/stop" and bool(state.failed_linesearch): return True
  return not err > tol


def strat(cfg):
  return gen.fixed(p=zoo.strat(), sseed=gen.seeds, maxiter=st.one_of(st.integers(0, 4), st.integers(5, 14)),
                   tol=st.sampled_from([0., 1e-6, 1e-3, 1e-2, 1e-1, 1.0]), cut=st.integers(1, 8))


def same_structure(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(np.shape(x) == np.shape(y) and jnp.result_type(x) == jnp.result_type(y) for x, y in zip(la, lb))


@sub("C10", "protocol", strat, quick=20, thorough=800, cfgs=zoo.names, cost=zoo.cost)
def protocol(c, T):
  name = c["cfg"]
  D = zoo.data(c["p"]); x0 = zoo.start(c)
  run, init, update = fns(name)
  tol, M = c["tol"], c["maxiter"]
  before = copy.deepcopy((x0, D))
  p, s = init(x0, D, tol)
  first = p
  T.ok(int(s.iter_num) == 0, f"{name}: init_state iter_num", got=s.iter_num)
  hist = []
  saved = None
  for k in range(1, M + 1):
    pn, sn = update(p, s, x0, D, tol)
    if k > 1: T.ok(same_structure((p, s), (pn, sn)), f"{name}: structure of (params, state) changes between updates")
    p, s = pn, sn
    hist.append(float(s.error))
    T.ok(int(s.iter_num) == k, f"{name}: iteration number", got=int(s.iter_num), want=k)
    if k == c["cut"]: saved = (p, s)
    if stopped(name, s, tol): break
  n = len(hist)
  rp, rs = run(x0, D, tol, M)
  T.ok(all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves((x0, D)))), "inputs modified")
  border = any(abs(h - tol) <= 1e-5 * tol + 1e-9 for h in hist) or (name == "LBFGS/stop" and any(h < 1e-6 for h in hist))
  border = border or any(not np.isfinite(h) for h in hist)
  if n < 2: T.trivial()
  T.label(f"stopped after {'0' if n == 0 else '1' if n == 1 else 'several'} {'early' if n < M else 'at maxiter'}")
  T.ok(0 <= int(rs.iter_num) <= M, f"{name}: run performed more than maxiter iterations", got=int(rs.iter_num), maxiter=M)
  if border: T.label("borderline"); T.trivial(); return
  T.ok(int(rs.iter_num) == n, f"{name}: run stops at another iteration than the documented rule", run=int(rs.iter_num), manual=n, tol=tol, errors=hist)
  if M == 0:
    i0, _, _ = zoo.ENTRIES[name].call(x0, D)
    if i0 is not None:
      T.ok(np.array_equal(zoo.flat(rp), zoo.flat(first)), f"{name}: maxiter=0 moved the parameters")
    return
  a, b = zoo.flat(rp), zoo.flat(p)
  ill = "Broyden" in name or "Anderson" in name
  rt = 1e-3 if ill else 1e-5
  sc = 1 + np.abs(b).max()
  T.ok(a.shape == b.shape and np.all(np.abs(a - b) <= rt * sc), f"{name}: run and manual loop give different parameters", run=a, manual=b)
  T.close(float(rs.error), float(s.error), 1e-3 if not ill else 1e-2, 1e-6, f"{name}: run and manual loop give different errors")
  # interrupted, stored as NumPy arrays, resumed
  if saved is not None and n > c["cut"]:
    store = jax.tree_util.tree_map(lambda v: np.array(v), saved)
    p2, s2 = store
    for k in range(c["cut"] + 1, M + 1):
      p2, s2 = update(p2, s2, x0, D, tol)
      if stopped(name, s2, tol): break
    T.ok(int(s2.iter_num) == n and np.array_equal(zoo.flat(p2), zoo.flat(p)), f"{name}: resuming from a stored state changes the result",
         resumed=zoo.flat(p2), straight=zoo.flat(p))
    T.label("resumed")


# --- the public API used as documented, no outer jit ----------------------------------------
@sub("C10", "public_api", lambda cfg: gen.fixed(p=zoo.strat(), sseed=gen.seeds, maxiter=st.integers(2, 6)), quick=2, thorough=30, cfgs=zoo.BRIEF, cost=lambda n: 8 * zoo.cost(n))
def public_api(c, T):
  """The loop of the documentation with concrete options; numpy inputs are left unmodified."""
  name, M = c["cfg"], c["maxiter"]
  e = zoo.ENTRIES[name]
  D = zoo.data(c["p"]); x0 = zoo.start(c)
  i, a, k = e.call(x0, D)
  frozen = [np.asarray(v) for v in jax.tree_util.tree_leaves((i, a, k))]
  before = [v.copy() for v in frozen]
  s = e.make(tol=0., maxiter=M)
  rp, rs = s.run(i, *a, **k)
  T.ok(all(np.array_equal(x, y) for x, y in zip(before, frozen)), f"{name}: run modifies its inputs")
  p = zoo.first_params(s, i, a, k)
  state = s.init_state(p, *a, **k)
  for _ in range(M): p, state = s.update(p, state, *a, **k)
  T.ok(int(state.iter_num) == M, f"{name}: iteration number", got=int(state.iter_num))
  T.ok(0 < int(rs.iter_num) <= M, f"{name}: iterations of run", got=int(rs.iter_num))
  if int(rs.iter_num) < M:      # error exactly 0, or a failed line search
    T.ok(float(rs.error) == 0 or name == "LBFGS/stop", f"{name}: stopped early", err=float(rs.error))
    T.trivial(); return
  sc = 1 + np.abs(zoo.flat(p)).max()
  T.ok(np.all(np.abs(zoo.flat(rp) - zoo.flat(p)) <= (1e-3 if "Broyden" in name or "Anderson" in name else 1e-5) * sc), f"{name}: run differs from the loop",
       run=zoo.flat(rp), loop=zoo.flat(p))
  T.ok(isinstance(rp, type(p)), "params type")
