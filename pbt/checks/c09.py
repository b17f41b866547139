"""C09: results do not depend on jit, unroll, vmap, verbosity or the loop implementation."""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
import jaxopt
from jaxopt import loop as JL
from jaxopt._src import loop as L, cond as C
from pbt import gen, zoo
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C09", "case = (solver and options, batch of problems and starts, maxiter, tolerance, execution mode) or a generated "
         "loop program; oracle = the same solver run alone under jit with a rolled loop (for loop programs: a Python loop); "
         "non-trivial = at least two iterations, and for batches members that stop at different iterations",
         ["members whose error comes within 1e-5 (relative) of tol are not judged on the iteration count"])

K = 10


def static(name, maxiter, tol=None, **o):
  e = zoo.ENTRIES[name]
  if name in zoo.STOCHASTIC and "implicit_diff" not in o: o["implicit_diff"] = True
  s = e.make(tol=0., maxiter=maxiter, **o)
  if tol is not None:
    for t in (s, getattr(s, "_pg", None)):
      if t is not None: t.tol = tol
  return s


def run1(name, maxiter, **o):
  def go(x0, D, tol):
    i, a, k = zoo.ENTRIES[name].call(x0, D)
    p, s = static(name, maxiter, tol, **o).run(i, *a, **k)
    return p, s.error, s.iter_num
  return go


def compare(T, name, mode, got, ref, tol, msg=""):
  """False when the case is borderline."""
  (p, e, it), (p0, e0, it0) = got, ref
  a, b = zoo.flat(p), zoo.flat(p0)
  e, e0, it, it0 = float(e), float(e0), int(it), int(it0)
  if not np.isfinite(e0): T.label("non-finite"); return False
  if tol == 0 and e0 < 1e-13: T.label("converged to rounding errors"); return False
  if it != it0 and (min(abs(e - tol), abs(e0 - tol)) <= 1e-5 * tol + 1e-9 or name == "LBFGS/stop" and e0 < 1e-6):
    T.label("borderline"); return False
  ill = "Broyden" in name or "Anderson" in name
  T.ok(it == it0, f"{name}: {mode} changes the number of iterations {msg}", got=it, want=it0, errs=[e, e0], tol=tol)
  sc = 1 + np.abs(b).max() if len(b) else 1
  T.ok(np.all(np.abs(a - b) <= (1e-3 if ill else 1e-6) * sc), f"{name}: {mode} changes the parameters {msg}", got=a, want=b)
  T.close(e, e0, 1e-2 if ill else 1e-4, 1e-7, f"{name}: {mode} changes the error {msg}")
  return True


def strat(cfg):
  return gen.fixed(ps=st.lists(zoo.strat(), min_size=3, max_size=3), seeds=st.lists(gen.seeds, min_size=3, max_size=3),
                   tol=st.sampled_from([0., 1e-6, 1e-3, 1e-2, 1e-1, 1.0]), dup=st.booleans())


@sub("C09", "modes", strat, quick=12, thorough=600, cfgs=zoo.names, cost=zoo.cost)
def modes(c, T):
  """Rolled loop alone = scan-unrolled = vmapped (rolled and unrolled), at several iteration limits."""
  name, tol = c["cfg"], c["tol"]
  Ds = [zoo.data(p) for p in c["ps"]]
  xs = [zoo.start({"sseed": s}) for s in c["seeds"]]
  if c["dup"]: Ds[2], xs[2] = Ds[0], xs[0]
  ref_f = cached(("c09r", name), lambda: jax.jit(run1(name, K)))
  refs = [ref_f(x, D, tol) for x, D in zip(xs, Ds)]
  its = [int(r[2]) for r in refs]
  if max(its) < 2: T.trivial()
  T.label("heterogeneous batch" if len(set(its)) > 1 else "homogeneous batch")
  if "hager" not in name:
    unr = cached(("c09u", name), lambda: jax.jit(run1(name, K, unroll=True, **({} if "jit" in name else {}))))
    for i in range(2): compare(T, name, "unroll=True", unr(xs[i], Ds[i], tol), refs[i], tol)
  vm = cached(("c09v", name), lambda: jax.jit(jax.vmap(run1(name, K), in_axes=(0, 0, None))))
  out = vm(np.stack(xs), {k: np.stack([D[k] for D in Ds]) for k in Ds[0]}, tol)
  for i in range(3):
    compare(T, name, "vmap", jax.tree_util.tree_map(lambda v: v[i], out), refs[i], tol, f"(member {i}, iterations {its})")


def strat_e(cfg):
  return gen.fixed(p=zoo.strat(), sseed=gen.seeds, tol=st.sampled_from([0., 1e-3, 1e-1]), maxiter=st.integers(2, 4))


QUICK_EAGER = [n for n in zoo.BRIEF if n not in ("LBFGS/zoom", "LBFGSB/backtracking")]


@sub("C09", "eager", strat_e, quick=2, thorough=40, cfgs=lambda tier: QUICK_EAGER if tier == "quick" else zoo.names(tier), cost=lambda n: 3 * zoo.cost(n))
def eager(c, T):
  """jit=False (Python loop, nothing compiled) and verbose output give what the compiled rolled loop gives."""
  name, tol = c["cfg"], c["tol"]
  D, x0 = zoo.data(c["p"]), zoo.start(c)
  e = zoo.ENTRIES[name]
  i, a, k = e.call(x0, D)
  M = c["maxiter"]
  r = cached(("c09e", name, M), lambda: jax.jit(run1(name, M)))(x0, D, tol)
  if int(r[2]) < 2: T.trivial()
  opts = {"implicit_diff": True} if name in zoo.STOCHASTIC else {}
  p, s = e.make(tol=tol, maxiter=M, jit=False, **opts).run(i, *a, **k)
  compare(T, name, "jit=False", (p, s.error, s.iter_num), r, tol)
  p, s = e.make(tol=tol, maxiter=M, **opts).run(i, *a, **k)
  compare(T, name, "no outer jit", (p, s.error, s.iter_num), r, tol)


@sub("C09", "verbose", strat_e, quick=1, thorough=20, cfgs=zoo.BRIEF, cost=lambda n: 3 * zoo.cost(n))
def verbose(c, T):
  name, tol = c["cfg"], c["tol"]
  D, x0 = zoo.data(c["p"]), zoo.start(c)
  e = zoo.ENTRIES[name]
  i, a, k = e.call(x0, D)
  M = c["maxiter"]
  r = cached(("c09e", name, M), lambda: jax.jit(run1(name, M)))(x0, D, tol)
  if int(r[2]) < 2: T.trivial()
  with contextlib.redirect_stdout(io.StringIO()) as out:
    p, s = e.make(tol=tol, maxiter=M, verbose=True).run(i, *a, **k)
    jax.effects_barrier()
  compare(T, name, "verbose", (p, s.error, s.iter_num), r, tol)
  T.label("printed" if out.getvalue() else "silent")


# --- derivative of unrolled iterations -------------------------------------------------------
GRAD = ["GradientDescent", "GradientDescent/plain", "GradientDescent/const", "GradientDescent/callable", "BFGS/const", "LBFGS/const", "ProximalGradient", "ProximalGradient/plain",
        "ProjectedGradient", "ProjectedGradient/plain", "MirrorDescent", "BlockCoordinateDescent", "ArmijoSGD", "PolyakSGD", "PolyakSGD/momentum", "OptaxSolver/adam",
        "OptaxSolver/sgd", "GaussNewton", "FixedPointIteration", "AndersonAcceleration", "AndersonWrapper", "BoxOSQP/lu"]
GRAD_Q = [n for n in GRAD if n not in ("BFGS/const",)]


def strat_g(cfg):
  return gen.fixed(p=zoo.strat(), sseed=gen.seeds)


@sub("C09", "unrolled_derivative", strat_g, quick=12, thorough=400, cfgs=GRAD, cost=4)
def unrolled_derivative(c, T):
  """Autodiff through unrolled iterations = finite differences of the rolled run with the same number of iterations."""
  name, M = c["cfg"], 4
  D, x0 = zoo.data(c["p"]), zoo.start(c)
  r = gen.rng(c["sseed"] + 1)
  keys = [k for k in D if k not in ("s", "y")]
  d = {k: r.standard_normal(np.shape(v)) * (k in keys) for k, v in D.items()}
  dx = r.standard_normal(zoo.N)
  roll2 = cached(("c09gr", name), lambda: jax.jit(lambda x0, D: run1(name, M)(x0, D, 0.)))
  roll = lambda x0, D: roll2(x0, D)[0]
  # converged runs: step sizes are then decided by rounding errors
  if float(roll2(x0, D)[1]) < 1e-4: T.label("converged"); T.trivial(); return
  f = lambda e: zoo.flat(roll(x0 + e * dx, {k: D[k] + e * d[k] for k in D}))
  h = 1e-6
  f0, fp, fm = f(0), f(h), f(-h)
  if len(f0) == 0 or np.abs((fp - f0) - (f0 - fm)).max() > 1e-4 * np.abs(fp - fm).max() + 1e-10: T.label("kink"); T.trivial(); return
  want = (fp - fm) / (2 * h)
  if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e4: T.trivial(); return
  u = r.standard_normal(len(f0))
  def build():
    def run(x0, D):
      p = run1(name, M, implicit_diff=False)(x0, D, 0.)[0]
      return jnp.concatenate([jnp.ravel(v) for v in jax.tree_util.tree_leaves(p)])
    return jax.jit(lambda x0, D, dx, d, u: (jax.jvp(run, (x0, D), (dx, d))[1], jax.vjp(run, x0, D)[1](u)))
  j, v = cached(("c09gu", name), build)(x0, D, dx, d, u)
  sc = 1 + np.abs(want).max()
  T.close(np64(j), want, 1e-3, 2e-4 * sc, f"{name}: forward derivative of unrolled iterations")
  got = float(np.sum(np64(v[0]) * dx)) + sum(float(np.sum(np64(v[1][k]) * d[k])) for k in D)
  T.close(got, float(u @ want), 1e-3, 1e-3 * sc * np.abs(u).sum(), f"{name}: reverse derivative of unrolled iterations")


# --- loop and cond helpers --------------------------------------------------------------------
def body(v):
  i, x, a, b, thr = v
  return i + 1, a * x + b * jnp.sin(x), a, b, thr


def cond(v):
  i, x, a, b, thr = v
  return jnp.sum(jnp.abs(x)) > thr


def strat_l(cfg):
  return gen.fixed(x=st.lists(gen.vec(3), min_size=3, max_size=3), a=gen.nums(-1.2, 1.2), b=gen.nums(-1, 1),
                   thr=st.lists(gen.nums(-1, 2), min_size=3, max_size=3), maxiter=st.sampled_from([0, 1, 2, 5, 9]))


@sub("C09", "while_loop", strat_l, quick=40, thorough=2000, cost=3)
def while_loop(c, T):
  """All loop implementations against a Python loop on generated programs; also batched and differentiated."""
  M = c["maxiter"]
  def ref(x, thr, a=float(c["a"])):
    n, x = 0, np64(x).copy()
    while n < M and np.sum(np.abs(x)) > thr: x = a * x + c["b"] * np.sin(x); n += 1
    return n, x
  X, thr = np.array(c["x"], float), np.array(c["thr"], float)
  want = [ref(x, t) for x, t in zip(X, thr)]
  if max(w[0] for w in want) < 2: T.trivial()
  if any(abs(np.sum(np.abs(ref(x, t)[1])) - t) < 1e-9 for x, t in zip(X, thr)): T.trivial(); return
  a, b = float(c["a"]), float(c["b"])
  def f(unroll, jit):
    return lambda x, t, a, b: JL.while_loop(cond, body, (0, x, a, b, t), M, unroll=unroll, jit=jit)[:2]
  for unroll, jit in ((False, True), (True, True), (True, False)):
    for i in range(3):
      n, x = f(unroll, jit)(jnp.asarray(X[i]), thr[i], a, b)
      T.ok(int(n) == want[i][0], f"iterations of while_loop unroll={unroll} jit={jit}", got=int(n), want=want[i][0])
      T.close(np64(x), want[i][1], 1e-9, 1e-9, f"result of while_loop unroll={unroll} jit={jit}")
    if jit:
      g = cached(("c09w", unroll, M), lambda: jax.jit(jax.vmap(f(unroll, jit), in_axes=(0, 0, None, None))))
      n, x = g(X, thr, a, b)
      T.ok([int(v) for v in n] == [w[0] for w in want], f"vmapped while_loop unroll={unroll}: iterations", got=n, want=[w[0] for w in want])
      T.close(np64(x), np.stack([w[1] for w in want]), 1e-9, 1e-9, f"vmapped while_loop unroll={unroll}: result")
  try:
    JL.while_loop(cond, body, (0, jnp.asarray(X[0]), a, b, thr[0]), M, unroll=False, jit=False)
    T.ok(False, "unroll=False with jit=False is accepted")
  except ValueError: pass
  # derivative through the scan implementation
  grad = cached(("c09wg", M), lambda: jax.jit(jax.grad(lambda a, x, t, b: jnp.sum(f(True, True)(x, t, a, b)[1]))))
  e = 1e-6
  p, m = ref(X[0], thr[0], a + e), ref(X[0], thr[0], a - e)
  if p[0] == m[0] == want[0][0]:
    T.close(float(grad(a, X[0], thr[0], b)), (p[1].sum() - m[1].sum()) / (2 * e), 1e-4, 1e-4 * (1 + np.abs(p[1]).max()), "derivative through the unrolled loop")


@sub("C09", "cond", lambda cfg: gen.fixed(x=gen.vec(3), t=gen.nums(-4, 4)), quick=20, thorough=500)
def cond_(c, T):
  x = jnp.asarray(c["x"], float)
  p = float(np.sum(c["x"])) > c["t"]
  if abs(float(np.sum(c["x"])) - c["t"]) < 1e-9: T.trivial(); return
  want = np64(c["x"]) * 2 if p else np64(c["x"]) - 1
  for jit in (True, False):
    got = C.cond(jnp.sum(x) > c["t"], lambda v: 2 * v, lambda v: v - 1, x, jit=jit)
    T.close(np64(got), want, 1e-12, 1e-12, f"cond jit={jit}")
