"""C02: proximal operators are exact minimizers of their documented objective."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jaxopt import prox, projection
from pbt import gen, trees
from pbt.core import sub, describe, jitted
from pbt.util import np64

describe("C02", "case = (operator, pytree structure, input, hyperparameters as scalar / "
         "pytree / default, scaling) with grid values hitting thresholds, zeros and ties; "
         "oracle = first-order optimality (subdifferential inclusion) of 0.5||y-x||^2 + "
         "scaling*g(y), plus objective comparison with perturbed points; non-trivial = the "
         "operator moves the input",
         ["g strongly convex objective => optimality conditions are sufficient"])

TREES = ["leaf1", "leaf4", "mat", "dict", "tuple", "nested", "list"]
# operator -> number of hyperparameters, which can be pytrees
OPS = dict(none=0, lasso=1, non_negative_lasso=1, elastic_net=2, group_lasso=1,
           ridge=1, non_negative_ridge=1)
TREE_HP = ("lasso", "elastic_net")


def objective(op, y, x, h, s):
  q = 0.5 * ((y - x) ** 2).sum()
  if op == "none": return q
  if op == "lasso": return q + s * (h[0] * np.abs(y)).sum()
  if op == "non_negative_lasso": return q + s * (h[0] * np.abs(y)).sum()
  if op == "elastic_net": return q + s * (h[0] * (np.abs(y) + 0.5 * h[1] * y ** 2)).sum()
  if op == "group_lasso": return q + s * h[0] * np.linalg.norm(y)
  # docstrings: 0.5 * ||y||^2 (see the fix: commit)
  return q + s * h[0] * 0.5 * (y ** 2).sum()


def residual(op, y, x, h, s):
  """Distance of 0 to the subdifferential of the objective at y (elementwise)."""
  if op == "none": return np.abs(y - x)
  if op in ("lasso", "elastic_net"):
    g = 0 if op == "lasso" else s * h[0] * h[1] * y
    l = s * h[0]
    return np.where(y != 0, np.abs(y - x + l * np.sign(y) + g), np.maximum(np.abs(x) - l, 0))
  if op == "non_negative_lasso":
    return np.where(y > 0, np.abs(y - x + s * h[0]), np.where(y < 0, np.inf, np.maximum(x - s * h[0], 0)))
  if op == "group_lasso":
    n = np.linalg.norm(y)
    if n > 0:
      return np.abs(y - x + s * h[0] * y / n)
    return np.maximum(np.linalg.norm(x) - s * h[0], 0)
  if op == "ridge": return np.abs(y - x + s * h[0] * y)
  if op == "non_negative_ridge":
    return np.where(y > 0, np.abs(y - x + s * h[0] * y), np.where(y < 0, np.inf, np.maximum(x, 0)))
  raise ValueError(op)


def strat(op):
  @st.composite
  def s(draw):
    t = draw(st.sampled_from(TREES))
    n = trees.size(t)
    mag = draw(st.sampled_from([1, 1, 1, 50, 0.02]))
    x = (np64(draw(gen.vec(n))) * mag).tolist()
    hs = []
    if OPS[op] and draw(st.integers(0, 7)) == 0:
      hs = None
    else:
      for _ in range(OPS[op]):
        if op in TREE_HP and draw(st.booleans()):
          hs.append(draw(gen.vec(n, 0, 3)))
        else:
          hs.append(draw(st.one_of(gen.pos(0.0, 3), st.integers(0, 3))))
    pert = draw(st.lists(gen.floats(-1, 1), min_size=n, max_size=n))
    return dict(t=t, x=x, h=hs, s=draw(st.one_of(st.none(), gen.pos(0.05, 4))), pert=pert,
                zero=draw(st.integers(0, 19)) == 0,
                kind=draw(st.sampled_from(["python", "array"])))
  return s()


def run_op(op, case, dt):
  t, h, s = case["t"], case["h"], case["s"]
  x = np.asarray(case["x"], dt) * (0 if case["zero"] else 1)
  tx = trees.build(t, x, jnp.asarray)
  f = getattr(prox, "prox_" + op)
  args = []
  if OPS[op]:
    if h is None:
      args = [] if s is None else [None]
    else:
      conv = [trees.build(t, np.asarray(v, dt), jnp.asarray) if isinstance(v, list)
              else (jnp.asarray(v, dt) if case["kind"] == "array" else v) for v in h]
      args = [tuple(conv) if OPS[op] == 2 else conv[0]]
  kw = {} if s is None else dict(scaling=s)
  out = f(tx, *args, **kw)
  return x, tx, out


def judge(case, T, dt, tol):
  op = case["cfg"]
  x, tx, out = run_op(op, case, dt)
  T.ok(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(tx), "structure changed")
  for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(tx)):
    T.ok(jnp.shape(a) == jnp.shape(b), "leaf shape changed", got=jnp.shape(a))
    T.ok(jnp.asarray(a).dtype == jnp.asarray(b).dtype, "leaf dtype changed", got=jnp.asarray(a).dtype)
  y, x = np64(trees.flat(out)), np64(x)
  T.finite(y, op)
  s = 1.0 if case["s"] is None else case["s"]
  h = [1.0] * OPS[op] if case["h"] is None else [np64(v) for v in case["h"]]
  sc = 1 + np.abs(x).max() + s * max([np.abs(v).max() for v in h] or [0]) * 2
  if op in ("elastic_net", "ridge"):
    sc *= 1 + s * np.abs(h[0]).max() * (np.abs(h[1]).max() if op == "elastic_net" else 1)
  r = np.max(residual(op, y, x, h, s))
  T.ok(r <= tol * sc, f"prox_{op}: optimality residual", r=r, x=x, y=y, h=h, s=s)
  z = y + np64(case["pert"])
  if op.startswith("non_negative"):
    z = np.maximum(z, 0)
    T.ok(y.min() >= 0, "negative output")
  fy, fz = objective(op, y, x, h, s), objective(op, z, x, h, s)
  T.ok(fy <= fz + tol * sc ** 2 * len(x), f"prox_{op}: a better point exists", fy=fy, fz=fz, z=z)
  if np.abs(y - x).max() == 0:
    T.trivial()
  if (y == 0).any():
    T.label("some output zero")


@sub("C02", "optimal", strat, quick=170, thorough=5000, cfgs=sorted(OPS), cost=2)
def optimal(c, T):
  judge(c, T, np.float64, 1e-10)


@sub("C02", "optimal_f32", strat, quick=60, thorough=1500, cfgs=sorted(OPS), x64=False, cost=2)
def optimal_f32(c, T):
  judge(c, T, np.float32, 1e-5)


def strat_jit(op):
  @st.composite
  def s(draw):
    c = draw(strat(op))
    c["t"] = draw(st.sampled_from(["dict", "leaf4"]))
    n = trees.size(c["t"])
    c["x"] = draw(gen.vec(n))
    c["pert"] = [0.5] * n
    c["h"] = [draw(gen.pos(0.0, 3)) for _ in range(OPS[op])]
    c["s"] = draw(gen.pos(0.05, 4))
    c["zero"], c["kind"] = False, "array"
    return c
  return s()


@sub("C02", "traced", strat_jit, quick=120, thorough=3000, cfgs=sorted(k for k in OPS if OPS[k]), cost=0.5)
def traced(c, T):
  """Hyperparameters and scaling may be traced scalars (jit), also for pytrees."""
  op, t = c["cfg"], c["t"]
  f = getattr(prox, "prox_" + op)
  tx = trees.build(t, np64(c["x"]), jnp.asarray)
  h = tuple(c["h"]) if OPS[op] == 2 else c["h"][0]
  y = np64(trees.flat(jitted(("prox", op), f)(tx, h, c["s"])))
  x, hh, s = np64(c["x"]), [np64(v) for v in c["h"]], c["s"]
  sc = (1 + np.abs(x).max() + s * max(np.abs(v).max() for v in hh)) ** 3
  T.finite(y, op)
  T.ok(np.max(residual(op, y, x, hh, s)) <= 1e-10 * sc, f"prox_{op} under jit: optimality residual", y=y)


def strat_vm(op):
  @st.composite
  def s(draw):
    return dict(x=draw(gen.array((3, 4))), h=draw(gen.pos(0.05, 3)), s=draw(gen.pos(0.05, 4)))
  return s()


@sub("C02", "rows", strat_vm, quick=80, thorough=2000, cfgs=["group_lasso", "lasso", "ridge"], cost=0.3)
def rows(c, T):
  """Blocks can be grouped with vmap: every row is the prox of that row."""
  op = c["cfg"]
  f = getattr(prox, "prox_" + op)
  X = np64(c["x"])
  Y = np64(jitted(("proxvm", op), jax.vmap(f, in_axes=(0, None, None)))(X, c["h"], c["s"]))
  for x, y in zip(X, Y):
    T.finite(y, op)
    T.ok(np.max(residual(op, y, x, [c["h"]], c["s"])) <= 1e-9, f"prox_{op} vmapped row", y=y, x=x)


PROJ = dict(simplex=lambda n: gen.pos(0.1, 4), l2_ball=lambda n: gen.pos(0.1, 4), non_negative=lambda n: st.none(),
            l1_ball=lambda n: gen.pos(0.1, 4))


def strat_pp(name):
  @st.composite
  def s(draw):
    return dict(x=draw(gen.vec(4)), h=draw(PROJ[name](4)), s=draw(gen.pos(0.05, 4)))
  return s()


@sub("C02", "from_projection", strat_pp, quick=60, thorough=1000, cfgs=sorted(PROJ), cost=0.4)
def from_projection(c, T):
  """The prox of an indicator function is the projection, whatever the scaling."""
  p = getattr(projection, "projection_" + c["cfg"])
  f = prox.make_prox_from_projection(p)
  x = np64(c["x"])
  got = jitted(("pfp", c["cfg"]), f)(x, c["h"], c["s"])
  T.close(got, jitted(("pfp0", c["cfg"]), p)(x, c["h"]), 1e-12, 1e-12, "prox from projection")
