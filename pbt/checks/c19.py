"""C19: isotonic regression."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jaxopt.isotonic import isotonic_l2_pav
from pbt import gen
from pbt.core import sub, describe, jitted
from pbt.util import np64

describe("C19", "case = (sequence with ties, constant runs, sorted/reversed parts, magnitudes 1e-6..1e6, "
         "order, bounds, eager/jit/vmap); oracle = min-max formula over all blocks, clipped to the "
         "bounds (the exact solution), plus monotonicity, block totals and fixed points; non-trivial = "
         "at least one pool or active bound")

SIZES = [1, 2, 3, 4, 6, 9, 30]


def minmax(y):
  """Exact nondecreasing fit."""
  n = len(y)
  cs = np.concatenate([[0], np.cumsum(y)])
  means = np.full((n, n), np.inf)
  for a in range(n):
    b = np.arange(a, n)
    means[a, a:] = (cs[b + 1] - cs[a]) / (b + 1 - a)
  out = np.empty(n)
  # suffix minimum over b >= i for each a, then maximum over a <= i
  suf = np.minimum.accumulate(means[:, ::-1], axis=1)[:, ::-1]
  for i in range(n):
    out[i] = suf[:i + 1, i].max()
  return out


@st.composite
def sequence(draw):
  n = draw(st.sampled_from(SIZES))
  y = np64(draw(gen.vec(n)))
  kind = draw(st.sampled_from(["raw", "raw", "raw", "sorted", "reversed", "runs", "sawtooth"]))
  if kind == "sorted": y = np.sort(y)
  if kind == "reversed": y = np.sort(y)[::-1]
  if kind == "runs": y = np.repeat(y, 3)[:n]
  if kind == "sawtooth": y = y * 0.25 + np.arange(n) % 3
  return (y * draw(st.sampled_from([1, 1, 1, 1e6, 1e-6]))).tolist()


def strat(cfg):
  @st.composite
  def s(draw):
    y = draw(sequence())
    m = max(np.abs(y).max(), 1e-6)
    lo, hi = sorted([draw(gen.nums(-4, 4)), draw(gen.nums(-4, 4))])
    return dict(y=y, inc=draw(st.booleans()), lo=draw(st.sampled_from([None, lo / 4 * m])),
                hi=draw(st.sampled_from([None, hi / 4 * m])), default=draw(st.booleans()))
  return s()


def fit(y, c, mode):
  kw = {}
  if c["lo"] is not None: kw["y_min"] = c["lo"]
  if c["hi"] is not None: kw["y_max"] = c["hi"]
  if not (c["inc"] and c["default"]): kw["increasing"] = c["inc"]
  if mode == "eager":
    return isotonic_l2_pav(jnp.asarray(y), **kw)
  static = {k: v for k, v in kw.items() if k == "increasing"}
  dyn = {k: v for k, v in kw.items() if k != "increasing"}
  f = lambda y, d: isotonic_l2_pav(y, **static, **d)
  key = ("iso", mode, tuple(sorted(static.items())), tuple(sorted(dyn)))
  if mode == "jit":
    return jitted(key, f)(y, dyn)
  return jitted(key, jax.vmap(f, in_axes=(0, None)))(y, dyn)


def judge(T, y, c, v, tol):
  sc = max([np.abs(y).max(), 1e-30] + [abs(c[k]) for k in ("lo", "hi") if c[k] is not None])
  T.ok(v.shape == y.shape, "shape changed", got=v.shape)
  s = 1 if c["inc"] else -1
  ref0 = s * minmax(s * y)
  ref = np.clip(ref0, -np.inf if c["lo"] is None else c["lo"], np.inf if c["hi"] is None else c["hi"])
  T.finite(v, "isotonic")
  T.ok(np.all(s * np.diff(v) >= -tol * sc), "not monotone", v=v, y=y)
  T.ok(np.abs(v - ref).max() <= tol * sc, "not the monotone least-squares fit", v=v, want=ref, y=y)
  if c["lo"] is None and c["hi"] is None:
    T.ok(abs(v.sum() - y.sum()) <= tol * sc * len(y), "total not preserved")
    if np.all(s * np.diff(y) >= 0):
      T.ok(np.all(v == y.astype(v.dtype)) or np.abs(v - y).max() <= tol * sc, "monotone input changed", v=v)
  if np.abs(ref - y).max() <= 1e-9 * sc:
    T.trivial()


@sub("C19", "fit", strat, quick=450, thorough=12000, cfgs=["eager", "jit"], cost=1.5)
def fit_(c, T):
  y = np64(c["y"])
  judge(T, y, c, np64(fit(y, c, c["cfg"])), 1e-11)


@sub("C19", "fit_f32", strat, quick=300, thorough=8000, cfgs=["jit"], x64=False)
def fit_f32(c, T):
  y = np.asarray(c["y"], np.float32)
  v = fit(y, c, "jit")
  T.ok(v.dtype == jnp.float32, "dtype changed", got=v.dtype)
  judge(T, y.astype(float), c, np64(v), 3e-6)


def strat_b(cfg):
  @st.composite
  def s(draw):
    return dict(Y=draw(gen.array((3, 5))), inc=draw(st.booleans()), lo=draw(st.one_of(st.none(), gen.nums(-3, 0))),
                hi=draw(st.one_of(st.none(), gen.nums(0, 3))), default=False)
  return s()


@sub("C19", "batched", strat_b, quick=250, thorough=5000)
def batched(c, T):
  Y = np64(c["Y"])
  V = np64(fit(Y, c, "vmap"))
  for y, v in zip(Y, V):
    judge(T, y, c, v, 1e-11)
  T.trivial_ = False


def strat_long(cfg):
  return gen.fixed(seed=gen.seeds, n=st.integers(50, 400), ties=st.booleans(), trend=gen.nums(-2, 2),
                   inc=st.booleans(), lo=st.none(), hi=st.none(), default=st.booleans())


@sub("C19", "long", strat_long, quick=60, thorough=1500, cost=4)
def long(c, T):
  y = gen.gauss(c["n"], c["seed"]) + c["trend"] * np.linspace(0, 3, c["n"])
  if c["ties"]:
    y = np.round(y * 2) / 2
  judge(T, y, c, np64(fit(y, c, "eager")), 1e-10)


EXT = {"float32": (jnp.float32, 3.4e38, 1e-32, 3e-6), "float16": (jnp.float16, 6.5e4, 1e-1, 4e-3), "float64": (jnp.float64, 1e307, 1e-290, 1e-11)}


@sub("C19", "extreme", lambda cfg: gen.fixed(seed=gen.seeds, n=st.sampled_from([2, 5, 40, 300]), kind=st.sampled_from(["gauss", "reversed", "constant", "runs"]), size=st.sampled_from(["max", "max", "one", "min"]),
                                            inc=st.booleans(), lo=st.none(), hi=st.none(), default=st.booleans()), quick=60, thorough=2000, cfgs=list(EXT))
def extreme(c, T):
  """Values at the ends of the range of the type, and pools much longer than it can add up exactly."""
  dt, top, tiny, tol = EXT[c["cfg"]]
  r = gen.rng(c["seed"])
  y = r.standard_normal(c["n"])
  if c["kind"] == "reversed": y = np.sort(y)[::-1] if c["inc"] else np.sort(y)
  if c["kind"] == "constant": y = np.ones(c["n"]) + .01 * y
  if c["kind"] == "runs": y = np.repeat(y, 7)[:c["n"]]
  lim = top if c["cfg"] != "float64" else top / c["n"]
  y = y / np.abs(y).max() * dict(max=lim, one=1., min=tiny)[c["size"]]
  y = np.asarray(y, dt)
  v = fit(y, c, "eager")
  T.ok(v.dtype == y.dtype, "dtype changed", got=str(v.dtype))
  y = y.astype(float)
  sc = np.abs(y).max()
  judge(T, y / sc, c, np64(v) / sc, tol)
