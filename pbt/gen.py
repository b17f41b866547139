"""Hypothesis strategies for numeric cases (all JSON-able)."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**32 - 1)


def rng(seed):
  return np.random.default_rng(seed)


def floats(lo=-4.0, hi=4.0):
  lo, hi = float(np.float32(lo)), float(np.float32(hi))
  return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                   allow_subnormal=False, width=32)


def nums(lo=-4.0, hi=4.0):
  """Scalars: half grid points (ties, zeros, boundaries), half continuous."""
  a, b = int(np.ceil(lo * 4)), int(np.floor(hi * 4))
  return st.one_of(st.integers(a, b).map(lambda k: k / 4), floats(lo, hi))


def pos(lo=0.05, hi=4.0):
  """Positive scalars."""
  a, b = int(np.ceil(lo * 4)), int(np.floor(hi * 4))
  return st.one_of(st.integers(a, b).map(lambda k: k / 4), floats(lo, hi))


def _shape(flat, shape):
  return np.asarray(flat, dtype=float).reshape(shape).tolist()


@st.composite
def array(draw, shape, lo=-4.0, hi=4.0, flavors=("grid", "cont", "gauss", "sparse", "ties")):
  """Array as nested lists; flavors make ties, zeros and generic points likely."""
  shape = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
  n = int(np.prod(shape)) if shape else 1
  f = draw(st.sampled_from(flavors))
  a, b = int(np.ceil(lo * 2)), int(np.floor(hi * 2))
  if f == "grid":
    v = [k / 2 for k in draw(st.lists(st.integers(a, b), min_size=n, max_size=n))]
  elif f == "cont":
    v = draw(st.lists(floats(lo, hi), min_size=n, max_size=n))
  elif f == "gauss":
    r = rng(draw(seeds))
    v = np.clip(r.standard_normal(n) * draw(st.sampled_from([1.0, 0.1, 3.0])), lo, hi)
  elif f == "sparse":
    v = [k / 2 if m else min(max(0.0, lo), hi) for k, m in draw(st.lists(
        st.tuples(st.integers(a, b), st.booleans()), min_size=n, max_size=n))]
  elif f == "ties":
    pool = draw(st.lists(nums(lo, hi), min_size=1, max_size=2))
    v = [pool[i % len(pool)] for i in draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))]
  else:
    raise ValueError(f)
  return _shape(v, shape) if shape else float(np.asarray(v, float).reshape(()))


def vec(n, lo=-4.0, hi=4.0, **kw):
  return array((n,), lo, hi, **kw)


def fixed(**kw):
  return st.fixed_dictionaries(kw)


@st.composite
def sized_vec(draw, sizes, lo=-4.0, hi=4.0, **kw):
  return draw(vec(draw(st.sampled_from(sizes)), lo, hi, **kw))


def spd(n, seed, cond=10.0, scale=1.0):
  """Symmetric positive definite matrix with eigenvalues in [scale/cond.., scale]."""
  r = rng(seed)
  q, _ = np.linalg.qr(r.standard_normal((n, n)))
  if n == 1:
    ev = np.array([1.0])
  else:
    ev = np.concatenate([[1.0 / cond, 1.0], np.exp(r.uniform(-np.log(cond), 0, n - 2))])
  a = (q * (scale * ev)) @ q.T
  return (a + a.T) / 2


def gauss(shape, seed):
  return rng(seed).standard_normal(shape)
