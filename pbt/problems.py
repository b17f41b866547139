"""Smooth strongly convex test problems given by data arrays (one compile per solver configuration).

f(x; D) = w0 (x'Qx/2 - c'x) + w1 mean log(1+exp(-s_i a_i'x)) + w2 mean logcosh(a_i'x - b_i)
with Q >= mu I and a bound L on the curvature.
"""
import numpy as np
import jax, jax.numpy as jnp
from hypothesis import strategies as st
from pbt import gen

NDATA = 5


def data(n, seed, kind, cond, scale=1.0):
  """Data dict (numpy) of one problem; kind in quad, logistic, logcosh, mixed."""
  r = gen.rng(seed)
  Q = gen.spd(n, int(r.integers(2**31)), cond=cond) if n > 1 else np.array([[1.0]])
  c = r.standard_normal(n) * scale
  A = r.standard_normal((NDATA, n))
  b = r.standard_normal(NDATA)
  s = np.where(r.uniform(size=NDATA) < .5, -1.0, 1.0)
  w = dict(quad=[1, 0, 0], logistic=[.5, 1, 0], logcosh=[.5, 0, 1], mixed=[.3, .4, .4])[kind]
  return dict(Q=Q, c=c, A=A, b=b, s=s, w=np.array(w, float))


def fun(x, D):
  z = jnp.dot(D["A"], x)
  q = 0.5 * jnp.dot(x, jnp.dot(D["Q"], x)) - jnp.dot(D["c"], x)
  l = jnp.mean(jax.nn.softplus(-D["s"] * z))
  u = z - D["b"]
  h = jnp.mean(jnp.logaddexp(u, -u) - jnp.log(2.0))
  return D["w"][0] * q + D["w"][1] * l + D["w"][2] * h


def value(x, D):
  z = D["A"] @ x
  u = z - D["b"]
  return (D["w"][0] * (0.5 * x @ D["Q"] @ x - D["c"] @ x) + D["w"][1] * np.mean(np.logaddexp(0, -D["s"] * z))
          + D["w"][2] * np.mean(np.logaddexp(u, -u) - np.log(2)))


def grad(x, D):
  z = D["A"] @ x
  t = D["s"] * z
  sig = np.where(t >= 0, np.exp(-np.abs(t)) / (1 + np.exp(-np.abs(t))), 1 / (1 + np.exp(-np.abs(t))))
  g = D["w"][0] * (D["Q"] @ x - D["c"])
  g = g - D["w"][1] * D["A"].T @ (D["s"] * sig) / NDATA
  return g + D["w"][2] * D["A"].T @ np.tanh(z - D["b"]) / NDATA


def hess(x, D):
  z = D["A"] @ x
  p = 1 / (1 + np.exp(np.clip(D["s"] * z, -500, 500)))
  h = D["w"][1] * p * (1 - p) + D["w"][2] / np.cosh(np.clip(z - D["b"], -300, 300)) ** 2
  return D["w"][0] * D["Q"] + (D["A"].T * h) @ D["A"] / NDATA


def mu_L(D):
  """Strong convexity constant and curvature bound."""
  ev = np.linalg.eigvalsh(D["Q"])
  L = D["w"][0] * ev[-1] + (0.25 * D["w"][1] + D["w"][2]) * np.linalg.eigvalsh(D["A"].T @ D["A"])[-1] / NDATA
  return D["w"][0] * ev[0], L


def minimizer(D):
  """Damped Newton to machine precision."""
  x = np.zeros(len(D["c"]))
  for _ in range(100):
    g = grad(x, D)
    if np.linalg.norm(g) < 1e-14 * (1 + np.linalg.norm(D["c"])):
      break
    d = np.linalg.solve(hess(x, D), -g)
    t = 1.0
    while value(x + t * d, D) > value(x, D) + 1e-4 * t * (g @ d) + 1e-15 and t > 1e-8:
      t /= 2
    x = x + t * d
  return x


def normalized(D):
  """The same problem scaled to curvature at most 1."""
  L = mu_L(D)[1]
  D = dict(D)
  D["w"] = D["w"] / L
  return D


KINDS = ["quad", "logistic", "logcosh", "mixed"]


def strat(n, conds=(1.0, 4.0, 20.0)):
  return gen.fixed(seed=gen.seeds, kind=st.sampled_from(KINDS), cond=st.sampled_from(list(conds)),
                   scale=st.sampled_from([0.0, 1.0, 1.0, 5.0]))


STARTS = ["zero", "random", "random", "optimum", "near", "far"]


def start(kind, n, seed, D):
  r = gen.rng(seed)
  if kind == "zero":
    return np.zeros(n)
  if kind == "random":
    return r.standard_normal(n) * 2
  if kind == "far":
    return r.standard_normal(n) * 30
  x = minimizer(D)
  return x if kind == "optimum" else x + 1e-5 * r.standard_normal(n)
