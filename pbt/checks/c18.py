"""C18: perturbed functions are the Monte-Carlo estimators they claim to be."""
import numpy as np
from hypothesis import strategies as st
import jax, jax.numpy as jnp
from jaxopt import perturbations as P
from pbt import gen
from pbt.core import sub, describe, cached
from pbt.util import np64

describe("C18", "case = (wrapped function and output shape, noise, sigma, number of samples, key, input incl. ties, tangent); oracle = the estimator recomputed in NumPy from "
         "the same noise samples (mean of the outputs, score-function Jacobian with and without control variate), exact softmax for the Gumbel argmax; "
         "non-trivial = the outputs of the samples are not all equal",
         ["noise samples are what noise.sample(key, (num_samples,) + shape) returns, as documented"])


class Logistic:
  """User-supplied noise."""
  def sample(self, seed, sample_shape): return jax.random.logistic(seed, sample_shape)
  def log_prob(self, z): return -z - 2 * jnp.log1p(jnp.exp(-z))


NOISE = dict(normal=P.Normal, gumbel=P.Gumbel, logistic=Logistic)
RAW = dict(normal=jax.random.normal, gumbel=jax.random.gumbel, logistic=jax.random.logistic)
# minus the derivative of the log-density
SCORE = dict(normal=lambda z: z, gumbel=lambda z: 1 - np.exp(-z), logistic=lambda z: np.tanh(z / 2))

oh = lambda x, m: (m.arange(x.size) == m.argmax(x)).astype(float).reshape(x.shape)
ARG = {  # name -> (input shape, function for jnp and np)
    "onehot": ((4,), oh),
    "single": ((1,), oh),
    "rank": ((5,), lambda x, m: m.argsort(m.argsort(x, stable=True), stable=True).astype(float)),
    "top2": ((4,), lambda x, m: (m.argsort(m.argsort(-x, stable=True), stable=True) < 2).astype(float)),
    "matrix": ((2, 3), oh),
    "tensor": ((2, 1, 2), lambda x, m: m.sign(x) * (m.abs(x) >= m.max(m.abs(x)))),
}
FUN = {
    "relu": ((3,), lambda x, m: m.maximum(x, 0.)),
    "scalar": ((3,), lambda x, m: m.max(x) - x[0] * x[1]),
    "from_scalar": ((), lambda x, m: x ** 3),
    "unit": ((3,), lambda x, m: m.sum(x ** 2, keepdims=True)),
    "unit2": ((2,), lambda x, m: (x * x[0])[None]),
    "matrix": ((2, 2), lambda x, m: m.abs(x) @ x),
    "wider": ((2,), lambda x, m: m.stack([x[0], x[1], x[0] * x[1], m.sign(x[0]), m.cos(x[1])]).reshape(5, 1)),
    "step": ((4,), lambda x, m: (x > 0).astype(float)),
}
NS = [1, 3, 25]


def case(shape):
  n = int(np.prod(shape)) if shape else 1
  return gen.fixed(x=gen.vec(n), t=gen.vec(n), key=st.integers(0, 2 ** 32 - 1),
                   sigma=st.sampled_from([.01, .1, .5, 1., 3.]), w=gen.seeds)


def argcfgs(tier):
  return [dict(f=f, noise=nz, n=n, cv=cv) for i, f in enumerate(ARG) for nz in NOISE for j, n in enumerate(NS) for cv in (False, True)
          if tier == "thorough" or (i + j + list(NOISE).index(nz) + cv) % 5 == 0]


def funcfgs(tier):
  return [dict(f=f, noise=nz, n=n, cv=cv) for i, f in enumerate(FUN) for nz in NOISE for j, n in enumerate(NS) for cv in (False, True)
          if tier == "thorough" or (i + j + 2 * list(NOISE).index(nz) + 3 * cv) % 6 == 0]


def build(kind, cfg):
  def go():
    shape, f = dict(ARG=ARG, FUN=FUN)[kind][cfg["f"]]
    noise = NOISE[cfg["noise"]]()
    make = P.make_perturbed_argmax if kind == "ARG" else P.make_perturbed_fun

    def pert(x, key, sigma): return make(lambda v: f(v, jnp), num_samples=cfg["n"], sigma=sigma, noise=noise, control_variate=cfg["cv"])(x, key)

    def pmax(x, key, sigma): return P.make_perturbed_max(lambda v: f(v, jnp), num_samples=cfg["n"], sigma=sigma, noise=noise)(x, key)

    def all_(x, key, sigma, t, ct):
      y, jv = jax.jvp(lambda v: pert(v, key, sigma), (x,), (t,))
      out, vjp = jax.vjp(lambda v: pert(v, key, sigma), x)
      r = dict(y=pert(x, key, sigma), jvp_value=y, jvp=jv, out=out, vjp=vjp(ct.reshape(out.shape))[0], jac=jax.jacrev(lambda v: pert(v, key, sigma))(x))
      if kind == "ARG":
        m = lambda v: pmax(v, key, sigma)
        r.update(max=m(x), gmax=jax.grad(m)(x), jmax=jax.jvp(m, (x,), (t,))[1])
        if not cfg["cv"]: r["hmax"] = jax.hessian(m)(x)
      return r
    return jax.jit(all_), pert
  return cached(("c18", kind, repr(cfg)), go)


def estimator(f, x, Z, sigma, noise, cv):
  """Value and Jacobian (output, input) from the samples."""
  outs = np.array([f(x + sigma * z, np) for z in Z])
  s = SCORE[noise](Z).reshape(len(Z), -1)
  o = outs.reshape(len(Z), -1)
  if cv: o = o - np.asarray(f(x, np)).reshape(1, -1)
  return outs, outs.mean(0), o.T @ s / (len(Z) * sigma)


def run_case(kind, c, T):
  cfg = c["cfg"]
  shape, f = dict(ARG=ARG, FUN=FUN)[kind][cfg["f"]]
  x, t = np64(c["x"]).reshape(shape), np64(c["t"]).reshape(shape)
  key = jax.random.PRNGKey(c["key"])
  sg = c["sigma"]
  all_, pert = build(kind, cfg)
  Z = np64(RAW[cfg["noise"]](key, (cfg["n"],) + shape))
  outs, val, J = estimator(f, x, Z, sg, cfg["noise"], cfg["cv"])
  ct = gen.rng(c["w"]).standard_normal(val.size)
  r = all_(x, key, sg, t, ct)
  sc = 1 + np.abs(outs).max()
  js = 1e-9 * (1 + np.abs(SCORE[cfg["noise"]](Z)).max() * sc / sg)
  ts = 1 + np.abs(t).max()
  T.ok(np.shape(r["y"]) == val.shape, f"output shape {np.shape(r['y'])}, expected {val.shape}")
  for k in ("y", "jvp_value", "out"): T.close(r[k], val, rtol=1e-9, atol=1e-10 * sc, msg=f"{k}: mean over the samples")
  T.ok(np.shape(r["jvp"]) == val.shape and np.shape(r["vjp"]) == shape, "derivative shapes")
  T.close(np.ravel(r["jvp"]), J @ t.ravel(), rtol=1e-8, atol=js * ts * t.size, msg="jvp: score-function estimator")
  T.close(np.ravel(r["vjp"]), ct @ J, rtol=1e-8, atol=js * 10 * val.size, msg="vjp: score-function estimator")
  T.close(np64(r["jac"]).reshape(J.shape), J, rtol=1e-8, atol=js, msg="jacobian: score-function estimator")
  if kind == "ARG":
    mx = np.mean([np.sum((x + sg * z) * o) for z, o in zip(Z, outs)])
    ms = sc * (1 + np.abs(x).max() + sg * np.abs(Z).max()) * x.size
    T.close(r["max"], mx, rtol=1e-9, atol=1e-10 * ms, msg="perturbed max: mean of the maximal values")
    T.close(r["gmax"], val, rtol=1e-9, atol=1e-10 * sc, msg="gradient of the perturbed max is the perturbed argmax")
    T.close(r["jmax"], np.sum(val * t), rtol=1e-9, atol=1e-10 * sc * ts * x.size, msg="jvp of the perturbed max")
    if "hmax" in r: T.close(np64(r["hmax"]).reshape(J.shape), J, rtol=1e-8, atol=js, msg="second derivative of the perturbed max")
  if np.all(outs == outs[0]) : T.trivial()


@sub("C18", "argmax_and_max", lambda cfg: case(ARG[cfg["f"]][0]), quick=25, thorough=400, cfgs=argcfgs, cost=2)
def argmax_and_max(c, T): run_case("ARG", c, T)


@sub("C18", "fun", lambda cfg: case(FUN[cfg["f"]][0]), quick=25, thorough=400, cfgs=funcfgs, cost=2)
def fun(c, T): run_case("FUN", c, T)


@sub("C18", "batching_and_defaults", lambda cfg: gen.fixed(seed=gen.seeds, key=st.integers(0, 2 ** 32 - 1)), quick=15, thorough=300,
     cfgs=[dict(f=f, maker=m) for m, f in (("argmax", "onehot"), ("argmax", "matrix"), ("max", "rank"), ("fun", "relu"), ("fun", "unit2"), ("fun", "scalar"))])
def batching(c, T):
  """vmap over split keys = loop; default arguments; determinism in the key."""
  cfg = c["cfg"]
  shape, f = (FUN if cfg["maker"] == "fun" else ARG)[cfg["f"]]
  mk = getattr(P, "make_perturbed_" + cfg["maker"])
  r = gen.rng(c["seed"])
  X = r.standard_normal((3,) + shape)
  key = jax.random.PRNGKey(c["key"])
  keys = jax.random.split(key, 3)
  fns = cached(("c18b", repr(cfg)), lambda: (lambda g: (jax.jit(jax.vmap(g)), jax.jit(g), jax.jit(jax.vmap(jax.jacrev(g))), jax.jit(jax.jacrev(g)), g))(mk(lambda v: f(v, jnp))))
  A = fns[0](X, keys); B = np.array([fns[1](x, k) for x, k in zip(X, keys)])
  T.close(A, B, rtol=1e-10, atol=1e-10, msg="vmap equals the loop")
  JA = np64(fns[2](X, keys)); JB = np.array([fns[3](x, k) for x, k in zip(X, keys)])
  T.close(JA, JB, rtol=1e-8, atol=1e-8 * (1 + np.abs(JB).max()), msg="vmap of the Jacobian equals the loop")
  # documented defaults: 1000 samples, sigma = 0.1, Gumbel noise
  Z = np64(jax.random.gumbel(keys[0], (1000,) + shape))
  outs, val, J = estimator(f, X[0], Z, .1, "gumbel", False)
  if cfg["maker"] == "max":
    val = np.mean([np.sum((X[0] + .1 * z) * o) for z, o in zip(Z, outs)]); J = outs.mean(0)
  T.close(B[0], val, rtol=1e-8, atol=1e-8, msg="default arguments")
  T.close(JB[0].reshape(np.shape(J)), J, rtol=1e-7, atol=1e-7 * (1 + np.abs(J).max()), msg="Jacobian with default arguments")
  T.ok(np.array_equal(np64(fns[1](X[0], keys[0])), B[0]), "same key, same result")


@sub("C18", "expectation", lambda cfg: gen.fixed(x=gen.vec(3), sigma=st.sampled_from([.3, 1., 2.]), key=st.integers(0, 2 ** 32 - 1)), quick=10, thorough=200,
     cfgs=["gumbel", "normal"])
def expectation(c, T):
  """The estimators are consistent: Gumbel argmax -> softmax, max -> log-sum-exp, Gaussian smoothing of a quadratic."""
  n = 4000
  x = np64(c["x"]); s = c["sigma"]; key = jax.random.PRNGKey(c["key"])
  if c["cfg"] == "gumbel":
    go = cached("c18e", lambda: jax.jit(lambda x, k, s: (P.make_perturbed_argmax(lambda v: oh(v, jnp), n, s)(x, k), P.make_perturbed_max(lambda v: oh(v, jnp), n, s)(x, k),
                                                         jax.jacrev(lambda v: P.make_perturbed_argmax(lambda u: oh(u, jnp), n, s, control_variate=True)(v, k))(x))))
    a, m, J = go(x, key, s)
    z = x / s; p = np.exp(z - z.max()); lse = s * (np.log(p.sum()) + z.max() + np.euler_gamma); p /= p.sum()
    T.close(a, p, rtol=0, atol=6.5 * .5 / np.sqrt(n), msg="Gumbel perturbed argmax is a softmax")
    T.close(m, lse, rtol=0, atol=6.5 * s * 1.3 / np.sqrt(n), msg="Gumbel perturbed max is a log-sum-exp")
    T.close(J, (np.diag(p) - np.outer(p, p)) / s, rtol=0, atol=7.5 * 1.5 / s / np.sqrt(n), msg="Jacobian of the softmax")
  else:
    go = cached("c18q", lambda: jax.jit(lambda x, k, s: (P.make_perturbed_fun(lambda v: v ** 2, n, s, P.Normal())(x, k),
                                                         jax.jacrev(lambda v: P.make_perturbed_fun(lambda u: u ** 2, n, s, P.Normal(), control_variate=True)(v, k))(x))))
    v, J = go(x, key, s)
    sd = np.sqrt(4 * x ** 2 * s ** 2 + 2 * s ** 4)
    T.ok(np.all(np.abs(np64(v) - x ** 2 - s ** 2) <= 6.5 * sd / np.sqrt(n)), f"Gaussian smoothing of a square: {v} vs {x ** 2 + s ** 2}")
    T.ok(np.all(np.abs(np64(J) - np.diag(2 * x)) <= 7.5 * (4 * np.abs(x) + 5 * s + 1)[:, None] / np.sqrt(n)), f"its derivative: {J} vs {np.diag(2 * x)}")


@sub("C18", "noise", lambda cfg: gen.fixed(z=gen.vec(5), key=st.integers(0, 2 ** 32 - 1)), quick=40, thorough=600, cfgs=["normal", "gumbel"])
def noise(c, T):
  d = NOISE[c["cfg"]]()
  z = np64(c["z"])
  T.close(jax.vmap(jax.grad(d.log_prob))(z), -SCORE[c["cfg"]](z), rtol=1e-9, atol=1e-9, msg="derivative of log_prob")
  lp = np64(d.log_prob(jnp.asarray(z)))
  ref = -z ** 2 / 2 if c["cfg"] == "normal" else -z - np.exp(-z)
  T.close(lp - lp[0], ref - ref[0], rtol=1e-9, atol=1e-9 * (1 + np.abs(ref).max()), msg="log_prob up to a constant")
  k = jax.random.PRNGKey(c["key"])
  s = np.sort(np64(d.sample(k, (2000,))))
  from scipy.stats import norm
  cdf = norm.cdf(s) if c["cfg"] == "normal" else np.exp(-np.exp(-s))
  i = np.arange(2000)
  ks = max(np.abs(cdf - i / 2000).max(), np.abs(cdf - (i + 1) / 2000).max())
  T.ok(ks < 3.6 / np.sqrt(2000), f"samples do not follow the density (Kolmogorov-Smirnov {ks})")
  T.ok(d.sample(k, (2, 3)).shape == (2, 3), "sample shape")
