"""Registry of sub-checks, the Hypothesis driver of one task, tracker, oracles.

A *sub-check* is (property, name, strategy, check): the strategy draws a plain
JSON-able case (every random choice is inside Hypothesis), the check runs the
code under test on it and raises on disagreement with its oracle.  A sub-check
may be parametrised by a list of configurations: one task per configuration.
"""
import hashlib, json, math, os, time, traceback
import numpy as np

SUBS = {}      # property -> list of Sub
DESCR = {}     # property -> dict(rule=..., assumptions=[...])


class Violation(AssertionError):
  """The property does not hold on this case."""


class Excluded(Exception):
  """The case is exactly a recorded known finding; it is counted, not judged."""


class HarnessError(Exception):
  """The machinery, not the code under test, is at fault."""


class Sub:
  def __init__(self, prop, name, strategy, check, quick, thorough, x64, cfgs,
               cost):
    self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
    self.quick, self.thorough, self.x64 = quick, thorough, x64
    self.cfgs, self.cost = cfgs, cost


def describe(prop, rule, assumptions=()):
  DESCR[prop] = dict(rule=rule, assumptions=list(assumptions))


def sub(prop, name, strategy, quick, thorough=None, x64=True, cfgs=(None,),
        cost=1.0):
  """Registers a sub-check. strategy: f(cfg) -> Hypothesis strategy (dict).

  quick/thorough: Hypothesis examples per configuration.
  cfgs: JSON-able configurations; may be a function tier -> list.
  """
  def deco(check):
    if any(s.name == name for s in SUBS.get(prop, [])):
      raise HarnessError(f"duplicate sub-check {prop}/{name}")
    SUBS.setdefault(prop, []).append(
        Sub(prop, name, strategy, check, quick, thorough or quick * 20, x64,
            cfgs, cost))
    return check
  return deco


class Tracker:
  """What one case did: passed to check functions."""

  def __init__(self, prop=None):
    self.prop = prop
    self.trivial_ = False
    self.labels = []
    self.extra = 0

  def trivial(self):
    self.trivial_ = True

  def label(self, s):
    self.labels.append(str(s))

  def count(self, n=1):
    """n further sub-evaluations inside this case (for the evidence)."""
    self.extra += n

  def known(self, slug):
    """The case fails exactly like a recorded finding; unlisted ones are judged on."""
    if slug in known_slugs(self.prop):
      raise Excluded(slug)

  # --- oracles -----------------------------------------------------------
  def ok(self, cond, msg="", **info):
    if not bool(cond):
      raise Violation(msg + ("" if not info else "  " + "; ".join(
          f"{k}={short(v)}" for k, v in info.items())))

  def close(self, got, want, rtol, atol, msg="", **info):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
      raise Violation(f"{msg}: shape {got.shape} != {want.shape}")
    if not np.all(np.isfinite(want) | np.isinf(want)):
      raise HarnessError(f"{msg}: reference is not a number: {want}")
    with np.errstate(invalid="ignore", over="ignore"):
      same = (got == want)
      err = np.abs(got - want)
      lim = atol + rtol * np.abs(np.where(np.isfinite(want), want, 0))
      good = same | (err <= lim)
    if not np.all(good):
      raise Violation(
          f"{msg}: got {short(got)} want {short(want)} "
          f"max abs err {np.nanmax(np.where(good, 0, err)) if err.size else 0:.3g}"
          + "".join(f"; {k}={short(v)}" for k, v in info.items()))

  def finite(self, x, msg=""):
    x = np.asarray(x)
    if not np.all(np.isfinite(x)):
      raise Violation(f"{msg}: not finite: {short(x)}")


def short(v, n=300):
  if hasattr(v, "dtype"):
    v = np.asarray(v).tolist()
  s = repr(v)
  return s if len(s) <= n else s[:n] + "..."


_KNOWN = None


def known_slugs(prop):
  global _KNOWN
  if _KNOWN is None:
    _KNOWN = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        "known_findings.txt")
    for line in open(path):
      f = line.split()
      if line.startswith("finding:"):
        _KNOWN.setdefault(f[1].split("=", 1)[1], set()).add(f[2].split("=", 1)[1])
  return _KNOWN.get(prop, ())


_CACHE = {}


def cached(key, build):
  """Process-wide cache (jitted functions), separate per precision."""
  import jax
  k = (bool(jax.config.jax_enable_x64), key)
  if k not in _CACHE:
    _CACHE[k] = build()
  return _CACHE[k]


def jitted(key, fn, **kw):
  import jax
  return cached(("jit", key), lambda: jax.jit(fn, **kw))


def maybe_clear_caches():
  """Keeps a worker's memory bounded."""
  import jax, resource
  with open("/proc/self/statm") as f:
    rss = int(f.read().split()[1]) * resource.getpagesize()
  if rss > 2_800_000_000:
    _CACHE.clear()
    jax.clear_caches()


def plain(x):
  """JSON-able copy (numpy to lists)."""
  if isinstance(x, dict):
    return {str(k): plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [plain(v) for v in x]
  if isinstance(x, np.ndarray):
    return x.tolist()
  if isinstance(x, np.generic):
    return x.item()
  return x


def strict(x):
  """For the evidence file: no Infinity/NaN literals, long lists cut."""
  if isinstance(x, dict):
    return {k: strict(v) for k, v in x.items()}
  if isinstance(x, list):
    return [strict(v) for v in x[:12]] + (["..."] if len(x) > 12 else [])
  if isinstance(x, float) and not math.isfinite(x):
    return str(x)
  return x


def digest(case):
  return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                         digest_size=8).hexdigest()


def task_seed(seed, prop, name, idx):
  h = hashlib.sha256(f"{seed}:{prop}:{name}:{idx}".encode()).digest()
  return int.from_bytes(h[:8], "big")


def set_x64(x64):
  import jax
  jax.config.update("jax_enable_x64", bool(x64))


def is_harness_fault(e):
  if isinstance(e, (HarnessError, MemoryError)):
    return True
  return "RESOURCE_EXHAUSTED" in str(e) or "out of memory" in str(e).lower()


def describe_exc(e):
  if isinstance(e, Violation):
    return str(e)
  tb = traceback.extract_tb(e.__traceback__)
  where = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb
           if "/jaxopt/" in f.filename][-2:]
  mine = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
          if "/pbt/" in f.filename][-2:]
  return (f"{type(e).__name__}: {str(e)[:600]} (in {', '.join(where) or '-'};"
          f" called from {', '.join(mine)})")


def run_case(s, case):
  """Runs one case outside Hypothesis. Returns (failure message|None, Tracker)."""
  T = Tracker(s.prop)
  set_x64(s.x64)
  try:
    s.check(case, T)
  except Excluded:
    T.labels.append("excluded")
    return None, T
  except Exception as e:
    if is_harness_fault(e):
      raise
    return describe_exc(e), T
  return None, T


def run_task(s, cfg, idx, n, seed, budget):
  """Generated-input search for one sub-check and configuration."""
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  import hypothesis.internal.conjecture.engine as engine
  import hypothesis.errors as herr
  engine.MAX_SHRINKING_SECONDS = 25
  set_x64(s.x64)
  maybe_clear_caches()
  t0 = time.time()
  st = dict(evaluations=0, extra=0, excluded={}, labels={}, skipped=0)
  digests, samples, failing = set(), [], []

  def body(case):
    case = dict(plain(case))
    if cfg is not None:
      case["cfg"] = cfg
    if time.time() - t0 > budget and not failing:
      st["skipped"] += 1
      return
    T = Tracker(s.prop)
    try:
      s.check(case, T)
    except Excluded as e:
      if not failing:
        st["evaluations"] += 1
        st["excluded"][str(e)] = st["excluded"].get(str(e), 0) + 1
      return
    except herr.HypothesisException:
      raise
    except Exception as e:
      if is_harness_fault(e):
        raise HarnessError(describe_exc(e)) from e
      failing.append((case, describe_exc(e)))
      raise Violation(describe_exc(e)) from None
    if failing:
      return
    st["evaluations"] += 1
    st["extra"] += T.extra
    for l in T.labels:
      st["labels"][l] = st["labels"].get(l, 0) + 1
    if not T.trivial_:
      d = digest(case)
      if d not in digests:
        digests.add(d)
        if len(samples) < 1 or (len(samples) < 2 and len(digests) > n // 2):
          samples.append(case)

  test = settings(
      max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
      phases=[Phase.generate, Phase.shrink], print_blob=False,
      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                             HealthCheck.large_base_example])(
          given(s.strategy(cfg))(body))
  test = hypothesis.seed(task_seed(seed, s.prop, s.name, idx))(test)
  out = dict(prop=s.prop, name=s.name, cfg=cfg, idx=idx, status="ok", **st)
  try:
    test()
  except Violation:
    out["status"] = "violation"
  except herr.Flaky as e:
    out["status"] = "flaky"
    out["message"] = f"{e}"
  except herr.HypothesisException as e:
    out["status"], out["message"] = "error", describe_exc(e)
  except HarnessError as e:
    out["status"], out["message"] = "error", str(e)
  except BaseException as e:
    if isinstance(e, (KeyboardInterrupt, SystemExit)):
      raise
    out["status"], out["message"] = (
        ("flaky", describe_exc(e)) if failing else
        ("error", describe_exc(e) + "\n" + traceback.format_exc()))
  if out["status"] in ("violation", "flaky") and failing:
    # the replay bypasses Hypothesis: keep the smallest case that fails again
    for case, _ in [failing[-1]] + sorted(failing, key=lambda c: len(json.dumps(c[0]))):
      msg, _T = run_case(s, case)
      if msg:
        out.update(status="violation", case=case, message=msg)
        break
    else:
      out.update(status="error",
                 message="failure does not reproduce: " + failing[0][1],
                 case=failing[0][0])
  out.update(st)
  out.update(digests=sorted(digests), samples=samples, wall=time.time() - t0)
  return out
