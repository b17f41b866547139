"""python -m pbt.run <property> [quick|thorough] [--replay F] [--sub NAME] ..."""
import argparse, glob, importlib, json, multiprocessing as mp, os, re, sys, time
from multiprocessing.connection import wait
from pbt import ROOT, REPO, core


def load(prop):
  importlib.import_module(f"pbt.checks.{prop.lower()}")
  return core.SUBS[prop]


def repo_guard():
  import jaxopt
  f = os.path.realpath(jaxopt.__file__)
  if not f.startswith(os.path.realpath(REPO) + os.sep):
    raise core.HarnessError(f"jaxopt imported from {f}, not from {REPO}")


def worker(conn, prop, seed):
  import warnings
  warnings.filterwarnings("ignore")
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  try:
    import jax
    repo_guard()
    subs = {s.name: s for s in load(prop)}
  except BaseException as e:
    import traceback
    conn.send(dict(status="error", message="import: " + traceback.format_exc()))
    return
  while True:
    conn.send(dict(status="ready"))
    t = conn.recv()
    if t is None:
      return
    try:
      r = core.run_task(subs[t["name"]], t["cfg"], t["idx"], t["n"], seed,
                        t["budget"])
    except BaseException as e:
      import traceback
      r = dict(status="error", name=t["name"], cfg=t["cfg"],
               message=traceback.format_exc())
    conn.send(r)


def known_entries(prop):
  """`finding: property=<id> slug=<slug> <text>` lines of known_findings.txt."""
  out = []
  path = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r"finding: property=(\S+) slug=(\S+) (.*)", line)
      if m and m.group(1) == prop:
        out.append((m.group(2), m.group(3).strip()))
  return out


def replay_known(conn, prop):
  """Re-executes each recorded finding (its check with exclusion disabled)."""
  res = []
  try:
    import warnings
    warnings.filterwarnings("ignore")
    subs = {s.name: s for s in load(prop)}
    for slug, text in known_entries(prop):
      d = json.load(open(os.path.join(ROOT, "known", slug + ".json")))
      T = core.Tracker
      orig = T.known
      T.known = lambda self, slug: None
      try:
        msg, _ = core.run_case(subs[d["sub"]], d["case"])
      finally:
        T.known = orig
      res.append((slug, text, msg))
    conn.send(res)
  except BaseException as e:
    import traceback
    conn.send(traceback.format_exc())


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--sub", help="regular expression of sub-check names")
  ap.add_argument("--scale", type=float, default=1.0)
  ap.add_argument("--keep-going", action="store_true")
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
  ap.add_argument("--times", action="store_true")
  a = ap.parse_args()
  t0 = time.time()
  prop, seed = a.prop, int(os.environ.get("VERIF_SEED", "1") or "1")

  if a.replay:
    import warnings
    warnings.filterwarnings("ignore")
    repo_guard()
    d = json.load(open(a.replay))
    subs = {s.name: s for s in load(prop)}
    msg, T = core.run_case(subs[d["sub"]], d["case"])
    print(f"{prop}/{d['sub']}: {'FAILS: ' + msg if msg else 'holds'} {T.labels}")
    if msg:
      print(f"VIOLATION property={prop} replay={a.replay}")
    return 1 if msg else 0

  ctx = mp.get_context("spawn")
  subs = load(prop)
  hard = 780 if a.tier == "quick" else 3 * 3600
  tasks = []
  for s in subs:
    if a.sub and not re.search(a.sub, s.name):
      continue
    cfgs = s.cfgs(a.tier) if callable(s.cfgs) else s.cfgs
    n = s.quick if a.tier == "quick" else s.thorough
    for i, cfg in enumerate(cfgs):
      tasks.append(dict(name=s.name, cfg=cfg, idx=i, n=max(1, int(n * a.scale)),
                        cost=(s.cost(cfg) if callable(s.cost) else s.cost) * n,
                        budget=300 if a.tier == "quick" else 3600))
  tasks.sort(key=lambda t: (-t["cost"], t["name"], t["idx"]))
  if not tasks:
    print("no tasks"); return 3
  queue = list(tasks)
  procs = {}
  kconn = None
  if known_entries(prop):
    kconn, child = ctx.Pipe()
    kp = ctx.Process(target=replay_known, args=(child, prop), daemon=True)
    kp.start(); child.close()
  for _ in range(min(a.jobs, len(tasks))):
    c, child = ctx.Pipe()
    p = ctx.Process(target=worker, args=(child, prop, seed), daemon=True)
    p.start(); child.close()
    procs[c] = p
  results, errors, violations = [], [], []
  busy, stop = {}, False
  while procs:
    for c in wait(list(procs), timeout=5):
      try:
        m = c.recv()
      except EOFError:
        p = procs.pop(c)
        t = busy.pop(c, None)
        if t is not None:
          p.join(5)
          errors.append(f"worker died (exit {p.exitcode}) on {t['name']} {t['cfg']}")
          if queue and not stop:   # replace it
            c2, child = ctx.Pipe()
            p2 = ctx.Process(target=worker, args=(child, prop, seed), daemon=True)
            p2.start(); child.close()
            procs[c2] = p2
        continue
      if m["status"] != "ready":
        busy.pop(c, None)
        results.append(m)
        if m["status"] == "violation":
          violations.append(m)
          if not a.keep_going:
            stop = True
        elif m["status"] == "error":
          errors.append(f"{m.get('name')} {m.get('cfg')}: {m.get('message')} {json.dumps(m.get('case'))[:1500] if m.get('case') else ''}")
          if "name" not in m:
            procs.pop(c); continue
        continue
      if queue and not stop:
        t = queue.pop(0)
        busy[c] = t
        c.send(t)
      else:
        c.send(None)
        procs.pop(c)
    if stop or time.time() - t0 > hard:
      if not stop:
        errors.append(f"time limit of {hard} s reached; unfinished: "
                      f"{[(t['name'], t['cfg']) for t in busy.values()]}")
      for p in procs.values():
        p.kill()
      break

  known_lines = []
  if kconn is not None:
    r = kconn.recv() if kconn.poll(300) else "known-finding replay did not finish"
    if isinstance(r, str):
      errors.append(r)
    else:
      for slug, text, msg in r:
        if msg:
          known_lines.append(f"KNOWN-FINDING: property={prop} {slug}: {text}")
        else:
          print(f"note: recorded finding {slug} no longer reproduces")

  # evidence
  dg, samples, per = set(), [], {}
  for r in results:
    if "evaluations" not in r:
      continue
    q = per.setdefault(r["name"], dict(evaluations=0, inner_checks=0,
                                       distinct_nontrivial=0, configurations=0,
                                       labels={}, excluded={}, skipped=0))
    q["configurations"] += 1
    q["evaluations"] += r["evaluations"]
    q["inner_checks"] += r["extra"]
    q["skipped"] += r["skipped"]
    new = {f"{r['name']}:{d}" for d in r["digests"]}
    q["distinct_nontrivial"] += len(new - dg)
    dg |= new
    for k in ("labels", "excluded"):
      for l, n in r[k].items():
        q[k][l] = q[k].get(l, 0) + n
  bysub = {}
  for r in results:
    for smp in r.get("samples", []):
      bysub.setdefault(r["name"], []).append(dict(sub=r["name"], case=core.strict(smp)))
  for name in sorted(bysub):
    samples += bysub[name][:2]
  d = core.DESCR.get(prop, {})
  ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
            seed=seed, level="exploration",
            coverage=dict(
                evaluations=sum(q["evaluations"] for q in per.values()),
                distinct_nontrivial=len(dg), rule=d.get("rule", ""),
                samples=samples[:40], per_subcheck=per,
                tasks_completed=len(results), tasks_planned=len(tasks)),
            assumptions=d.get("assumptions", []),
            wall_s=round(time.time() - t0, 2), violations=len(violations))
  if not a.sub:
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
      json.dump(ev, f, indent=1)
  if a.times:
    for r in sorted(results, key=lambda r: -r.get("wall", 0))[:40]:
      print(f"  {r.get('wall', 0):7.1f}s {r.get('name')} {r.get('cfg')} n={r.get('evaluations')} skipped={r.get('skipped')}")
    for k, q in sorted(per.items()):
      print(" ", k, {x: y for x, y in q.items()})
  for l in known_lines:
    print(l)
  for v in violations:
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays",
                        f"{prop}-{v['name']}-{core.digest(v['case'])}.json")
    with open(path, "w") as f:
      json.dump(dict(property=prop, sub=v["name"], case=v["case"],
                     message=v["message"], seed=seed, x64=[s.x64 for s in subs if s.name == v["name"]][0]), f, indent=1)
    print(f"{prop}/{v['name']}: {v['message']}")
    print(f"  case: {json.dumps(v['case'])[:3000]}")
    print(f"VIOLATION property={prop} replay={path}")
  for e in errors:
    print("ERROR", e)
  print(f"{prop} {a.tier}: {ev['coverage']['evaluations']} cases, "
        f"{len(dg)} distinct non-trivial, {len(results)}/{len(tasks)} tasks, "
        f"{time.time()-t0:.1f} s, {len(violations)} violations, {len(errors)} errors")
  sys.stdout.flush()
  if violations:
    return 1
  return 3 if errors else 0


if __name__ == "__main__":
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
