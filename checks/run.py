#!/usr/bin/env python3
"""Run the check of one property.

  run.py P01                    run the check (tier from VERIF_TIER)
  run.py P01 --thorough         force the thorough tier
  run.py P01 --replay FILE      re-run a saved failing case without hypothesis
  run.py P01 --sub NAME         restrict to one sub-check (no evidence file)
"""
import argparse
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "SDL_VIDEODRIVER": "dummy",
    "SDL_AUDIODRIVER": "dummy",
    "PYGAME_HIDE_SUPPORT_PROMPT": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}


def load(prop):
  sys.path.insert(0, HERE)
  import core
  core.bootstrap()
  m = importlib.import_module(f"props.{prop.lower()}")
  import sample
  f = os.path.realpath(sample.__file__)
  if not f.startswith(core.REPO + os.sep):
    raise SystemExit(f"sample imported from {f}, not from {core.REPO}")
  return core, m


def child(args):
  os.environ.update(ENV)
  import warnings
  core, m = load(args.prop)
  warnings.simplefilter("ignore")
  sub = next(s for s in m.SUBS if s.name == args.sub)
  core.run_sub(args.prop, sub, args.seed, args.tier, args.shard, args.nshards,
               args.out, args.soft)
  # do not wait for stray threads
  sys.stdout.flush()
  os._exit(0)


def replay(args):
  core, m = load(args.prop)
  import warnings
  warnings.simplefilter("ignore")
  with open(args.replay, encoding="utf-8") as f:
    d = json.load(f)
  sub = next(s for s in m.SUBS if s.name == d["sub"])
  try:
    core.run_case(sub, d["case"], core.Ctx())
  except core.Violation as e:
    print(f"{args.prop}/{sub.name}: {e}")
    print(f"VIOLATION property={args.prop} replay={args.replay}")
    return 1
  except core.Skip:
    print("out of domain")
    return 0
  print(f"{args.prop}/{sub.name}: the case passes")
  return 0


def rule_of(prop):
  """Read the names of subs in a fresh process (keeps the parent light)"""
  code = ("import sys,json;sys.argv=['x'];sys.path.insert(0,%r);import run;"
          "c,m=run.load(%r);"
          "print('@@'+json.dumps({'rule':m.RULE,'assume':getattr(m,"
          "'ASSUMPTIONS',[]),'probes':[p[0] for p in getattr(m,'PROBES',[])],"
          "'subs':[[s.name,s.quick,s.thorough,s.shards,s.thorough_shards] "
          "for s in m.SUBS]}))") % (HERE, prop)
  r = subprocess.run([PY, "-B", "-c", code],
                     env={
                         **os.environ,
                         **ENV
                     },
                     capture_output=True,
                     text=True,
                     check=False)
  for line in r.stdout.splitlines():
    if line.startswith("@@"):
      return json.loads(line[2:])
  print(r.stdout[-2000:], r.stderr[-4000:])
  return None


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--thorough", action="store_true")
  ap.add_argument("--replay")
  ap.add_argument("--sub")
  ap.add_argument("--jobs", type=int, default=8)
  ap.add_argument("--scale", type=float, default=None)
  # internal
  ap.add_argument("--child", action="store_true")
  ap.add_argument("--seed", type=int)
  ap.add_argument("--tier")
  ap.add_argument("--shard", type=int)
  ap.add_argument("--nshards", type=int)
  ap.add_argument("--out")
  ap.add_argument("--soft", type=float)
  args = ap.parse_args()
  os.environ.update(ENV)
  if args.child:
    return child(args)
  if args.replay:
    return replay(args)

  prop = args.prop
  t0 = time.monotonic()
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  tier = "thorough" if args.thorough else os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  # Time limits.  The soft one ends the generation of cases (what was not run
  # is reported as truncated), the hard one is an error of the check.
  soft = 420 if tier == "quick" else 3000
  hard = 780 if tier == "quick" else 5400
  # Time for the other sub-checks to end after a violation
  grace = float(os.environ.get("VERIF_GRACE", "60"))

  info = rule_of(prop)
  if info is None:
    print(f"ERROR: cannot load the check of {prop}")
    return 2
  tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
  procs = []
  reports = []
  errors = []
  try:
    todo = []
    for name, quick, thorough, shards, tsh in info["subs"]:
      if args.sub and name != args.sub:
        continue
      ns = shards if tier == "quick" else (tsh or max(shards, 4))
      total = quick if tier == "quick" else thorough
      ns = max(1, min(ns, total)) if total else 1
      for i in range(ns):
        todo.append((name, i, ns))
    # longest first is unknown; keep declaration order
    t_viol = None
    running = []
    while todo or running:
      while todo and len(running) < args.jobs and t_viol is None:
        name, i, ns = todo.pop(0)
        out = os.path.join(tmp, f"{name}.{i}.json")
        log = open(os.path.join(tmp, f"{name}.{i}.log"), "wb")
        scratch = os.path.join(tmp, f"{name}.{i}.d")
        os.makedirs(scratch)
        p = subprocess.Popen([
            PY, "-B",
            os.path.join(HERE, "run.py"), prop, "--child", "--sub", name,
            "--seed",
            str(seed), "--tier", tier, "--shard",
            str(i), "--nshards",
            str(ns), "--out", out, "--soft",
            str(soft)
        ],
                             env={
                                 **os.environ,
                                 **ENV, "TMPDIR": scratch,
                                 "HOME": scratch,
                                 "MPLCONFIGDIR": scratch,
                             },
                             cwd=scratch,
                             stdout=log,
                             stderr=subprocess.STDOUT,
                             start_new_session=True)
        running.append((p, name, i, out, log))
        procs.append(p)
      time.sleep(0.05)
      still = []
      for r in running:
        p, name, i, out, log = r
        if p.poll() is None:
          still.append(r)
          continue
        log.close()
        rep = None
        if os.path.exists(out):
          with open(out, encoding="utf-8") as f:
            rep = json.load(f)
          reports.append(rep)
          if rep["violation"] and t_viol is None:
            t_viol = time.monotonic()
        if rep is None or (p.returncode != 0 and not rep["violation"]):
          with open(log.name, "rb") as f:
            tail = f.read()[-3000:].decode("utf-8", "replace")
          errors.append(f"{name}[{i}] exited with {p.returncode}: {tail}")
      running = still
      now = time.monotonic()
      if t_viol is not None:
        todo.clear()
      if running and (now - t0 > hard or
                      (t_viol is not None and now - t_viol > grace)):
        for p, name, i, out, log in running:
          try:
            os.killpg(p.pid, signal.SIGKILL)
          except ProcessLookupError:
            pass
          p.wait()
          log.close()
          rep = None
          if os.path.exists(out):
            with open(out, encoding="utf-8") as f:
              rep = json.load(f)
            reports.append(rep)
          if t_viol is None and not (rep and rep["violation"]):
            errors.append(f"{name}[{i}] did not finish within {hard} s")
        running = []
        todo.clear()
  finally:
    for p in procs:
      # also reap grandchildren (process pools of the code under test)
      try:
        os.killpg(p.pid, signal.SIGKILL)
      except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(tmp, ignore_errors=True)

  subs = {}
  hashes = set()
  samples = []
  for r in reports:
    s = subs.setdefault(
        r["sub"], {
            "evaluations": 0,
            "distinct_nontrivial": 0,
            "skipped_out_of_domain": 0,
            "not_run_for_time": 0,
            "classes": {}
        })
    s["evaluations"] += r["evaluations"]
    s["skipped_out_of_domain"] += r["skipped_out_of_domain"]
    s["not_run_for_time"] += r["truncated"]
    for k, v in r["tags"].items():
      s["classes"][k] = s["classes"].get(k, 0) + v
    hs = {f"{r['sub']}:{h}" for h in r["hashes"]} - hashes
    hashes |= hs
    s["distinct_nontrivial"] += len(hs)
    for c in r["samples"][:3]:
      if sum(x["sub"] == r["sub"] for x in samples) < 3:
        samples.append({"sub": r["sub"], "case": c})
    if r["harness_error"]:
      errors.append(f"{r['sub']}[{r['shard']}]: {r['harness_error']}")

  viols = [r for r in reports if r["violation"]]
  rdir = os.path.join(VERIF, "replays")
  lines = []
  if viols:
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for r in viols:
      if r["sub"] in seen:
        continue
      seen.add(r["sub"])
      d = {
          "property": prop,
          "sub": r["sub"],
          "case": r["violation"]["case"],
          "message": r["violation"]["msg"]
      }
      h = hashlib.sha1(json.dumps(d["case"],
                                  sort_keys=True).encode()).hexdigest()[:10]
      path = os.path.join(rdir, f"{prop}-{r['sub']}-{h}.json")
      with open(path, "w", encoding="utf-8") as f:
        json.dump(d, f, indent=1)
      print(f"--- {prop}/{r['sub']}: {r['violation']['msg'][:1500]}")
      cs = json.dumps(d["case"])
      print(f"    case: {cs[:800]}")
      lines.append(f"VIOLATION property={prop} replay={path}")

  # Known findings: listed in a committed file, re-checked one by one
  known = []
  kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
  if info["probes"] and os.path.exists(kf) and not args.sub:
    with open(kf, encoding="utf-8") as f:
      for line in f:
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop and m.group(2) in info["probes"]:
          code = ("import sys;sys.path.insert(0,%r);import run;"
                  "c,m=run.load(%r);"
                  "print('@@', dict(m.PROBES)[%r]())") % (HERE, prop,
                                                          m.group(2))
          r = subprocess.run([PY, "-B", "-c", code],
                             env={
                                 **os.environ,
                                 **ENV
                             },
                             capture_output=True,
                             text=True,
                             check=False)
          if "@@ True" in r.stdout:
            known.append(m.group(2))
            print(f"KNOWN-FINDING: property={prop} {m.group(3)}")

  wall = time.monotonic() - t0
  n_eval = sum(s["evaluations"] for s in subs.values())
  if not args.sub:
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n_eval,
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"],
            "samples": samples[:24],
            "subchecks": subs,
            "known_findings": known,
            "errors": [e[:500] for e in errors],
        },
        "assumptions": info["assume"],
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"),
              "w",
              encoding="utf-8") as f:
      json.dump(ev, f, indent=1)
  for k, s in subs.items():
    print(f"{prop}/{k}: {s['evaluations']} cases, "
          f"{s['distinct_nontrivial']} distinct non-trivial, "
          f"{s['skipped_out_of_domain']} out of domain"
          f"{', NOT RUN %d' % s['not_run_for_time'] if s['not_run_for_time'] else ''}"
          f" {s['classes'] if s['classes'] else ''}")
  print(f"{prop}: {n_eval} cases in {wall:.1f} s (tier {tier}, seed {seed})")
  for e in errors:
    print("ERROR:", e[:3000])
  for line in lines:
    print(line)
  if lines:
    return 1
  return 2 if errors else 0


if __name__ == "__main__":
  sys.exit(main())
