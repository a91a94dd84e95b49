#!/usr/bin/env python3
"""Build and verify planted bugs from spec files (development tool).

  plant.py build SPEC.py [ID...]   write seeded/<id>/ from the specs
  plant.py verify ID...            check demo, stable tests and the check

A spec file defines BUGS, a list of dict(id, property, edits=[(file, old, new)],
needs, what, demo). Everything happens in scratch copies of /repo."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = """#!/bin/bash
# cwd: the tree to try
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
"""
ENV = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
           SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy",
           PYGAME_HIDE_SUPPORT_PROMPT="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           GIT_ALLOW_PROTOCOL="file", GIT_TERMINAL_PROMPT="0")


def copy():
  d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
  subprocess.run(["cp", "-a", "/repo", d], check=True)
  return d, os.path.join(d, "repo")


def build(bug):
  d, r = copy()
  try:
    for f, old, new in bug["edits"]:
      p = os.path.join(r, f)
      with open(p, encoding="utf-8") as fp:
        s = fp.read()
      if s.count(old) != 1:
        return f"{bug['id']}: {s.count(old)} matches in {f}: {old!r}"
      with open(p, "w", encoding="utf-8") as fp:
        fp.write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], check=True,
                          capture_output=True, text=True).stdout
  finally:
    shutil.rmtree(d)
  o = os.path.join(SEEDED, bug["id"])
  os.makedirs(o, exist_ok=True)
  for n, s in (("patch.diff", diff), ("demo.sh", DEMO_SH),
               ("demo.py", bug["demo"].lstrip("\n")),
               ("meta.json", json.dumps(
                   {"property": bug["property"], "needs": bug["needs"],
                    "what_it_breaks": bug["what"]}, indent=2) + "\n")):
    with open(os.path.join(o, n), "w", encoding="utf-8") as fp:
      fp.write(s)
  os.chmod(os.path.join(o, "demo.sh"), 0o755)
  return f"{bug['id']}: built"


def verify(i, check=True):
  o = os.path.join(SEEDED, i)
  with open(os.path.join(o, "meta.json"), encoding="utf-8") as f:
    prop = json.load(f)["property"]
  out = {"id": i, "property": prop}
  d, r = copy()
  try:
    demo = os.path.join(d, "demo")
    os.makedirs(demo)
    for n in os.listdir(o):
      if n not in ("patch.diff", "meta.json"):
        shutil.copy(os.path.join(o, n), demo)

    def run_demo():
      p = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=r,
                         capture_output=True, text=True, env=ENV)
      return p.returncode, (p.stdout + p.stderr).strip()[-300:]

    out["demo_clean"] = run_demo()
    a = subprocess.run(["git", "-C", r, "apply", os.path.join(o, "patch.diff")],
                       capture_output=True, text=True)
    out["apply"] = a.returncode
    out["demo_bug"] = run_demo()
    env = dict(ENV)
    env.pop("SAMPLE_MORE_TESTS", None)
    x = os.path.join(d, "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--timeout=300", "-n", "3",
                    "--continue-on-collection-errors", "--tb=short", "-o",
                    "junit_family=xunit2", f"--junitxml={x}", "tests"], cwd=r,
                   env=env, capture_output=True)
    j = os.path.join(d, "o.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", j, f"junit:{x}"],
                   capture_output=True)
    with open(j, encoding="utf-8") as f:
      res = json.load(f)
    with open("/opt/vp/BASELINE.json", encoding="utf-8") as f:
      stable = set(json.load(f)["stable"])
    passed = set(res.get("passed", ()))
    out["broken_tests"] = sorted(stable - passed)
    if check:
      p = subprocess.run([PY, "-B", os.path.join(VERIF, "checks", "run.py"),
                          prop], cwd=VERIF, capture_output=True, text=True,
                         env=dict(ENV, VERIF_REPO=r, VERIF_SEED="1",
                                  VERIF_TIER="quick"))
      out["check"] = p.returncode
      out["line"] = [l for l in p.stdout.splitlines() if "VIOLATION" in l][:2]
      if p.returncode not in (0, 1):
        out["err"] = (p.stdout + p.stderr)[-500:]
  finally:
    shutil.rmtree(d)
  out["ok"] = (out["demo_clean"][0] == 0 and out["demo_bug"][0] != 0 and
               not out["broken_tests"] and out["apply"] == 0)
  return out


def main(cmd, *args):
  if cmd == "build":
    ns = {}
    with open(args[0], encoding="utf-8") as f:
      exec(f.read(), ns)  # pylint: disable=W0122
    for b in ns["BUGS"]:
      if len(args) == 1 or b["id"] in args[1:]:
        print(build(b))
  else:
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
      for o in ex.map(verify, args):
        print(("OK  " if o["ok"] else "BAD "),
              {0: "MISSED", 1: "caught"}.get(o.get("check"), "ERROR"),
              json.dumps(o), flush=True)


if __name__ == "__main__":
  main(*sys.argv[1:])
