#!/usr/bin/env python3
"""Run the check of every planted bug on a copy of /repo with the bug applied

Writes tools/caught.json: which sub-checks reported the violation"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "tools", "caught.json")
try:
  with open(OUT, encoding="utf-8") as f:
    caught = json.load(f)
except FileNotFoundError:
  caught = {}


def run(p):
  b = os.path.basename(os.path.dirname(p))
  with open(p, encoding="utf-8") as f:
    prop = json.load(f)["property"]
  d = tempfile.mkdtemp(prefix="collect-")
  try:
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    subprocess.run(["git", "-C", r, "apply",
                    os.path.join(os.path.dirname(p), "patch.diff")], check=True)
    # on a copy: checks write replays and evidence
    shutil.copytree(os.path.join(V, "checks"), os.path.join(d, "checks"))
    for f in ("KNOWN_FINDINGS.txt", "properties.jsonl", "MANIFEST.json"):
      shutil.copy(os.path.join(V, f), d)
    o = subprocess.run(
        ["/opt/venv/bin/python", "-B", os.path.join(d, "checks", "run.py"),
         prop, "--jobs", "4"],
        env={**os.environ, "VERIF_REPO": r, "VERIF_SHRINK": "5",
             "VERIF_GRACE": "15"}, capture_output=True, text=True, check=False)
  finally:
    shutil.rmtree(d)
  subs = sorted(set(re.findall(rf"VIOLATION property={prop} replay=\S*/"
                               rf"{prop}-(\w+)-[0-9a-f]+\.json", o.stdout)))
  return b, o.returncode, [f"{prop} {s}" for s in subs] or ["missed"]


todo = [p for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))
        if not sys.argv[1:] or p.split(os.sep)[-2] in sys.argv[1:]]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
  for name, rc, by in ex.map(run, todo):
    caught[name] = by
    print(name, rc, by, flush=True)
    with open(OUT, "w", encoding="utf-8") as f:
      json.dump(dict(sorted(caught.items())), f, indent=1)
      f.write("\n")
