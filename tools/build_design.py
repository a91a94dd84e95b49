#!/usr/bin/env python3
"""Write DESIGN.md: tools/design.md with generated sections filled in"""
import glob
import importlib
import json
import os
import re
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "checks", "props")]


def wrap(s, first="", rest=""):
  return textwrap.fill(" ".join(s.split()), 79, initial_indent=first,
                       subsequent_indent=rest, break_long_words=False,
                       break_on_hyphens=False)


def properties():
  with open(os.path.join(V, "properties.jsonl"), encoding="utf-8") as f:
    props = [json.loads(l) for l in f]
  for p in props:
    m = importlib.import_module(p["id"].lower())
    yield f"### {p['id']} {p['title']}\n"
    yield wrap(f"*Specified*: {p['statement']}", "* ", "  ")
    yield wrap(f"*Generated and compared*: {m.RULE}", "* ", "  ")
    yield wrap("*Bounds*: " + ", ".join(
        f"{s.name} {s.quick} / {s.thorough}" for s in m.SUBS) +
        " cases (quick / thorough).", "* ", "  ")
    if getattr(m, "ASSUMPTIONS", None):
      yield wrap("*Assumed*: " + ". ".join(m.ASSUMPTIONS) + ".", "* ", "  ")
    yield wrap(f"*Why tests cannot settle it*: {p['why_tests_cant']}", "* ",
               "  ") + "\n"


def defects():
  with open(os.path.join(V, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
    for l in f:
      m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
      if m:
        yield wrap(f"{m[1]} `{m[2]}` {m[3]}", "* ", "  ")


def planted():
  with open(os.path.join(V, "tools", "caught.json"), encoding="utf-8") as f:
    caught = json.load(f)
  yield "| planted bug | needs | caught by |"
  yield "|---|---|---|"
  for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(p))
    with open(p, encoding="utf-8") as f:
      d = json.load(f)
    needs = " ".join(d["needs"].split()).replace("|", "/")
    yield f"| {b} | {needs} | {', '.join(caught.get(b, ['not recorded']))} |"


with open(os.path.join(V, "tools", "design.md"), encoding="utf-8") as f:
  text = f.read()
for g in (properties, defects, planted):
  text = text.replace(f"<!-- {g.__name__} -->", "\n".join(g()))
with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as f:
  f.write(text.rstrip() + "\n")
