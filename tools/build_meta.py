#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe,
         technique=None, note=None, na=None):
  P.append(dict(id=id_, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "table.py"), encoding="utf-8").read())

ids = set()
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
  for p in P:
    assert p["id"] not in ids
    ids.add(p["id"])
    assert len(p["title"]) <= 80, p["id"]
    f.write(json.dumps({
        "id": p["id"],
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        },
    }) + "\n")

checks, na = [], []
for p in P:
  mod = os.path.join(V, "checks", "props", p["id"].lower() + ".py")
  if p["na"] or not os.path.exists(mod):
    na.append({"property": p["id"],
               "reason": p["na"] or "The check is not built yet."})
    continue
  checks.append({
      "property": p["id"],
      "quick_cmd": f"/opt/venv/bin/python -B checks/run.py {p['id']}",
      "thorough_cmd":
          f"/opt/venv/bin/python -B checks/run.py {p['id']} --thorough",
      "evidence_file": f"evidence/{p['id']}.json",
      "technique": p["technique"],
      "level": "exploration",
      "level_note": p["note"],
  })
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
  json.dump({
      "version": 1,
      "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
      "checks": checks,
      "not_applicable": na,
      "notes": "No hooks: the checks only use the public API of the package. "
               "Property-based testing with Hypothesis; see DESIGN.md.",
  }, f, indent=1)
  f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
