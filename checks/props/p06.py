"""P06: ordering, energies and export of the modes"""
import json
import math

import numpy as np
from core import Sub, close, require
from gens import bools, fl, logfl, opt, seeds, sizes, st

from props.p05 import ORDERS, key, model

PROPERTY = "P06"
RULE = (
    "A case is a set of 0-12 modes (with deliberate ties), an ordering, a "
    "direction and a cap on the active modes; the export is dumped to JSON "
    "text, parsed back and compared with the modes. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least 3 "
    "modes not already in the requested order.")


@st.composite
def cases(draw):
  vals = draw(st.lists(fl(0.01, 50), min_size=1, max_size=4))
  v = st.one_of(st.sampled_from(vals), logfl(1e-3, 1e3))
  modes = draw(st.lists(st.tuples(st.one_of(v, fl(20, 20000)), v, v).map(list),
                        max_size=12))
  return {
      "modes": modes,
      "order": draw(st.sampled_from(ORDERS)),
      "reverse": draw(bools),
      "defaults": draw(bools),
      "max_n": draw(opt(st.integers(0, 15))),
      "set": draw(st.sampled_from([None, "freqs", "decays", "amps", "decays", "amps"])),
      "scale": draw(fl(.1, 10)),
      "before": draw(st.sampled_from([None, "energies", "export", "order"])),
  }


@st.composite
def large(draw):
  """Hundreds of modes, with ties"""
  return {**draw(cases()), "modes": [],
          "many": [draw(sizes(13, 1000)), draw(seeds)],
          "max_n": draw(opt(sizes(1, 1000)))}


def many(n, seed):
  rng = np.random.default_rng(seed)
  v = np.round(10**rng.uniform(-1, 2, size=(n, 3)), 2)
  v[:, 0] = np.round(rng.uniform(20, 20000, size=n))
  return v.tolist()


def check(c, ctx):
  modes = [list(m) for m in c["modes"]]
  if c.get("many"):
    modes = many(*c["many"])
  m = model(modes, c["max_n"])
  # What is read before editing does not change what is read afterwards
  before = c.get("before")
  if before == "energies":
    close(m.energies_, np.array([key(mode, "energies") for mode in modes]),
          rtol=1e-12, atol=0, what="energies")
  elif before == "export":
    m.sdt_params_()
  elif before == "order":
    m.mode_argsort_(order=c["order"])
  if c["set"] is not None:
    # Edit the parameters of the model, as documented users do
    i = ("freqs", "decays", "amps").index(c["set"])
    new = [mode[i] * c["scale"] for mode in modes]
    setattr(m, c["set"] + "_", np.array(new))
    for mode, v in zip(modes, new):
      mode[i] = v
  for i, k in enumerate(("freqs_", "decays_", "amps_")):
    close(getattr(m, k), np.array([mode[i] for mode in modes]), rtol=1e-15,
          atol=0, what=k)
  close(m.energies_, np.array([key(mode, "energies") for mode in modes]),
        rtol=1e-12, atol=0, what="energies")
  kw = {} if c["defaults"] else {"order": c["order"], "reverse": c["reverse"]}
  order, reverse = ("energies", True) if c["defaults"] else (c["order"],
                                                             c["reverse"])
  # Order is a sorting permutation
  p = list(m.mode_argsort_(**kw))
  require(sorted(p) == list(range(len(modes))), "not a permutation: %s", p)
  ks = [float(getattr(m, order + "_")[i]) for i in p]
  require(ks == sorted(ks, reverse=reverse), "not sorted by %s: %s", order, ks)
  # Export
  d = m.sdt_params_(**kw)
  e = json.loads(json.dumps(d, allow_nan=False))
  require(e == d, "the export does not survive JSON: %s", d)
  n = len(modes)
  require(e["nModes"] == n and type(e["nModes"]) is int, "nModes")
  require(e["nPickups"] == 1 and len(e["gains"]) == 1, "pickups")
  require(e["fragmentSize"] == 1, "fragmentSize")
  a = n if c["max_n"] is None else min(n, c["max_n"])
  require(e["activeModes"] == a, "activeModes is %s, expected %s",
          e["activeModes"], a)
  for k in ("freqs", "decays", "weights"):
    require(len(e[k]) == n, "%s has %s elements, %s modes", k, len(e[k]), n)
  require(len(e["gains"][0]) == n, "gains")
  if n:
    close(np.array(e["weights"]), np.full(n, 1 / n), rtol=1e-12,
          what="weights")
  trip = list(zip(e["freqs"], e["decays"], e["gains"][0]))
  require(
      sorted(trip) == sorted(map(tuple, modes)),
      "the exported modes are not the modes of the model: %s", trip)
  ks = [key(t, order) for t in trip]
  for u, v in zip(ks, ks[1:]):
    require((u >= v if reverse else u <= v) or
            math.isclose(u, v, rel_tol=1e-12),
            "export not ordered by %s: %s", order, ks)
  # The model is not changed by exporting
  for i, k in enumerate(("freqs_", "decays_", "amps_")):
    close(getattr(m, k), np.array([mode[i] for mode in modes]), rtol=1e-15,
          atol=0, what=k + " after export")
  ctx.tag("empty" if n == 0 else "capped" if a < n else "full")
  ctx.nontrivial(n >= 3 and p != list(range(n)))


SUBS = [
    Sub("large", large, check, quick=150),
    Sub("export", cases, check, quick=3000, shards=2, examples=[
        # regression: exporting a model without modes divided by zero
        {"modes": [], "order": "freqs", "reverse": True, "defaults": True,
         "max_n": None, "set": None, "scale": 1.0},
        {"modes": [], "order": "freqs", "reverse": True, "defaults": False,
         "max_n": 3, "set": "freqs", "scale": 2.0},
    ]),
]
