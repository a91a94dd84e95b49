"""P18: onset detection implements its published definition"""
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P18"
RULE = (
    "A case is a detection function (arbitrary numbers, small integers with "
    "ties, or computed from a generated sound) and the settings of the "
    "selection. The oracle is a scalar transcription of the definitions in "
    "Dixon (2006), with frames within rounding of a threshold set aside. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: some frame is selected.")


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


@st.composite
def functions(draw, max_size=60):
  kind = draw(st.sampled_from(["float", "int", "spikes", "const"]))
  n = draw(weighted((4, st.integers(8, max_size)), (1, st.integers(0, 8))))
  if kind == "float":
    x = draw(st.lists(fl(0, 10), min_size=n, max_size=n))
  elif kind == "int":
    x = draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))
  elif kind == "const":
    x = [draw(st.integers(0, 3))] * n
  else:
    x = [0.] * n
    for _ in range(draw(st.integers(1, 6))):
      if n:
        i = draw(st.integers(0, n - 1))
        x[i] += draw(fl(1, 10))
        if draw(st.integers(0, 2)) == 0:
          # Plateau
          for j in range(i + 1, min(n, i + draw(st.integers(2, 4)))):
            x[j] = x[i]
  return x


# --- Flux ---------------------------------------------------------------------
@st.composite
def flux_cases(draw):
  return {
      "f": draw(st.integers(1, 8)),
      "t": draw(st.integers(1, 12)),
      "seed": draw(seeds),
      "kind": draw(st.sampled_from(["complex", "real", "positive", "float32",
                                    "int"])),
      "tf": draw(bools),
  }


def check_flux(case, ctx):
  from sample.utils import dsp
  rng = np.random.default_rng(case["seed"])
  m = rng.normal(size=(case["f"], case["t"]))
  if case["kind"] == "complex":
    m = m + 1j * rng.normal(size=m.shape)
  elif case["kind"] == "positive":
    m = np.abs(m)
  elif case["kind"] == "float32":
    m = m.astype(np.float32)
  elif case["kind"] == "int":
    m = (m * 5).astype(int)
  m0 = m.copy()
  if case["tf"]:
    seen = []

    def tf(x, gain):
      seen.append(x)
      return None, "t", m * gain

    x = rng.normal(size=5)
    got = dsp.spectral_flux(x, tf_fn=tf, gain=2)
    require(seen and seen[0] is x, "the signal was not transformed")
    g = 2
  else:
    got = dsp.spectral_flux_from_tf(m)
    g = 1
  exp = [
      math.fsum(max(0, abs(complex(m0[i, j + 1])) - abs(complex(m0[i, j])))
                for i in range(case["f"])) * g for j in range(case["t"] - 1)
  ]
  near(got, exp, "spectral flux", rtol=1e-5 if case["kind"] == "float32" else
       1e-10, atol=1e-5 if case["kind"] == "float32" else 1e-10)
  same(m, m0, "the transform was modified")
  ctx.nontrivial(case["t"] > 1 and sum(exp) > 0)


# --- Local maxima -------------------------------------------------------------
@st.composite
def max_cases(draw):
  x = draw(functions(30))
  key = None
  if draw(st.sampled_from([False, False, True])):
    key = draw(st.lists(st.integers(0, 4), min_size=len(x),
                        max_size=len(x) + 3))
  return {
      "x": x,
      "key": key,
      "w": draw(st.integers(1, 5)),
      "out": draw(opt(st.lists(bools, min_size=len(x), max_size=len(x)))),
      "and": draw(bools),
  }


def ref_maxima(x, key, w):
  n = len(x)
  return [
      w <= i < n - w and all(x[i] >= key[j]
                             for j in range(i - w, i + w + 1))
      for i in range(n)
  ]


def check_max(case, ctx):
  from sample.utils import dsp
  x = np.array(case["x"], dtype=float)
  key = case["key"]
  exp = ref_maxima(case["x"], case["x"] if key is None else key, case["w"])
  kw = {"w": case["w"]}
  if key is not None:
    kw["key"] = np.array(key)
  given = None
  if case["out"] is not None:
    given = kw["out"] = np.array(case["out"], dtype=bool)
    if case["and"]:
      kw["logical_and"] = True
      exp = [a and b for a, b in zip(exp, case["out"])]
  x0 = x.copy()
  got = dsp.local_maxima(x, **kw)
  if given is not None:
    require(got is given, "the given array is not returned")
  same(arr(got, kind="b"), np.array(exp, dtype=bool), "local maxima")
  same(x, x0, "the function was modified")
  ctx.nontrivial(any(exp))
  if case["w"] == 1 and given is None and key is None:
    same(dsp.local_maxima(x), got, "default radius")


# --- Selection ----------------------------------------------------------------
@st.composite
def settings(draw):
  return {
      "w": draw(st.integers(1, 5)),
      "m": draw(st.integers(0, 4)),
      "alpha": draw(weighted((1, st.sampled_from([0., .75, 1.])),
                             (1, fl(0, 1)))),
      "delta": draw(weighted((1, st.sampled_from([0., 1.5])),
                             (1, fl(-1, 3)))),
      "defaults": draw(st.sampled_from([False] * 3 + [True])),
  }


@st.composite
def select_cases(draw):
  return {"x": draw(functions()), "set": draw(settings()),
          "column": draw(st.sampled_from(["array", "array", "list"]))}


def ref_select(x, w, m, alpha, delta):
  """Lists of decisions, and of whether they are certain"""
  n = len(x)
  if n == 0:
    return [], []
  mean = math.fsum(x) / n
  s = math.sqrt(math.fsum((v - mean)**2 for v in x) / n)
  if s < 1e-9 * (abs(mean) + 1e-3):
    s = 1
  y = [(v - mean) / s for v in x]
  loc = ref_maxima(x, x, w)
  on, sure = [], []
  g, src = 0, None  # Frame whose value is surely that of the threshold
  for i in range(n):
    if not loc[i]:
      on.append(False)
      sure.append(True)
    else:
      if i >= m * w:
        a = math.fsum(y[i - m * w:i + w + 1]) / (m * w + w + 1)
      else:
        a = 0
      d1, d2 = y[i] - a - delta, y[i] - g
      on.append(d1 >= 0 and d2 >= 0)
      exact = src is not None and x[src] == x[i]
      sure.append((abs(d1) > 1e-9 and (abs(d2) > 1e-9 or exact)) or
                  d1 < -1e-9 or (d2 < -1e-9 and not exact))
    decay = alpha * g + (1 - alpha) * y[i]
    if alpha == 0 or y[i] > decay + 1e-9:
      src = i
    else:
      src = None
    g = max(y[i], decay)
  return on, sure


def kwargs(s):
  return {} if s["defaults"] else {k: s[k]
                                   for k in ("w", "m", "alpha", "delta")}


DEFAULTS = {"w": 3, "m": 3, "alpha": .75, "delta": 1.5}


def check_select(case, ctx):
  from sample.utils import dsp
  kw = kwargs(case["set"])
  x = case["x"] if case["column"] == "list" else np.array(case["x"],
                                                         dtype=float)
  if len(case["x"]) == 0 and case["column"] == "list":
    ctx.reject()
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    got = arr(dsp.onset_selection(x, **kw), shape=(len(case["x"]),), kind="b")
  on, sure = ref_select(case["x"], **(kw or DEFAULTS))
  bad = [i for i in range(len(on)) if sure[i] and bool(got[i]) != on[i]]
  require(not bad, "frames %r: got %r, expected %r", bad,
          [bool(got[i]) for i in bad], [on[i] for i in bad])
  same(np.asarray(x), np.array(case["x"], dtype=float)
       if case["column"] != "list" else np.asarray(case["x"]),
       "the function was modified")
  if not all(sure):
    ctx.tag("tie")
  ctx.nontrivial(any(on))
  w = kw.get("w", 3)
  if len(case["x"]) <= 2 * w:
    require(not got.any(), "onsets in an input shorter than the window")


# --- Detection ----------------------------------------------------------------
@st.composite
def detect_cases(draw):
  return {
      "n": draw(weighted((3, st.integers(300, 4000)), (1, st.integers(1, 64)))),
      "bursts": draw(st.lists(st.tuples(fl(0, .95), logfl(.1, 10),
                                        fl(.01, .4)).map(list),
                              min_size=0, max_size=4)),
      "noise": draw(st.sampled_from([0, 1e-3, .05])),
      "seed": draw(seeds),
      "nperseg": draw(st.sampled_from([16, 32, 64, 128])),
      "set": draw(settings()),
      "custom": draw(opt(functions(40))),
  }


def check_detect(case, ctx):
  from scipy import signal
  from sample.utils import dsp
  n = case["n"]
  rng = np.random.default_rng(case["seed"])
  x = rng.normal(size=n) * case["noise"]
  for p, a, f in case["bursts"]:
    i = int(p * n)
    t = np.arange(n - i)
    x[i:] += a * np.exp(-t / 50) * np.sin(2 * np.pi * f * t + 1)
  kw = kwargs(case["set"])
  x0 = x.copy()
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    if case["custom"] is not None:
      f = np.array(case["custom"], dtype=float)
      args = []

      def fn(y, salt=0):
        args.append((y, salt))
        return f.copy()

      got = dsp.onset_detection(x, detection_fn=fn, salt=3, **kw)
      require(len(args) == 1 and args[0][0] is x and args[0][1] == 3,
              "the detection function was not called as requested")
    else:
      got = dsp.onset_detection(x, nperseg=case["nperseg"], **kw)
      z = np.abs(signal.stft(x, nperseg=case["nperseg"])[-1])
      f = np.maximum(np.diff(z, axis=1), 0).sum(axis=0)
  got = arr(got, shape=(n,), kind="b")
  on, sure = ref_select(f.tolist(), **(kw or DEFAULTS))
  if case["custom"] is None and f.size:
    # ties of rounding errors in local maxima
    w = kw.get("w", 3)
    tol = 1e-9 * (f.max() + 1e-12)
    for i in range(w, f.size - w):
      o = np.delete(f[i - w:i + w + 1], w)
      if np.abs(f[i] - o.max()) < tol:
        sure[i] = False
    if f.max() < 1e-12:
      ctx.reject()
  must = {i * n // f.size for i in range(len(on)) if on[i] and sure[i]}
  may = must | {i * n // f.size for i in range(len(on)) if not sure[i]}
  g = set(np.flatnonzero(got).tolist())
  require(must <= g <= may,
          "onset samples %r, expected %r (and possibly %r)", sorted(g),
          sorted(must), sorted(may - must))
  same(x, x0, "the signal was modified")
  ctx.nontrivial(bool(must))
  ctx.tag("custom" if case["custom"] is not None else "flux")


# --- Sizes of real sounds -----------------------------------------------------
@st.composite
def large_cases(draw):
  return {
      "n": draw(sizes(60, 4000)), "seed": draw(seeds),
      "kind": draw(st.sampled_from(["noise", "int", "rare", "slow"])),
      "set": {**draw(settings()), "w": draw(sizes(1, 60)), "defaults": False},
  }


def check_large(case, ctx):
  rng = np.random.default_rng(case["seed"])
  n = case["n"]
  x = rng.exponential(size=n)
  if case["kind"] == "int":
    x = np.round(x * 2)
  elif case["kind"] == "rare":
    x = x * (rng.random(size=n) < .02)
  elif case["kind"] == "slow":
    x = 2 + np.cos(np.arange(n) * rng.uniform(.001, .1)) + x * .01
  x = x.tolist()
  w = case["set"]["w"]
  check_max({"x": x, "key": None, "w": w, "out": None, "and": False}, ctx)
  ctx.nt = False
  check_select({"x": x, "set": case["set"], "column": "array"}, ctx)


# --- Long sounds --------------------------------------------------------------
@st.composite
def long_cases(draw):
  return {
      "n": draw(sizes(1 << 14, 1 << 24)),
      "f": draw(sizes(40, 3000)),
      "seed": draw(seeds),
      "set": draw(settings()),
      "kind": draw(st.sampled_from(["f8", "f4", "i2"])),
  }


def check_long(case, ctx):
  """Positions of the onsets in long sounds (minutes)"""
  from sample.utils import dsp
  rng = np.random.default_rng(case["seed"])
  n, k = case["n"], case["f"]
  x = np.zeros(n, dtype=case["kind"])
  f = rng.exponential(size=k) * (rng.random(size=k) < .1)
  kw = kwargs(case["set"])
  got = arr(dsp.onset_detection(x, detection_fn=lambda v: f.copy(), **kw),
            shape=(n,), kind="b")
  on, sure = ref_select(f.tolist(), **(kw or DEFAULTS))
  must = {i * n // k for i in range(k) if on[i] and sure[i]}
  may = must | {i * n // k for i in range(k) if not sure[i]}
  g = set(np.flatnonzero(got).tolist())
  require(must <= g <= may, "onset samples missing %r, unexpected %r",
          sorted(must - g)[:5], sorted(g - may)[:5])
  ctx.nontrivial(bool(must))


SUBS = [
    Sub("large", large_cases, check_large, quick=150),
    Sub("long", long_cases, check_long, quick=60),
    Sub("large_flux", lambda: st.builds(
        lambda c, f, t: {**c, "f": f, "t": t}, flux_cases(), sizes(9, 300),
        sizes(13, 300)), check_flux, quick=60),
    Sub("large_detect", lambda: st.builds(
        lambda c, n, m: {**c, "n": n, "nperseg": m, "custom": None},
        detect_cases(), sizes(4000, 200000),
        st.sampled_from([128, 256, 512])), check_detect, quick=60),
    Sub("flux", flux_cases, check_flux, quick=2000),
    Sub("maxima", max_cases, check_max, quick=2000),
    Sub("select", select_cases, check_select, quick=4000, shards=3),
    Sub("detect", detect_cases, check_detect, quick=1200, shards=2),
]
