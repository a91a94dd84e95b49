"""P21: gammatone filters obey their defining equations"""
import cmath
import copy
import math
import pickle
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P21"
RULE = (
    "A case is a gammatone filter (each parameter defaulted, given as a "
    "value, as a function of the filter, or set afterwards), a time axis or "
    "sample rate, and options; or a way to build a bank. Oracle: the "
    "gammatone formula evaluated value by value in plain Python. "
    "Non-trivial: the axis has points on both sides of the onset, or the "
    "response more than four samples.")
ASSUMPTIONS = [
    "Frequencies of 20 Hz or more, orders from 1 to 6, bandwidths of 5 Hz or "
    "more; the sampling grid of a response is compared to one sample",
    "The exact position of the first and last frequency of a bank between "
    "the limits is not judged, only even spacing on the chosen scale",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def psy():
  from sample import psycho
  return psycho


# --- Filters ------------------------------------------------------------------
def ref_erb(f):
  return 6.23e-6 * f * f + .09339 * f + 28.52


KINDS = ["none", "value", "func", "set", "setfunc"]


@st.composite
def filters(draw):
  return {
      "f": draw(logfl(20, 8000)),
      "n": draw(st.integers(1, 6)),
      "b": [draw(st.sampled_from(KINDS)), draw(logfl(5, 500))],
      "t_c": [draw(st.sampled_from(KINDS + ["delay"])),
              draw(weighted((1, st.just(0.)), (3, fl(0, .05))))],
      "phi": [draw(st.sampled_from(KINDS)), draw(fl(-4, 4))],
      "a": [draw(st.sampled_from(KINDS)),
            draw(weighted((3, logfl(.01, 10)), (1, fl(-2, -.1))))],
      "normalize": draw(bools),
      "positional": draw(bools),
  }


class Func:
  """A parameter as a function of the filter (picklable)"""

  def __init__(self, name, v, f):
    self.name = name
    self.v = v
    self.f = f

  def __call__(self, filt):
    # Only uses what the filter is guaranteed to know
    return self.v * filt.f / self.f * filt.n / filt.n


def build(d):
  """The filter and the reference values of its parameters"""
  keys = {"b": "bandwidth", "t_c": "t_c", "phi": "phi", "a": "a"}
  kw, later = {}, {}
  for k, name in keys.items():
    kind, v = d[k]
    if kind in ("func", "setfunc"):
      v = Func(name, v, d["f"])
    if kind in ("value", "func"):
      kw[name] = v
    elif kind in ("set", "setfunc"):
      later[name] = v
  b = ref_erb(d["f"]) if d["b"][0] == "none" else d["b"][1]
  delay = (d["n"] - 1) / (2 * math.pi * b)
  t_c = delay if d["t_c"][0] == "none" else d["t_c"][1]
  if d["t_c"][0] == "delay":
    later["group_delay"] = d["t_c"][1]
    t_c = delay - d["t_c"][1]
  phi = -2 * math.pi * d["f"] * t_c if d["phi"][0] == "none" else d["phi"][1]
  a = None if d["a"][0] == "none" else d["a"][1]
  kw["normalize"] = d["normalize"]
  if d["positional"]:
    g = psy().GammatoneFilter(d["f"], d["n"], **kw)
  else:
    g = psy().GammatoneFilter(f=d["f"], n=d["n"], **kw)
  for k, v in later.items():
    setattr(g, k, v)
  return g, {"f": d["f"], "n": d["n"], "b": b, "t_c": t_c, "phi": phi, "a": a,
             "delay": delay, "normalize": d["normalize"]}


def ref_env(t, r):
  u = t + r["t_c"]
  if u < 0:
    return 0.
  return u**(r["n"] - 1) * math.exp(-2 * math.pi * r["b"] * u)


def ref_wave(t, r):
  return ref_env(t, r) * cmath.exp(1j * (2 * math.pi * r["f"] * t + r["phi"]))


def check_params(g, r, what="filter"):
  near(g.f, r["f"], f"{what}: f")
  require(g.n == r["n"], "%s: order %r", what, g.n)
  near(g.bandwidth, r["b"], f"{what}: bandwidth", rtol=1e-9)
  near(g.raw_group_delay, r["delay"], f"{what}: raw group delay")
  near(g.t_c, r["t_c"], f"{what}: leading time", atol=1e-12)
  near(g.group_delay, r["delay"] - r["t_c"], f"{what}: group delay",
       atol=1e-12)
  near(g.phi, r["phi"], f"{what}: phase", atol=1e-9)
  if r["a"] is None:
    require(g.a is None, "%s: scale %r", what, g.a)
  else:
    near(g.a, r["a"], f"{what}: scale")


@st.composite
def eval_cases(draw):
  return {
      "filter": draw(filters()),
      "u": draw(st.lists(weighted((4, fl(-1, 4)), (1, fl(-50, 50)),
                                  (1, st.sampled_from([-1., 0., 1.]))),
                         min_size=1, max_size=10)),
      "out": draw(bools),
      "analytic": draw(bools),
      "copy": draw(st.sampled_from([None, None, "copy", "deepcopy",
                                    "pickle"])),
  }


def copied(obj, how):
  if how == "copy":
    return copy.copy(obj)
  if how == "deepcopy":
    return copy.deepcopy(obj)
  if how == "pickle":
    return pickle.loads(pickle.dumps(obj))
  return obj


def check_eval(case, ctx):
  g, r = build(case["filter"])
  g = copied(g, case["copy"])
  check_params(g, r)
  # Times relative to the onset, in units of the decay
  scale = max(r["n"] - 1, 1) / (2 * math.pi * r["b"])
  t = [u * scale - r["t_c"] for u in case["u"]]
  # Keep clear of the onset, where the step depends on rounding
  t = [v + 1e-7 if abs(v + r["t_c"]) < 1e-9 else v for v in t]
  x = np.array(t)

  def new(dtype):
    return {"out": np.full(x.shape, np.nan, dtype=dtype)} if case["out"] \
        else {}

  env = [ref_env(v, r) for v in t]
  peak = ref_env(r["delay"] - r["t_c"], r)
  tol = dict(rtol=1e-8, atol=1e-13 * peak)
  near(g.envelope(x, **new(float)), env, "envelope", **tol)
  an = case["analytic"]
  wave = [ref_wave(v, r) for v in t]
  if not an:
    wave = [v.real for v in wave]
  # The argument of the oscillator is large: only absolutely accurate
  cyc = max(abs(2 * math.pi * r["f"] * v) + abs(r["phi"]) for v in t)
  near(g.wavefun(x, analytic=an, **new(complex if an else float)), wave,
       "wave function", rtol=1e-8, atol=1e-14 * (cyc + 10) * peak)
  exp = np.array(wave)
  k = 1. if r["a"] is None else r["a"]
  if r["normalize"]:
    p = float(np.sum(np.abs(exp)**2))
    if p < (1e-4 * peak)**2:
      ctx.tag("silent")
      return
    k = k / math.sqrt(p)
  exp = exp * k
  near(g.ir(x, analytic=an, **new(complex if an else float)), exp, "response",
       rtol=1e-6, atol=1e-12 * (cyc + 10) * peak * abs(k))
  if r["normalize"]:
    got = np.asarray(g.ir(t=x, analytic=an))
    near(float(np.sum(np.abs(got)**2)),
         (1 if r["a"] is None else r["a"])**2, "energy of the response")
  same(x, t, "time axis")
  if len(t) == 1 and not r["normalize"]:
    near(g.envelope(t[0]), env[0], "envelope at one time", **tol)
  ctx.nontrivial(min(env) == 0 and max(env) > 0)
  ctx.tag("tc-" + case["filter"]["t_c"][0])


# --- Sampled responses --------------------------------------------------------
@st.composite
def size_cases(draw):
  return {
      "filter": draw(filters()),
      "fs": draw(st.sampled_from([8000, 22050, 44100, 1000.])),
      "analytic": draw(bools),
      "floor": draw(st.sampled_from([None, -60, -20, -90, -6.])),
      "range": draw(st.sampled_from([None, None, .01, 1.])),
      "steps": draw(st.sampled_from([None, 40, 60])),
      "warn": draw(bools),
      "via": draw(st.sampled_from(["ir", "precompute"])),
  }


def check_size(case, ctx):
  g, r = build(case["filter"])
  fs = case["fs"]
  kw = {}
  floor = -60
  if case["via"] == "precompute":
    case = dict(case, floor=None, range=None, steps=None)
  if case["floor"] is not None:
    floor = kw["floor"] = case["floor"]
  if case["range"] is not None:
    kw["initial_range"] = case["range"]
  if case["steps"] is not None:
    kw["steps"] = case["steps"]
  t60 = float(g.t60(**kw))
  peak_t = r["delay"] - r["t_c"]
  require(t60 >= peak_t, "the decay time %r comes before the peak, %r", t60,
          peak_t)
  lev = 20 * math.log10(ref_env(t60, r) / ref_env(peak_t, r))
  require(abs(lev - floor) < 2e-3, "the level at t60 is %r dB, requested %r",
          lev, floor)
  size = g.ir_size(fs=fs, **kw)
  require(np.ndim(size) == 0 and int(size) == size, "size: %r", size)
  # Up to the next extreme or zero of the carrier
  lo = math.floor((t60 + r["t_c"]) * fs) - 1
  hi = math.floor((t60 + .25 / r["f"] + r["t_c"]) * fs) + 1
  require(lo <= size <= hi, "a response of %r samples, expected between %d "
          "and %d", size, lo, hi)
  ctx.tag("kw" if kw else "default")
  if case["via"] == "ir":
    h = np.asarray(g.ir(fs=fs, analytic=case["analytic"], **kw))
    require(h.shape == (size,), "response of shape %r, size %r", h.shape,
            size)
    t = np.arange(size) / fs - r["t_c"]
  else:
    if r["t_c"] < 0:
      ctx.reject()
    bank = psy().GammatoneFilterbank(filters=[g])
    pre = bank.precompute(fs, analytic=case["analytic"])
    require(len(pre) == 1, "%r responses", len(pre))
    h = np.asarray(pre.irs[0])
    require(h.shape == (size,), "response of shape %r, size %r", h.shape,
            size)
    off = r["t_c"] * fs
    if off and abs(off - round(off)) < 1e-6:
      ctx.reject()
    t = (np.arange(size) - math.ceil(off)) / fs
    near(np.asarray(pre.freqs), [r["f"]], "frequencies")
    require(bool(pre.analytic) == case["analytic"], "analytic flag")
  # The first sample may fall on either side of the onset
  exp = np.array([ref_wave(float(v), r) for v in t])
  edge = np.array([abs(v + r["t_c"]) < 1e-12 for v in t], dtype=bool)
  if r["n"] == 1 and edge.any() and not case["filter"]["t_c"][0] == "value":
    # Whether the first sample is before the onset depends on rounding
    if exp.size and abs(h[0]) == 0:
      exp[0] = 0
    elif exp.size:
      exp[0] = ref_wave(-r["t_c"] + 1e-15, r) or cmath.exp(
          1j * (-2 * math.pi * r["f"] * r["t_c"] + r["phi"]))
  if not case["analytic"]:
    exp = exp.real
  k = 1. if r["a"] is None else r["a"]
  if r["normalize"]:
    p = float(np.sum(np.abs(exp)**2))
    if exp.size == 0 or p < (1e-6 * ref_env(peak_t, r))**2:
      ctx.tag("silent")
      return
    k /= math.sqrt(p)
  exp = exp * k
  require(h.dtype.kind == ("c" if case["analytic"] else "f"),
          "response of type %s", h.dtype)
  m = float(np.max(np.abs(exp), initial=0))
  near(h, exp, "sampled response", rtol=1e-6, atol=1e-8 * m)
  if case["analytic"] and not r["normalize"] and case["via"] == "ir":
    near(np.real(h), np.asarray(g.ir(fs=fs, **kw)),
         "real part of the analytic response", rtol=1e-9, atol=1e-10 * m)
  ctx.nontrivial(size > 4)
  ctx.tag(case["via"])


# --- Banks --------------------------------------------------------------------
def bank_cases():
  return st.fixed_dictionaries({
      "how": st.sampled_from(["filters", "freqs", "n", "flim", "default",
                              "n+flim"]),
      "n": st.integers(1, 40),
      "flim": st.tuples(logfl(20, 400), logfl(1000, 20000)).map(list),
      "scale": st.sampled_from([None, "linear", "mel", "bark", "log", "cams"]),
      "freqs": st.lists(logfl(20, 16000), min_size=1, max_size=6),
      "as": st.sampled_from(["list", "array", "tuple", "iter"]),
      "order": st.one_of(st.none(), st.integers(1, 6)),
      "b": opt(logfl(10, 300)),
      "normalize": bools,
      "copy": st.sampled_from([None, "copy", "deepcopy", "pickle"]),
      "name": st.sampled_from(["missing", "g", "_foo", "__foo__", "freqs"]),
  })


def check_bank(case, ctx):
  p = psy()
  how = case["how"]
  kw, fkw = {}, {}
  if case["order"] is not None:
    fkw["n"] = case["order"]
  if case["b"] is not None:
    fkw["bandwidth"] = case["b"]
  if case["normalize"]:
    fkw["normalize"] = True
  seq = {"list": list, "array": np.array, "tuple": tuple,
         "iter": iter}[case["as"]]
  exp = None
  tr = (p.hz2cams, p.cams2hz)
  lim = (20, 20000)
  if how == "filters":
    objs = [p.GammatoneFilter(f=f, **fkw) for f in case["freqs"]]
    kw["filters"] = list(objs) if case["as"] == "array" else seq(objs)
    exp = case["freqs"]
  elif how == "freqs":
    kw["freqs"] = seq(case["freqs"])
    exp = case["freqs"]
    kw.update(fkw)
  else:
    kw.update(fkw)
    if "n" in how:
      kw["n_filters"] = case["n"]
    if "flim" in how:
      lim = tuple(case["flim"])
      kw["flim"] = lim if case["as"] != "list" else list(lim)
    if case["scale"] is not None:
      tr = {
          "linear": (np.asarray, np.asarray),
          "log": (np.log, np.exp),
          "mel": (p.hz2mel, p.mel2hz),
          "bark": (p.hz2bark, p.bark2hz),
          "cams": (lambda x: p.hz2cams(x, degree="linear"),
                   lambda x: p.cams2hz(x, degree="linear")),
      }[case["scale"]]
      kw["freq_transform"] = tr
      if how in ("default", "flim") and case["scale"] in ("linear", "mel"):
        # Too many filters
        kw["n_filters"] = case["n"]
  bank = p.GammatoneFilterbank(**kw)
  bank = copied(bank, case["copy"])
  n = len(bank)
  fs = list(bank)
  require(len(fs) == n, "%d filters iterated of %d", len(fs), n)
  for i, g in enumerate(fs):
    require(bank[i] is g, "filter %d differs by index", i)
  got = arr(bank.f, shape=(n,), what="frequencies")
  if exp is not None:
    near(got, exp, "frequencies", rtol=1e-12)
  else:
    if "n_filters" in kw:
      require(n == kw["n_filters"], "%d filters, requested %d", n,
              kw["n_filters"])
    require(n > 0, "no filters")
    require((got > lim[0]).all() and (got < lim[1]).all(),
            "frequencies %r outside of %r", got, lim)
    z = np.array([float(tr[0](float(f))) for f in got])
    d = np.diff(z)
    if n > 1:
      require((np.diff(got) > 0).all(), "frequencies are not ascending")
      near(d, np.full(n - 1, d.mean()), "spacing on the scale", rtol=1e-6)
      w = float(tr[0](lim[1])) - float(tr[0](lim[0]))
      # The bank covers the range
      require(d[0] * (n + 1.5) >= w, "%d filters every %r leave a part of "
              "the range of width %r", n, d[0], w)
    if "n_filters" not in kw and case["scale"] in (None, "cams"):
      # Two filters for each equivalent rectangular bandwidth
      w = float(tr[0](lim[1])) - float(tr[0](lim[0]))
      require(abs(n - (2 * w - 1)) <= 1, "%d filters for %r bandwidths", n, w)
  for i, g in enumerate(fs):
    r = {"f": float(got[i]), "n": fkw.get("n", 4)}
    r["b"] = fkw.get("bandwidth", ref_erb(r["f"]))
    r["delay"] = (r["n"] - 1) / (2 * math.pi * r["b"])
    r["t_c"] = r["delay"]
    r["phi"] = -2 * math.pi * r["f"] * r["t_c"]
    r["a"] = None
    check_params(g, r, f"filter {i}")
    require(bool(g.normalize) == case["normalize"], "normalization lost")
  for k in ("bandwidth", "t_c", "phi", "n", "raw_group_delay", "normalize"):
    require(getattr(bank, k) == tuple(getattr(g, k) for g in fs),
            "%s of the bank is not the tuple of its filters'", k)
  raises(AttributeError, getattr, bank, case["name"],
         what=f"attribute {case['name']}")
  if how == "filters" and case["copy"] is None:
    require(all(a is b for a, b in zip(fs, objs)), "filters were replaced")
  ctx.nontrivial(n > 1)
  ctx.tag(how)


# --- Errors and deprecated names ----------------------------------------------
def error_cases():
  return st.fixed_dictionaries({
      "filter": filters(),
      "starts": st.integers(0, 1),
      "kind": st.sampled_from(["nofs", "starts", "steps", "nowarn"]),
  })


def check_error(case, ctx):
  g, r = build(case["filter"])
  if case["kind"] == "nofs":
    raises(ValueError, g.ir, what="a response without times or rate")
    raises(ValueError, g.ir, analytic=True, what="idem, analytic")
  elif case["kind"] == "starts":
    # A tiny range, that is not enlarged
    raises(ValueError, g.t60, initial_range=1e-9, n_starts=1,
           what="t60 outside of the range")
  else:
    # Too few steps for the precision
    rng = 60. / r["b"]
    steps = 3
    kw = {"steps": steps, "initial_range": rng}
    if case["kind"] == "nowarn":
      t = float(g.t60(warn_th=None, **kw))
      peak_t = r["delay"] - r["t_c"]
      true = float(g.t60())
      require(abs(t - true) <= rng / 2**(steps - 1) * (1 + 1e-9),
              "t60 is %r, %r after %d steps in a range of %r", true, t,
              steps, rng)
    else:
      from sklearn import exceptions
      raises(exceptions.ConvergenceWarning, g.t60, what="imprecise t60", **kw)
  ctx.nontrivial()
  ctx.tag(case["kind"])


SUBS = [
    Sub("eval", eval_cases, check_eval, quick=3000, shards=2),
    Sub("sampled", size_cases, check_size, quick=1500, shards=3),
    Sub("bank", bank_cases, check_bank, quick=600, shards=2),
    Sub("errors", error_cases, check_error, quick=500),
]
