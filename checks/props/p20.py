"""P20: psychoacoustic scales are monotone and invertible"""
import math

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P20"
RULE = (
    "A case is a scale (function and variant), how it is called, and one or "
    "more values. Oracles: the published formulas in plain Python, the "
    "nominal table of A-weighting levels (IEC 61672), round trips in both "
    "directions, order of the images of ordered values, and consistency of "
    "the ERB-rate scale with the bandwidth it integrates. Non-trivial: "
    "distinct values strictly inside of the domain.")
ASSUMPTIONS = [
    "Values are compared to 1e-9 relative; order is only judged for values "
    "at least 1e-7 apart (relative)",
    "The scales are defined for frequencies from 0 to 50 kHz here",
]
FMAX = 50000.


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def psy():
  from sample import psycho
  return psycho


# function, variant argument, variant (None: default), reference
REFS = {
    "bark": ("hz2bark", "mode", "traunmuller",
             lambda f: 26.81 * f / (1960 + f) - .53),
    "bark-zwicker": ("hz2bark", "mode", "zwicker",
                     lambda f: 13 * math.atan(.00076 * f) + 3.5 * math.atan(
                         (f / 7500)**2)),
    "bark-wang": ("hz2bark", "mode", "wang",
                  lambda f: 6 * math.asinh(f / 600)),
    "mel": ("hz2mel", "mode", "default",
            lambda f: 2595 * math.log10(1 + f / 700)),
    "mel-fant": ("hz2mel", "mode", "fant",
                 lambda f: 1000 * math.log2(1 + f / 1000)),
    "cams": ("hz2cams", "degree", "quadratic",
             lambda f: 11.17 * math.log((f + 312) / (f + 14675)) + 43),
    "cams-linear": ("hz2cams", "degree", "linear",
                    lambda f: 21.4 * math.log10(1 + .00437 * f)),
    "erb": ("erb", "degree", "quadratic",
            lambda f: 6.23 * (f / 1000)**2 + 93.39 * (f / 1000) + 28.52),
    "erb-linear": ("erb", "degree", "linear",
                   lambda f: 24.7 * (4.37 * f / 1000 + 1)),
}
INVERSE = {"hz2bark": "bark2hz", "hz2mel": "mel2hz", "hz2cams": "cams2hz"}
DEFAULTS = {"hz2bark": "traunmuller", "bark2hz": "traunmuller",
            "hz2mel": "default", "mel2hz": "default", "hz2cams": "quadratic",
            "cams2hz": "quadratic", "erb": "quadratic"}
INVERTIBLE = [k for k in REFS if k not in ("bark-zwicker", "erb",
                                           "erb-linear")]


def call(name, x, how, inverse=False):
  """Call a scale in one of the possible ways"""
  fn, key, var, _ = REFS[name]
  if inverse:
    fn = INVERSE[fn]
  kw = {key: var}
  if how["default"] and DEFAULTS[fn] == var:
    kw = {}
  f = getattr(psy(), fn)
  if how["scalar"]:
    return np.array([f(v, **kw) for v in x])
  x = np.array(x)
  if how["out"]:
    out = np.full(x.shape, np.nan)
    require(f(x, out=out, **kw) is out, "%s: not the given array", fn)
    return out
  return f(x, **kw)


hows = st.fixed_dictionaries({"default": bools, "scalar": bools,
                              "out": bools})
freqs = weighted((4, fl(0, FMAX)), (3, logfl(1e-3, FMAX)),
                 (1, st.sampled_from([0., 20., 440., 1000., 600., 700., 1960.,
                                      20000., FMAX])))


# --- Formulas -----------------------------------------------------------------
def formula_cases():
  return st.fixed_dictionaries({
      "name": st.sampled_from(sorted(REFS)),
      "x": st.lists(freqs, min_size=1, max_size=8),
      "how": hows,
  })


def check_formula(case, ctx):
  name = case["name"]
  ref = REFS[name][3]
  got = arr(call(name, case["x"], case["how"]), shape=(len(case["x"]),),
            what=name, finite=True)
  near(got, [ref(f) for f in case["x"]], f"{name}({case['x']})", rtol=1e-9,
       atol=1e-11)
  if name.startswith("erb"):
    require((got > 0).all(), "non-positive bandwidth")
  ctx.nontrivial(any(0 < f < FMAX for f in case["x"]))
  ctx.tag(name)


# --- Round trips --------------------------------------------------------------
def trip_cases():
  return st.fixed_dictionaries({
      "name": st.sampled_from(INVERTIBLE),
      "x": st.lists(freqs, min_size=1, max_size=8),
      "there": hows,
      "back": hows,
      "inverse_first": bools,
  })


def check_trip(case, ctx):
  name, x = case["name"], case["x"]
  ref = REFS[name][3]
  if case["inverse_first"]:
    y = [ref(f) for f in x]
    f = call(name, y, case["there"], inverse=True)
    near(f, x, f"{name}: inverse of {y}", rtol=1e-8, atol=1e-8)
    near(call(name, f, case["back"]), y, f"{name} of its inverse, {y}",
         rtol=1e-8, atol=1e-9)
  else:
    y = call(name, x, case["there"])
    near(call(name, y, case["back"], inverse=True), x,
         f"{name} to Hertz and back of {x}", rtol=1e-8, atol=1e-8)
  ctx.nontrivial(any(0 < f < FMAX for f in x))
  ctx.tag(name)


# --- Order --------------------------------------------------------------------
def order_cases():
  return st.fixed_dictionaries({
      "name": st.sampled_from(sorted(REFS)),
      "x": freqs,
      "gap": weighted((1, fl(1e-7, 1e-3)), (2, fl(1e-3, 1))),
      "how": hows,
  })


def check_order(case, ctx):
  name, x = case["name"], case["x"]
  y = x + max(1e-3, x) * case["gap"]
  a, b = call(name, [x, y], case["how"])
  # A derivative far from zero: the gap is visible in floating point
  require(a < b, "%s is not increasing: %r for %r, %r for %r", name, a, x, b,
          y)
  if name in INVERTIBLE:
    f, g = call(name, [float(a), float(b)], case["how"], inverse=True)
    require(f < g, "the inverse of %s is not increasing: %r for %r, "
            "%r for %r", name, f, a, g, b)
  ctx.nontrivial()
  ctx.tag(name)


# --- ERB-rate scale -----------------------------------------------------------
def rate_cases():
  return st.fixed_dictionaries({
      "x": fl(0, 20000),
      "degree": st.sampled_from(["linear", "quadratic"]),
  })


def check_rate(case, ctx):
  """The ERB-rate scale grows by one every equivalent rectangular bandwidth"""
  x, deg = case["x"], case["degree"]
  b = float(psy().erb(x, degree=deg))
  h = b * 1e-3
  d = float(psy().hz2cams(x + h, degree=deg) -
            psy().hz2cams(x - h, degree=deg)) / (2e-3)
  require(abs(d - 1) < .01, "%s: an equivalent rectangular bandwidth around "
          "%r Hz is %r steps of the ERB-rate scale", deg, x, d)
  ctx.nontrivial(x > 0)


# --- A-weighting --------------------------------------------------------------
# IEC 61672 nominal levels at 1000 * 10^(k/10) Hz for k from -20 to 13
TABLE = [-70.4, -63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5,
         -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -.8, 0, .6,
         1.0, 1.2, 1.3, 1.2, 1.0, .5, -.1, -1.1, -2.5, -4.3, -6.6, -9.3]


def ref_a(f):
  f2 = f * f
  return 12194.**2 * f2**2 / ((f2 + 20.6**2) * math.sqrt(
      (f2 + 107.7**2) * (f2 + 737.9**2)) * (f2 + 12194.**2))


def a_cases():
  return st.fixed_dictionaries({
      "x": st.lists(logfl(1, FMAX), min_size=1, max_size=6),
      "k": st.integers(0, len(TABLE) - 1),
      "out": bools,
      "scalar": bools,
      "explicit": bools,
  })


def check_a(case, ctx):
  p = psy()
  x = case["x"]

  def func(v, db):
    kw = {"db": db} if case["explicit"] or not db else {}
    if case["scalar"]:
      return np.array([p.a_weighting(u, **kw) for u in v])
    v = np.array(v)
    if case["out"]:
      kw["out"] = np.full(v.shape, np.nan)
    return p.a_weighting(v, **kw)

  lin = [ref_a(f) for f in x]
  near(func(x, False), lin, "linear A-weights", rtol=1e-8)
  db = [20 * math.log10(v / ref_a(1000.)) for v in lin]
  near(func(x, True), db, "A-weights in decibels", atol=1e-7)
  k = case["k"]
  f = 1000. * 10**((k - 20) / 10)
  got = float(func([f], True)[0])
  require(abs(got - TABLE[k]) < .06, "A-weight of %.1f Hz is %r dB, the "
          "standard says %r", f, got, TABLE[k])
  near(func([1000.], True), [0.], "A-weight of 1 kHz", atol=1e-9)
  ctx.nontrivial(len(set(x)) > 1)


# --- Unknown variants ---------------------------------------------------------
def unknown_cases():
  return st.fixed_dictionaries({
      "func": st.sampled_from(sorted(DEFAULTS)),
      "variant": st.one_of(
          st.sampled_from(["", "zwicker", "traunmuller", "wang", "default",
                           "fant", "linear", "quadratic", "Fant", "cubic"]),
          st.text(max_size=8), st.none(), st.integers(0, 3)),
      "x": fl(0, 24),
  })


def check_unknown(case, ctx):
  fn, var = case["func"], case["variant"]
  known = {}
  for name, (f, key, v, ref) in REFS.items():
    known.setdefault(f, {})[v] = name
    if f in INVERSE and name in INVERTIBLE:
      known.setdefault(INVERSE[f], {})[v] = name
  key = "mode" if fn in ("hz2bark", "bark2hz", "hz2mel", "mel2hz") else \
      "degree"
  f = getattr(psy(), fn)
  if var in known[fn]:
    got = f(case["x"], **{key: var})
    name = known[fn][var]
    ref = REFS[name][3]
    if fn in INVERSE.values():
      near(ref(float(got)), case["x"], f"{fn} {var}", rtol=1e-7, atol=1e-7)
    else:
      near(got, ref(case["x"]), f"{fn} {var}", atol=1e-9)
    ctx.tag("known")
    return
  e = raises(ValueError, f, case["x"], **{key: var},
             what=f"{fn}({key}={var!r})")
  for v in known[fn]:
    require(v in str(e), "the error of %s does not name the option %s: %s",
            fn, v, e)
  ctx.nontrivial()
  ctx.tag("unknown")


SUBS = [
    Sub("formula", formula_cases, check_formula, quick=2500),
    Sub("roundtrip", trip_cases, check_trip, quick=2500),
    Sub("order", order_cases, check_order, quick=2500),
    Sub("rate", rate_cases, check_rate, quick=500),
    Sub("a_weighting", a_cases, check_a, quick=1500),
    Sub("variants", unknown_cases, check_unknown, quick=1000),
]
