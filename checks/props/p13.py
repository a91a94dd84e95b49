"""P13: beat regression stays in bounds and identifies partials"""
import cmath
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P13"
RULE = (
    "A case is two decaying partials with the times where their beat is "
    "observed, the noise on the observed tracks, and the options of the "
    "regression. Oracles: the recorded starting point and bounds, a scalar "
    "reimplementation of the residual with complex phasors, and the known "
    "parameters. Non-trivial: the fit ran to its end (sort: different keys).")
ASSUMPTIONS = [
    "The problem is not convex: the amplitude track is required to be "
    "reproduced from a nearby starting point, and from the default one only "
    "in the majority of the beats of a batch",
]


@st.composite
def beats(draw, noisy=True):
  fc = draw(logfl(200, 4000))
  df = draw(fl(1.5, 4)) * draw(st.sampled_from([-1, 1]))
  return {
      "p": [draw(fl(.3, 1)), draw(fl(.3, 1)), fc + df, fc - df,
            draw(fl(.7, 2)), draw(fl(.7, 2)), draw(fl(-2.9, 2.9)),
            draw(fl(-2.9, 2.9))],
      "dur": draw(fl(1, 1.6)),
      "hop": draw(fl(.005, .015)),
      "t0": draw(st.sampled_from([0, 0, .01])),
      "noise": draw(st.sampled_from([0, 0, .5, 3])) if noisy else 0,
      "seed": draw(seeds),
  }


def phasor(p, t):
  """Sum of the partials, and its derivative"""
  z, dz = 0, 0
  for i in range(2):
    s = complex(-2 / p[4 + i], 2 * math.pi * p[2 + i])
    v = p[i] * cmath.exp(s * t + 1j * p[6 + i])
    z += v
    dz += s * v
  return z, dz


def tracks(b):
  t = b["t0"] + np.arange(0, b["dur"], b["hop"])
  a, f = [], []
  for u in t.tolist():
    z, dz = phasor(b["p"], u)
    a.append(20 * math.log10(max(abs(z), 1e-6)))
    f.append((dz / z).imag / (2 * math.pi) if abs(z) > 1e-9 else b["p"][2])
  rng = np.random.default_rng(b["seed"])
  a = np.array(a) + b["noise"] * rng.normal(size=t.size)
  f = np.array(f) + b["noise"] * .1 * rng.normal(size=t.size)
  return t, a, f


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def lin(a):
  return 10**(np.asarray(a) / 20)


def am(p, t):
  return np.array([abs(phasor(p, u)[0]) for u in t.tolist()])


def cauchy(res):
  return .5 * float(np.sum(np.log1p(np.square(res))))


# --- Sorting ------------------------------------------------------------------
KEYS = {
    "default": None,
    "freq": lambda p: p[2:4],
    "amp": lambda p: p[:2],
    "decay": lambda p: p[4:6],
    "phase": lambda p: p[6:],
}


def sort_cases():
  v = weighted((2, st.integers(1, 4).map(float)), (2, logfl(1e-6, 1e4)))
  return st.fixed_dictionaries({
      "p": st.lists(v, min_size=8, max_size=8),
      "key": st.sampled_from(list(KEYS)),
      "descending": st.sampled_from([None, False, True]),
      "array": bools,
  })


def check_sort(case, ctx):
  from sample.beatsdrop.regression import sort_params
  p = case["p"]
  given = np.array(p) if case["array"] else tuple(p)
  kw = {}
  if case["descending"] is not None:
    kw["descending"] = case["descending"]
  key = KEYS[case["key"]]
  if key is not None:
    kw["key"] = key
  else:
    key = lambda p: [p[i]**2 * p[4 + i] / 4 for i in range(2)]
  out = [float(v) for v in sort_params(given, **kw)]
  require(len(out) == 8, "%d parameters out of 8", len(out))
  swapped = [p[i ^ 1] for i in range(8)]
  require(out == p or out == swapped,
          "parameters of the partials were mixed up: %r from %r", out, p)
  k = list(key(out))
  if abs(k[0] - k[1]) > 1e-12 * max(abs(k[0]), abs(k[1])):
    require((k[0] > k[1]) == bool(case["descending"]),
            "keys %r are not in the requested order", k)
    again = [float(v) for v in sort_params(tuple(out), **kw)]
    require(again == out, "sorting again gives %r from %r", again, out)
    ctx.nontrivial()
  else:
    ctx.tag("tie")
  require(list(given) == p, "the parameters were modified in place")


# --- Fit ----------------------------------------------------------------------
@st.composite
def fit_cases(draw):
  return {
      "beat": draw(beats()),
      "dual": draw(bools),
      "fs": draw(st.sampled_from([100, 1000, 8000])),
      "init": draw(st.sampled_from(["default", "default", "near", "off"])),
      "eps": [draw(fl(-.1, .1)) for _ in range(8)],
      "clip": draw(st.sampled_from([2.5, None, 1.])),
      "w": draw(st.sampled_from([1 / 3800, 1e-2])),
      "losses": draw(st.sampled_from([None, None, "amp", "freq"])),
      "disambiguate": draw(bools),
      "column": draw(bools),
      "growing": draw(st.sampled_from([False] * 7 + [True])),
      "nfev": draw(st.sampled_from([None, 1, 3, 20])),
  }


def model(case, log, fs=None):
  """Regression model which logs its starting point and bounds"""
  from sample.beatsdrop import regression
  cls = regression.DualBeatRegression if case["dual"] else \
      regression.BeatRegression
  kw = {"fs": case["fs"] if fs is None else fs}
  if case["dual"]:
    kw.update(freq_clip=case["clip"], freq_w=case["w"],
              disambiguate=case["disambiguate"])
    if case["losses"] == "amp":
      kw["amp_loss"] = lambda a, b: 2 * np.log10(np.add(a, 1e-3) /
                                                 np.add(b, 1e-3))
    if case["losses"] == "freq":
      kw["freq_loss"] = lambda a, b: (a - b) * 1e-2
  d_init, d_bounds = cls().params_init, cls().bounds
  true = case["beat"]["p"]

  def init(t, a, f, res_fn, m):
    d = d_init(t, a, f, res_fn, m)
    log["default"] = [float(v) for v in d]
    log["res_fn"], log["m"] = res_fn, m
    if case["init"] == "near":
      d = tuple(v * (1 + e * (1e-3 if 2 <= i < 4 else 1))
                for i, (v, e) in enumerate(zip(true, case["eps"])))
    elif case["init"] == "off":
      d = tuple(v * (1 + e) for v, e in zip(d, case["eps"]))
    log["init"] = [float(v) for v in d]
    return d

  def bounds(t, a, f, p, m):
    b = d_bounds(t, a, f, p, m)
    log["bounds"] = [list(map(float, v)) for v in b]
    return b

  return cls(params_init=init, bounds=bounds, **kw)


def residuals(case, p, t, a, f):
  """Reference residuals"""
  from sample import psycho
  z = [phasor(p, u) for u in t.tolist()]
  est = np.array([abs(v) for v, _ in z])
  if not case["dual"]:
    return lin(a) - est
  fest = np.abs([(d / v).imag / (2 * math.pi) for v, d in z])
  if case["clip"] is not None:
    s = np.sort(fest)

    def quant(q):
      i = q * (len(s) - 1)
      k = int(i)
      return s[k] + (i - k) * (s[min(k + 1, len(s) - 1)] - s[k])

    d = case["clip"] * (quant(.75) - quant(.25)) / 2
    fest = np.minimum(np.maximum(fest, quant(.5) - d), quant(.5) + d)
  if case["losses"] == "amp":
    ra = 2 * np.log10((lin(a) + 1e-3) / (est + 1e-3))
  else:
    ra = lin(a) - est
  if case["losses"] == "freq":
    rf = (np.abs(f) - fest) * 1e-2
  else:
    rf = psycho.hz2mel(np.abs(f)) - psycho.hz2mel(fest)
  return np.concatenate((ra, case["w"] * rf))


def swap(p):
  """The other association of frequencies to amplitudes"""
  return [p[0], p[1], p[3], p[2], p[4], p[5], p[7], p[6]]


def check_fit(case, ctx):
  b = case["beat"]
  t, a, f = tracks(b)
  if case["growing"]:
    a = a[::-1].copy()
    f = f[::-1].copy()
  log = {}
  m = model(case, log)
  copies = t.copy(), a.copy(), f.copy()
  kw = {} if case["nfev"] is None else {"max_nfev": case["nfev"]}
  tt = t[:, None] if case["column"] else t
  err = None
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
      r = m.fit(t=tt, a=a, f=f, **kw)
    except ValueError as e:
      err = e
  for x, y in zip((t, a, f), copies):
    same(x, y, "the tracks were modified")

  # Default starting point
  q, k = np.polyfit(t, a, 1)[::-1]
  d = log["default"]
  near(d[:2], [10**(q / 20) / 2] * 2, "initial amplitudes", rtol=1e-6)
  near(d[4:6], [-40 * math.log10(math.e) / k] * 2, "initial decays",
        rtol=1e-6 * (1 + 1e2 / abs(k)))
  near((d[2] + d[3]) / 2, np.mean(f), "initial mean frequency", rtol=1e-9)
  require(d[2] >= d[3], "initial frequencies are not ordered")
  require(d[6] == 0 and -2 * math.pi - 1e-9 <= d[7] <= 1e-9,
          "initial phases %r", d[6:])

  # Bounds
  lb, ub = log["bounds"]
  x0 = log["init"]
  al = lin(a)
  require(max(lb[0], lb[1]) <= min(*x0[:2], al.min()) * (1 + 1e-9) and
          min(lb[:2]) >= 0, "lower amplitude bound %r", lb[:2])
  require(min(ub[:2]) >= max(*x0[:2], al.max()) * (1 - 1e-9),
          "upper amplitude bound %r", ub[:2])
  require(max(lb[2:4]) <= min(*x0[2:4], f.min()) and
          min(ub[2:4]) >= max(*x0[2:4], f.max()),
          "frequency bounds %r %r do not contain the data", lb[2:4], ub[2:4])
  require(min(lb[4:6]) > 0, "decay times may not be positive: %r", lb[4:6])
  near(ub[6] - lb[6], 2 * math.pi, "phase range", rtol=1e-9)
  near(ub[7] - lb[7], 2 * math.pi, "phase range", rtol=1e-9)
  feasible = all(l < v < u for l, v, u in zip(lb, x0, ub))
  if not feasible:
    ctx.tag("unfeasible")
    require(err is not None, "a starting point out of the bounds was accepted")
    return
  if err is not None:
    raise err

  # Result
  p = [float(v) for v in r.params_]
  require(len(p) == 8, "%d parameters", len(p))
  options = [p, swap(p)] if case["dual"] and case["disambiguate"] else [p]

  def inside(v):
    return all(l - 1e-12 <= u <= h + 1e-12 for l, u, h in zip(lb, v, ub))

  require(any(map(inside, options)), "parameters %r are out of the bounds %r",
          p, (lb, ub))
  fn = log["res_fn"]
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    c0, c1 = (cauchy(fn(np.array(v))) for v in (x0, p))
    alt = min(cauchy(fn(np.array(v))) for v in options)
  require(alt <= c0 * (1 + 1e-9) + 1e-15,
          "the fit (cost %g) is worse than its starting point (%g)", alt, c0)
  del c1

  # Residuals are those of the model
  for v in (x0, p):
    z = [phasor(v, u) for u in t.tolist()]
    az = np.abs([w for w, _ in z])
    if not np.isfinite(az).all() or min(v[4:6]) < 1e-2 or \
        (case["dual"] and az.min() < 1e-3 * max(v[:2])):
      ctx.tag("singular")
      continue
    got = np.sort(np.abs(fn(np.array(v))))
    exp = np.sort(np.abs(residuals(case, v, t, a, f)))
    require(got.size == exp.size, "%d residuals instead of %d", got.size,
            exp.size)
    if case["dual"]:
      near(got, exp, "residuals", rtol=1e-5, atol=1e-7)
    else:
      lip = sum(v[i] * math.hypot(2 / v[4 + i], math.pi * (v[2] - v[3]))
                for i in range(2))
      near(got, exp, "residuals", rtol=1e-9, atol=1.1 * lip / case["fs"])
      ctx.tag("residuals")

  if case["dual"] and case["disambiguate"]:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      s = [float(np.sum(np.square(fn(np.array(v))))) for v in options]
    require(not s[1] < s[0] * (1 - 1e-12),
            "residual %g, but the other association has %g", *s)
    ctx.tag("disambiguated")

  # Prediction
  from sample import beatsdrop
  beat = beatsdrop.ModalBeat(*p)
  names = ("am", "x", "fm", "a0", "a1")
  u = t[:, None] if case["column"] else t
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    got = m.predict(u, *names)
    ref = beat.compute(t, names)
    only = m.predict(u)
  require(len(got) == len(names) and len(only) == 1, "number of outputs")
  for n, g, e in zip(names, got, ref):
    same(np.asarray(g), np.asarray(e), f"prediction of {n}")
  same(np.asarray(only[0]), np.asarray(ref[1]), "default prediction")
  if max(p[4:6]) > 1e-2 and min(p[4:6]) > 1e-2:
    near(got[0], am(p, t), "predicted amplitude", rtol=1e-6, atol=1e-7)
  ctx.nontrivial(case["nfev"] is None)
  ctx.tag(case["init"])


# --- Disambiguation -----------------------------------------------------------
@st.composite
def dual_cases(draw):
  return {
      "beat": draw(beats(noisy=False)),
      "swap": draw(bools),
      "disambiguate": draw(bools),
      "eps": [draw(fl(-.05, .05)) for _ in range(8)],
  }


def check_dual(case, ctx):
  """Started on either association, and not allowed to move"""
  from sample.beatsdrop import regression
  b = case["beat"]
  t, a, f = tracks(b)
  p0 = swap(b["p"]) if case["swap"] else list(b["p"])
  p0 = [v * (1 + e * (1e-3 if 2 <= i < 4 else 1))
        for i, (v, e) in enumerate(zip(p0, case["eps"]))]
  log = {}

  def init(t, a, f, fn, m):
    log["fn"] = fn
    return tuple(p0)

  def bounds(*_):
    return tuple(v - 1e-6 for v in p0), tuple(v + 1e-6 for v in p0)

  m = regression.DualBeatRegression(params_init=init, bounds=bounds,
                                    disambiguate=case["disambiguate"])
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    m.fit(t=t, a=a, f=f)
    p = [float(v) for v in m.params_]
    if not case["disambiguate"]:
      near(p, p0, "parameters", rtol=0, atol=2e-6)
      return
    s = []
    for v in (p0, swap(p0)):
      z = [abs(phasor(v, u)[0]) for u in t.tolist()]
      if min(z) < 1e-3:
        ctx.tag("singular")
        ctx.reject()
      s.append(float(np.sum(np.square(residuals(
          {"dual": True, "clip": 2.5, "losses": None, "w": 1 / 3800}, v, t, a,
          f)))))
  if abs(s[0] - s[1]) < 1e-3 * max(s) + 1e-6:
    ctx.tag("tie")
    return
  best = p0 if s[0] < s[1] else swap(p0)
  near(p, best, "disambiguated parameters", rtol=0, atol=2e-6)
  u = t[::7]
  near(m.predict(u, "am")[0], am(p, u), "predicted amplitude", rtol=1e-6,
        atol=1e-7)
  ctx.tag("swapped" if s[1] < s[0] else "kept")
  ctx.nontrivial()


# --- Identification -----------------------------------------------------------
@st.composite
def warm_cases(draw):
  return {
      "beat": draw(beats(noisy=False)),
      "dual": draw(bools),
      "eps": [draw(fl(-.05, .05)) for _ in range(8)],
      "clip": None, "w": 1 / 3800, "losses": None,
      "disambiguate": False, "init": "near", "fs": 4000,
  }


def rel(m, p, t):
  e = am(p, t)
  g = np.asarray(m.predict(t, "am")[0])
  return float(np.sqrt(np.mean(np.square(g - e)) / np.mean(np.square(e))))


def check_warm(case, ctx):
  b = case["beat"]
  t, a, f = tracks(b)
  if am(b["p"], t).min() < 1e-2:
    ctx.tag("singular")
    ctx.reject()
  m = model(case, {})
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    m.fit(t=t, a=a, f=f)
    r = rel(m, b["p"], t)
  require(r < WARM, "amplitude track not reproduced (relative error %g)", r)
  if case["dual"]:
    got = [float(v) for v in m.params_[:6]]
    near(got, b["p"][:6], "parameters of the partials",
          rtol=WARM_P, atol=WARM_P)
  ctx.nontrivial()


WARM = .02
WARM_P = .05


def check_cold(case, ctx):
  """Most of a batch of beats is identified from the default start"""
  from sample.beatsdrop import regression
  rng = np.random.default_rng(case["seed"])
  good, errs = 0, []
  for _ in range(10):
    fc, df = rng.uniform(200, 3000), rng.uniform(1.5, 4)
    p = [*rng.uniform(.3, 1, 2), fc + df, fc - df, *rng.uniform(.7, 2, 2),
         *rng.uniform(-3, 3, 2)]
    t, a, f = tracks({"p": p, "t0": 0, "dur": rng.uniform(1, 2),
                      "hop": rng.uniform(.003, .01), "noise": 0, "seed": 0})
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      m = regression.DualBeatRegression(fs=case["fs"]).fit(t=t, a=a, f=f)
      errs.append(rel(m, p, t))
      s = regression.sort_params(tuple(m.params_))
      e = regression.sort_params(tuple(p))
      ok = np.allclose(s[:6], e[:6], rtol=.02)
      good += errs[-1] < .02 and ok
  require(good >= 3, "only %d beats out of 10 were identified (errors %r)",
          good, errs)
  require(max(errs) < .8, "an amplitude track was missed altogether: %r", errs)
  ctx.tag("good%d" % good)
  ctx.nontrivial()


def cold_cases():
  return st.fixed_dictionaries({
      "seed": seeds,
      "fs": st.sampled_from([100, 1000]),
  })


SUBS = [
    Sub("sort", sort_cases, check_sort, quick=1500),
    Sub("fit", fit_cases, check_fit, quick=300, shards=3),
    Sub("dual", dual_cases, check_dual, quick=200, shards=2),
    Sub("warm", warm_cases, check_warm, quick=150, shards=2),
    Sub("cold", cold_cases, check_cold, quick=16, shards=2),
]
