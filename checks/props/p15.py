"""P15: unit conversions and normalizations are exact inverses"""
import cmath
import math

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P15"
RULE = (
    "A case is an array (or scalar), up to 20000 elements, and the options of "
    "one of the functions. "
    "Oracles: closed forms in scalar arithmetic, round-trips, and the "
    "defining properties of the results. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: more than one distinct "
    "value (zero-crossing: the root is not an end or the first midpoint).")
ASSUMPTIONS = [
    "Normalization of constant arrays is only judged in the modes where it is "
    "defined (peak of a non-zero constant, rms)",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


# --- Decibels -----------------------------------------------------------------
def db_cases():
  return st.fixed_dictionaries({
      "a": st.lists(weighted((6, logfl(1e-12, 1e6)), (1, st.just(0.))),
                    min_size=1, max_size=12),
      "phase": st.lists(fl(-3.2, 3.2), min_size=12, max_size=12),
      "floor": opt(st.lists(logfl(1e-9, 10), min_size=12, max_size=12)),
      "scalar_floor": bools,
      "floor_db": bools,
      "scalar": bools,
  })


def ref_db(a):
  return 20 * math.log10(a) if a > 0 else -math.inf


def check_db(case, ctx):
  from sample.utils import dsp
  a = np.array(case["a"])
  kw, fref = {}, [0] * a.size
  if case["floor"] is not None:
    fref = case["floor"][:a.size]
    if case["scalar_floor"] or case["scalar"]:
      fref = [fref[0]] * a.size
    f = fref[0] if case["scalar_floor"] or case["scalar"] else np.array(fref)
    kw["floor"] = f
    if case["floor_db"]:
      kw["floor"] = 20 * np.log10(f)
      kw["floor_db"] = True
  exp = [ref_db(max(v, w)) for v, w in zip(case["a"], fref)]
  c = [v * cmath.exp(1j * p) for v, p in zip(case["a"], case["phase"])]
  with np.errstate(divide="ignore"):
    if case["scalar"]:
      got = [dsp.a2db(v, **kw) for v in case["a"]]
      gotc = [dsp.complex2db(v, **kw) for v in c]
      back = [dsp.db2a(v) for v in exp]
      for v in (*got, *gotc, *back):
        require(np.ndim(v) == 0, "a scalar gave an array")
    else:
      got = dsp.a2db(a, **kw)
      gotc = dsp.complex2db(np.array(c), **kw)
      back = dsp.db2a(np.array(exp))
  near(got, exp, "decibels", rtol=1e-11, atol=1e-9)
  near(gotc, exp, "decibels of complex values", rtol=1e-11, atol=1e-9)
  near(back, [max(v, w) for v, w in zip(case["a"], fref)], "round-trip",
       rtol=1e-11)
  o = np.argsort(case["a"], kind="stable")
  if case["floor"] is None or case["scalar_floor"] or case["scalar"]:
    require(np.all(np.asarray(got)[o][1:] >= np.asarray(got)[o][:-1]),
            "not monotone")
  near(dsp.a2db(dsp.db2a(np.asarray(case["phase"]) * 30)),
       np.asarray(case["phase"]) * 30, "round-trip from decibels", rtol=1e-10,
       atol=1e-9)
  same(a, np.array(case["a"]), "input modified")
  ctx.nontrivial(len(set(case["a"])) > 1)
  if case["floor"] is not None:
    ctx.tag("floor")


# --- Normalization ------------------------------------------------------------
@st.composite
def norm_cases(draw):
  shape = draw(st.sampled_from([[1], [2], [5], [17], [3, 4], [2, 1, 5]]))
  n = int(np.prod(shape))
  kind = draw(st.sampled_from(["f8", "f8", "f4", "i8", "i4", "list"]))
  ints = kind[0] == "i"
  e = st.integers(-1000, 1000) if ints else weighted(
      (3, fl(-100, 100)), (1, st.sampled_from([0., 1., -1., .5])))
  x = draw(st.lists(e, min_size=n, max_size=n))
  return {
      "shape": shape, "kind": kind, "x": x,
      "offset": draw(st.sampled_from([0, 0, 0, 500, -500])),
      "mode": draw(st.sampled_from(["peak", "rms", "range", None])),
      "inplace": draw(bools),
  }


def check_norm(case, ctx):
  from sample.utils import dsp
  kind = "f8" if case["kind"] == "list" else case["kind"]
  x = (np.reshape(case["x"], case["shape"]) + case["offset"]).astype(kind)
  mode = case["mode"]
  kw = {} if mode is None else {"mode": mode}
  x0 = x.astype(float)
  var = x0.max() - x0.min()
  scale = np.abs(x0).max()
  if mode in (None, "peak") and scale < 1e-3:
    ctx.reject()
  if mode == "range" and var < 1e-3:
    ctx.reject()
  if mode == "rms" and 0 < var < 1e-3:
    ctx.reject()
  arg = x.tolist() if case["kind"] == "list" else x
  out = None
  if case["inplace"] and x.dtype.kind == "f" and case["kind"] != "list":
    out = kw["out"] = arg
  got = dsp.normalize(arg, **kw)
  if out is not None:
    require(got is out, "the given array is not returned")
  else:
    same(np.asarray(arg), x0.astype(kind), "input modified")
  got = arr(got, shape=tuple(case["shape"]), kind="f", finite=True)
  eps = 1e-5 if case["kind"] in ("f4", "i4") else 1e-11
  # the error on the mean, relative to the scale of the result
  tol = eps * (1 + scale / (var or scale or 1))
  got = got.astype(float)
  if mode in (None, "peak"):
    near(got, x0 / scale, "values", rtol=eps, atol=1e-30)
    near(np.abs(got).max(), 1, "absolute peak", rtol=eps)
  elif mode == "rms":
    m = math.fsum(x0.flat) / x0.size
    s = math.sqrt(math.fsum((v - m)**2 for v in x0.flat) / x0.size)
    if var == 0:
      near(got, np.zeros(x0.shape), "values of a constant", atol=eps * scale)
      return
    tol *= max(1, var / s)
    near(got, (x0 - m) / s, "values", rtol=tol, atol=10 * tol)
    near(np.mean(got), 0, "mean", atol=10 * tol)
    near(np.mean(np.square(got - np.mean(got))), 1, "variance",
         rtol=100 * tol)
  else:
    near(got, (x0 - x0.min()) / var, "values", rtol=tol, atol=tol)
    near(got.min(), 0, "minimum", atol=tol)
    near(got.max(), 1, "maximum", atol=tol)
  ctx.nontrivial(var > 0)
  ctx.tag(str(mode))


def mode_cases():
  return st.text(max_size=6)


def check_mode(case, ctx):
  from sample.utils import dsp
  if case in ("peak", "rms", "range"):
    ctx.reject()
  e = raises(ValueError, dsp.normalize, np.arange(3.), mode=case)
  for m in ("peak", "rms", "range"):
    require(m in str(e), "the error does not name option %r: %s", m, e)
  ctx.nontrivial()


# --- Bins ---------------------------------------------------------------------
def bin_cases():
  return st.fixed_dictionaries({
      "nfft": weighted((3, st.sampled_from([64, 256, 1000, 1024, 4096, 8192])),
                       (2, st.integers(1, 5000))),
      "fs": weighted((3, st.sampled_from([1, 8000, 11025, 44100, 48000.])),
                     (2, logfl(.5, 2e5))),
      "b": st.lists(st.integers(0, 8192), min_size=1, max_size=20),
      "u": st.lists(fl(0, 1.2), min_size=1, max_size=20),
      "scalar": bools,
  })


def check_bin(case, ctx):
  from sample.utils import dsp
  nfft, fs = case["nfft"], case["fs"]
  b = np.array(case["b"])
  u = np.array(case["u"]) * fs
  if case["scalar"]:
    f = [dsp.bin2f(v, nfft, fs) for v in case["b"]]
    back = [dsp.f2bin(v, nfft, fs) for v in f]
    k = [dsp.f2bin(v, nfft, fs) for v in u.tolist()]
  else:
    f = dsp.bin2f(b, nfft, fs)
    back = dsp.f2bin(f, nfft=nfft, fs=fs)
    k = dsp.f2bin(u, nfft, fs=fs)
  near(f, [v * fs / nfft for v in case["b"]], "frequencies of bins",
       rtol=1e-12)
  if fs == 1:
    same(dsp.bin2f(b, nfft), f, "default sampling frequency")
    same(dsp.f2bin(u, nfft), k, "default sampling frequency")
  same(arr(back, kind="i"), b, "round-trip of bins")
  k = arr(k, kind="i")
  for v, w in zip(u.tolist(), k.tolist()):
    d = v * nfft / fs
    require(w >= d * (1 - 1e-9) and w - 1 < d * (1 + 1e-9) + 1e-9,
            "bin of %g Hz is %d, not the first one at or above (%g)", v, w, d)
  ctx.nontrivial(len(set(case["b"])) > 1)


# --- Imaginary exponential ----------------------------------------------------
def check_expi(case, ctx):
  from sample.utils import dsp
  x = case["x"]
  exp = [cmath.exp(1j * v) for v in x]
  if case["scalar"]:
    near([dsp.expi(v) for v in x], exp, "exp(ix)", rtol=1e-9)
  else:
    near(dsp.expi(np.array(x, dtype=float)), exp, "exp(ix)", rtol=1e-9)
  ctx.nontrivial(len(set(x)) > 1)


def expi_cases():
  return st.fixed_dictionaries({
      "x": st.lists(fl(-100, 100), min_size=1, max_size=10),
      "scalar": bools,
  })


# --- Detrend ------------------------------------------------------------------
@st.composite
def detrend_cases(draw):
  n = draw(st.integers(2, 30))
  return {
      "y": draw(st.lists(fl(-10, 10), min_size=n, max_size=n)),
      "x": draw(opt(st.lists(fl(.01, 1), min_size=n, max_size=n))),
      "x0": draw(fl(-5, 5)),
      "line": [draw(fl(-5, 5)), draw(fl(-5, 5))],
      "model": draw(st.sampled_from([None, None, "mean", "linear"])),
  }


class Mean:
  """Model of a constant"""

  def fit(self, x, y):
    self.m = np.mean(y)
    self.n = np.shape(x)
    return self

  def predict(self, x):
    return np.full(np.shape(x), self.m)


def check_detrend(case, ctx):
  from sample.utils import dsp
  y = np.array(case["y"])
  n = y.size
  x = None
  xr = np.arange(n, dtype=float)
  if case["x"] is not None:
    x = xr = case["x0"] + np.cumsum(case["x"])
  kw = {}
  if case["model"] == "mean":
    kw["model"] = Mean()
  if case["model"] == "linear":
    from sklearn import linear_model
    kw["model"] = linear_model.LinearRegression()
  got = arr(dsp.detrend(y, x, **kw), shape=(n,))
  if case["model"] == "mean":
    near(got, y - math.fsum(case["y"]) / n, "residuals of a constant",
         rtol=1e-9, atol=1e-9)
    return
  xm, ym = math.fsum(xr) / n, math.fsum(y) / n
  sxx = math.fsum((v - xm)**2 for v in xr)
  if sxx < 1e-6:
    ctx.reject()
  k = math.fsum((v - xm) * (w - ym) for v, w in zip(xr, y)) / sxx
  near(got, y - ym - k * (xr - xm), "residuals", rtol=1e-7, atol=1e-7)
  near(np.sum(got), 0, "mean of the residuals", atol=1e-6)
  near(np.sum(got * (xr - xm)), 0, "trend of the residuals", atol=1e-5)
  a, b = case["line"]
  near(dsp.detrend(y + a * xr + b, x, **kw), got, "adding a line",
       rtol=1e-6, atol=1e-6)
  near(dsp.detrend(got, x, **kw), got, "detrending again", rtol=1e-6,
       atol=1e-6)
  same(y, np.array(case["y"]), "input modified")
  if kw:
    near(np.ravel(kw["model"].coef_)[0],
         np.ravel(type(kw["model"])().fit(xr[:, None], got).coef_)[0],
         "given model is used", atol=1e-6)
  raises(ValueError, dsp.detrend, y[:, None])
  ctx.nontrivial(n > 2)


# --- Zero crossing ------------------------------------------------------------
@st.composite
def zero_cases(draw):
  return {
      "roots": draw(st.lists(fl(-1, 1), min_size=1, max_size=3, unique=True)),
      "ends": [draw(fl(-3, -1.01)), draw(fl(1.01, 3))],
      "kind": draw(st.sampled_from(["poly", "tanh", "cubic", "step", "end"])),
      "negate": draw(bools),
      "flip": draw(bools),
      "steps": draw(opt(st.integers(0, 40))),
  }


def check_zero(case, ctx):
  from sample.utils import dsp
  roots = case["roots"] if case["kind"] == "poly" else case["roots"][:1]
  if len(roots) == 2:
    roots = roots[:1]
  sign = -1 if case["negate"] else 1
  lo, hi = case["ends"]
  r0 = roots[0]
  if case["kind"] == "end":
    roots = [r0] = [lo]
  calls = []

  def func(x):
    calls.append(x)
    if case["kind"] in ("poly", "end"):
      v = 1.
      for r in roots:
        v *= x - r
    elif case["kind"] == "tanh":
      v = math.tanh(5 * (x - r0))
    elif case["kind"] == "cubic":
      v = (x - r0)**3 + .01 * (x - r0)
    else:
      v = 1 if x > r0 else -1
    return sign * v

  if case["flip"]:
    lo, hi = hi, lo
  kw = {} if case["steps"] is None else {"steps": case["steps"]}
  steps = 16 if case["steps"] is None else case["steps"]
  a = float(dsp.dychotomic_zero_crossing(func, lo, hi, **kw))
  w = abs(hi - lo) / 2**(steps + 1)
  require(min(lo, hi) <= a <= max(lo, hi), "%g is not in the interval", a)
  d = min(abs(a - r) for r in roots)
  require(d <= w * (1 + 1e-9) + 1e-14,
          "%r is %g from the closest crossing, with a precision of %g", a, d,
          w)
  if case["kind"] != "end":
    e = raises(ValueError, dsp.dychotomic_zero_crossing, func, max(lo, hi),
               max(lo, hi) + 1, **kw)
    del e
  ctx.nontrivial(case["kind"] != "end" and len(set(calls)) > 4)
  ctx.tag(case["kind"])


# --- Arrays of any size -------------------------------------------------------
@st.composite
def large_cases(draw):
  return {
      "what": draw(st.sampled_from(["db", "norm", "norm", "bins", "expi",
                                    "detrend"])),
      "n": draw(sizes(13, 20000)),
      "m": draw(opt(sizes(1, 60))),
      "seed": draw(seeds),
      "db": draw(db_cases()),
      "norm": draw(norm_cases()),
      "bins": draw(bin_cases()),
      "detrend": draw(detrend_cases()),
      "offset": draw(st.sampled_from([0, 0, 0, 1, -1])),
  }


def check_large(case, ctx):
  rng = np.random.default_rng(case["seed"])
  n, what = case["n"], case["what"]
  c = dict(case[what]) if what in case else {"scalar": False}
  if what == "db":
    a = 10.**rng.uniform(-12, 6, size=n)
    a[rng.random(size=n) < .01] = 0
    c.update(a=a.tolist(), phase=rng.uniform(-3, 3, size=n).tolist(),
             scalar=False)
    if c["floor"] is not None:
      c["floor"] = (10**rng.uniform(-9, 1, size=n)).tolist()
    check_db(c, ctx)
  elif what == "norm":
    x = rng.uniform(-100, 100, size=n)
    if rng.random() < .5:
      # the extremes are at one end
      i = 0 if rng.random() < .5 else -1
      x[i] = 150 * rng.choice([-1, 1])
    if c["kind"][0] == "i":
      x = np.round(x)
    shape = [n]
    if case["m"] is not None:
      shape = [case["m"], max(1, n // case["m"])]
      if rng.random() < .5:
        shape = shape[::-1]
    c.update(x=x[:int(np.prod(shape))].tolist(), shape=shape)
    if len(c["x"]) < np.prod(shape):
      ctx.reject()
    check_norm(c, ctx)
  elif what == "bins":
    c.update(b=rng.integers(0, 8192, size=n).tolist(),
             u=rng.uniform(0, 1.2, size=n).tolist(), scalar=n < 30)
    check_bin(c, ctx)
  elif what == "expi":
    c["x"] = rng.uniform(-100, 100, size=n).tolist()
    check_expi(c, ctx)
  else:
    y = rng.normal(size=n)
    c.update(y=y.tolist())
    if c["x"] is not None:
      c["x"] = rng.uniform(.01, 1, size=n).tolist()
    c["line"] = [v / n for v in c["line"]]
    check_detrend(c, ctx)
  ctx.tag(what)


SUBS = [
    Sub("large", large_cases, check_large, quick=300, shards=2),
    Sub("db", db_cases, check_db, quick=2000),
    Sub("normalize", norm_cases, check_norm, quick=2500),
    Sub("mode", mode_cases, check_mode, quick=60),
    Sub("bins", bin_cases, check_bin, quick=2000),
    Sub("expi", expi_cases, check_expi, quick=200),
    Sub("detrend", detrend_cases, check_detrend, quick=1200),
    Sub("zero", zero_cases, check_zero, quick=2000),
]
