"""P24: evaluation losses are proper distances"""
import math
import multiprocessing as mp
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted
from props import p22

PROPERTY = "P24"
RULE = (
    "A case is a pair (or triple) of arrays or signals of equal length and "
    "the settings of a loss. Oracles: the loss formula on independently "
    "computed spectra, and the axioms of distances. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: the "
    "signals differ.")
ASSUMPTIONS = [
    "Signals are at least as long as the longest window",
    "The triangle inequality is only required for exponents of one or more",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def metrics():
  from sample.evaluation import metrics as m
  return m


def ref_lp(x, y, p):
  d = [abs(complex(a) - complex(b)) for a, b in zip(np.ravel(x), np.ravel(y))]
  if p == 1:
    return math.fsum(d)
  return math.fsum(v**p for v in d)**(1 / p)


# --- Distance -----------------------------------------------------------------
DT = ["f8", "f8", "f4", "i8", "i2", "u1", "c16"]


@st.composite
def lp_cases(draw):
  return {
      "shape": draw(st.sampled_from([[1], [5], [30], [3, 4], [0]])),
      "seed": draw(seeds),
      "dt": [draw(st.sampled_from(DT)) for _ in range(3)],
      "scale": draw(st.sampled_from([1e-6, 1., 100., 1e5])),
      "p": draw(weighted((3, st.sampled_from(["default", 1, 2, 1., .5, 3])),
                         (2, fl(.3, 6)))),
      "swap": draw(bools),
      "list": draw(st.sampled_from([False, False, True])),
      "equal": draw(st.sampled_from([False, False, False, True])),
  }


def make(rng, shape, dt, scale):
  a = rng.normal(size=shape) * scale
  if dt == "c16":
    return a + 1j * rng.normal(size=shape) * scale
  if dt == "u1":
    return np.clip(np.abs(a), 0, 255).astype(dt)
  if dt == "i2":
    return np.clip(a, -32768, 32767).astype(dt)
  return a.astype(dt)


def check_lp(case, ctx):
  m = metrics()
  rng = np.random.default_rng(case["seed"])
  shape = tuple(case["shape"])
  x, y, z = (make(rng, shape, d, case["scale"]) for d in case["dt"])
  if case["equal"]:
    y = x.copy()
  p = case["p"]
  kw = {} if p == "default" else {"p": p}
  p = 1 if p == "default" else p
  keep = [a.copy() for a in (x, y, z)]
  conv = (lambda a: a.tolist()) if case["list"] else (lambda a: a)

  def dist(a, b):
    d = m.lp_distance(conv(a), conv(b), **kw)
    require(np.ndim(d) == 0 and np.isrealobj(d), "the distance is %r", d)
    return float(d)

  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = dist(x, y)
    exp = ref_lp(x, y, p)
    tol = 1e-5 if "f4" in case["dt"][:2] else 1e-9
    sc = ref_lp(x, np.zeros(shape), p) + ref_lp(y, np.zeros(shape), p)
    near(d, exp, "distance", rtol=tol, atol=tol * sc if tol > 1e-6 else 0)
    require(d >= 0, "negative distance %r", d)
    require((d == 0) == bool(np.all(x == y)), "distance %r for %s arrays", d,
            "equal" if np.all(x == y) else "different")
    near(dist(y, x), d, "distance the other way round", rtol=1e-12)
    if p >= 1:
      e = dist(x, z) + dist(z, y)
      require(d <= e * (1 + 1e-6) + tol * sc,
              "triangle inequality: %r > %r", d, e)
  for a, b in zip((x, y, z), keep):
    same(a, b, "array after the call")
  ctx.nontrivial(d > 0)
  ctx.tag(*{c for c in case["dt"][:2]})


# --- Spectral loss ------------------------------------------------------------
@st.composite
def stfts(draw):
  n = draw(st.sampled_from([16, 32, 50, 64, 128]))
  d = {"n": n}
  how = draw(st.sampled_from([None, None, "w", "wsize", "wtype", "both"]))
  if how == "w":
    d["w"] = [draw(st.sampled_from(["hann", "blackman", "boxcar"])),
              draw(st.integers(8, n))]
  if how in ("wsize", "both"):
    d["wsize"] = draw(st.integers(8, n))
  if how in ("wtype", "both"):
    d["wtype"] = draw(st.sampled_from(["hann", "blackman", "boxcar"]))
  for k, s in (("olap", st.sampled_from([0., .5, .25, .9])),
               ("alpha", st.sampled_from([0., .1, 1.])),
               ("norm_p", st.sampled_from([1., 2., 1, .5])),
               ("floor_db", st.sampled_from([-60, -20, -120, 0., 6.])),
               ("fs", st.sampled_from([8000, 44100])),
               ("padded", bools), ("boundary", st.sampled_from(
                   [None, "zeros", "even"]))):
    if draw(st.integers(0, 2)) == 0:
      d[k] = draw(s)
  return d


@st.composite
def pairs(draw):
  return {
      "size": draw(st.integers(128, 400)),
      "seed": draw(seeds),
      "kind": draw(st.sampled_from(["noise", "noise", "close", "equal",
                                    "silent", "int", "opposite", "decay"])),
      "gain": draw(st.sampled_from([1., 1e-3, 30.])),
  }


def render(d):
  rng = np.random.default_rng(d["seed"])
  x = rng.normal(size=d["size"])
  y = rng.normal(size=d["size"])
  k = d["kind"]
  if k == "close":
    y = x + 1e-6 * y
  elif k == "equal":
    y = x.copy()
  elif k == "silent":
    x = np.zeros_like(y)
  elif k == "opposite":
    y = -x
  elif k == "decay":
    e = np.exp(-np.arange(x.size) / 20)
    x, y = x * e, y * e
  x, y = x * d["gain"], y * d["gain"]
  if k == "int":
    x, y = (np.round(100 * v).astype(np.int16) for v in (x, y))
  return x, y


def kwargs(d):
  d = dict(d)
  if "w" in d:
    from scipy import signal
    d["w"] = signal.get_window(*d["w"])
  return d


def ref_loss(x, y, n=2048, w=None, wsize=None, wtype="hamming", olap=.75,
             alpha=None, norm_p=1., floor_db=-60, fs=1., padded=True,
             boundary="zeros"):
  """Transform by explicit slicing, then the formula"""
  from scipy import signal
  if w is None:
    w = signal.get_window(wtype, n if wsize is None else wsize)
  k = w.size
  hop = k - int(olap * k)
  if alpha is None:
    alpha = 1 / max(1, -floor_db)
  mags = []
  for v in (x, y):
    v = np.asarray(v, dtype=float)
    if boundary == "zeros":
      v = np.concatenate([np.zeros(k // 2), v, np.zeros(k // 2)])
    elif boundary == "even":
      h = k // 2
      v = np.concatenate([v[1:h + 1][::-1], v, v[-h - 1:-1][::-1]])
    if padded:
      v = np.concatenate([v, np.zeros((-(v.size - k) % hop) % k)])
    fr = [v[i:i + k] * w for i in range(0, v.size - k + 1, hop)]
    mags.append(np.abs(np.fft.rfft(np.array(fr), n=n)) / np.sum(w))
  a, b = mags
  lin = np.sum(np.abs(a - b)**norm_p)**(1 / norm_p)
  fl = 10**(floor_db / 20)
  la, lb = (20 * np.log10(np.maximum(m, fl)) for m in mags)
  log = np.sum(np.abs(la - lb)**norm_p)**(1 / norm_p)
  return float(lin + alpha * log)


def loss_cases():
  return st.fixed_dictionaries({"pair": pairs(), "stft": stfts()})


def check_loss(case, ctx):
  m = metrics()
  x, y = render(case["pair"])
  keep = x.copy(), y.copy()
  kw = kwargs(case["stft"])
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = m.lin_log_spectral_loss(x, y, **kw)
    back = m.lin_log_spectral_loss(y, x, **kw)
    zero = m.lin_log_spectral_loss(x, x.copy(), **kw)
  require(np.ndim(d) == 0 and np.isfinite(d) and d >= 0, "the loss is %r", d)
  require(zero == 0, "loss %r of a signal from itself", zero)
  near(back, d, "loss the other way round", rtol=1e-9)
  exp = ref_loss(x, y, **kw)
  k = case["pair"]["kind"]
  # scipy computes integer signals in single precision
  tol = 1e-4 if k == "int" else 1e-7
  # Small differences of large values
  p = kw.get("norm_p", 1.)
  near(d, exp, "loss", rtol=tol, atol=1e-9 if p >= 1 else 1e-7)
  if k == "equal" or k == "opposite":
    require(d <= 1e-6 * case["pair"]["gain"] + 1e-6,
            "loss %r for equal magnitudes", d)
  same(x, keep[0], "first signal")
  same(y, keep[1], "second signal")
  ctx.nontrivial(k not in ("equal", "opposite"))
  ctx.tag(k)


# --- Multi-scale loss ---------------------------------------------------------
def ms_cases():
  return st.fixed_dictionaries({
      "pair": pairs(),
      "stfts": st.lists(stfts(), min_size=0, max_size=4),
      "entry": st.sampled_from(["class", "function", "reuse"]),
      "jobs": st.sampled_from([None, None, None, None, None, "pool", 1, 3]),
      "loss": st.sampled_from(["linlog", "linlog", "custom"]),
      "common": st.sampled_from([{}, {"norm_p": 2.}, {"floor_db": -40}]),
      "generator": bools,
  })


def custom(x, y, n=1, extra=0., w=None, scale=1., **kw):
  """Asymmetric, so that the order of the signals is visible"""
  return float(np.sum(2 * x - y)) * n + extra * scale + len(kw)


def check_ms(case, ctx):
  m = metrics()
  x, y = render(case["pair"])
  keep = x.copy(), y.copy()
  kws = [kwargs(d) for d in case["stfts"]]
  common = dict(case["common"])
  if case["loss"] == "custom":
    common["scale"] = 2.
    func = custom
  else:
    func = m.lin_log_spectral_loss
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    # Options of the call override those of each scale
    exp = sum(float(func(x, y, **{**k, **common})) for k in kws)
    arg = (k for k in kws) if case["generator"] else kws
    extra = {}
    pool = None
    if case["jobs"] == "pool":
      pool = extra["pool"] = mp.Pool(2)
    elif case["jobs"] is not None:
      extra["njobs"] = case["jobs"]
    try:
      if case["entry"] == "function":
        lk = {} if case["loss"] == "linlog" else {"spectral_loss": func}
        got = m.multiscale_spectral_loss(x, y, stfts=arg, **lk, **extra,
                                         **common)
      else:
        loss = m.MultiScaleSpectralLoss(spectral_loss=func, stfts=arg)
        if case["entry"] == "reuse":
          # The same object, also with other contents of the same arrays
          loss(y, x, **common)
          for v in (x, y):
            v[:] = v[::-1].copy()
          loss(x, y, **common)
          for v, k in zip((x, y), keep):
            v[:] = k
        got = loss(x, y, **extra, **common)
      if pool is not None:
        # The caller's pool is still usable
        require(pool.apply(abs, (-1,)) == 1, "the given pool was closed")
    finally:
      if pool is not None:
        pool.terminate()
        pool.join()
  near(got, exp, "multi-scale loss", rtol=1e-12, atol=1e-12)
  same(x, keep[0], "first signal")
  same(y, keep[1], "second signal")
  ctx.nontrivial(len(kws) > 1 and exp != 0)
  ctx.tag(case["entry"], "jobs" if case["jobs"] else "serial")


def default_cases():
  return st.fixed_dictionaries({
      "size": st.integers(2048, 3000),
      "seed": seeds,
      "equal": st.sampled_from([False, False, True]),
  })


def check_default(case, ctx):
  """The default scales"""
  m = metrics()
  rng = np.random.default_rng(case["seed"])
  x, y = rng.normal(size=(2, case["size"]))
  if case["equal"]:
    y = x.copy()
  exp = sum(ref_loss(x, y, n=2**i) for i in range(6, 12))
  near(m.multiscale_spectral_loss(x, y), exp, "default multi-scale loss",
       rtol=1e-7)
  near(m.lin_log_spectral_loss(x, y), ref_loss(x, y), "default loss",
       rtol=1e-7)
  ctx.nontrivial(not case["equal"])


# --- Cochleagram loss ---------------------------------------------------------
@st.composite
def coch_cases(draw):
  n = draw(st.integers(1, 3))
  return {
      "pair": dict(draw(pairs()), size=draw(st.integers(2, 200))),
      "freqs": draw(st.lists(logfl(60, 3500), min_size=n, max_size=n)),
      "order": draw(st.integers(2, 4)),
      "normalize": draw(bools),
      "fs": draw(st.sampled_from([8000, 11025.])),
      "analytic": draw(st.sampled_from(["default", "ir", None, "input",
                                        "output"])),
      "method": draw(st.sampled_from([None, "fft", "direct", "auto"])),
      "stride": draw(opt(st.integers(1, 40))),
      "post": draw(st.sampled_from(["default", "default", None, "square"])),
      "p": draw(st.sampled_from(["default", 1, 2., .5])),
  }


def check_coch(case, ctx):
  m = metrics()
  from sample import psycho
  x, y = render(case["pair"])
  if case["pair"]["kind"] == "int":
    x, y = x.astype(float), y.astype(float)
  keep = x.copy(), y.copy()
  kw = {"freqs": case["freqs"], "n": case["order"],
        "normalize": case["normalize"], "fs": case["fs"]}
  an = case["analytic"]
  if an != "default":
    kw["analytic"] = an
  else:
    an = "ir"
  stride = case["stride"]
  if an == "input":
    stride = None
  if stride is not None:
    kw["stride"] = stride
  elif case["method"] is not None:
    kw["method"] = case["method"]
  post = case["post"]
  if post != "default":
    kw["postprocessing"] = {None: None, "square": np.square}[post]
  p = 1 if case["p"] == "default" else case["p"]
  if case["p"] != "default":
    kw["p"] = p
  bank = psycho.GammatoneFilterbank(freqs=case["freqs"], n=case["order"],
                                    normalize=case["normalize"])
  hs, delays = p22.responses(bank, case["fs"], an == "ir", ctx)

  def coch(v):
    if an == "input":
      v = p22.ref_hilbert(v)
    out = p22.ref_bank(v, hs, delays)
    if stride is not None:
      out = out[:, ::stride]
    if an == "output":
      out = p22.ref_hilbert(out)
    if post == "square":
      return out**2
    if post is None:
      return out
    return np.maximum(out, 0) if an is None else np.abs(out)

  loss = m.CochleagramLoss(**kw)
  cx, cy = coch(x), coch(y)
  sc = max(np.max(np.abs(cx)), np.max(np.abs(cy))) + 1e-300
  gx = arr(loss.cochleagram(x), shape=cx.shape, what="cochleagram")
  near(gx, cx, "cochleagram", rtol=0, atol=1e-9 * sc)
  d = loss(x, y)
  require(np.ndim(d) == 0 and np.isrealobj(d) and np.isfinite(d) and d >= 0,
          "the loss is %r", d)
  exp = ref_lp(cx, cy, p)
  # Rounding of each element, accumulated
  atol = ref_lp(np.full(cx.size, 1e-10 * sc), np.zeros(cx.size), p)
  near(float(d), exp, "loss", rtol=1e-6, atol=atol)
  near(float(loss(y, x)), float(d), "loss the other way round", rtol=1e-9)
  require(loss(x, x.copy()) == 0, "loss of a signal from itself")
  near(float(loss.lp_distance(x, y)), ref_lp(x, y, p),
       "distance with the exponent of the loss", rtol=1e-9)
  same(x, keep[0], "first signal")
  same(y, keep[1], "second signal")
  # The same object, with other contents of the same arrays
  x[:] = keep[1]
  near(float(loss(x, y)), 0, "loss of a signal from itself, written over "
       "another one", rtol=0, atol=atol)
  y[:] = keep[0]
  near(float(loss(x, y)), float(d), "loss of the signals, exchanged",
       rtol=1e-9)
  ctx.nontrivial(exp > atol)
  ctx.tag("analytic-" + str(an), "post-" + str(post))


# --- Real sizes ---------------------------------------------------------------
def large_lp():
  return st.builds(
      lambda c, n, m: {**c, "shape": [n] if m is None else [m, max(1, n // m)],
                       "scale": min(c["scale"], 100.)}, lp_cases(),
      sizes(31, 20000), opt(sizes(1, 200)))


@st.composite
def large_loss(draw):
  c = draw(loss_cases())
  n = draw(st.sampled_from([256, 512, 1000, 1024, 2048, 4096]))
  c["pair"]["size"] = draw(sizes(n, 60000))
  s = c["stft"]
  s["n"] = n
  for k in ("w", "wsize"):
    if k in s:
      w = draw(st.integers(n // 4, n))
      s[k] = [s[k][0], w] if k == "w" else w
  if s.get("olap") == .9:
    s["olap"] = .75
  return c


def large_coch():
  return st.builds(
      lambda c, n: {**c, "pair": {**c["pair"], "size": n}}, coch_cases(),
      sizes(201, 20000))


SUBS = [
    Sub("large_lp", large_lp, check_lp, quick=200),
    Sub("large_spectral", large_loss, check_loss, quick=200),
    Sub("large_cochleagram", large_coch, check_coch, quick=150),
    Sub("lp", lp_cases, check_lp, quick=3000, shards=1),
    Sub("spectral", loss_cases, check_loss, quick=2000, shards=2),
    Sub("multiscale", ms_cases, check_ms, quick=600, shards=3),
    Sub("default", default_cases, check_default, quick=60),
    Sub("cochleagram", coch_cases, check_coch, quick=1200, shards=2),
]
