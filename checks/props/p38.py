"""P38: calls leave their arguments and the process as they were"""
import contextlib
import copy
import io
import logging
import multiprocessing
import os
import random
import sys
import threading
import warnings

from matplotlib import pyplot  # noqa: load it before looking at its settings  pylint: disable=W0611
import numpy as np
import sounds
from core import Sub, Violation, fail, require
from gens import bools, fl, seeds, sizes, st, weighted

PROPERTY = "P38"
RULE = (
    "A case is a public call (conversions, windows, peaks, onsets, "
    "autocorrelations, filters, spectra, losses, beat models, regressions, "
    "fits, resyntheses, trackers, random generators, optimizations, plots, "
    "notebook widgets) with generated arguments and options, a memory layout "
    "for its arrays (read-only, strided, reversed, byte-swapped, transposed) "
    "and, in part of the cases, an argument which makes it fail. The call is "
    "made twice on the same arguments, then on copies of them in the other "
    "layout and with another state of the global random generators, after "
    "the first results were overwritten. The arguments, the process "
    "(generators, floating point errors, print options, warning filters, "
    "working folder, environment, plot settings, logging, streams, figures, "
    "threads, children) and the memory which results share with arguments "
    "are compared before and after. Non-trivial: an array of two or more "
    "different values was passed.")
ASSUMPTIONS = [
    "Output arrays (out=) and writeable windows are there to be written, and "
    "are not judged here; hwr and hinge_function on integer arrays are known "
    "to write in place, and get floating point arrays",
    "Results of another memory layout may differ by rounding (vectorized and "
    "scalar code paths of numpy), and are compared to 1e-7 of the largest "
    "value; for the same layout they are bitwise equal",
    "Read-only arrays are not given to the functions based on "
    "scipy.signal.lombscargle, which does not accept them",
]


# --- State of the process -----------------------------------------------------
def process():
  """What a call should leave as it is"""
  import matplotlib
  from matplotlib import pyplot as plt
  k, keys, *rest = np.random.get_state()
  return {
      "numpy random state": (k, keys.tobytes(), *rest),
      "random state": random.getstate(),
      "floating point errors": np.geterr(),
      "floating point error call": repr(np.geterrcall()),
      "print options": repr(sorted(np.get_printoptions().items(), key=str)),
      "warning filters": [f for f in warnings.filters],
      "warning function": warnings.showwarning,
      "folder": os.getcwd(),
      "environment": dict(os.environ),
      "plot settings": {k: repr(v) for k, v in dict(
          matplotlib.rcParams).items()},
      "backend": matplotlib.get_backend(),
      "figures": plt.get_fignums(),
      "logging": (logging.root.level, list(logging.root.handlers),
                  logging.root.disabled),
      "streams": (sys.stdout, sys.stderr, sys.stdin),
      "hooks": (sys.excepthook, sys.displayhook),
      "recursion limit": sys.getrecursionlimit(),
      "threads": sorted(t.name for t in threading.enumerate()
                        if not t.daemon),
      "children": len(multiprocessing.active_children()),
      "start method": multiprocessing.get_start_method(allow_none=True),
  }


@contextlib.contextmanager
def guarded(what):
  """Check that a block leaves the process as it was"""
  a = process()
  try:
    yield
  finally:
    b = process()
    for k, v in a.items():
      require(b[k] == v, "%s changed: %s", what, k)


@contextlib.contextmanager
def quiet():
  """Record warnings, with filters which no call would set by itself"""
  with warnings.catch_warnings(record=True):
    warnings.resetwarnings()
    warnings.filterwarnings("always", "unlikely message of the check")
    yield


def global_seed(s):
  np.random.seed(s % 2**32)
  random.seed(s)


# --- Arguments ----------------------------------------------------------------
LAYOUTS = ("same", "readonly", "strided", "reversed", "swapped", "transposed",
           "noncontiguous")


def lay(a, how):
  """Copy of an array with the same values in another memory layout"""
  if how == "readonly":
    r = np.array(a, order="C")
    r.setflags(write=False)
    return r
  if how == "strided":
    big = np.full(tuple(2 * s + 1 for s in a.shape), 77).astype(a.dtype)
    v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
    v[...] = a
    return v
  if how == "reversed":
    return a[(slice(None, None, -1),) * a.ndim].copy()[
        (slice(None, None, -1),) * a.ndim]
  if how == "swapped":
    return a.astype(a.dtype.newbyteorder("S")) if a.dtype.itemsize > 1 else \
        a.copy()
  if how == "transposed":
    return np.array(a, order="F")
  if how == "noncontiguous":
    big = np.full((*a.shape, 3), 77).astype(a.dtype)
    v = big[..., 1]
    v[...] = a
    return v
  return np.array(a, order="C")


def walk(v, f):
  """Apply a function to the arrays in nested containers"""
  if isinstance(v, np.ndarray):
    return f(v)
  if isinstance(v, dict):
    return type(v)((k, walk(w, f)) for k, w in v.items())
  if isinstance(v, (list, tuple)):
    return type(v)(walk(w, f) for w in v)
  return v


def arrays(v):
  r = []

  def f(a):
    r.append(a)
    return a

  walk(v, f)
  return r


def snap(v):
  """Comparable image of nested arguments"""
  if isinstance(v, np.ndarray):
    return ("array", str(v.dtype), v.shape, v.strides, v.flags.writeable,
            v.tobytes())
  if isinstance(v, dict):
    return ("dict", [(k, snap(w)) for k, w in v.items()])
  if isinstance(v, (list, tuple)):
    return (type(v).__name__, [snap(w) for w in v])
  if isinstance(v, Live):
    return ("object", snap(v.look()))
  if isinstance(v, float):
    return ("float", v.hex())
  if isinstance(v, (int, str, bool, type(None))):
    return v
  return id(v)


class Live:
  """An object among the arguments: how to get it, and its image"""

  def __init__(self, obj, look):
    self.obj = obj
    self.look_ = look

  def look(self):
    return self.look_(self.obj)


def live(v):
  return v.obj if isinstance(v, Live) else v


# --- Results ------------------------------------------------------------------
def norm(v):
  """Results as nested containers of arrays"""
  if isinstance(v, (float, int, complex, np.generic)) and \
      not isinstance(v, (bool, np.bool_)):
    return np.asarray(v)
  if isinstance(v, dict):
    return {k: norm(w) for k, w in v.items()}
  if isinstance(v, (list, tuple)):
    return [norm(w) for w in v]
  return v


def near(a, b, tol):
  if isinstance(a, dict):
    return isinstance(b, dict) and list(a) == list(b) and all(
        near(a[k], b[k], tol) for k in a)
  if isinstance(a, list):
    return isinstance(b, list) and len(a) == len(b) and all(
        near(x, y, tol) for x, y in zip(a, b))
  if isinstance(a, np.ndarray):
    if not isinstance(b, np.ndarray) or a.shape != b.shape:
      return False
    if a.dtype.kind in "fc":
      s = np.max(np.abs(a[np.isfinite(a)]), initial=0)
      return bool(np.allclose(a, b, rtol=tol, atol=tol * s, equal_nan=True))
    return bool(np.all(a == b))
  return a == b


def image(v):
  """Bitwise image of the values of a result, whatever its layout"""
  return repr(walk(norm(v), lambda a: (a.dtype.name, a.shape, a.tobytes())))


# --- Calls --------------------------------------------------------------------
CALLS = {}


def call(name, alias=False, skip=(), tol=1e-7, weight=1):
  """Register a call: a function that returns a callable and its arguments"""

  def deco(f):
    CALLS[name] = {"make": f, "alias": alias, "skip": skip, "tol": tol,
                   "weight": weight}
    return f

  return deco


def vec(rng, n, kind=0):
  """A vector of some kind"""
  x = rng.normal(size=n)
  if kind == 1:
    return np.abs(x) + .1
  if kind == 2:
    return np.sort(rng.uniform(20, 8000, size=n))
  if kind == 3:
    return x + 1j * rng.normal(size=n)
  return x


def pick(o, *v):
  return v[o % len(v)]


for _f, _k in (("hz2bark", 2), ("bark2hz", 4), ("hz2mel", 2), ("mel2hz", 2),
               ("erb", 2), ("hz2cams", 2), ("cams2hz", 5), ("a_weighting", 2)):

  def _make(rng, n, o, f=_f, k=_k):
    from sample import psycho
    x = {2: rng.uniform(20, 16000, size=n), 4: rng.uniform(0, 24, size=n),
         5: rng.uniform(0, 40, size=n)}[k]
    kw = {}
    if "bark" in f:
      kw["mode"] = pick(o[0], "traunmuller", "wang",
                        *(["zwicker"] if f == "hz2bark" else []))
    elif "mel" in f:
      kw["mode"] = pick(o[0], "default", "fant")
    elif f == "a_weighting":
      kw["db"] = bool(o[0] % 2)
    else:
      kw["degree"] = pick(o[0], "linear", "quadratic")
    if o[1] % 3 == 0:
      x = x.reshape(1, -1)
    return getattr(psycho, f), [x], kw

  call(f"psycho.{_f}")(_make)


@call("dsp.normalize")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.normalize, [vec(rng, n, pick(o[1], 0, 1))], {
      "mode": pick(o[0], "peak", "rms")}


@call("dsp.db2a")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.db2a, [vec(rng, n) * 30], {}


@call("dsp.a2db")
def _(rng, n, o):
  from sample.utils import dsp
  x = vec(rng, n, 1)
  kw = {}
  if o[0] % 3:
    kw["floor"] = -20. if o[0] % 3 == 1 else vec(rng, n, 1)
    kw["floor_db"] = o[0] % 3 == 1
  return dsp.a2db, [x], kw


@call("dsp.complex2db")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.complex2db, [vec(rng, n, 3).reshape(pick(o[1], (1, -1), (-1,)))], \
      {"floor": -60, "floor_db": True} if o[0] % 2 else {}


@call("dsp.expi")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.expi, [vec(rng, n)], {}


@call("dsp.detrend")
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 3)
  return dsp.detrend, [vec(rng, n)], {"x": vec(rng, n, 2)} if o[0] % 2 else {}


@call("dsp.bin2f")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.bin2f, [vec(rng, n), 64], {"fs": 100.}


@call("dsp.f2bin")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.f2bin, [vec(rng, n), 64], {"fs": 100.}


@call("dsp.lombscargle_as_fft", skip=("readonly",))
def _(rng, n, o):
  from sample.utils import dsp
  n = min(max(n, 8), 60)
  t = np.sort(rng.uniform(0, 1, size=n))
  kw = {"fs": 50.}
  if o[0] % 2:
    kw["lpf"] = 20.
  if o[1] % 2:
    kw["hpf"] = 3.
  return dsp.lombscargle_as_fft, [t, vec(rng, n)], {"nfft": 32, **kw}


@call("dsp.lombscargle_autocorrelogram", skip=("readonly",))
def _(rng, n, o):
  from sample.utils import dsp
  n = min(max(n, 8), 60)
  t = np.sort(rng.uniform(0, 1, size=n))
  return dsp.lombscargle_autocorrelogram, [t, vec(rng, n)], {
      "fs": 50., **({"n": 20} if o[0] % 2 else {})}


@call("dsp.fft2autocorrelogram")
def _(rng, n, o):
  from sample.utils import dsp
  power = bool(o[1] % 2)
  a = vec(rng, max(n, 3), 1 if power else 3)
  return dsp.fft2autocorrelogram, [a], {
      "real": True, "power": power, **({"n": 2} if o[0] % 2 else {})}


@call("dsp.overlapping_windows", alias=True)
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 4)
  return dsp.overlapping_windows, [vec(rng, n), 1 + o[0] % 4], {
      "hop": pick(o[1], None, 1, 2)}


@call("dsp.strided_convolution")
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 6)
  return dsp.strided_convolution, [vec(rng, n), vec(rng, 1 + o[0] % 6)], {
      "stride": 1 + o[1] % 5}


@call("dsp.strided_convolution_complex_kernel")
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 6)
  return dsp.strided_convolution_complex_kernel, [
      vec(rng, n), vec(rng, 1 + o[0] % 6, 3)], {
          "stride": 1 + o[1] % 5}


@call("dsp.spectral_flux")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.spectral_flux, [vec(rng, max(n, 40))], {"nperseg": 32,
                                                     "noverlap": 16}


@call("dsp.spectral_flux_from_tf")
def _(rng, n, o):
  from sample.utils import dsp
  return dsp.spectral_flux_from_tf, [
      vec(rng, 3 * max(n, 3), pick(o[0], 0, 1, 3)).reshape(
          pick(o[1], (3, -1), (-1, 3)))], {}


@call("dsp.local_maxima")
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 4)
  return dsp.local_maxima, [vec(rng, n)], {
      "w": 1 + o[0] % 3,
      **({"key": vec(rng, n)} if o[2] % 2 else {})}


@call("dsp.onset_selection")
def _(rng, n, o):
  from sample.utils import dsp
  n = max(n, 16)
  x = vec(rng, n, 1)
  x[n // 2] *= 30
  return dsp.onset_selection, [x], {"w": 1 + o[0] % 3, "delta": .5}


@call("dsp.onset_detection")
def _(rng, n, o):
  from sample.utils import dsp
  x = vec(rng, 2000) * .01
  x[1000:1000 + n] += 1
  return dsp.onset_detection, [x], {"nperseg": 128, "noverlap": 64}


@call("dsp.dychotomic_zero_crossing")
def _(rng, n, o):
  from sample.utils import dsp
  z = float(rng.uniform(-1, 1))
  return (lambda lo, hi: dsp.dychotomic_zero_crossing(
      lambda x: x - z, lo, hi, steps=20)), [-1., 1.], {}


@call("sms.dft")
def _(rng, n, o):
  from sample.sms import dsp
  n = max(n, 4)
  k = pick(o[0], 64, 128, 512)
  n = min(n, k)
  w = np.hanning(n + 2)[1:-1]
  return dsp.dft, [vec(rng, n), w / np.sum(w), k], {}


@call("sms.peak_detect")
def _(rng, n, o):
  from sample.sms import dsp
  return dsp.peak_detect, [vec(rng, max(n, 3))], {"t": pick(o[0], None, 0.)}


@call("sms.peak_refine")
def _(rng, n, o):
  from sample.sms import dsp
  x = vec(rng, max(n, 3))
  a = [dsp.peak_detect(x), x]
  if o[0] % 2:
    a.append(vec(rng, x.size))
  return dsp.peak_refine, a, {}


@call("sms.peak_detect_interp")
def _(rng, n, o):
  from sample.sms import dsp
  x = vec(rng, max(n, 3))
  return dsp.peak_detect_interp, [x], {
      "t": pick(o[0], None, 0.), **({"px": vec(rng, x.size)} if o[1] % 2 else
                                    {})}


@call("sample.modal_energy")
def _(rng, n, o):
  from sample.sample import modal_energy
  return modal_energy, [vec(rng, n, 1), vec(rng, n, 1)], {}


@call("sample.additive_synth")
def _(rng, n, o):
  from sample.sample import additive_synth
  k = 1 + o[0] % 4
  kw = {"analytic": bool(o[1] % 2)}
  if o[2] % 3 == 1:
    kw["phases"] = vec(rng, k)
  elif o[2] % 3 == 2:
    kw.update(phases="random", seed=5)
  return additive_synth, [np.arange(n) / 100, vec(rng, k, 1) * 9,
                          vec(rng, k, 1), vec(rng, k, 1)], kw


@call("hinge.hinge_function")
def _(rng, n, o):
  from sample import hinge
  return hinge.hinge_function, [vec(rng, n), .2, -3., 1.], {}


@call("hinge.fit")
def _(rng, n, o):
  from sample import hinge
  n = min(max(n, 10), 60)
  t = np.arange(n).reshape(-1, 1) / n
  y = -30 * np.minimum(np.arange(n) / n, .7) + .1 * vec(rng, n)

  def f(x, y):
    m = hinge.HingeRegression().fit(x, y)
    return m.coeffs_, m.a_, m.k_, m.q_, m.predict(x)

  return f, [t, y], {}


@call("regression.fit", skip=("readonly",), tol=1e-3)
def _(rng, n, o):
  from sample.beatsdrop import regression
  cls = pick(o[0], regression.BeatRegression, regression.BeatRegression,
             regression.DualBeatRegression)
  t = np.arange(60) / 60
  df = 4 + o[1] % 4
  a0 = .6 * np.exp(-t * 2)
  z1 = a0 / 2 * np.exp(2j * np.pi * df * t)
  z = a0 + z1
  f = 400 + df * np.real(z1 / z)

  def fit(t, a, f):
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      m = cls(fs=60).fit(t=t, a=a, f=f)
    return {"params": [float(v) for v in m.params_],
            "p": m.predict(t, "am", "fm")}

  return fit, [t, 20 * np.log10(np.abs(z)), f], {}


@call("regression.sort_params", alias=True)
def _(rng, n, o):
  from sample.beatsdrop import regression
  p = vec(rng, 8, 1)
  return regression.sort_params, [p if o[0] % 2 else p.tolist()], {}


@call("beatsdrop.Beat", alias=True, tol=1e-6)
def _(rng, n, o):
  from sample import beatsdrop
  t = np.arange(max(n, 3)) / 100
  b = beatsdrop.ModalBeat(f0=30, f1=33, a0=.6, a1=.3, d0=.5, d1=.8, p0=1)
  k = pick(o[0], ["x"], ["am", "fm", "pm"], ["a0", "a1", "x", "am"],
           ["t", "a0", "f0"])
  return (lambda t: b.compute(t, k)), [t], {}


@call("beatsdrop.ExponentialDecay")
def _(rng, n, o):
  from sample import beatsdrop
  e = beatsdrop.ExponentialDecay(1.5, .3)
  return pick(o[0], e, e.dt), [np.arange(n) / 100], {}


@call("psycho.hwr")
def _(rng, n, o):
  from sample import psycho
  return psycho.hwr, [vec(rng, n)], {"th": pick(o[0], 0, .5)}


@call("psycho.GammatoneFilter")
def _(rng, n, o):
  from sample import psycho
  g = psycho.GammatoneFilter(float(rng.uniform(100, 900)), n=1 + o[0] % 5)
  f = pick(o[1], g.envelope, g.wavefun, g.ir)
  kw = {"analytic": bool(o[2] % 2)} if o[1] % 3 else {}
  return f, [np.arange(n) / 8000], kw


@call("psycho.GammatoneFilterbank")
def _(rng, n, o):
  from sample import psycho
  f = pick(o[0], lambda v: v, list)(np.array([200., 500., 900.]))

  def run(x, f):
    b = psycho.GammatoneFilterbank(freqs=f)
    if o[1] % 2:
      b = b.precompute(fs=8000, analytic=bool(o[2] % 2))
      return b.convolve(x, **({"stride": 9} if o[3] % 2 else {})), b.freqs
    return b.convolve(x, fs=8000, method=pick(o[2], None, "fft", "direct",
                                              "overlap-add"))

  return run, [vec(rng, max(n, 2)), f], {}


@call("psycho.PrecomputedIRBank")
def _(rng, n, o):
  from sample import psycho
  b = psycho.GammatoneFilterbank(freqs=[200., 500., 900.]).precompute(
      fs=8000, analytic=bool(o[2] % 2))
  look = lambda b: [b.irs, b.offsets, b.freqs]
  return (lambda b, x: b.convolve(x, **({"stride": 9} if o[3] % 2 else {}))), \
      [Live(b, look), vec(rng, max(n, 2))], {}


@call("psycho.cochleagram")
def _(rng, n, o):
  from sample import psycho
  kw = {}
  if o[0] % 3 == 0 and o[1] % 4 != 1:
    kw["stride"] = 7
  elif o[0] % 3 == 1:
    kw["method"] = pick(o[3], "fft", "direct", "overlap-add", "auto")
  if o[2] % 3 == 0:
    kw["postprocessing"] = pick(o[3], None, np.abs)
  if o[2] % 2:
    kw["freqs"] = [300., 700.]
  else:
    kw["freqs"] = np.array([300., 700.])
  return psycho.cochleagram, [vec(rng, max(n, 4))], {
      "fs": 8000, "analytic": pick(o[1], None, "input", "ir", "output"), **kw}


@call("psycho.mel_triangular_filterbank", alias=True)
def _(rng, n, o):
  from sample import psycho
  f = np.linspace(0, 4000, max(n, 9))
  kw = pick(o[0], {"n_filters": 3}, {"flim": np.array([100., 500., 900.])},
            {"flim": [100., 500., 900., 2000.]},
            {"flim": np.array([100., 900.]), "bandwidth": psycho.erb})
  return psycho.mel_triangular_filterbank, [f], kw


@call("psycho.stft2mel")
def _(rng, n, o):
  from sample import psycho
  f = np.linspace(0, 4000, 17)
  k = max(1, n // 17)
  power = pick(o[1], None, 1, 2, 3)
  x = vec(rng, 17 * k, pick(o[2], 1, 3)).reshape(17, k)
  kw = {"n_filters": 4} if o[0] % 2 else {
      "filterbank": np.abs(vec(rng, 34)).reshape(2, 17)}
  return psycho.stft2mel, [x, f], {"power": power, **kw}


@call("psycho.mel_spectrogram")
def _(rng, n, o):
  from sample import psycho
  kws = {"nperseg": 16, "fs": 8000}
  return psycho.mel_spectrogram, [vec(rng, max(n, 20))], {
      "stft_kws": kws, "n_filters": 3, "power": pick(o[1], 1, 2)}


@call("metrics.lp_distance")
def _(rng, n, o):
  from sample.evaluation import metrics
  return metrics.lp_distance, [vec(rng, n), vec(rng, n)], {
      "p": pick(o[0], 1, 2, .5)}


@call("metrics.lin_log_spectral_loss")
def _(rng, n, o):
  from sample.evaluation import metrics
  n = max(n, 64)
  kw = {"w": np.hanning(40)} if o[0] % 2 else {}
  return metrics.lin_log_spectral_loss, [vec(rng, n), vec(rng, n)], {
      "n": 64, "norm_p": pick(o[1], 1., 2.), **kw}


@call("metrics.multiscale_spectral_loss")
def _(rng, n, o):
  from sample.evaluation import metrics
  n = max(n, 64)
  stfts = [{"n": 32}, {"n": 64, "olap": .5, "w": np.hanning(50)}]
  if o[0] % 2:
    return metrics.multiscale_spectral_loss, [vec(rng, n), vec(rng, n)], {
        "stfts": stfts}

  def run(x, y, stfts):
    return metrics.MultiScaleSpectralLoss(metrics.lin_log_spectral_loss,
                                          stfts)(x, y, norm_p=2.)

  return run, [vec(rng, n), vec(rng, n), stfts], {}


@call("metrics.CochleagramLoss")
def _(rng, n, o):
  from sample.evaluation import metrics
  n = max(n, 16)
  kw = {"stride": 5} if o[1] % 2 and o[0] % 4 != 1 else {}

  def run(x, y, f):
    l = metrics.CochleagramLoss(
        fs=8000, freqs=f, analytic=pick(o[0], "ir", "input", "output", None),
        **kw)
    return l(x, y), l.cochleagram(x)

  return run, [vec(rng, n), vec(rng, n), np.array([200., 600.])], {}


@call("random.BeatsGenerator")
def _(rng, n, o):
  from sample.evaluation import random as rnd
  kw = {"snr": pick(o[0], 20., 60.), "onlybeat": bool(o[1] % 2)}

  def run(seed):
    g = rnd.BeatsGenerator(seed=seed, **kw)
    return [g.freqs(size=1 + o[2] % 3), g.decays(), g.amps(),
            g.audio(dur=.02, fs=4000)]

  return run, [int(rng.integers(1 << 30))], {}


@call("ipython.WebAudio")
def _(rng, n, o):
  from sample import ipython
  x = vec(rng, max(n, 1)) * pick(o[0], .1, 3)
  if o[1] % 3 == 0:
    x = x.reshape(1, -1)
  return (lambda x: ipython.WebAudio(x, rate=8000)._repr_html_().split(  # pylint: disable=W0212
      "id=")[0]), [x], {}


@call("ipython.LabelAndPlayForeach")
def _(rng, n, o):
  from sample import ipython
  from IPython.core import displaypub  # noqa pylint: disable=W0611
  html = {} if o[0] % 2 else {"metadata": {"a": 1}}
  audio = {"rate": 8000}
  shown = []

  def run(x, html, audio):
    from IPython import display
    old = display.display
    with contextlib.redirect_stdout(io.StringIO()):
      ipython.LabelAndPlayForeach(html_kws=html, audio_kws=audio)(
          0, "label", x)
    assert display.display is old
    return len(shown)

  return run, [vec(rng, max(n, 2)), html, audio], {}


@call("utils.default_kws")
def _(rng, n, o):
  from sample import utils
  d = {"a": 1, "b": vec(rng, n)}
  return utils.default_kws, [d], {"a": 3, "c": 4} if o[0] % 2 else {}, True


CALLS["utils.default_kws"]["alias"] = True


@call("optimize.sample_kwargs_remapper")
def _(rng, n, o):
  from sample import optimize
  kw = {"sinusoidal__log_n": 8 + o[0] % 3, "sinusoidal__wsize": .5,
        "sinusoidal__overlap": .75, "sinusoidal__wtype": "hann",
        "max_n_modes": 4}
  return (lambda kw: optimize.sample_kwargs_remapper(**kw)), [kw], {}


@call("learn.OptionalStorage", alias=True)
def _(rng, n, o):
  from sample.utils import learn

  def run(x, y):
    s = learn.OptionalStorage(save=bool(o[0] % 2))
    s.append("a", x)
    s.append("a", y)
    return s.get_state()

  return run, [vec(rng, n), {"k": vec(rng, n)}], {}


# Draws without a seed: judged for what they leave behind
@call("unseeded")
def _(rng, n, o):
  from sample.evaluation import random as rnd
  from sample.sample import additive_synth
  which = o[0] % 3
  if which == 0:
    return (lambda *a: additive_synth(*a, phases="random").shape), [
        np.arange(n) / 100, np.array([4., 9.]), np.ones(2), np.ones(2)], {}
  if which == 1:
    g = rnd.BeatsGenerator()
    return (lambda x: [np.shape(g.freqs()), np.shape(g.audio(
        dur=.02, fs=4000)[0]), np.size(x)]), [vec(rng, n)], {}
  m = _model(rng, [0] * 4).fit(_sound(rng, [0], 800))
  return (lambda t: m.predict(t, phases="random").shape), [
      np.arange(n) / 800], {}


# Models
def _look_model(m):
  from props import p37
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    return p37.Model.look(m)


def _model(rng, o, fs=8000):
  import sample
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  kw = dict(sinusoidal__n=512, sinusoidal__w=np.hanning(257)[1:-1],
            sinusoidal__tracker__h=pick(o[0], 64, 50),
            sinusoidal__tracker__fs=fs,
            sinusoidal__tracker__reverse=bool(o[1] % 2),
            sinusoidal__padded=bool(o[2] % 2),
            sinusoidal__intermediate__save=bool(o[3] % 2),
            sinusoidal__tracker__peak_threshold=-60,
            sinusoidal__t=-70)
  if o[2] % 3 == 1:
    return SAMPLEBeatsDROP(beatsdrop=sounds.StubBeat(), **kw)
  return sample.SAMPLE(**kw)


def _sound(rng, o, n=1600):
  t = np.arange(n) / 8000
  x = sum(float(rng.uniform(.1, 1)) * np.exp(-t * 2 / float(
      rng.uniform(.05, .5))) * np.cos(2 * np.pi * t * float(
          rng.uniform(200, 3500))) for _ in range(1 + o[0] % 3))
  return x + 1e-4 * rng.normal(size=n)


def _answers(m, t):
  return {"params": m.param_matrix_, "sdt": m.sdt_params_(),
          "y": m.predict(t), "yr": m.predict(t, phases="random", seed=4),
          "tracks": [{k: v for k, v in tr.items() if k != "phase"}
                     for tr in m.sinusoidal.tracks_],
          "order": m.mode_argsort_("freqs"), "energies": m.energies_}


@call("SAMPLE.fit", weight=4, tol=1e-5)
def _(rng, n, o):
  m = _model(rng, o)

  def run(m, x):
    from sklearn import base
    return _answers(base.clone(m).fit(x), np.arange(n) / 800)

  return run, [Live(m, _look_model), _sound(rng, o)], {}


@call("SAMPLE.predict", weight=2)
def _(rng, n, o):
  m = _model(rng, o).fit(_sound(rng, o))
  kw = {"n_modes": pick(o[0], None, 1, 3), "order": pick(o[1], "energies",
                                                         "freqs", "amps"),
        "analytic": bool(o[2] % 2)}
  if not hasattr(m, "beat_decisor"):
    kw["phases"] = pick(o[3], None, vec(rng, m.freqs_.size))
  return (lambda m, t, kw: m.predict(t, **kw)), [
      Live(m, _look_model), np.arange(n) / 800, kw], {}


@call("SinusoidalModel.fit", weight=2, tol=1e-5)
def _(rng, n, o):
  from sample.sms import mm, sm
  w = np.hanning(257)[1:-1]

  def run(x, w):
    m = pick(o[2], sm.SinusoidalModel, mm.ModalModel)(
        w=w, n=512, tracker__h=64, tracker__fs=8000, t=-60,
        padded=bool(o[1] % 2), intermediate__save=bool(o[3] % 2))
    m.fit(x)
    return [{k: v for k, v in t.items() if k != "phase"} for t in m.tracks_], \
        [list(map(np.array, m.time_frames(x)))]

  return run, [_sound(rng, o), w], {}


@call("SineTracker", weight=2)
def _(rng, n, o):
  from sample.sms import sm
  frames = []
  for _ in range(3 + o[0] % 5):
    k = int(rng.integers(0, 5))
    frames.append((np.sort(rng.uniform(100, 900, size=k)),
                   rng.uniform(-60, 0, size=k), rng.uniform(0, 6, size=k)))

  def run(frames):
    tr = sm.SineTracker(fs=8000, h=64, min_sine_dur=0, freq_dev_offset=60)
    tr.reset()
    for f in frames:
      tr(*f)
    return list(tr.all_tracks_)

  return run, [frames], {}


@call("BeatDecisor", weight=1, alias=True)
def _(rng, n, o):
  from sample.beatsdrop import decision
  n = max(n, 8)
  track = {"start_frame": 3, "freq": 400 + vec(rng, n),
           "mag": -20 + vec(rng, n), "phase": vec(rng, n)}
  t = np.arange(n) / 100

  def run(t, track):
    d = decision.AlmostNotABeatDecisor(intermediate__save=True)
    b = sounds.StubBeat().fit(t=t, a=track["mag"], f=track["freq"])
    r = list(d.track_params(0, t, track, b, (400., 1., .5)))
    return r

  return run, [t, track], {}


@call("SAMPLEOptimizer.loss", weight=1)
def _(rng, n, o):
  from sample import optimize
  m = _model(rng, [0, 0, 0, 0])

  def loss(x, y, stfts):
    # Phases are drawn at every call, unless seeded: judge the target only
    return float(np.sum(np.abs(x))) + np.size(y) + len(stfts)

  kw = {"stfts": [{"n": 64}]}
  opts = {"max_n_modes": 3}

  def run(m, x, kw, opts):
    s = optimize.SAMPLEOptimizer(model=m, loss_fn=loss, loss_kw=kw,
                                 sinusoidal__t=(-80, -60))
    return s.loss(x, 8000)((-70,), **opts)

  return run, [Live(m, _look_model), _sound(rng, o, 800), kw, opts], {}


@call("plots", weight=2)
def _(rng, n, o):
  from sample import plots
  m = _model(rng, [0, o[1], 0, o[3]]).fit(_sound(rng, o))

  def run(m, x, kw):
    from matplotlib import figure
    import matplotlib
    from matplotlib.backends import backend_agg
    fig = figure.Figure()
    backend_agg.FigureCanvasAgg(fig)
    which = o[0] % 4
    if which == 0:
      axs = fig.subplots(1, 2)
      plots.sine_tracking_2d(m, ax=axs, **kw)
    elif which == 1:
      plots.sine_tracking_3d(m, ax=fig.add_subplot(projection="3d"))
    elif which == 2:
      plots.tf_plot(np.abs(x[:99]).reshape(9, 11), ax=fig.subplots())
    else:
      plots.resynthesis(x, {"a": m}, axs=[fig.add_subplot(2, 2, 1 + i)
                                          for i in range(3)], wav_kws=kw,
                        tf_kws={"cmap": "gray"})
    r = []
    for ax in fig.axes:
      r += [np.array(l.get_data()) for l in ax.lines] + \
          [np.array(i.get_array()) for i in ax.images]
    return r

  return run, [Live(m, _look_model), _sound(rng, o, 1200), {"alpha": .5}], {}


# --- Sub-check: calls ---------------------------------------------------------
HEAVY = ("SAMPLE.fit", "SAMPLE.predict", "SinusoidalModel.fit", "plots",
         "regression.fit", "unseeded", "SAMPLEOptimizer.loss",
         "psycho.GammatoneFilterbank", "metrics.CochleagramLoss")


@st.composite
def call_cases(draw, heavy=False):
  names = [k for k, v in CALLS.items() if (k in HEAVY) == heavy
           for _ in range(v["weight"])]
  # Spread evenly over all calls and options
  i, *o = np.random.default_rng([draw(seeds), draw(seeds)]).integers(
      [len(names), 60, 60, 60, 60]).tolist()
  name = names[i]
  return {
      "call": name,
      "n": draw(weighted((5, st.integers(2, 40)), (2, st.integers(41, 300)),
                         (1, sizes(300, 3000)))),
      "o": o,
      "layout": draw(st.sampled_from([v for v in LAYOUTS
                                      if v not in CALLS[name]["skip"]])),
      "seed": draw(seeds),
      "globals": draw(st.lists(seeds, min_size=2, max_size=2)),
      "times": draw(st.integers(1, 2)),
  }


def check_calls(c, ctx):
  spec = CALLS[c["call"]]
  name = c["call"]
  made = [spec["make"](np.random.default_rng(c["seed"]), c["n"], c["o"])[:3]
          for _ in range(2)]
  func, args, kw = made[0]
  xs = arrays([args, kw])
  ctx.tag(name)
  ctx.tag(c["layout"])
  ctx.nontrivial(any(x.size > 1 and np.any(x != x.flat[0]) for x in xs))

  def run(f, a, k):
    return f(*map(live, a), **k)

  with quiet():
    global_seed(c["globals"][0])
    before = snap([args, kw])
    with guarded(name):
      r = run(func, args, kw)
    require(snap([args, kw]) == before, "%s changed its arguments", name)
    # Results of their own
    got = norm(r)
    first = image(got)
    keep = copy.deepcopy(got)
    # Results stay as they are when the call is used for something else
    with contextlib.suppress(Exception):
      run(func, *(walk(v, lambda a: np.flip(a).copy()) for v in (args, kw)))
    require(image(got) == first,
            "%s: another call changed the result of the first one", name)
    if not spec["alias"]:
      for y in arrays(r):
        for x in xs:
          require(not np.shares_memory(y, x),
                  "%s: the result shares memory with an argument", name)
      # Writing results is the caller's right
      for y in arrays(r):
        if y.flags.writeable and y.dtype.kind in "fciu":
          y[...] = 7
      require(snap([args, kw]) == before,
              "%s: writing the result changes the arguments", name)
    # The same again
    for _ in range(c["times"]):
      again = run(func, args, kw)
      require(image(norm(again)) == first, "%s: the same call gives another "
              "result: %r, %r", name, brief(keep), brief(again))
    require(snap([args, kw]) == before, "%s changed its arguments", name)
    # Another layout, another state of the global generators
    func, args, kw = made[1]
    args, kw = (walk(v, lambda a: lay(a, c["layout"])) for v in (args, kw))
    global_seed(c["globals"][1])
    np.random.normal(size=3)  # odd number: half of a pair is stored
    before = snap([args, kw])
    with guarded(name):
      other = run(func, args, kw)
    require(snap([args, kw]) == before, "%s changed its arguments (%s)", name,
            c["layout"])
    if c["layout"] in ("same", "readonly"):
      require(image(norm(other)) == first,
              "%s: other results from a copy of the arguments (%s): %r, %r",
              name, c["layout"], brief(keep), brief(other))
    else:
      require(near(keep, norm(other), spec["tol"]),
              "%s: other results from other layouts (%s): %r, %r", name,
              c["layout"], brief(keep), brief(other))


def brief(v):
  return repr(v)[:200]


# --- Sub-check: failing calls -------------------------------------------------
FAILS = {}


def failing(f):
  FAILS[f.__name__.lstrip("_")] = f
  return f


class Bomb:
  """A callable which fails at the n-th call"""

  def __init__(self, n, func=None):
    self.n = n
    self.func = func
    self.i = 0

  def __call__(self, *args, **kwargs):
    self.i += 1
    if self.i > self.n:
      raise sounds.TaskError("bomb")
    return None if self.func is None else self.func(*args, **kwargs)


@failing
def _fit_reduce(rng, o):
  """Fit of a model whose frequency reduction fails at some track"""
  m = _model(rng, o).set_params(freq_reduce=Bomb(o[3] % 2, np.mean))
  return m.fit, [_sound(rng, [2])], {}


@failing
def _fit_regressor(rng, o):
  """Fit of a model whose regressor fails"""
  m = _model(rng, o).set_params(
      regressor__coeffs_init=Bomb(0), regressor__bounds=Bomb(0))
  return m.fit, [_sound(rng, [2])], {}


@failing
def _fit_input(rng, o):
  """Fit of something which is not a sound"""
  m = _model(rng, o)
  return m.fit, [pick(o[3], None, "sound", np.array(["a", "b"]), {"x": 1})], {}


@failing
def _fit_progress(rng, o):
  """Fit with a progress bar which fails"""
  m = _model(rng, o)
  return m.fit, [_sound(rng, [2])], {
      "progressbar": Bomb(0), "n_jobs": None}


@failing
def _beat(rng, o):
  """Fit of a beat regression whose functions fail"""
  from sample.beatsdrop import regression
  cls = pick(o[0], regression.BeatRegression, regression.DualBeatRegression)
  kw = pick(o[1], {"params_init": Bomb(0)}, {"bounds": Bomb(0)},
            {"lpf": "a"})
  t = np.arange(60) / 60
  return (lambda t, a, f: cls(fs=60, **kw).fit(t=t, a=a, f=f)), [
      t, -30 * t, 400 + rng.normal(size=60)], {}


@failing
def _optimizer(rng, o):
  """Search of hyperparameters whose loss fails at some call"""
  from sample import optimize
  s = optimize.SAMPLEOptimizer(
      model=_model(rng, [0] * 4), remap=None,
      loss_fn=Bomb(o[0] % 3, lambda x, y: 1.), sinusoidal__t=(-80, -60))
  return s.gp_minimize, [_sound(rng, [0], 600)], {
      "fs": 8000, "n_calls": 3, "n_initial_points": 3, "random_state": 5,
      "ignore_warnings": bool(o[1] % 2)}


@failing
def _resynthesis(rng, o):
  """Plot of a resynthesis whose callback fails"""
  from matplotlib import figure
  from sample import plots
  m = _model(rng, [0] * 4).fit(_sound(rng, [1]))
  fig = figure.Figure()
  kw = pick(o[0], {"foreach": Bomb(o[1] % 2)}, {"tf_fun": Bomb(0)},
            {"tf_kws": {"nothing": 1}})
  return plots.resynthesis, [_sound(rng, [0], 800), {"a": m}], {
      "axs": [fig.add_subplot(2, 2, 1 + i) for i in range(3)], **kw}


@failing
def _comparison(rng, o):
  """Comparison of beat regressions, one of which fails"""
  from matplotlib import figure
  from sample import plots
  from sample.beatsdrop import regression
  m = _model(rng, [0] * 4).fit(_sound(rng, [1]))
  fig = figure.Figure()
  b = regression.BeatRegression(fs=60, params_init=Bomb(0))
  return plots.beatsdrop_comparison, [m, {"a": b}, _sound(rng, [0], 800)], {
      "axs": fig.subplots(3, 1, squeeze=False),
      "warnings_ignore": bool(o[1] % 2)}


@failing
def _options(rng, o):
  """Unknown options"""
  from sample import psycho
  from sample.sample import additive_synth
  from sample.utils import dsp
  x = vec(rng, 40)
  return pick(
      o[0] + 6 * o[1],
      (dsp.normalize, [x], {"mode": "loud"}),
      (psycho.hz2bark, [x], {"mode": "nobody"}),
      (psycho.erb, [x], {"degree": "cubic"}),
      (additive_synth, [x, x, x, x], {"phases": "sorted"}),
      (psycho.cochleagram, [x], {"freqs": [300.]}),
      (psycho.cochleagram, [x], {"freqs": [300.], "fs": 8000, "stride": 3,
                                 "method": "fft"}),
      (psycho.mel_triangular_filterbank, [np.abs(x)], {"flim": [1., 2.]}),
  )


@failing
def _loss(rng, o):
  """Loss of sounds of different sizes, or a loss which fails"""
  from sample.evaluation import metrics
  l = metrics.MultiScaleSpectralLoss(Bomb(o[0] % 2, lambda *_, **__: 1.),
                                     [{"n": 32}, {"n": 64}])
  return l, [vec(rng, 100), vec(rng, 100)], {
      "njobs": pick(o[1], None, None, None)}


@st.composite
def fail_cases(draw):
  i, *o = np.random.default_rng([draw(seeds), draw(seeds)]).integers(
      [len(FAILS), 60, 60, 60, 60]).tolist()
  return {
      "call": sorted(FAILS)[i],
      "o": o,
      "layout": draw(st.sampled_from(["same", "strided", "readonly"])),
      "seed": draw(seeds),
      "err": draw(st.sampled_from(["warn", "ignore", "print"])),
  }


def check_fails(c, ctx):
  func, args, kw = FAILS[c["call"]](np.random.default_rng(c["seed"]), c["o"])
  ctx.tag(c["call"])
  args, kw = (walk(v, lambda a: a if a.dtype.kind in "OU" else lay(
      a, c["layout"])) for v in (args, kw))
  ctx.nontrivial(bool(arrays(args)))
  before = snap([args, kw])
  global_seed(c["seed"])
  what = f"{c['call']} ({FAILS[c['call']].__doc__})"
  with quiet(), np.errstate(all=c["err"]), \
      contextlib.redirect_stdout(io.StringIO()):
    done = None
    with guarded(what):
      try:
        done = [func(*args, **kw)]
      except Exception:  # pylint: disable=W0703
        pass
  if done is not None:
    ctx.tag("passed")
  else:
    ctx.tag("failed")
  require(snap([args, kw]) == before, "%s changed its arguments", what)


SUBS = [
    Sub("calls", call_cases, check_calls, quick=4000, shards=4),
    Sub("models", lambda: call_cases(heavy=True), check_calls, quick=420,
        shards=4),
    Sub("fails", fail_cases, check_fails, quick=240, shards=2),
]
