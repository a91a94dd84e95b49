"""Sounds, model configurations and test estimators shared by the checks of the
whole pipeline"""
import math
import os
import time

import numpy as np
from gens import bools, fl, logfl, opt, seeds, st, weighted
from sklearn import base


# --- Sounds -------------------------------------------------------------------
@st.composite
def sounds(draw, fs=(8000,), max_partials=4, dur=(.08, .3), kinds=None):
  """A short sound: partials plus noise, or arbitrary noise, or silence"""
  kind = draw(st.sampled_from(kinds or ["modal", "modal", "modal", "noise",
                                        "silence", "gated"]))
  sr = draw(st.sampled_from(fs))
  return {
      "kind": kind,
      "fs": sr,
      "dur": draw(fl(*dur)),
      "partials": draw(st.lists(
          st.tuples(fl(.02, .45), logfl(.02, 2), logfl(.01, 1),
                    fl(0, 6.28)).map(list), min_size=1, max_size=max_partials)),
      "noise": draw(st.sampled_from([0, 1e-5, 1e-3, 1e-2])),
      "seed": draw(seeds),
  }


def render(s):
  fs = s["fs"]
  n = int(s["dur"] * fs)
  rng = np.random.default_rng(s["seed"])
  t = np.arange(n) / fs
  x = np.zeros(n)
  if s["kind"] == "silence":
    return x
  if s["kind"] == "noise":
    return rng.normal(size=n) * .3
  for f, d, a, p in s["partials"]:
    x += a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * fs * t + p)
  x += s["noise"] * rng.normal(size=n)
  if s["kind"] == "gated":
    k = max(1, n // 5)
    x[2 * k:3 * k] = 0
  return x


# --- Configurations of SAMPLE -------------------------------------------------
WINDOWS = ("hamming", "blackman", "hann", "boxcar")


def window(w):
  """Window from a [name, size] pair"""
  from scipy import signal
  if w[0] == "default":
    return np.hamming(w[1])
  return signal.get_window(w[0], w[1])


@st.composite
def configs(draw, save=bools):
  """A JSON-able configuration, see `params`"""
  c = {
      "n": draw(st.sampled_from([256, 400, 512, 1024])),
      "w": [draw(st.sampled_from(WINDOWS)),
            draw(st.sampled_from([64, 101, 128, 200, 255, 256]))],
      "t": draw(st.sampled_from([-90, -60, -120, -40])),
      "h": draw(st.sampled_from([16, 32, 50, 64, 100])),
      "max_n_sines": draw(st.sampled_from([1, 3, 20, 100])),
      "min_sine_dur": draw(st.sampled_from([0, .01, .02, .05])),
      "freq_dev_offset": draw(st.sampled_from([20, 50, 5])),
      "freq_dev_slope": draw(st.sampled_from([.01, .1, 0])),
      "reverse": draw(bools),
      "frequency_bounds": draw(st.sampled_from(
          [[20, 16000], [None, None], [500, 3000], [None, 2000]])),
      "peak_threshold": draw(st.sampled_from([-90, -60, -120])),
      "merge_strategy": draw(st.sampled_from(["average", "single"])),
      "strip_t": draw(st.sampled_from([None, None, .1, .02])),
      "padded": draw(bools),
      "save": draw(save),
      "freq_reduce": draw(st.sampled_from(["mean", "median"])),
      "max_n_modes": draw(st.sampled_from([None, None, 2, 5])),
  }
  c["w"][1] = min(c["w"][1], c["n"])
  return c


def value(k, v):
  """Parameter value from its JSON form"""
  if k == "w":
    return window(v)
  if k == "freq_reduce":
    return {"mean": np.mean, "median": np.median}[v]
  if k == "frequency_bounds":
    return tuple(v)
  return v


PATHS = {
    "n": "sinusoidal__n",
    "w": "sinusoidal__w",
    "t": "sinusoidal__t",
    "padded": "sinusoidal__padded",
    "save": "sinusoidal__intermediate__save",
    "freq_reduce": "freq_reduce",
    "max_n_modes": "max_n_modes",
    "dsave": "beat_decisor__intermediate__save",
    "method": "regressor__method",
}


def path(k):
  return PATHS.get(k, f"sinusoidal__tracker__{k}")


def params(c):
  """Keyword arguments for SAMPLE from a configuration"""
  return {path(k): value(k, v) for k, v in c.items()}


# --- Estimators for tests -----------------------------------------------------
class StubBeat(base.BaseEstimator):
  """A beat regression that only computes a summary of the data"""

  def __init__(self, fs=100, decay=1.):
    self.fs = fs
    self.decay = decay

  def fit(self, t, a, f, **kwargs):
    f = f[np.isfinite(f)]
    m = float(np.mean(f))
    self.params_ = (.5, .25, m + float(np.std(f)), m, self.decay,
                    self.decay / 2, 0., float(np.size(t)) / self.fs)
    return self


class LineFit(base.BaseEstimator):
  """Closed-form regressor with the attributes of the hinge regressor"""

  def fit(self, x, y):
    x = np.asarray(x).reshape(-1)
    xm, ym = np.mean(x), np.mean(y)
    self.k_ = float(np.sum((x - xm) * (y - ym)) / np.sum((x - xm)**2))
    self.q_ = float(ym - self.k_ * xm)
    return self


class Reduce:
  """Frequency reduction that takes a while, depending on the data, or fails"""

  def __init__(self, func=np.mean, delay=0., salt=0, bad=None):
    self.func = func
    self.delay = delay
    self.salt = salt
    self.bad = bad

  def __call__(self, f):
    r = float(self.func(f))
    if self.delay:
      u = math.modf(abs(math.sin(r * 12.9898 + self.salt)) * 43758.5453)[0]
      time.sleep(self.delay * u)
    if self.bad is not None and self.bad[0] <= r < self.bad[1]:
      raise TaskError(f"{r}")
    return r


class TaskError(Exception):
  """Injected failure"""


# --- Comparing states ---------------------------------------------------------
def equal(a, b):
  """Deep equality of nested containers of arrays"""
  if isinstance(a, dict) and isinstance(b, dict):
    return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(map(equal, a, b))
  if a is None or b is None:
    return a is b
  try:
    x, y = np.asarray(a), np.asarray(b)
  except Exception:  # pylint: disable=W0703
    return a == b
  if x.dtype.kind in "fc" and y.dtype.kind in "fc":
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
  return x.shape == y.shape and bool(np.all(x == y))
