"""P36: modes are the estimates of the reported tracks"""
import math

import numpy as np
import sounds
from core import Sub, arr, close, fail, require
from gens import bools, fl, opt, seeds, st, weighted
from sklearn import base, linear_model

PROPERTY = "P36"
RULE = (
    "A case is any sound (modal, noise, silence, or with up to four dropouts "
    "and sudden onsets), at one of three sample rates, an analysis "
    "configuration, a regressor (closed-form line, scikit-learn regression "
    "named by its attributes, hinge, or one which gives invalid values for "
    "some tracks) and a frequency reduction. The oracle applies the regressor "
    "to the level of each reported track over the times of its frames, and "
    "compares the modes one by one, in order. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: two or more modes, "
    "or a track with a gap.")
ASSUMPTIONS = [
    "Invalid modes (not finite) are dropped, as documented",
]

RATES = (8000, 11025, 1000)


class Odd(base.BaseEstimator):
  """A regressor whose results are invalid, depending on the data"""

  def __init__(self, mod=3):
    self.mod = mod

  def fit(self, x, y):
    x = np.asarray(x).reshape(-1)
    i = (x.size + int(np.round(x[0] * 1e4))) % self.mod
    self.k_ = [-10., 0., math.nan, -math.inf, -1e-3][i % 5]
    self.q_ = [-20., 1e5, math.inf][x.size % 3]
    return self


def first(f):
  return f[0]


def spread(f):
  return np.median(f) + np.ptp(f)


REDUCE = {"mean": np.mean, "median": np.median, "max": np.max, "first": first,
          "spread": spread, "nan": lambda f: math.nan if f.size % 2 else f[-1]}
REGRESSORS = {
    "line": (sounds.LineFit, "k_", "q_"),
    "linear": (linear_model.LinearRegression, "coef_", "intercept_"),
    "ridge": (lambda: linear_model.Ridge(alpha=1e-3), "coef_", "intercept_"),
    "swapped": (sounds.LineFit, "q_", "k_"),
    "odd": (Odd, "k_", "q_"),
    "hinge": (None, None, None),
}


@st.composite
def cases(draw):
  fs = draw(st.sampled_from(RATES))
  s = draw(sounds.sounds(fs=(8000,), dur=(.08, .35)))
  return {
      "sound": s,
      "fs": fs,
      "gates": draw(st.lists(st.tuples(fl(0, 1), fl(.005, .2)).map(list),
                             max_size=4)),
      "onset": draw(st.one_of(st.just(0.), fl(0, .5))),
      "config": draw(sounds.configs(save=st.just(False))),
      "regressor": draw(weighted((1, st.just("hinge")),
                                 (5, st.sampled_from(sorted(REGRESSORS))))),
      "reduce": draw(st.sampled_from(sorted(REDUCE))),
      "gain": draw(st.sampled_from([1., .01, 30.])),
      "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i2"])),
      "again": draw(bools),
  }


def check(c, ctx):
  import sample
  x = sounds.render(c["sound"])
  n = x.size
  for at, dur in c["gates"]:
    x[int(at * n):int((at + dur) * n)] = 0
  x[:int(c["onset"] * n)] = 0
  x *= c["gain"]
  if c["dtype"] == "i2":
    x = np.clip(np.round(x * 1000), -32768, 32767)
  x = x.astype(c["dtype"])
  fs = c["fs"]
  conf = {k: v for k, v in c["config"].items() if k != "freq_reduce"}
  r = fs / 8000  # The configuration is for 8000 Hz
  conf["min_sine_dur"] /= r
  if conf["strip_t"] is not None:
    conf["strip_t"] /= r
  kw = sounds.params(conf)
  kw["sinusoidal__tracker__fs"] = fs
  cls, k_name, q_name = REGRESSORS[c["regressor"]]
  if cls is None:
    cls, k_name, q_name = type(sample.SAMPLE().regressor), "k_", "q_"
  else:
    kw["regressor"] = cls()
    kw["regressor_k"], kw["regressor_q"] = k_name, q_name
  reduce_ = REDUCE[c["reduce"]]
  m = sample.SAMPLE(freq_reduce=reduce_, **kw).fit(x)
  if c["again"]:
    m.fit(x[::-1].copy()).fit(x)
  p = arr(m.param_matrix_, ndim=2, what="parameters")
  require(p.shape[0] == 3, "parameters of shape %s", p.shape)
  require(np.all(np.isfinite(p)), "invalid modes: %s", p)
  w, h = conf["w"][1], conf["h"]
  want, gaps = [], 0
  for t in m.sinusoidal.tracks_:
    mag, freq = np.asarray(t["mag"]), np.asarray(t["freq"])
    require(mag.shape == freq.shape and mag.ndim == 1 and mag.size > 0,
            "track of shapes %s, %s", mag.shape, freq.shape)
    frames = [i for i in range(mag.size) if not math.isnan(mag[i])]
    gaps += len(frames) < mag.size
    # Time of the centre of each frame
    tm = np.array([(t["start_frame"] + i) * h / fs +
                   (0 if conf["padded"] else w / fs / 2) for i in frames])
    if conf["reverse"]:
      tm = n / fs - tm
    lev = np.array([mag[i] for i in frames]) + 20 * math.log10(2)
    f = np.array([freq[i] for i in frames])
    require(np.all(np.isfinite(f)), "frequencies %s for levels %s", f, lev)
    g = cls()
    try:
      with np.errstate(all="ignore"):
        g.fit(tm.reshape(-1, 1), lev)
    except ValueError as e:
      # e.g. a single frame
      fail("the analysis fits a track that its regressor does not: %s" % e)
    with np.errstate(all="ignore"):
      k = float(np.squeeze(getattr(g, k_name)))
      q = float(np.squeeze(getattr(g, q_name)))
      v = [float(reduce_(f)), float(np.divide(-40 * math.log10(math.e), k)),
           float(np.power(10., q / 20))]
    if np.isfinite(v).all():
      want.append(v)
  require(p.shape[1] == len(want), "%d modes for %d tracks, %d valid: %s, %s",
          p.shape[1], len(m.sinusoidal.tracks_), len(want), p.T.tolist(), want)
  rtol = 1e-4 if c["regressor"] == "hinge" else 1e-7
  for i, v in enumerate(want):
    for u, e, what in zip(p[:, i], v, ("frequency", "decay", "amplitude")):
      require(math.isclose(u, e, rel_tol=rtol, abs_tol=1e-300),
              "%s of mode %d of %d is %s, expected %s", what, i, len(want), u, e)
  ctx.tag(c["regressor"], *(["gap"] if gaps else []),
          *(["invalid"] if len(want) < len(m.sinusoidal.tracks_) else []))
  ctx.nontrivial(len(want) > 1 or gaps and want)


@st.composite
def large_cases(draw):
  """Long sounds, many partials"""
  c = draw(cases())
  c["sound"] = draw(sounds.sounds(fs=(8000,), max_partials=40, dur=(.3, 3)))
  c["config"].update(max_n_sines=100)
  if c["regressor"] == "hinge":
    c["regressor"] = "line"
  return c


SUBS = [Sub("large", large_cases, check, quick=80, shards=2),
        Sub("tracks", cases, check, quick=1600, shards=4)]
