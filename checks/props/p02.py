"""P02: analysis is equivariant to gain and to the time unit"""
import math

import numpy as np
import sounds
from core import Sub, arr, close, require, same
from gens import bools, fl, st

PROPERTY = "P02"
RULE = (
    "A case is any generated sound (modal, noisy, gated, silent), any "
    "configuration and a relation: power-of-two gain with the thresholds "
    "moved along, negation, relabelled sample rate with the settings in "
    "Hertz and seconds moved along, repetition on the same or an equal input "
    "(other memory layout, read-only, other sample type), reversal. The "
    "oracle compares tracks and parameters of the two analyses. Non-trivial: "
    "at least one mode was found.")
ASSUMPTIONS = [
    "Decays and amplitudes under gain and rate changes are compared for a "
    "closed-form regressor; with the hinge regressor, whose local optimum can "
    "change by rounding, only tracks and frequencies are",
]


@st.composite
def cases(draw):
  c = draw(sounds.configs())
  # moderate numbers of tracks
  c["max_n_sines"] = min(c["max_n_sines"], 8)
  return {
      "sound": draw(sounds.sounds(fs=(8000, 11025), dur=(.05, .25))),
      "config": c,
      "rel": draw(st.sampled_from(["gain", "gain", "rate", "rate", "neg",
                                   "repeat", "layout", "type", "reverse"])),
      "k": draw(st.one_of(st.integers(-9, 9), st.integers(-24, -10))),
      "i": draw(st.integers(0, 5)),
      "line": draw(st.integers(0, 3)) > 0,
  }


def fit(c, x, **over):
  import sample
  conf = {**c["config"], "fs": c["sound"]["fs"], **over}
  kw = sounds.params(conf)
  if c["line"]:
    kw["regressor"] = sounds.LineFit()
  return sample.SAMPLE(**kw).fit(x)


def scaled(v, r):
  return None if v is None else v * r


def same_tracks(a, b, rate=1., db=0., mag_tol=1e-6):
  a, b = a.sinusoidal.tracks_, b.sinusoidal.tracks_
  require(len(a) == len(b), "%d tracks became %d", len(b), len(a))
  for t, u in zip(a, b):
    require(t["start_frame"] == u["start_frame"], "track starting at frame %s "
            "now starts at %s", u["start_frame"], t["start_frame"])
    close(t["freq"], u["freq"] * rate, rtol=1e-7, what="track frequencies")
    close(t["mag"], u["mag"] + db, rtol=0, atol=mag_tol, what="track levels")


def slopes(m):
  """Slope and intercept of each mode, in decibels"""
  p = m.param_matrix_
  with np.errstate(all="ignore"):
    return -40 * math.log10(math.e) / p[1], 20 * np.log10(p[2])


def matched(a, b, rate=1., db=0., exact=True):
  """Compare parameters"""
  pa, pb = (arr(m.param_matrix_, ndim=2, what="parameters") for m in (a, b))
  require(pa.shape == pb.shape, "modes: %s became %s", pb.shape, pa.shape)
  close(pa[0], pb[0] * rate, rtol=1e-7, what="frequencies")
  if not exact:
    return
  ka, qa = slopes(a)
  kb, qb = slopes(b)
  # a slope matters as much as the change over a window
  scale = np.abs(kb) + b.sinusoidal.fs / b.sinusoidal.w.size
  close(ka / rate, kb, rtol=0, atol=1e-7 * scale, what="slopes in dB/s")
  close(qa - db, qb, rtol=0, atol=1e-5, what="levels in dB")


def lowest(m, x, conf):
  """The lowest spectral value (dB) which is a neighbour of one above the
  thresholds: the values are only exact above the machine epsilon"""
  t = min(conf["t"], conf["peak_threshold"])
  v = 0.
  if conf["reverse"]:
    x = np.flip(x)
  for mx, _ in m.sinusoidal.dft_frames(x):
    a = mx > t
    a[1:] |= a[:-1]
    a[:-1] |= a[1:]
    if np.any(a):
      v = min(v, np.min(mx[a]))
  return v


def check(c, ctx):
  from sample.sms import mm
  x = sounds.render(c["sound"])
  x0 = x.copy()
  conf = c["config"]
  fs = c["sound"]["fs"]
  rel = c["rel"]
  m = fit(c, x)
  require(np.array_equal(x, x0), "input modified")
  if rel == "gain":
    g = 2.**c["k"]
    if c["k"] < -9 and lowest(m, x, conf) + 20 * math.log10(g) < -310:
      ctx.reject()  # beyond the resolution of a double spectrum
    db = 20 * math.log10(g)
    n = fit(c, x * g, t=conf["t"] + db,
            peak_threshold=conf["peak_threshold"] + db)
    same_tracks(n, m, db=db)
    matched(n, m, db=db, exact=c["line"])
  elif rel == "rate":
    r = 2.**(c["k"] % 4 + 1) if c["k"] > 0 else 2.**-(c["k"] % 4 + 1)
    n = fit(c, x, fs=fs * r,
            freq_dev_offset=conf["freq_dev_offset"] * r,
            frequency_bounds=[scaled(v, r) for v in conf["frequency_bounds"]],
            min_sine_dur=conf["min_sine_dur"] / r,
            strip_t=scaled(conf["strip_t"], 1 / r))
    same_tracks(n, m, rate=r)
    matched(n, m, rate=r, exact=c["line"])
  elif rel == "neg":
    n = fit(c, -x)
    same_tracks(n, m, mag_tol=0)
    same(n.param_matrix_, m.param_matrix_, "parameters of the negated sound")
  elif rel == "repeat":
    n = fit(c, x)
    same(n.param_matrix_, m.param_matrix_, "parameters, second analysis")
    same(m.fit(x).param_matrix_, n.param_matrix_, "parameters, refit")
  elif rel == "layout":
    y = x.copy()
    if c["i"] % 3 == 0:
      y = np.repeat(x, 3)[::3]
    elif c["i"] % 3 == 1:
      y = np.asfortranarray(np.stack((x, x), axis=1))[:, 1]
    else:
      y = x[::-1].copy()[::-1]
    if c["i"] >= 3:
      y = y.view()
      y.setflags(write=False)
    same(fit(c, y).param_matrix_, m.param_matrix_,
         "parameters, other memory layout")
  elif rel == "type":
    if c["i"] % 2:
      y = x.astype(np.float32)
    else:
      y = np.round(x * 1000).astype(np.int16 if c["i"] % 3 else np.int64)
    same(fit(c, y).param_matrix_, fit(c, y.astype(float)).param_matrix_,
         f"parameters for {y.dtype} samples")
  else:
    kw = {k: v for k, v in sounds.params({**conf, "fs": fs,
                                          "save": True}).items()
          if k.startswith("sinusoidal__")}
    kw = {k[len("sinusoidal__"):]: v for k, v in kw.items()}
    a = mm.ModalModel(**{**kw, "tracker__reverse": True}).fit(x)
    b = mm.ModalModel(**{**kw, "tracker__reverse": False}).fit(np.flip(x))
    require(sounds.equal(a.intermediate.get_state(),
                         b.intermediate.get_state()),
            "spectra and peaks of the reversed analysis are not those of the "
            "reversed sound")
  ctx.tag(rel, c["sound"]["kind"])
  ctx.nontrivial(m.param_matrix_.size > 0)


SUBS = [Sub("relations", cases, check, quick=1000, thorough=20000, shards=6)]
