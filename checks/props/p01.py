"""P01: analysis recovers the modes of a modal sound"""
import math

import numpy as np
import sounds
from core import Sub, arr, close, fail, require
from gens import bools, fl, logfl, opt, st

PROPERTY = "P01"
RULE = (
    "A case is a sum of 1-4 decaying sinusoids, placed at least three main "
    "lobes apart, with decays of 3 to 14 windows and levels within 10 dB, at "
    "any of six sample rates, and an analysis (window type, odd or even size, "
    "FFT size, hop, padded or not, forward or reversed, merge strategy, "
    "strip time) whose threshold lies above the sidelobes of the window. "
    "Oracles: the true frequencies, decays and amplitudes, and the line "
    "fitted to the exact level of each partial in each frame, computed in the "
    "time domain. Non-trivial: 2 or more partials, or a padded or reversed "
    "analysis.")
ASSUMPTIONS = [
    "Sounds are noiseless and end below the threshold; tolerances were "
    "calibrated on the unchanged tree (two to four times the largest error seen)",
]

# main lobe width in bins, usable dynamic range in dB
WINDOWS = {
    "blackman": (6, 45),
    "hann": (4, 24),
    "hamming": (4, 33),
    "blackmanharris": (8, 60),
    "nuttall": (8, 60),
}
RATES = (8000, 11025, 16000, 22050, 44100, 48000, 96000)


@st.composite
def cases(draw):
  wt = draw(st.sampled_from(sorted(WINDOWS)))
  ws = draw(st.integers(120, 700))
  k = draw(st.integers(1, 4))
  return {
      "fs": draw(st.sampled_from(RATES)),
      "wt": wt,
      "ws": ws,
      "zp": draw(st.sampled_from([1, 1, 1.5, 2, 2.77, 4])),
      "pow2": draw(bools),
      "hop": draw(fl(.07, .28)),
      "padded": draw(bools),
      "reverse": draw(bools),
      "gaps": draw(st.lists(fl(0, 1), min_size=k + 1, max_size=k + 1)),
      "decays": draw(st.lists(fl(3, 14), min_size=k, max_size=k)),
      "levels": draw(st.lists(fl(0, 1), min_size=k, max_size=k)),
      "phases": draw(st.lists(fl(0, 6.28), min_size=k, max_size=k)),
      "gain": draw(logfl(1e-3, 2)),
      "order": draw(st.permutations(range(k))),
      "merge": draw(st.sampled_from(["average", "single"])),
      "strip": draw(st.sampled_from([None, None, .5])),
      "bounds": draw(st.sampled_from([None, "nyquist", "just"])),
      "extra": draw(fl(0, .3)),
      "how": draw(st.sampled_from(["init", "fit", "set"])),
      "max_sines": draw(st.sampled_from([100, 20])),
      "reduce": draw(st.sampled_from(["mean", "median"])),
  }


def build(c):
  """Partials, analysis settings and sound of a case"""
  lobe, rng = WINDOWS[c["wt"]]
  fs, ws = c["fs"], c["ws"]
  n = int(round(ws * c["zp"]))
  if c["pow2"]:
    n = 1 << (n - 1).bit_length()
  n += n % 2
  h = max(1, int(c["hop"] * ws))
  k = len(c["decays"])
  # frequencies: three main lobes from each other, zero and nyquist
  bw = 3 * lobe * fs / ws
  room = fs / 2 - (k + 1) * bw
  if room < 0:
    return None
  g = np.cumsum(c["gaps"])
  f = np.array([bw * (i + 1) + room * .98 * g[i] / max(g[-1], 1e-9) * .98
                for i in range(k)])
  f = f[list(c["order"])]
  d = np.array(c["decays"]) * ws / fs
  spread = min(10, rng / 3)
  level = -spread * np.array(c["levels"])
  level -= level.max()
  a = c["gain"] * 10**(level / 20)
  t = 20 * math.log10(c["gain"] / 2) - rng
  dur = max(d) * (rng + 6) / 17.3718 + (1 + c["extra"]) * ws / fs
  return f, d, a, t, n, h, int(dur * fs)


def ideal(x, fs, w, h, t, f, padded, reverse):
  """Times and levels of the frames of one partial, and the line through the
  ones above the threshold"""
  w = w / np.sum(w)
  m = w.size
  y = np.flip(x) if reverse else x
  off = 0
  if padded:
    off = (m + 1) // 2
    y = np.concatenate((np.zeros(off), y, np.zeros(m // 2)))
  nf = 1 + (y.size - m) // h
  e = w * np.exp(-2j * np.pi * f / fs * np.arange(m))
  lev = np.array([abs(np.dot(e, y[i * h:i * h + m])) for i in range(nf)])
  with np.errstate(divide="ignore"):
    lev = 20 * np.log10(lev)
  # time of the centre of each frame
  tm = (np.arange(nf) * h + m / 2 - off) / fs
  if reverse:
    tm = x.size / fs - tm
  ok = lev > t
  return tm, lev + 20 * math.log10(2), ok


def line(tm, lev):
  k, q = np.polyfit(tm, lev, 1)
  return -40 * math.log10(math.e) / k, 10**(q / 20)


def check(c, ctx):
  import sample
  b = build(c)
  if b is None:
    ctx.reject()
  f, d, a, t, n, h, size = b
  fs = c["fs"]
  w = sounds.window([c["wt"], c["ws"]])
  tt = np.arange(size) / fs
  parts = [ai * np.exp(-2 * tt / di) * np.cos(2 * np.pi * fi * tt + p)
           for fi, di, ai, p in zip(f, d, a, c["phases"])]
  x = np.sum(parts, axis=0)
  edge = 1 + math.ceil(c["ws"] / 2 / h)
  kw = {
      "sinusoidal__w": w,
      "sinusoidal__n": n,
      "sinusoidal__t": t,
      "sinusoidal__padded": c["padded"],
      "sinusoidal__tracker__fs": fs,
      "sinusoidal__tracker__h": h,
      "sinusoidal__tracker__reverse": c["reverse"],
      "sinusoidal__tracker__peak_threshold": t - 30,
      "sinusoidal__tracker__min_sine_dur": (edge + 2) * h / fs,
      "sinusoidal__tracker__merge_strategy": c["merge"],
      "sinusoidal__tracker__max_n_sines": c["max_sines"],
      # the strip time rounds up to a frame; padded onsets take half a window
      "sinusoidal__tracker__strip_t": c["strip"] and c["ws"] / fs,
      "sinusoidal__tracker__frequency_bounds": {
          None: (None, None), "nyquist": (20, fs / 2),
          "just": (f.min() - fs / c["ws"], f.max() + fs / c["ws"]),
      }[c["bounds"]],
      "freq_reduce": {"mean": np.mean, "median": np.median}[c["reduce"]],
  }
  if c["how"] == "init":
    m = sample.SAMPLE(**kw).fit(x)
  elif c["how"] == "fit":
    m = sample.SAMPLE().fit(x, **kw)
  else:
    m = sample.SAMPLE().set_params(**kw).fit(x)
  p = arr(m.param_matrix_, ndim=2, finite=True, what="parameters")
  info = {"freqs": f.tolist(), "decays": d.tolist(), "amps": a.tolist(),
          "n": n, "h": h}
  require(p.shape[0] == 3, "parameter matrix of shape %s", p.shape)
  # exactly one mode per partial
  used = set()
  errs = []
  for i in np.argsort(f):
    j = [j for j in range(p.shape[1]) if abs(p[0, j] - f[i]) < fs / c["ws"]]
    require(len(j) == 1, "partial at %s Hz was found %d times; partials: %s; "
            "modes found:\n%s", f[i], len(j), info, p)
    used.add(j[0])
    tm, lev, ok = ideal(parts[i], fs, w, h, t, f[i], c["padded"], c["reverse"])
    di, ai = line(tm[ok], lev[ok])
    errs.append((abs(p[0, j[0]] - f[i]) * c["ws"] / fs,
                 abs(p[1, j[0]] / di - 1), abs(p[2, j[0]] / ai - 1),
                 abs(p[1, j[0]] / d[i] - 1), abs(p[2, j[0]] / a[i] - 1)))
  require(len(used) == p.shape[1], "%d modes do not belong to any partial; "
          "partials: %s; modes found:\n%s", p.shape[1] - len(used), info, p)
  e = np.max(errs, axis=0)
  tol = TOL[c["padded"], c["wt"]]
  for v, lim, what in zip(e, tol, (
      "frequency (in bins of the window)", "decay against the exact levels",
      "amplitude against the exact levels", "decay", "amplitude")):
    require(v <= lim, "error of the %s is %s (> %s); partials: %s; modes "
            "found:\n%s", what, v, lim, info, p)
  # resynthesis gives back the envelope
  if len(f) == 1:
    ts = np.linspace(0, 1.5 * d[0], 20)
    y = np.abs(arr(m.predict(ts, analytic=True), shape=ts.shape, kind="c"))
    env = a[0] * np.exp(-2 * ts / d[0])
    close(y, env, rtol=0, atol=2 * (tol[4] + tol[3]) * a[0], what="envelope")
  ctx.tag(f"{len(f)} partials", "padded" if c["padded"] else "unpadded",
          "reverse" if c["reverse"] else "forward", c["wt"])
  ctx.nontrivial(len(f) > 1 or c["padded"] or c["reverse"])


# tolerances on the frequency (bins of the window), decay and amplitude against
# the exact levels, and against the true decay and amplitude
TOL = {
    (False, "blackman"): (.04, 2e-3, .05, 3e-3, .07),
    (False, "blackmanharris"): (.03, 2e-3, .03, 3e-3, .05),
    (False, "nuttall"): (.03, 2e-3, .03, 3e-3, .05),
    (False, "hann"): (.12, 5e-3, .1, 6e-3, .12),
    (False, "hamming"): (.25, .15, .25, .15, .3),
    (True, "blackman"): (.06, .06, .1, .15, .3),
    (True, "blackmanharris"): (.03, .02, .04, .1, .22),
    (True, "nuttall"): (.03, .02, .04, .1, .22),
    (True, "hann"): (.12, .6, .7, .8, .8),
    (True, "hamming"): (.25, .5, .7, .6, .8),
}

SUBS = [Sub("modes", cases, check, quick=1000, thorough=60000, shards=6)]
