"""P25: random beats respect their ranges and seeds"""
import math

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P25"
RULE = (
    "A case is a configuration of the generator, a seed and a history of "
    "draws (frequencies, decays, amplitudes, noise, audio, raw values; one "
    "or many at a time). Oracles: the ranges of the configuration for every "
    "draw, a second generator run through the same history, the sum of the "
    "drawn partials evaluated sample by sample, and the moments of the "
    "configured distributions over large samples. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least two "
    "draws.")
ASSUMPTIONS = [
    "The frequency range is wide enough for the largest differences",
    "Statistics are compared within six standard errors",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def bark(f):
  return 26.81 * f / (1960 + f) - .53


def hz(b):
  return 1960 * (b + .53) / (26.28 - b)


DEFAULTS = {"f_min": 200, "f_max": 2000, "f_a": 2, "f_b": 2, "amp_min": -10,
            "decay_min": .5, "decay": 1, "onlybeat": False, "beat_min": 1.8,
            "beat_max": 18, "beat_a": 2, "beat_b": 2, "delta_min": 1.5,
            "delta_max": 4, "delta_a": 2, "delta_b": 4, "snr": 45}


@st.composite
def configs(draw):
  c = {}

  def some(key, strategy):
    if draw(bools):
      c[key] = draw(strategy)

  shape = st.sampled_from([.5, 1, 2., 5])
  for k in ("f_a", "f_b", "beat_a", "beat_b", "delta_a", "delta_b"):
    some(k, shape)
  some("amp_min", fl(-60, -.1))
  if draw(bools):
    c["decay_min"] = draw(logfl(.01, .8))
    c["decay"] = c["decay_min"] + draw(weighted((1, st.just(0.)),
                                                (4, logfl(.01, 2))))
  some("onlybeat", bools)
  some("snr", fl(-20, 90))
  if draw(bools):
    c["beat_min"] = draw(logfl(.1, 10))
    c["beat_max"] = c["beat_min"] * draw(fl(1, 5))
  if draw(bools):
    c["delta_min"] = draw(fl(0, 3))
    c["delta_max"] = c["delta_min"] + draw(fl(0, 1.5))
  if draw(bools):
    v = {**DEFAULTS, **c}
    lo = c["f_min"] = draw(logfl(v["beat_max"] * 2 + 20, 1000))
    # Room for both differences, in opposite directions
    need = bark(lo + v["beat_max"]) + v["delta_max"]
    c["f_max"] = hz(need + draw(fl(.05, 6))) + v["beat_max"]
  return c


@st.composite
def draws(draw):
  kind = draw(st.sampled_from(["freqs", "freqs", "decays", "amps", "noise",
                               "audio", "beta"]))
  d = {"kind": kind, "size": draw(weighted((2, st.none()), (2, st.integers(
      0, 5))))}
  if kind == "noise":
    d["n"] = draw(st.integers(0, 50))
  elif kind == "audio":
    d["dur"] = draw(opt(fl(0, .3)))
    d["fs"] = draw(st.sampled_from([None, 1000, 4000.]))
    if d["dur"] is None:
      d["fs"] = draw(st.sampled_from([500, 1000.]))
    if d["size"]:
      d["size"] = min(d["size"], 2)
  elif kind == "beta":
    d["args"] = [draw(fl(.3, 5)), draw(fl(.3, 5))]
    if draw(bools):
      d["left"] = draw(fl(-3, 3))
      d["right"] = d["left"] + draw(fl(0, 4))
    d["positive"] = draw(st.sampled_from([None, 1, .3]))
  return d


@st.composite
def cases(draw):
  return {
      "config": draw(configs()),
      "seed": draw(seeds),
      "rng": draw(bools),
      "late": draw(st.sampled_from([False, False, True])),
      "history": draw(st.lists(draws(), min_size=1, max_size=6)),
  }


def make(case, rng=None):
  from sample.evaluation import random
  if rng is None:
    rng = case["rng"]
  if case.get("late"):
    # Settings changed after it was made, and used
    g = make({**case, "late": False, "config": {}}, rng)
    r = g.rng
    g.rng = np.random.default_rng(0)
    for f in (g.freqs, g.decays, g.amps):
      f()
    g.noise(nsamples=2)
    g.rng = r
    for k, v in case["config"].items():
      setattr(g, k, v)
    return g
  if rng:
    return random.BeatsGenerator(rng=np.random.default_rng(case["seed"]),
                                 **case["config"])
  return random.BeatsGenerator(seed=case["seed"], **case["config"])


def perform(g, d, size):
  kw = {} if size is None else {"size": size}
  k = d["kind"]
  if k == "noise":
    return g.noise(nsamples=d["n"], **kw)
  if k == "audio":
    if d["dur"] is not None:
      kw["dur"] = d["dur"]
    if d["fs"] is not None:
      kw["fs"] = d["fs"]
    return g.audio(**kw)
  if k == "beta":
    for n in ("left", "right", "positive"):
      if d.get(n) is not None:
        kw[n] = d[n]
    return g.beta_twosides(d["args"][0], b=d["args"][1], **kw)
  return getattr(g, k)(**kw)


def flat(r):
  """Arrays in a result"""
  if isinstance(r, (tuple, list)):
    return [a for v in r for a in flat(v)]
  return [np.asarray(r)]


def check_freqs(f, c):
  f = arr(f, shape=(3,), what="frequencies", finite=True)
  e = 1e-7
  require((f >= c["f_min"] - e).all() and (f <= c["f_max"] + e).all(),
          "frequencies %r outside of %r", f, (c["f_min"], c["f_max"]))
  d = abs(f[1] - f[0])
  require(c["beat_min"] - e <= d <= c["beat_max"] + e,
          "beat of %r Hz outside of %r", d, (c["beat_min"], c["beat_max"]))
  d = abs(bark(f[2]) - bark(f[0]))
  require(c["delta_min"] - e <= d <= c["delta_max"] + e,
          "%r Bark outside of %r", d, (c["delta_min"], c["delta_max"]))


def check_decays(d, c):
  d = arr(d, shape=(3,), what="decays", finite=True)
  require((d >= c["decay_min"]).all(), "decays %r below %r", d,
          c["decay_min"])


def check_amps(a, c):
  a = arr(a, shape=(3,), what="amplitudes", finite=True)
  snr = 10**(c["snr"] / 20)
  near(np.sum(a), snr / (1 + snr), "sum of the amplitudes", rtol=1e-9)
  if c["onlybeat"]:
    require(a[2] == 0, "third amplitude is %r", a[2])
    a = a[:2]
  require((a > 0).all(), "amplitudes %r", a)
  r = 20 * math.log10(a.max() / a.min())
  require(r <= -c["amp_min"] + 1e-7, "amplitudes %r are %r dB apart", a, r)


def ref_audio(n, fs, freqs, decays, amps, phases):
  t = np.arange(n) / fs
  x = np.zeros(n)
  for f, d, a, p in zip(freqs, decays, amps, phases):
    x += a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t + p)
  return x


def check_audio(r, d, c):
  require(isinstance(r, tuple) and len(r) == 3, "audio: %r", type(r))
  x, fs, par = r
  want = 44100 if d["fs"] is None else d["fs"]
  require(fs == want, "sample rate %r, requested %r", fs, want)
  dur = 3 * c["decay"] if d["dur"] is None else d["dur"]
  x = arr(x, ndim=1, what="audio", kind="f", finite=True)
  require(x.size in (int(dur * want), round(dur * want)),
          "%d samples in %r s at %r Hz", x.size, dur, want)
  require(len(par) == 4, "%d parameters", len(par))
  freqs, decays, amps, phases = par
  check_freqs(freqs, c)
  check_decays(decays, c)
  check_amps(amps, c)
  phases = arr(phases, shape=(3,), what="phases", finite=True)
  require((phases >= 0).all() and (phases <= 2 * np.pi).all(), "phases %r",
          phases)
  return noise_ok(x - ref_audio(x.size, fs, *par), c)


def noise_ok(e, c):
  e = arr(e, ndim=1, what="noise", finite=True)
  s = 1 / (1 + 10**(c["snr"] / 20))
  n = e.size
  if n == 0:
    return
  require(np.max(np.abs(e)) < 8 * s + 1e-9, "noise of level %r, expected %r",
          np.max(np.abs(e)), s)
  require(abs(np.mean(e)) < 7 * s / math.sqrt(n) + 1e-10,
          "noise has a mean of %r", np.mean(e))
  if n >= 20:
    v = np.mean(e**2) / s**2
    require(abs(v - 1) < 8 * math.sqrt(2 / n) + 1e-6 / s or n < 100 and
            v < 5, "noise of %r times the power", v)
  if n >= 100:
    r = np.mean(e[1:] * e[:-1]) / s**2
    require(abs(r) < 8 / math.sqrt(n) + 1e-6 / s,
            "autocorrelation of the noise is %r", r)


def check(case, ctx):
  c = {**DEFAULTS, **case["config"]}
  g, g2 = make(case), make(case, not case["rng"])
  snr = 10**(c["snr"] / 20)
  near(g.snr_amp, snr, "linear signal to noise ratio")
  near(g.noise_amp, 1 / (1 + snr), "noise level")
  near(g.sine_amp, snr / (1 + snr), "signal level")
  total = 0
  for d in case["history"]:
    r = perform(g, d, d["size"])
    if d["size"] is None:
      items = [r]
    else:
      require(isinstance(r, list) and len(r) == d["size"],
              "%s: %r draws requested, got %r", d["kind"], d["size"],
              len(r) if isinstance(r, list) else type(r))
      items = r
    total += len(items)
    for i in items:
      if d["kind"] == "freqs":
        check_freqs(i, c)
      elif d["kind"] == "decays":
        check_decays(i, c)
      elif d["kind"] == "amps":
        check_amps(i, c)
      elif d["kind"] == "noise":
        arr(i, shape=(d["n"],), what="noise")
        noise_ok(i, c)
      elif d["kind"] == "audio":
        check_audio(i, d, c)
      else:
        l, h = d.get("left", 0), d.get("right", 1)
        a = i if d["positive"] == 1 else (
            i if l - 1e-12 <= i <= h + 1e-12 else -i)
        require(l - 1e-12 <= a <= h + 1e-12, "value %r outside of %r", i,
                (l, h))
    # The same history, one at a time
    if d["size"] is None:
      other = [perform(g2, d, None)]
    else:
      other = [perform(g2, d, None) for _ in range(d["size"])]
    for a, b in zip(flat(items), flat(other)):
      same(a, b, f"{d['kind']} drawn with the same seed")
    ctx.tag(d["kind"])
  for k, v in c.items():
    require(getattr(g, k) == v, "%s became %r", k, getattr(g, k))
  ctx.nontrivial(total >= 2)


# --- Distributions ------------------------------------------------------------
def stat_cases():
  return st.fixed_dictionaries({
      "config": configs(),
      "seed": seeds,
      "rng": bools,
  })


def mean_is(v, mean, std, what):
  n = np.size(v)
  m = float(np.mean(v))
  require(abs(m - mean) <= 6 * std / math.sqrt(n) + 1e-9,
          "mean of %s is %r over %d draws, expected %r", what, m, n, mean)


def beta_is(v, a, b, what):
  """Mean and variance of a Beta distribution"""
  m = a / (a + b)
  var = a * b / ((a + b)**2 * (a + b + 1))
  mean_is(v, m, math.sqrt(var), what)
  mean_is((v - m)**2, var, .5, "the variance of " + what)


def check_stat(case, ctx):
  c = {**DEFAULTS, **case["config"]}
  g = make(case)
  n = 400
  f = np.array(g.freqs(size=n))
  for v in f:
    check_freqs(v, c)
  beat = f[:, 1] - f[:, 0]
  mean_is(beat > 0, .5, .5, "the sign of the beat")
  lo, hi = 1 / c["beat_max"], 1 / c["beat_min"]
  if hi - lo > 1e-3 * lo:
    beta_is((1 / np.abs(beat) - lo) / (hi - lo), c["beat_a"], c["beat_b"],
            "beat periods")
  delta = bark(f[:, 2]) - bark(f[:, 0])
  if c["delta_max"] > c["delta_min"] + 1e-6:
    if c["delta_min"] > 1e-6:
      mean_is(delta > 0, .5, .5, "the sign of the distance in Bark")
    beta_is((np.abs(delta) - c["delta_min"]) /
            (c["delta_max"] - c["delta_min"]), c["delta_a"], c["delta_b"],
            "distances in Bark")
  # Relative position of the first partial in the allowed range
  zero = np.zeros(n)
  left = np.max([bark(c["f_min"] + np.maximum(-beat, 0)),
                 bark(c["f_min"]) + np.maximum(-delta, 0)], axis=0)
  right = np.min([bark(c["f_max"] - np.maximum(beat, 0)),
                  bark(c["f_max"]) - np.maximum(delta, 0)], axis=0)
  beta_is((bark(f[:, 0]) - left) / (right - left), c["f_a"], c["f_b"],
          "frequencies")
  d = np.array(g.decays(size=n))
  s = c["decay"] - c["decay_min"]
  mean_is(d, c["decay"], s, "decays")
  if s:
    # The probability of exceeding the median
    mean_is(d > c["decay_min"] + s * math.log(2), .5, .5, "decays' order")
  a = np.array(g.amps(size=n))
  for v in a:
    check_amps(v, c)
  # Difference of two independent uniforms
  r = 20 * np.log10(a[:, 0] / a[:, 1])
  w = -c["amp_min"]
  mean_is(r, 0, w / math.sqrt(6), "level differences")
  mean_is(r**2, w**2 / 6, w**2 * math.sqrt(7 / 180), "their square")
  p = np.array([v[2][3] for v in g.audio(dur=0., size=n)])
  mean_is(p, np.pi, 2 * np.pi / math.sqrt(12), "phases")
  mean_is(np.cos(p), 0, .71, "cosines of phases")
  # Different seeds
  other = make(dict(case, seed=case["seed"] ^ 1)).freqs()
  require(not np.array_equal(other, f[0]), "another seed gives the same draw")
  ctx.nontrivial()


@st.composite
def large_cases(draw):
  """Long sounds and many draws"""
  d = draw(draws())
  if d["kind"] == "noise":
    d["n"] = draw(sizes(51, 100000))
  elif d["kind"] == "audio":
    d["fs"] = draw(st.sampled_from([None, 8000, 44100]))
    d["dur"] = draw(fl(.01, 2))
  if d["size"] is not None:
    d["size"] = draw(sizes(1, 3 if d["kind"] in ("noise", "audio") else 300))
  return {"config": draw(configs()), "seed": draw(seeds), "rng": draw(bools),
          "history": [d, draw(draws())]}


SUBS = [
    Sub("large", large_cases, check, quick=150),
    Sub("history", cases, check, quick=1500, shards=2),
    Sub("distribution", stat_cases, check_stat, quick=120, shards=4),
]
