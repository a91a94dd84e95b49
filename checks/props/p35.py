"""P35: the example script crops, fits and resynthesizes the given audio"""
import os

import numpy as np
import sounds
from core import Sub, close, fail, require, same
from gens import bools, fl, seeds, st
from props.p34 import moved, scratch, script
from sklearn import base

PROPERTY = "P35"
RULE = (
    "A case is a WAV file (type, channels, rate, sounds with onsets) and the "
    "options of the region, or a set of modes and the options of the "
    "output, or a fit with a progress bar. Non-trivial: a region which is not "
    "all of the file, at least one mode, or at least two tracks.")
ASSUMPTIONS = [
    "Regions have at least one sample",
    "Audio comes from files: nothing is downloaded",
]
TYPES = ["int16", "int16", "int32", "uint8", "float32", "float64"]


def parse(mod, argv):
  return mod.ArgParser().custom_parse_args([*argv, "-l", "critical"])


# --- Region ------------------------------------------------------------------
@st.composite
def region_cases(draw):
  return {
      "type": draw(st.sampled_from(TYPES)),
      "channels": draw(st.sampled_from([0, 0, 1, 2, 3])),
      "fs": draw(st.sampled_from([8000, 22050, 44100])),
      "n": draw(st.integers(200, 12000)),
      "hits": draw(st.lists(fl(0, .95), max_size=4)),
      "seed": draw(seeds),
      "start": draw(st.one_of(st.none(), st.none(), fl(0, .9))),
      "end": draw(st.one_of(st.none(), st.none(), fl(.01, 1.2))),
      "crop": draw(st.integers(0, 5)) > 0,
      "cropped": draw(bools),
      "name": draw(st.sampled_from(["a.wav", "a.b.wav", "a b.wav", "x-1.WAV"])),
      "relative": draw(bools),
  }


def hits(c):
  """Decaying noises which begin at some times, in [-1, 1]"""
  rng = np.random.default_rng(c["seed"])
  shape = (c["n"], c["channels"]) if c["channels"] else (c["n"],)
  x = rng.uniform(-1, 1, size=shape) * 1e-4
  t = np.arange(c["n"]) / c["fs"]
  for h in c["hits"]:
    i = int(h * c["n"])
    e = np.exp(-60 * t[:c["n"] - i])
    y = rng.uniform(-1, 1, size=(c["n"] - i, *shape[1:]))
    x[i:] += .2 * y * (e if not c["channels"] else e[:, None])
  return np.clip(x, -1, 1)


def check_region(c, ctx):
  from sample.utils import dsp
  from scipy.io import wavfile
  mod = script("beatsdrop", "example")
  x = hits(c)
  k = c["type"]
  if k == "uint8":
    raw = np.round(x * 127 + 128).astype(k)
    want = (raw.astype(float) - 128) / 128
  elif k.startswith("int"):
    m = -float(np.iinfo(k).min)
    raw = np.round(x * (m - 1)).astype(k)
    want = raw.astype(float) / m
  else:
    raw = x.astype(k)
    want = raw.astype(float)
  if want.ndim > 1:
    want = np.mean(want, axis=-1)
  fs = c["fs"]
  with scratch() as d, moved(d if c["relative"] else None):
    path = c["name"] if c["relative"] else os.path.join(d, c["name"])
    wavfile.write(path, fs, raw)
    argv = ["-i", path]
    s = e = None
    if c["start"] is not None:
      s = c["start"] * c["n"] / fs
      argv += ["-s", repr(s)]
    if c["end"] is not None:
      e = (c["end"] + (c["start"] or 0)) * c["n"] / fs
      argv += ["-e", repr(e)]
    if not c["crop"]:
      argv.append("--no-crop")
    out = os.path.splitext(path)
    out = f"{out[0]}-cropped{out[1]}"
    if c["cropped"]:
      out = os.path.join(d, "region.wav")
      argv += ["-c", out]
    args = parse(mod, argv)
    args = mod.load_audio(args)
    require(args.fs == fs, "rate %s", args.fs)
    close(np.asarray(args.x, dtype=float), want, rtol=1e-6, atol=1e-7,
          what="loaded audio")
    y = np.array(args.x)
    # The region
    i = None if s is None else int(s * fs)
    j = None if e is None else int(e * fs)
    if i is None or j is None:
      ons = [int(v) for v in np.flatnonzero(dsp.onset_detection(y))]
      if i is None and j is None:
        b = [*ons, y.size] if ons else [0, y.size]
        i, j = max(zip(b[:-1], b[1:]), key=lambda p: p[1] - p[0])
      elif i is None:
        i = max((o for o in ons if o < j), default=0)
        if y.size < j and not ons:
          i = 0
        elif y.size < j:
          i = max(ons)
      else:
        j = min((o for o in ons if o > i), default=y.size)
    if not c["crop"]:
      i, j = 0, y.size
    if i >= min(j, y.size):
      ctx.reject()
    before = sorted(os.listdir(d))
    args = mod.crop_audio(args)
    same(np.asarray(args.x), y[i:j], "region")
    if c["crop"]:
      require(os.path.exists(out), "the region is not saved")
      rate, z = wavfile.read(out)
      require(rate == fs, "rate of the region %s", rate)
      same(np.asarray(z), np.asarray(y[i:j]), "saved region")
      require(sorted(os.listdir(d)) == sorted({*before, os.path.basename(out)}),
              "files: %s", os.listdir(d))
    else:
      require(sorted(os.listdir(d)) == before, "files: %s", os.listdir(d))
    _, again = wavfile.read(path)
    require(np.array_equal(np.reshape(again, raw.shape), raw), "the input file changed")
  ctx.tag(k)
  ctx.nontrivial(j - i < y.size)


# --- Output ------------------------------------------------------------------
@st.composite
def output_cases(draw):
  return {
      "modes": draw(st.lists(st.tuples(fl(20, 6000), fl(.01, 2),
                                       fl(.01, 1.5)).map(list), max_size=5)),
      "n": draw(st.integers(2, 3000)),
      "fs": draw(st.sampled_from([8000, 44100])),
      "n_modes": draw(st.one_of(st.none(), st.none(), st.integers(1, 6))),
      "th": draw(st.one_of(st.none(), fl(.05, 1))),
      "clip": draw(bools),
      "flip": draw(bools),
      "output": draw(bools),
      "name": draw(st.sampled_from(["a.wav", "b.c.wav"])),
  }


def check_output(c, ctx):
  import sample
  from scipy.io import wavfile
  mod = script("beatsdrop", "example")

  class Model(sample.SAMPLE):
    """A model of the sound with the given polarity"""

    def predict(self, *args, **kwargs):
      y = super().predict(*args, **kwargs)
      return -y if c["flip"] else y

  m = Model(sinusoidal__tracker__fs=c["fs"])
  m.param_matrix_ = np.reshape(c["modes"], (-1, 3)).T.copy()
  p = m.param_matrix_.copy()
  t = np.arange(c["n"]) / c["fs"]
  modes = c["modes"]
  if c["n_modes"] is not None:
    # The modes with the most energy
    modes = sorted(modes, key=lambda v: -v[2]**2 * v[1])[:c["n_modes"]]
    es = sorted((v[2]**2 * v[1] for v in c["modes"]), reverse=True)
    if any(a - b < 1e-9 * a for a, b in zip(es, es[1:])):
      ctx.reject()
  want = np.zeros(c["n"])
  for f, d_, a in modes:
    want += a * np.exp(-2 * t / d_) * np.sin(2 * np.pi * f * t)
  cos = np.zeros(c["n"])
  for f, d_, a in modes:
    cos += a * np.exp(-2 * t / d_) * np.cos(2 * np.pi * f * t)
  with scratch() as d:
    path = os.path.join(d, c["name"])
    out = os.path.splitext(path)
    out = f"{out[0]}-output{out[1]}"
    argv = ["-i", path]
    if c["output"]:
      out = os.path.join(d, "o.wav")
      argv += ["-o", out]
    if c["clip"]:
      argv.append("--clip")
    args = parse(mod, argv)
    args.x, args.fs, args.model = np.zeros(c["n"]), c["fs"], m
    kw = {}
    if c["n_modes"] is not None:
      kw["n_modes"] = c["n_modes"]
    if c["th"] is not None:
      kw["clip_th"] = c["th"]
    mod.resynth_audio(args, **kw)
    require(os.listdir(d) == [os.path.basename(out)], "files: %s",
            os.listdir(d))
    rate, y = wavfile.read(out)
  require(rate == c["fs"], "rate %s", rate)
  require(y.dtype == float, "type %s", y.dtype)
  th = 10**(-.3 / 20) if c["th"] is None else c["th"]
  ref = m.predict(t, **({"n_modes": c["n_modes"]} if c["n_modes"] else {}))
  # The resynthesis of the modes, with either phase
  if c["flip"]:
    want, cos = -want, -cos
  scale = 1e-6 * (1 + sum(v[2] for v in modes))
  require(np.allclose(ref, want, atol=scale) or np.allclose(ref, cos, atol=scale),
          "resynthesis of other modes")
  peak = float(np.max(np.abs(ref), initial=0.))
  if peak > th and not c["clip"]:
    ref = ref * (th / peak)
    require(np.max(np.abs(y)) <= th * (1 + 1e-9), "clipping: peak %s",
            np.max(np.abs(y)))
  close(y, ref, rtol=1e-9, atol=1e-12, what="output")
  require(np.array_equal(m.param_matrix_, p), "the model was modified")
  ctx.tag("loud" if peak > th else "quiet")
  ctx.nontrivial(len(modes) > 0)


# --- Progress ----------------------------------------------------------------
class Bar:
  """Stand-in for a progress bar"""

  def __init__(self):
    self.total = 100
    self.n = 0
    self.last_print_n = 0
    self.seen = []

  def refresh(self):
    self.seen.append((self.n, self.total))

  def clear(self):
    pass


@st.composite
def progress_cases(draw):
  return {
      "sound": draw(sounds.sounds(fs=(8000,), dur=(.03, .2))),
      "config": draw(sounds.configs()),
      "bar": draw(st.integers(0, 3)) > 0,
      "n_jobs": draw(st.sampled_from([None, None, 1, 2])),
  }


def check_progress(c, ctx):
  import sample
  mod = script("beatsdrop", "example")
  x = sounds.render(c["sound"])
  kw = sounds.params({**c["config"], "fs": c["sound"]["fs"]})
  m = sample.SAMPLE(regressor=sounds.LineFit(), **kw)
  ref = base.clone(m).fit(x)
  bar = Bar() if c["bar"] else None
  kws = {} if c["n_jobs"] is None else {"n_jobs": c["n_jobs"]}
  with scratch():
    m.fit(x, _fit_args=mod.ScriptFitArgs(progressbar=bar), **kws)
  require(np.array_equal(m.param_matrix_, ref.param_matrix_),
          "the progress bar changes the fit")
  n = len(ref.sinusoidal.tracks_)
  if bar is not None:
    require(bar.seen, "nothing displayed")
    if c["n_jobs"] is None:
      require(all(0 <= a <= t for a, t in bar.seen), "progress %s", bar.seen)
    require(bar.seen[-1][0] == bar.seen[-1][1] == bar.total,
            "the bar ends at %s", bar.seen[-1])
  ctx.nontrivial(n >= 2)


SUBS = [
    Sub("region", region_cases, check_region, quick=600, shards=2),
    Sub("output", output_cases, check_output, quick=400),
    Sub("progress", progress_cases, check_progress, quick=120, shards=2),
]
