"""P32: plots show the data of the model"""
import contextlib
import copy
import math
import warnings

import numpy as np
import sounds
from core import Sub, close, require, same
from gens import bools, fl, seeds, sizes, st, weighted
from sklearn import base

PROPERTY = "P32"
RULE = (
    "A case is a model (any sound and configuration, stored frames or not, "
    "reversed or not, with and without beat decisions) or a matrix, a plot "
    "function and its options (axes given or not, styles, limits, labels). "
    "The artists drawn with the Agg backend are compared with the data. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least one track, a matrix which is not constant, or two "
    "models.")
ASSUMPTIONS = [
    "In reversed analyses without stored frames the duration is the end of the "
    "last track",
]


@contextlib.contextmanager
def canvas():
  """A clean state of the plotting library"""
  import matplotlib
  from matplotlib import pyplot as plt
  require(matplotlib.get_backend().lower() == "agg", "backend")
  plt.close("all")
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      yield plt
  finally:
    plt.close("all")


def snapshot(m):
  s = m.sinusoidal if hasattr(m, "sinusoidal") else m
  r = [copy.deepcopy(s.tracks_), s.intermediate.get_state()]
  if hasattr(m, "param_matrix_"):
    r.append(np.copy(m.param_matrix_))
  if hasattr(m, "beat_decisor"):
    r.append(m.beat_decisor.intermediate.get_state())
  return r


# --- Tracks ------------------------------------------------------------------
@st.composite
def track_cases(draw):
  c = draw(sounds.configs())
  c["max_n_sines"] = min(c["max_n_sines"], 8)
  return {
      "sound": draw(sounds.sounds(fs=(8000, 11025), dur=(.02, .2))),
      "config": c,
      "model": draw(st.sampled_from(["beat", "beat", "sample", "modal", "beat",
                                     "sine"])),
      "dsave": draw(st.integers(0, 3)) < 3,
      "decide": draw(st.one_of(st.none(), st.integers(0, 255))),
      "dim": draw(st.sampled_from([2, 2, 3])),
      "ax": draw(bools),
      "kw": draw(st.sampled_from([{}, {}, {"color": "C3"},
                                  {"linewidth": 3.5, "alpha": .5}])),
  }


def decisor(pattern, save):
  from sample.beatsdrop import decision

  class Decisor(decision.BeatDecisor):
    """Decide by the index of the track"""

    def decide_beat(self, i, t, track, beatsdrop, params):  # pylint: disable=W0613
      return bool((pattern >> (i % 8)) & 1)

  if pattern is None:
    return decision.AlmostNotABeatDecisor(intermediate__save=save)
  return Decisor(intermediate__save=save)


def build(c, x):
  import sample
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sample.sms import mm, sm
  conf = {**c["config"], "fs": c["sound"]["fs"]}
  kw = sounds.params(conf)
  kind = c["model"]
  if kind in ("sample", "beat"):
    kw["regressor"] = sounds.LineFit()
    if kind == "sample":
      return sample.SAMPLE(**kw).fit(x)
    m = SAMPLEBeatsDROP(beatsdrop=sounds.StubBeat(),
                        beat_decisor=decisor(c["decide"], c["dsave"]), **kw)
    return m.fit(x)
  kw = {k[len("sinusoidal__"):]: v for k, v in kw.items()
        if k.startswith("sinusoidal__")}
  if kind == "modal":
    return mm.ModalModel(**kw).fit(x)
  keep = ("n", "w", "t", "padded", "intermediate__save", "tracker__fs",
          "tracker__h", "tracker__max_n_sines", "tracker__min_sine_dur",
          "tracker__freq_dev_offset", "tracker__freq_dev_slope")
  return sm.SinusoidalModel(**{k: v for k, v in kw.items() if k in keep}).fit(x)


def times(m, reverse):
  """The time axis of each track"""
  r = m.h / m.fs
  ts = [(t["start_frame"] + np.arange(np.size(t["freq"]))) * r
        for t in m.tracks_]
  if not reverse:
    return ts
  if m.intermediate.save:
    end = len(m.intermediate.get_state().get("stft", [])) * r
  else:
    end = max((t[-1] + r for t in ts), default=0.)
  return [end - t for t in ts]


def check_tracks(c, ctx):
  from sample import plots
  x = sounds.render(c["sound"])
  with canvas() as plt:
    m = build(c, x)
    before = snapshot(m)
    s = m.sinusoidal if hasattr(m, "sinusoidal") else m
    reverse = c["config"]["reverse"] and c["model"] != "sine"
    tracks = s.tracks_
    dashed = [False] * len(tracks)
    if c["model"] == "beat" and c["dsave"] and c["decide"] is not None:
      dashed = [bool((c["decide"] >> (i % 8)) & 1) for i in range(len(tracks))]
    elif c["model"] == "beat" and c["dsave"]:
      # Every track with two frequencies is a beat
      dashed = [bool(np.std(t["freq"][np.isfinite(t["freq"])]) > 1e-6)
                for t in tracks]
      if any(0 < np.std(t["freq"][np.isfinite(t["freq"])]) < 1e-3
             for t in tracks):
        ctx.reject()
    ts = times(s, reverse)
    if c["dim"] == 2:
      given = plt.subplots(1, 2)[1] if c["ax"] else None
      kw = c["kw"]
      axs = (plots.sine_tracking_2d(m, **kw) if given is None else
             plots.sine_tracking_2d(m, ax=given, **kw))
      require(len(axs) == 2, "%d axes", len(axs))
      if given is not None:
        require(all(a is b for a, b in zip(axs, given)), "not the given axes")
      for ax, k in zip(axs, ("freq", "mag")):
        lines = ax.get_lines()
        require(len(lines) == len(tracks), "%d curves for %d tracks", len(lines),
                len(tracks))
        for i, (l, t, u) in enumerate(zip(lines, tracks, ts)):
          y = np.asarray(l.get_ydata(), dtype=float)
          require(np.array_equal(y, t[k], equal_nan=True),
                  "track %d: the plotted %s is not the track's", i, k)
          close(np.asarray(l.get_xdata(), dtype=float), u, rtol=1e-9,
                atol=1e-12, what=f"track {i}: plotted times")
          style(l, dashed[i], i)
          for n, v in kw.items():
            require(getattr(l, "get_" + n)() == v, "style %s is %r", n,
                    getattr(l, "get_" + n)())
    else:
      ax = plt.figure().add_subplot(projection="3d") if c["ax"] else None
      got = plots.sine_tracking_3d(m) if ax is None else \
          plots.sine_tracking_3d(m, ax=ax)
      require(ax is None or got is ax, "not the given axes")
      lines = got.get_lines()
      require(len(lines) == len(tracks), "%d curves for %d tracks", len(lines),
              len(tracks))
      for i, (l, t, u) in enumerate(zip(lines, tracks, ts)):
        p = [np.asarray(v, dtype=float) for v in l.get_data_3d()]
        close(p[0], u, rtol=1e-9, atol=1e-12,
              what=f"track {i}: plotted times")
        for v, k in ((p[1], "freq"), (p[2], "mag")):
          require(np.array_equal(v, t[k], equal_nan=True),
                  "track %d: the plotted %s is not the track's", i, k)
        style(l, dashed[i], i)
    require(sounds.equal(before, snapshot(m)), "plotting changed the model")
  ctx.tag(c["model"], "dashed" if any(dashed) else "solid")
  ctx.nontrivial(len(tracks) > 0)


def style(line, dashed, i):
  require(line.get_linestyle() == ("--" if dashed else "-"),
          "track %d: %s, drawn with %r", i,
          "beating" if dashed else "not beating", line.get_linestyle())


# --- Matrices ----------------------------------------------------------------
LIM = st.tuples(fl(-5, 5), fl(.1, 10)).map(lambda t: [t[0], t[0] + t[1]])


@st.composite
def matrix_cases(draw):
  return {
      "shape": [draw(st.integers(1, 12)), draw(st.integers(1, 12))],
      "seed": draw(seeds),
      "nan": draw(st.integers(0, 3)) == 0,
      "tlim": draw(st.one_of(st.none(), LIM)),
      "flim": draw(st.one_of(st.none(), LIM)),
      "xlim": draw(st.one_of(st.none(), LIM)),
      "ylim": draw(st.one_of(st.none(), LIM)),
      "ax": draw(bools),
      "ratio": draw(st.one_of(st.none(), fl(.2, 5))),
      "width": draw(st.one_of(st.none(), fl(1, 12))),
      "kw": draw(st.sampled_from([{}, {"cmap": "Greys"},
                                  {"vmin": -1., "vmax": 2.}])),
  }


def check_image(im, tf, tlim, flim, what=""):
  """The image shows the matrix, first row at the bottom"""
  a = np.asarray(np.ma.filled(im.get_array().astype(float), np.nan))
  require(a.shape == tf.shape, "%simage of shape %s, matrix of shape %s", what,
          a.shape, tf.shape)
  close(a, np.asarray(tf, dtype=float), rtol=1e-12, what=f"{what}image")
  close(np.array(im.get_extent(), dtype=float),
        np.array([*tlim, *flim], dtype=float), rtol=1e-12, atol=1e-12,
        what=f"{what}extent")
  require(im.origin == "lower", "%simage drawn from the top", what)


def check_matrix(c, ctx):
  from sample import plots
  rng = np.random.default_rng(c["seed"])
  tf = rng.normal(size=c["shape"])
  if c["nan"]:
    tf[rng.uniform(size=tf.shape) < .2] = np.nan
  tf0 = tf.copy()
  with canvas() as plt:
    kw = dict(c["kw"])
    for k in ("tlim", "flim", "xlim", "ylim"):
      if c[k] is not None:
        kw[k] = tuple(c[k])
    if c["ratio"] is not None:
      kw["aspect_ratio"] = c["ratio"]
    if c["width"] is not None:
      kw["width"] = c["width"]
    if c["ax"]:
      fig, axs = plt.subplots(1, 2)
      other, ax = axs
      plt.sca(other)
      size = fig.get_size_inches().copy()
      got = plots.tf_plot(tf, ax=ax, **kw)
      require(got is ax, "not the given axes")
      require(not other.images, "drawn on other axes")
      require(np.array_equal(fig.get_size_inches(), size), "figure resized")
    else:
      ax = plt.gca()
      got = plots.tf_plot(tf, **kw)
      require(got is ax, "not the current axes")
      r, w = kw.get("aspect_ratio", 4 / 3), kw.get("width", 8)
      close(ax.get_figure().get_size_inches(), np.array([r * w, w]),
            rtol=1e-9, what="size of the figure")
    tlim = kw.get("tlim", (0, 1))
    flim = kw.get("flim", (0, 1))
    require(len(got.images) == 1, "%d images", len(got.images))
    im = got.images[0]
    check_image(im, tf, tlim, flim)
    xlim, ylim = kw.get("xlim", tlim), kw.get("ylim", flim)
    close(np.array(got.get_xlim()), np.array(xlim), rtol=1e-9, atol=1e-12,
          what="limits in time")
    close(np.array(got.get_ylim()), np.array(ylim), rtol=1e-9, atol=1e-12,
          what="limits in frequency")
    # The axes have the wanted ratio of sides
    close(float(np.squeeze(got.get_aspect())),
          (xlim[1] - xlim[0]) / (ylim[1] - ylim[0]) / kw.get(
              "aspect_ratio", 4 / 3), rtol=1e-9, what="aspect")
    if "cmap" in kw:
      require(im.get_cmap().name == kw["cmap"], "colors")
    if "vmin" in kw:
      require(im.get_clim() == (kw["vmin"], kw["vmax"]), "range of colors")
  require(np.array_equal(tf, tf0, equal_nan=True), "the matrix was modified")
  ctx.nontrivial(tf.size > 1)


# --- Resynthesis -------------------------------------------------------------
@st.composite
def resynth_cases(draw):
  n = draw(st.integers(0, 3))
  original = draw(bools) or n == 0
  return {
      "n": draw(st.integers(40, 1500)),
      "seed": draw(seeds),
      "fs": draw(st.one_of(st.none(), st.sampled_from([8000, 100.5, 44100]))),
      "rates": [draw(st.sampled_from([8000, 4000, 16000])) for _ in range(n)],
      "modes": [draw(st.lists(st.tuples(fl(50, 2000), fl(.01, 2), fl(.1, 1)).map(
          list), max_size=3)) for _ in range(n)],
      "original": original,
      "label": draw(st.sampled_from([None, "x", "Original sound"])),
      "axs": draw(st.sampled_from(["none", "given", "fig"])),
      "foreach": draw(bools),
      "db": draw(st.sampled_from(["default", None, -60., -120.])),
      "tf": draw(st.sampled_from(["default", "own"])),
      "wav_kws": draw(st.sampled_from([None, {"alpha": .25},
                                       {"zorder": 7, "linewidth": 2.}])),
      "tf_kws": draw(st.sampled_from([None, {"cmap": "Greys"},
                                      {"ylim": [0, 500]}])),
  }


def check_resynth(c, ctx):
  import sample
  from sample import plots
  from sample.utils import dsp
  from scipy import signal
  rng = np.random.default_rng(c["seed"])
  x = rng.normal(size=c["n"]) * .1
  x0 = x.copy()
  models = {}
  for i, (fs, modes) in enumerate(zip(c["rates"], c["modes"])):
    m = sample.SAMPLE(sinusoidal__tracker__fs=fs)
    m.param_matrix_ = np.reshape(modes, (-1, 3)).T.copy()
    models[f"model {i}"] = m
  before = {k: m.param_matrix_.copy() for k, m in models.items()}
  fs = c["fs"]
  if fs is None:
    fs = max(c["rates"], default=44100)
  t = np.arange(x.size) / fs
  label = c["label"] or "Original"
  waves = ([(label, x)] if c["original"] else []) + [
      (k, m.predict(t)) for k, m in models.items()]
  calls, seen = [], []

  def own(v, fs):
    seen.append((v, fs))
    return (1., fs / 4), np.outer(np.arange(3) + 1, v[:5]) * (1 + 1j)

  kw = {"models": models} if models or c["original"] is None else {}
  if c["fs"] is not None:
    kw["fs"] = fs
  if not c["original"]:
    kw["original"] = False
  if c["label"] is not None:
    kw["original_k"] = c["label"]
  if c["foreach"]:
    kw["foreach"] = lambda *a: calls.append(a)
  if c["db"] != "default":
    kw["db_floor"] = c["db"]
  if c["tf"] == "own":
    kw["tf_fun"] = own
  for k in ("wav_kws", "tf_kws"):
    if c[k] is not None:
      kw[k] = dict(c[k])
  kw0 = copy.deepcopy({k: kw[k] for k in ("wav_kws", "tf_kws") if k in kw})
  with canvas() as plt:
    fig = None
    if c["axs"] == "given":
      fig, axs = plt.subplots(1, len(waves) + 2)
      kw["axs"] = list(axs)
    elif c["axs"] == "fig":
      fig = kw["fig"] = plt.figure()
      plt.figure()
    got_fig, axs = plots.resynthesis(x, **kw)
    if fig is None:
      fig = plt.gcf()
    require(got_fig is fig, "not the given figure")
    if c["axs"] == "given":
      require(all(a is b for a, b in zip(axs, kw["axs"])), "not the given axes")
    else:
      require(len(axs) == len(waves) + 1, "%d axes for %d sounds", len(axs),
              len(waves))
      require(all(a.get_figure() is fig for a in axs), "axes of another figure")
    # Waves
    lines = [l for l in axs[0].get_lines()]
    require([l.get_label() for l in lines] == [k for k, _ in waves],
            "waves labelled %s, expected %s", [l.get_label() for l in lines],
            [k for k, _ in waves])
    legend = [a.get_text() for a in axs[0].get_legend().get_texts()]
    require(legend == [k for k, _ in waves], "legend: %s", legend)
    style_ = {"alpha": .5, "zorder": 100, **(c["wav_kws"] or {})}
    db = -90. if c["db"] == "default" else c["db"]
    for i, (l, (k, w)) in enumerate(zip(lines, waves)):
      close(np.asarray(l.get_xdata(), dtype=float), t, rtol=1e-12,
            what=f"{k}: times")
      same(np.asarray(l.get_ydata(), dtype=float), np.asarray(w, dtype=float),
           f"{k}: plotted wave")
      for n, v in style_.items():
        require(getattr(l, "get_" + n)() == v, "wave %s: %r", n,
                getattr(l, "get_" + n)())
      ax = axs[i + 1]
      require(ax.get_title() == k, "title %r instead of %r", ax.get_title(), k)
      require(len(ax.images) == 1, "%s: %d images", k, len(ax.images))
      if c["tf"] == "own":
        flim, tf = own(w, fs)
      else:
        f, _, tf = signal.stft(w, fs=fs, nperseg=1024)
        flim = f[0], f[-1]
      if db is None:
        check_image(ax.images[0], np.abs(tf), (t[0], t[-1]), flim, f"{k}: ")
      else:
        # In decibel, down to the floor
        a = np.maximum(np.abs(tf), 10**(db / 20))
        tf = 20 * np.log10(a)
        im = np.asarray(ax.images[0].get_array(), dtype=float)
        require(im.shape == tf.shape, "%s: image of shape %s", k, im.shape)
        close(im, tf, rtol=0, atol=1e-7, what=f"{k}: image")
        check_image(ax.images[0], im, (t[0], t[-1]), flim, f"{k}: ")
      if c["tf_kws"] and "ylim" in c["tf_kws"]:
        require(tuple(ax.get_ylim()) == tuple(c["tf_kws"]["ylim"]),
                "%s: limits %s", k, ax.get_ylim())
    for ax in axs[len(waves) + 1:]:
      require(not ax.images and not ax.lines, "drawn on spare axes")
    if c["foreach"]:
      require([a[:2] for a in calls] == [(i, k) for i, (k, _) in
                                         enumerate(waves)], "calls: %s",
              [a[:2] for a in calls])
      for a, (k, w) in zip(calls, waves):
        same(np.asarray(a[2]), np.asarray(w), f"{k}: audio given to foreach")
    if c["tf"] == "own":
      require(len(seen) >= len(waves) and all(v[1] == fs for v in seen),
              "rates given to tf_fun: %s", [v[1] for v in seen])
  require(np.array_equal(x, x0), "the sound was modified")
  for k, v in kw0.items():
    require(kw[k] == v, "%s was modified", k)
  for k, v in before.items():
    require(np.array_equal(models[k].param_matrix_, v), "a model was modified")
  ctx.tag(f"{len(waves)} sounds")
  ctx.nontrivial(len(models) >= 2)


# --- Beat comparison ---------------------------------------------------------
class Curves(base.BaseEstimator):
  """Stand-in for a beat regression: curves which depend on the data"""
  NAMES = ("am", "a0", "a1", "fm")

  def __init__(self, k=1.):
    self.k = k

  def fit(self, t, a, f, **kwargs):  # pylint: disable=W0613
    self.data_ = [np.array(v, dtype=float) for v in (t, a, f)]
    m = float(np.nanmean(f))
    self.params_ = np.array([.5, .25, m + self.k, m - self.k, 1., 1., 0., 0.])
    return self

  def predict(self, t, *names):
    r = {n: .02 * (i + 1) * self.k * np.exp(-np.asarray(t) * (i + 1))
         for i, n in enumerate(self.NAMES)}
    return [np.copy(r[n]) for n in names]


@st.composite
def beat_cases(draw):
  n = draw(st.integers(1, 3))
  return {
      "sound": {**draw(sounds.sounds(fs=(8000,), dur=(.1, .2)))},
      "config": {**draw(sounds.configs()), "max_n_sines": 4},
      "ks": draw(st.lists(fl(.1, 4), min_size=n, max_size=n)),
      "i": draw(st.integers(0, 3)),
      "fs": draw(st.sampled_from([None, None, 16000])),
      "transpose": draw(bools),
      "hilbert": draw(st.sampled_from([False, False, True, 1, 2, 7])),
      "axs": draw(st.sampled_from(["none", "array", "list", "fig"])),
  }


def check_beats(c, ctx):
  import sample
  from sample import plots
  from scipy import signal
  x = sounds.render(c["sound"])
  conf = {**c["config"], "fs": c["sound"]["fs"], "strip_t": None,
          "min_sine_dur": 0, "frequency_bounds": [None, None]}
  kw = sounds.params(conf)
  m = sample.SAMPLE(regressor=sounds.LineFit(), **kw).fit(x)
  s = m.sinusoidal
  if not s.tracks_:
    ctx.reject()
  i = c["i"] % len(s.tracks_)
  track = s.tracks_[i]
  ok = ~np.isnan(track["mag"])
  t = (track["start_frame"] + np.flatnonzero(ok)) * s.h / s.fs
  if not conf["padded"]:
    t = t + .5 * s.w.size / s.fs
  if conf["reverse"]:
    t = x.size / s.fs - t
  mag = track["mag"][ok] + 20 * math.log10(2)
  freq = track["freq"][ok]
  before = snapshot(m)
  x0 = x.copy()
  models = {f"b{j}": Curves(k) for j, k in enumerate(c["ks"])}
  n = len(models)
  kw = {"track_i": i}
  if c["fs"] is not None:
    kw["fs"] = c["fs"]
  if c["hilbert"] is not False:
    kw["signal_hilbert_am"] = c["hilbert"]
  fs = c["fs"] or s.fs
  with canvas() as plt:
    fig = None
    transposed = c["transpose"]
    if transposed:
      kw["transpose"] = True
    if c["axs"] in ("array", "list"):
      fig, axs = plt.subplots(3, n, squeeze=False)
      kw["axs"] = axs if c["axs"] == "array" else [list(r) for r in axs]
      given, transposed = axs, False
    elif c["axs"] == "fig":
      fig = kw["fig"] = plt.figure()
      plt.figure()
    got, axs = plots.beatsdrop_comparison(m, models, x, **kw)
    require(fig is None or got is fig, "not the given figure")
    axs = np.asarray(axs)
    require(axs.shape == ((n, 3) if transposed else (3, n)), "axes of shape %s",
            axs.shape)
    if transposed:
      axs = axs.T
    if c["axs"] in ("array", "list"):
      require(all(a is b for a, b in zip(axs.flat, given.flat)),
              "not the given axes")
    lin = 10**(mag / 20)
    for j, (k, b) in enumerate(models.items()):
      require(not hasattr(b, "data_"), "the given model was fitted")
      p = Curves(b.k).fit(t, mag, freq)
      am, a0, a1, fm = p.predict(t, "am", "a0", "a1", "fm")
      require(axs[0][j].get_title() == k, "title %r", axs[0][j].get_title())
      ls = list(axs[0][j].get_lines())
      if c["hilbert"] is False:
        data(ls.pop(0), np.arange(x.size) / fs, x, "signal")
      else:
        step = 1 if c["hilbert"] is True else c["hilbert"]
        idx = np.arange(x.size // step) * step
        env = np.abs(signal.hilbert(x))[idx]
        require(len(axs[0][j].collections) == 1, "no envelope")
        v = axs[0][j].collections[0].get_paths()[0].vertices
        w = np.stack((idx / fs, env), axis=1)
        got_ = {(round(a, 9), round(abs(b), 9)) for a, b in v.tolist()}
        want = {(round(a, 9), round(b, 9)) for a, b in w.tolist()}
        require(want <= got_ and len(got_ - want) <= 4,
                "the envelope is not that of the signal")
      curves = (("track", lin), ("prediction", am), ("first", a0),
                ("second", a1))
      require(len(ls) == 4, "%d curves of amplitude", len(ls))
      db = axs[1][j].get_lines()
      require(len(db) == 4, "%d curves in dB", len(db))
      for l, d, (q, v) in zip(ls, db, curves):
        data(l, t, v, q)
        with np.errstate(all="ignore"):
          w = np.where(v <= 10**(-60 / 20), np.nan, 20 * np.log10(v))
        edge = np.abs(v - 1e-3) < 1e-12
        y = np.array(d.get_ydata(), dtype=float)
        require(y.shape == w.shape, "%s in dB: shape %s", q, y.shape)
        y[edge] = w[edge]
        close(y, w, rtol=1e-9, atol=1e-9, what=f"{q} in dB")
        close(np.asarray(d.get_xdata(), dtype=float), t, rtol=1e-9, atol=1e-12,
              what=f"{q} in dB: times")
      fl_ = axs[2][j].get_lines()
      require(len(fl_) == 4, "%d curves of frequency", len(fl_))
      for l, (q, v) in zip(fl_, (
          ("track frequency", freq), ("predicted frequency", fm / (2 * np.pi)),
          ("first frequency", np.full(t.size, p.params_[2])),
          ("second frequency", np.full(t.size, p.params_[3])))):
        data(l, t, v, q)
    require(sounds.equal(before, snapshot(m)), "plotting changed the model")
    require(np.array_equal(x, x0), "the sound was modified")
  ctx.tag(f"{n} models")
  ctx.nontrivial(t.size > 2)


def data(line, x, y, what):
  """The curve has this data"""
  u = np.asarray(line.get_xdata(), dtype=float)
  v = np.asarray(line.get_ydata(), dtype=float)
  require(u.shape == np.shape(x), "%s: %s points, expected %s", what, u.shape,
          np.shape(x))
  close(u, np.asarray(x, dtype=float), rtol=1e-9, atol=1e-12,
        what=f"{what}: times")
  close(v, np.asarray(y, dtype=float), rtol=1e-9, atol=1e-12, what=what)


SUBS = [
    Sub("large_matrix", lambda: st.builds(
        lambda c, n, m: {**c, "shape": [n, m]}, matrix_cases(), sizes(1, 2000),
        sizes(1, 500)), check_matrix, quick=60),
    Sub("tracks", track_cases, check_tracks, quick=1000, shards=4),
    Sub("matrix", matrix_cases, check_matrix, quick=300),
    Sub("resynthesis", resynth_cases, check_resynth, quick=400, shards=2),
    Sub("beats", beat_cases, check_beats, quick=320, shards=2),
]
