"""P33: the GUI analyses the selected region and exports the model"""
import contextlib
import json
import logging
import math
import os
import shutil
import tempfile
import warnings
from unittest import mock

import numpy as np
import tkstub
from core import Sub, close, fail, require, same
from gens import bools, fl, seeds, st, weighted

PROPERTY = "P33"
RULE = (
    "A case is a history of loading files (every WAV sample type, mono or "
    "not, silent, with or without onsets, broken, cancelled), selecting a "
    "region by index, by typed text or with the mouse, analysing, playing and "
    "exporting, on the real load and analysis tabs over a Tcl interpreter "
    "whose Tk commands are stand-ins and figures drawn with Agg. The oracle "
    "is a reference model of the audio, the region and the analysis: the model "
    "is the one fitted directly on the region, and the exported files parse "
    "back to it. Non-trivial: at least one file loaded and two selections or "
    "one analysis.")
ASSUMPTIONS = [
    "Widgets run without a display: Tk commands, dialogs, figures' canvases "
    "and sound output are stand-ins",
    "Regions are analysed with settings the settings tab gives (see P29)",
]

TYPES = ["int16", "int16", "int32", "uint8", "float32", "float64", "int24"]


@st.composite
def audio(draw):
  return {
      "n": draw(weighted((4, st.integers(400, 4000)), (2, st.integers(1, 40)),
                         (1, st.integers(40, 400)))),
      "fs": draw(st.sampled_from([8000, 11025, 44100, 3])),
      "type": draw(st.sampled_from(TYPES)),
      "channels": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
      "kind": draw(st.sampled_from(["decay", "decay", "late", "bursts",
                                    "silence", "noise"])),
      "seed": draw(seeds),
  }


TIMES = weighted((5, fl(0, 1)), (2, fl(-1, 2)), (1, st.sampled_from([0., 1.])))
WORDS = ["", "x", "nan", "inf", "-inf", "1e308", "-1e308", "1e400", "0", "-0.0",
         ".", "1,0", "None", " ", "1e-9", "-3"]


# Files are saved, not chosen, or cannot be written
SAVE = st.sampled_from([True, True, True, False, False, "no folder", "folder"])


@st.composite
def cases(draw):
  ops = []
  op = weighted(
      (3, st.tuples(st.just("load"), audio())),
      (1, st.tuples(st.just("bad"), st.sampled_from(
          ["cancel", "missing", "text", "empty", "nosamples", "dir"]))),
      (3, st.tuples(st.just("trim"), st.one_of(
          st.integers(-50, 5000), st.integers(0, 1000)), bools, bools, bools)),
      (3, st.tuples(st.just("type"), weighted(
          (4, fl(0, 1)), (3, st.integers(0, 5000)), (2, st.sampled_from(WORDS))
      ), bools)),
      (3, st.tuples(st.just("mouse"), st.one_of(st.none(), TIMES),
                    st.one_of(st.none(), TIMES),
                    st.sampled_from(["", "", "", "Pan", "Zoom"]))),
      (1, st.tuples(st.just("replot"))),
      (2, st.tuples(st.just("analyse"), st.fixed_dictionaries({
          "n": st.sampled_from([64, 256]),
          "h": st.sampled_from([16, 32, 64]),
          "reverse": bools, "padded": bools,
          "max_n_modes": st.sampled_from([None, None, 1, 2]),
          "dur": st.sampled_from([0., 0., 0., .1, 9.]),
          "fails": st.sampled_from([None] * 6 + ["reduce", "window", "beats",
                                                 "jobs"]),
          "events": st.lists(st.sampled_from(["analyse", "json", "play"]),
                             max_size=2)}))),
      (2, st.tuples(st.just("json"), SAVE)),
      (2, st.tuples(st.just("wav"), SAVE)),
      (1, st.tuples(st.just("play"), bools)),
  )
  if draw(st.integers(0, 9)):
    ops.append(["load", draw(audio())])
  ops += [list(o) for o in draw(st.lists(op, min_size=1, max_size=9))]
  return {"ops": ops, "cache": draw(st.one_of(st.none(), audio())),
          "cached": draw(st.sampled_from(["full", "full", "rate", "trim"]))}


def render(a):
  """Samples in [-1, 1), by channel"""
  rng = np.random.default_rng(a["seed"])
  n, fs = a["n"], a["fs"]
  t = np.arange(n)

  def tone(t):
    with np.errstate(over="ignore"):
      y = np.where(t < 0, 0, np.exp(-np.maximum(t, 0) / 900.) *
                   np.cos(t * (.3 + a["seed"] % 7 / 5)))
    return y

  k = a["kind"]
  if k == "decay":
    x = tone(t)
  elif k == "late":
    x = tone(t - n // 3)
  elif k == "bursts":
    x = sum(tone(t - n * i // 3) for i in range(3)) / 3
  elif k == "noise":
    x = rng.uniform(-1, 1, size=n)
  else:
    x = np.zeros(n)
  c = max(a["channels"], 1)
  return .9 * x[:, None] * rng.uniform(.1, 1, size=c), fs


def write(path, a):
  """Write a file, and return the samples it is meant to have"""
  from scipy.io import wavfile
  x, fs = render(a)
  if a["type"].startswith("float"):
    y = x.astype(a["type"])
    ref = y.astype(float)
  elif a["type"] == "uint8":
    y = np.round(x * 128 + 128).astype(np.uint8)
    ref = (y.astype(float) - 128) / 128
  elif a["type"] == "int24":
    y = np.round(x * 2**23).astype(np.int64)
    ref = y / 2.**23
  else:
    b = np.iinfo(a["type"]).bits - 1
    y = np.round(x * 2.**b).astype(a["type"])
    ref = y / 2.**b
  if a["type"] == "int24":
    import wave
    with wave.open(path, "wb") as w:
      w.setnchannels(y.shape[1])
      w.setsampwidth(3)
      w.setframerate(fs)
      w.writeframes(
          (y.ravel() & 0xffffff).astype("<u4").view(np.uint8).reshape(
              -1, 4)[:, :3].tobytes())
  else:
    wavfile.write(path, fs, y if a["channels"] else y[:, 0])
  return np.mean(ref, axis=1), fs


def region(x):
  """The longest region between onsets"""
  from sample.utils import dsp
  o = [int(i) for i in np.flatnonzero(dsp.onset_detection(x))] or [0]
  o.append(x.size)
  d = [b - a for a, b in zip(o, o[1:])]
  i = d.index(max(d))
  return o[i], o[i + 1]


@contextlib.contextmanager
def quiet():
  d = tempfile.mkdtemp(prefix="verif-p33-")
  logging.disable(logging.CRITICAL)
  try:
    with warnings.catch_warnings(), np.errstate(all="ignore"):
      warnings.simplefilter("ignore")
      yield d
  finally:
    logging.disable(logging.NOTSET)
    shutil.rmtree(d)


SAYS = {True: ["showinfo"], False: [], "no folder": ["showerror"],
        "folder": ["showerror"]}


def failing(*args, **kwargs):
  raise ArithmeticError("as requested")


class GUI:
  """The tabs, and the reference model"""

  def __init__(self, c, d, boxes):
    from sample.widgets import analysis, audioload, userfiles
    from sample.widgets import responsive as tk
    self.dir = d
    self.boxes = boxes
    self.x = self.fs = self.model = None
    self.tol = 1e-15
    self.start = self.stop = None
    self.resynth = None
    self.selections = 0
    self.analyses = 0
    self.played = []
    root = tkstub.root()
    nb = self.nb = tk.Notebook(root)
    nb.persistent_dir = userfiles.UserDir(d)
    nb.settings_file = nb.persistent_dir.user_file("settings.json")
    nb.audio_cache_file = nb.persistent_dir.user_file("audio.cache")
    if c["cache"] is not None:
      a = {**c["cache"], "type": "float64"}
      self.x, self.fs = write(os.path.join(d, "c.wav"), a)
      self.start, self.stop = region(self.x)
      s = {"audio_x": self.x.copy(), "audio_sr": self.fs,
           "audio_trim_start": None, "audio_trim_stop": None}
      if c["cached"] == "rate":
        del s["audio_sr"]
        self.fs = 44100
      if c["cached"] != "trim":
        self.start = min(self.stop - 1, self.start + 1)
        s["audio_trim_start"] = self.start
        s["audio_trim_stop"] = self.stop
      nb.audio_cache_file.save_pickled(s)
    self.load = audioload.AudioLoadTab(nb)
    self.ana = analysis.AnalysisTab(nb)
    self.check("at start")

  def check(self, what):
    """The audio and the region are those of the reference"""
    nb = self.load
    if self.x is None:
      require(nb.audio_x is None, "%s: there is audio", what)
      return
    x = np.asarray(nb.audio_x)
    require(x.shape == self.x.shape, "%s: audio of shape %s, expected %s", what,
            x.shape, self.x.shape)
    close(x, self.x, rtol=self.tol, atol=self.tol, what=f"{what}: samples")
    require(nb.audio_sr == self.fs, "%s: rate %s, expected %s", what,
            nb.audio_sr, self.fs)
    i, j = nb.audio_trim_start, nb.audio_trim_stop
    require(0 <= i < j <= self.x.size, "%s: region %s-%s of %s samples", what, i,
            j, self.x.size)
    require((i, j) == (self.start, self.stop),
            "%s: region %s-%s, expected %s-%s", what, i, j, self.start,
            self.stop)

  def entries(self, what):
    """The entries show the region, also after replotting"""
    for var, v in ((self.load.trim_start_input_var, self.start),
                   (self.load.trim_stop_input_var, self.stop)):
      close(float(var.get()) * self.fs, v, rtol=1e-9, atol=1e-6,
            what=f"{what}: time shown (samples)")
    ls = [l.get_xydata() for l in self.load.ax.lines]
    t = np.arange(self.x.size) / self.fs
    full = np.stack((t, self.x), axis=1)
    require(len(ls) == 2, "%s: %d curves", what, len(ls))
    for l, ref in zip(ls, (full, full[self.start:self.stop])):
      require(l.shape == ref.shape, "%s: plotted %s points, expected %s", what,
              l.shape, ref.shape)
      close(l, ref, rtol=1e-12, atol=1e-15, what=f"{what}: plotted audio")

  def set(self, i, start, exact=True):
    """Set the start or stop of the region in the reference"""
    self.selections += 1
    self.resynth = None
    if start:
      lo, hi, got = 0, self.stop - 1, self.load.audio_trim_start
    else:
      lo, hi, got = self.start + 1, self.x.size, self.load.audio_trim_stop
    v = min(hi, max(lo, round(i) if math.isfinite(i) else
                    (hi if i > 0 else lo)))
    if not exact and abs(v - got) <= 1 and lo <= got <= hi:
      v = int(got)
    if start:
      self.start = v
    else:
      self.stop = v

  # --- Operations ------------------------------------------------------------
  def op_load(self, a):
    p = os.path.join(self.dir, f"{len(os.listdir(self.dir))}.wav")
    x, fs = write(p, a)
    self.boxes.files = [p]
    self.load.load_cbk()
    self.x, self.fs = x, fs
    self.start, self.stop = region(np.asarray(self.load.audio_x))
    self.resynth = None
    self.tol = 1e-6 if a["type"] == "float32" else 1e-12
    self.check(f"after loading {a['type']}")
    self.x = np.array(self.load.audio_x)
    self.tol = 1e-15
    self.entries("after loading")

  def op_bad(self, kind):
    n = len(self.boxes.errors())
    p = os.path.join(self.dir, "bad.wav")
    with open(p, "wb") as f:
      if kind == "text":
        f.write(b"this is not audio, but text which is long enough" * 3)
    if kind == "nosamples":
      from scipy.io import wavfile
      wavfile.write(p, 8000, np.zeros(0, dtype=np.int16))
    self.boxes.files = [{"cancel": "", "missing": p + ".no",
                         "dir": self.dir}.get(kind, p)]
    self.load.load_cbk()
    os.remove(p)
    k = len(self.boxes.errors()) - n
    require(k == int(kind != "cancel"), "%s: %d error messages", kind, k)
    self.check(f"after loading {kind}")

  def op_trim(self, v, start, seconds, update):
    if seconds:
      self.load.set_trim(v / (self.fs or 1), start=start, samples=False,
                         update=update, update_vars=True)
    else:
      self.load.set_trim(v, start=start, update=update, update_vars=True)
    if self.x is not None:
      self.set(v, start)
      self.check("after setting")
      if update:
        self.entries("after setting")
        self.check("after plotting")

  def op_type(self, v, start):
    if isinstance(v, float):
      t = v * (1 if self.x is None else self.x.size / self.fs)
      exact, s = False, repr(t)
    elif isinstance(v, int):
      exact, s = True, str(v / (self.fs or 1))
    else:
      exact, s = True, v
    var = (self.load.trim_start_input_var
           if start else self.load.trim_stop_input_var)
    var.set(s)
    require(var.get() == s, "typed %r, the entry shows %r", s, var.get())
    if self.x is None:
      return
    try:
      t = float(s)
    except ValueError:
      t = 0.
    if math.isnan(t):
      t = 0.
    self.set(t * self.fs, start, exact=exact)
    self.check(f"after typing {s!r}")

  def op_mouse(self, a, b, tool):
    dur = 1 if self.x is None else self.x.size / self.fs
    a, b = (None if v is None else v * dur for v in (a, b))
    if tool:
      self.load.plt.toolbar._buttons[tool]  # pylint: disable=W0104,W0212
      self.tool(tool, True)
    try:
      self.load.plt.callbacks["button_press_event"](tkstub.Event(a))
      if self.x is not None:
        self.check("after pressing")
        if a is not None and not tool:
          d = (abs(a * self.fs - self.start) - abs(a * self.fs - self.stop))
          if abs(d) <= 2:
            start = None
          else:
            start = d < 0
      self.load.plt.callbacks["button_release_event"](tkstub.Event(b))
    finally:
      if tool:
        self.tool(tool, False)
    if self.x is None:
      return
    if a is not None and b is not None and not tool:
      if start is None:
        start = self.load.audio_trim_start != self.start
        if not start and self.load.audio_trim_stop == self.stop:
          # Either side could have been set to what it was
          return
      self.set(b * self.fs, start, exact=False)
      self.check("after the mouse")
      self.entries("after the mouse")
    self.check("after releasing")

  def tool(self, k, v):
    """Press a button of the toolbar"""
    b = self.load.plt.toolbar._buttons[k]  # pylint: disable=W0212
    name = str(b.cget("variable"))
    require(name, "no variable for the button")
    b.tk.setvar(name, v)

  def op_replot(self):
    self.load.update_plot()
    self.check("after plotting")
    if self.x is not None:
      self.entries("after plotting")

  def op_analyse(self, c):
    import sample
    kw = {
        "max_n_modes": c["max_n_modes"],
        "sinusoidal__n": c["n"],
        "sinusoidal__w": np.hanning(c["n"]),
        "sinusoidal__tracker__h": c["h"],
        "sinusoidal__tracker__max_n_sines": 20,
        "sinusoidal__tracker__min_sine_dur": c.get("dur", 0.),
        "sinusoidal__tracker__reverse": c["reverse"],
        "sinusoidal__padded": c["padded"],
        "sinusoidal__tracker__frequency_bounds": (0., 20000.),
    }
    self.nb.sample_object_kwargs = {**kw, "beatsdrop": False, "n_jobs": 0,
                                    "beatsdrop__lpf": 12.}
    fails = c.get("fails")
    if fails == "reduce":
      kw["freq_reduce"] = failing
    elif fails == "window":
      kw["sinusoidal__w"] = np.hanning(3 * c["n"])
    elif fails == "beats":
      self.nb.sample_object_kwargs.update(beatsdrop=True,
                                          beatsdrop__params_init=failing)
    elif fails == "jobs":
      self.nb.sample_object_kwargs["n_jobs"] = "many"
    self.nb.sample_object_kwargs.update(kw)
    n = len(self.boxes.shown)
    events = list(c.get("events", ()))
    update = self.ana.progressbar.update

    def during():
      """Events which are handled while the progress bar is updated"""
      update()
      if events:
        m = len(self.boxes.shown)
        e = events.pop()
        if e == "analyse":
          self.ana.analysis_cbk()
          require(len(self.boxes.shown) == m, "messages: %s",
                  self.boxes.shown[m:])
        elif e == "json":
          self.op_json(True)
        else:
          self.op_play(False)
        del self.boxes.shown[m:]

    old = self.load.audio_resynth_x
    old = None if old is None else np.array(old)
    with mock.patch.object(self.ana.progressbar, "update", during):
      self.ana.analysis_cbk()
    shown = self.boxes.shown[n:]
    if self.x is None:
      require([t[0] for t in shown] == ["showerror"], "messages: %s", shown)
      return
    if fails == "beats":
      # Fails where there is a beat only
      if shown:
        require([t[0] for t in shown] == ["showerror"], "messages: %s", shown)
        self.check("after a failed analysis")
        return
      self.model = self.load.sample_object
      self.resynth = self.predicted()
      return
    if fails is not None:
      x = np.asarray(self.load.audio_x)[self.start:self.stop]
      try:
        sample.SAMPLE(sinusoidal__tracker__fs=self.fs, **kw).fit(x)
        failed = fails == "jobs"
      except Exception:  # pylint: disable=W0703
        failed = True
      if failed:
        # It says so, and nothing else changes
        require([t[0] for t in shown] == ["showerror"], "messages: %s", shown)
        self.check("after a failed analysis")
        return
    require(not shown, "messages: %s", shown)
    x = np.asarray(self.load.audio_x)[self.start:self.stop]
    m = sample.SAMPLE(sinusoidal__tracker__fs=self.fs,
                      sinusoidal__intermediate__save=True, **kw).fit(x)
    same(np.asarray(self.load.sample_object.param_matrix_), m.param_matrix_,
         "parameters of the analysis")
    self.model = m
    self.analyses += 1
    self.check("after analysing")
    self.resynth = self.predicted()
    got = self.load.audio_resynth_x
    if got is not None:
      same(np.asarray(got), self.resynth, "resynthesis")
    # What is plotted
    ls = [l.get_xydata() for l in self.ana.ax[2].lines]
    t = np.arange(x.size) / self.fs
    require(len(ls) == 2, "%d curves", len(ls))
    for l, v, k in zip(ls, (x, self.resynth), ("audio", "resynthesis")):
      require(l.shape == (x.size, 2), "%s plotted: %s points", k, l.shape)
      close(l[:, 0], t, rtol=1e-12, what=f"times of the plotted {k}")
      close(l[:, 1], v, rtol=1e-12, atol=1e-15, what=f"plotted {k}")
    ims = self.ana.ax[0].images
    require(len(ims) == 1, "%d images", len(ims))
    im = np.asarray(ims[0].get_array(), dtype=float)
    frames = [mx for mx, _ in m.sinusoidal.intermediate.get_state().get(
        "stft", [])]
    if c["reverse"]:
      frames = frames[::-1]
    require(im.size == np.size(frames), "spectrogram of shape %s", im.shape)
    if frames:
      require(im.shape == np.transpose(frames).shape, "spectrogram of shape %s",
              im.shape)
      close(im, np.transpose(frames), rtol=1e-12, what="plotted spectrogram")

  def predicted(self):
    t = np.arange(self.stop - self.start) / self.fs
    return np.clip(self.model.predict(t), -1, 1)

  def target(self, name, save):
    """The file which is chosen for saving"""
    p = os.path.join(self.dir, name)
    if save == "no folder":
      p = os.path.join(self.dir, "missing", name)
    elif save == "folder":
      p = os.path.join(self.dir, "taken")
      os.makedirs(p, exist_ok=True)
    self.boxes.files = [p if save else ""]
    return p

  def op_json(self, save):
    p = self.target("out.json", save)
    n = len(self.boxes.shown)
    self.ana.export_cbk()
    shown = [t[0] for t in self.boxes.shown[n:]]
    if self.model is None:
      require(shown == ["showerror"], "messages: %s", shown)
      require(not os.path.isfile(p), "exported without a model")
      return
    require(shown == SAYS[save], "messages: %s", shown)
    require(os.path.isfile(p) == (save is True), "exported: %s", save)
    if save is True:
      with open(p, encoding="utf-8") as f:
        j = json.load(f)
      require(j == json.loads(json.dumps(self.model.sdt_params_())),
              "the exported file is not the model: %s", j)
      os.remove(p)

  def op_wav(self, save):
    from scipy.io import wavfile
    p = self.target("out.wav", save)
    n = len(self.boxes.shown)
    self.ana.wav_export_cbk()
    shown = [t[0] for t in self.boxes.shown[n:]]
    if self.x is None or self.model is None:
      require(shown == ["showerror"], "messages: %s", shown)
      require(not os.path.isfile(p), "exported without a model")
      return
    require(shown == SAYS[save], "messages: %s", self.boxes.shown[n:])
    require(os.path.isfile(p) == (save is True), "exported: %s", save)
    if save is True:
      fs, y = wavfile.read(p)
      require(fs == self.fs, "exported at rate %s instead of %s", fs, self.fs)
      self.same_resynth(y, "exported audio")
      os.remove(p)

  def same_resynth(self, y, what):
    ref = self.predicted()
    require(y.shape == ref.shape, "%s has shape %s, the region %s", what,
            y.shape, ref.shape)
    close(y, ref, rtol=1e-12, atol=1e-15, what=what)

  def op_play(self, original):
    from sample.widgets import audio as widget
    played = []
    n = len(self.boxes.shown)
    with mock.patch.object(widget.TempAudio, "play",
                           lambda a: played.append(a)):
      button = self.ana.play_cbk(original)
      button()
      ok = self.x is not None and (original or self.model is not None)
      shown = [t[0] for t in self.boxes.shown[n:]]
      require(shown == ([] if ok else ["showerror"]), "messages: %s", shown)
      require(len(played) == int(ok), "played %d sounds", len(played))
      self.load.play_cbk()
      require(len(played) == int(ok) + int(self.x is not None),
              "played %d sounds", len(played))
    for i, a in enumerate(played):
      from scipy.io import wavfile
      fs, y = wavfile.read(a.buf)
      require(fs == self.fs and a.sr == self.fs, "played at rate %s", fs)
      if original or i == int(ok):
        ref = self.x[self.start:self.stop]
        require(y.shape == ref.shape, "played %s samples", y.shape)
        close(y, ref, rtol=1e-12, atol=1e-15, what="played audio")
      else:
        self.same_resynth(y, "played resynthesis")


def check(c, ctx):
  loads = 0
  with quiet() as d, tkstub.dialogs() as boxes, tkstub.figures():
    g = GUI(c, d, boxes)
    for op in c["ops"]:
      getattr(g, "op_" + op[0])(*op[1:])
      loads += op[0] == "load"
      ctx.tag(op[0])
  ctx.nontrivial((loads or c["cache"]) and (g.selections >= 2 or g.analyses))


def ex(*ops, **kw):
  return {"ops": [list(o) for o in ops], "cache": None, "cached": "full", **kw}


A = {"n": 1000, "fs": 8000, "type": "int16", "channels": 0, "kind": "decay",
     "seed": 1}
FIT = {"n": 64, "h": 32, "reverse": True, "padded": False, "max_n_modes": None}

SUBS = [
    Sub("histories", cases, check, quick=900, shards=6, examples=[
        # regressions
        ex(["load", A], ["replot"]),
        ex(["load", {**A, "type": "float32"}]),
        ex(["load", {**A, "type": "uint8"}]),
        ex(["load", {**A, "fs": 44100}], ["trim", 3, True, False, True]),
        ex(["load", A], ["type", "nan", True], ["type", "inf", False],
           ["type", "1e308", True]),
        ex(["load", A], ["mouse", .4, None, ""], ["mouse", .1, .2, ""]),
        ex(["load", A], ["analyse", FIT],
           ["load", {**A, "fs": 11025, "n": 500}], ["wav", True],
           ["trim", 100, True, False, True], ["wav", True], ["play", False]),
        ex(["bad", "nosamples"]),
        ex(["load", A], ["analyse", FIT], ["analyse", {**FIT, "dur": 9.}],
           ["wav", True]),
    ]),
]
