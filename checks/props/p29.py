"""P29: any text typed in the GUI settings gives a valid analysis"""
import contextlib
import json
import logging
import math
import os
import shutil
import tempfile

import numpy as np
import tkstub
from core import Sub, require, same
from gens import bools, fl, logfl, st, weighted

PROPERTY = "P29"
RULE = (
    "parsers: a case is a text (number-like, malformed, special values, any "
    "characters) for every parser; the oracle is the parser's documented "
    "type, range, default and value for well-formed numbers. tab: a case is "
    "a history of typing texts in the fields of the real settings tab (on a "
    "Tcl interpreter whose Tk commands are stand-ins), applying and "
    "reopening; the oracle is a reference model of the fields, the normal "
    "form and the parameters. files: a history of saves, loads and deletions "
    "against a dictionary. Non-trivial: parsers: the text is a number; tab: at "
    "least two fields typed and applied; files: a file read back after being "
    "overwritten or deleted.")
ASSUMPTIONS = [
    "The tab runs without a display: Tk commands are stand-ins, variables and "
    "callbacks are real",
    "Window and FFT sizes are generated up to 2^20 (larger ones exhaust "
    "memory)",
]

# --- Texts -------------------------------------------------------------------
NUMBERS = weighted(
    (4, st.integers(-10, 5000).map(str)),
    (3, fl(-200, 200).map(repr)),
    (2, fl(-30, 30).map(lambda v: f"{v:.3f}")),
    (1, logfl(1e-8, 1e6).map(lambda v: f"{v:e}")),
    (1, st.tuples(st.integers(0, 999), st.integers(-5, 4)).map(
        lambda t: f"{t[0]}E{t[1]}")),
    (1, st.sampled_from(["-0", "0", "0.0", "+3", ".5", "5.", "1_000", " 12 ",
                         "\t7\n", "0.9999", "1.0000001", "１２"])),
    (1, st.integers(0, 20).map(lambda k: str(2**k))),
    (1, st.integers(1, 20).map(lambda k: str(2**k + 1))),
)
SPECIAL = st.sampled_from(["nan", "inf", "-inf", "Infinity", "NaN", "+nan",
                           "1e400", "-1e400", "infinity", " inf"])
WORDS = weighted(
    (2, st.sampled_from(["", " ", "None", "none", "True", "false", "0x10",
                         "1,5", "1 2", "--1", "1e", "e5", "blackman", "auto",
                         "1/2", "½", "$x", "[exit]", "{", "}", "\\", "\"",
                         "a b", "%s", "π"])),
    (1, st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff,
                              blacklist_categories=("Cs",)), max_size=8)),
)
TEXTS = weighted((6, NUMBERS), (1, SPECIAL), (3, WORDS))


def number(x):
  """Value of a text which is a number (not NaN), or None"""
  try:
    v = float(x)
  except ValueError:
    return None
  return None if math.isnan(v) else v


# --- Reference parsers -------------------------------------------------------
def ref_float(x, default=0.):
  v = number(x)
  return default if v is None else v


def ref_strip(x):
  v = number(x)
  return v if v is not None and 0 < v < math.inf else None


def ref_int(x, default=1):
  v = number(x)
  if v is None or v == math.inf:
    return default
  return int(v) if v >= 1 else 1


def ref_pow2(x):
  n, p = ref_int(x), 1
  while p < n:
    p *= 2
  return p


def ref_clip(x, left, right, default):
  v = number(x)
  if v is None:
    return default
  if left is not None and v < left:
    v = left
  if right is not None and v > right:
    v = right
  return v


@st.composite
def parser_cases(draw):
  b = sorted(draw(st.tuples(fl(-50, 50), fl(-50, 50))))
  kind = draw(st.integers(0, 3))
  return {
      "x": draw(weighted((8, TEXTS), (1, st.sampled_from(
          ["1e30", "1e300", "123456789012345678", "-1e300"])))),
      "left": b[0] if kind & 1 else None,
      "right": b[1] if kind & 2 else None,
      "default": draw(st.one_of(st.none(), fl(-50, 50))),
      "dflt": draw(st.one_of(st.none(), st.integers(1, 99))),
  }


def equal(a, b):
  return a is b if a is None or b is None else a == b


def again(f, v, what):
  """The text of a value gives the value"""
  if v is not None:
    u = f(str(v))
    require(equal(u, v), "%s: %r is parsed as %r", what, str(v), u)


def check_parsers(c, ctx):
  from sample.widgets import settings
  x, left, right = c["x"], c["left"], c["right"]
  v = number(x)

  def one(name, f, expected, type_):
    r = f(x)
    require(r is None or isinstance(r, type_), "%s(%r) is a %s", name, x,
            type(r).__name__)
    require(equal(r, expected), "%s(%r) is %r, expected %r", name, x, r,
            expected)
    again(f, r, name)

  num = (int, float)
  one("try_float", settings.try_float, ref_float(x), float)
  one("strip_time_parse", settings.strip_time_parse, ref_strip(x), float)
  one("custom_positive_int", settings.custom_positive_int, ref_int(x), int)
  r = settings.custom_positive_int(x, c["dflt"])
  require(equal(r, ref_int(x, c["dflt"])), "custom_positive_int(%r, %r) is %r",
          x, c["dflt"], r)
  one("next_power_of_2", settings.next_power_of_2, ref_pow2(x), int)
  for default in {c["default"], None}:
    d = default
    if d is None:
      d = (0 if left is None and right is None else right if left is None else
           left if right is None else (left + right) / 2)
    elif (left is not None and d < left) or (right is not None and d > right):
      continue
    f = settings.float_clip(left=left, right=right, default=default)
    one(f"float_clip({left}, {right}, {default})", f,
        ref_clip(x, left, right, d), num)
  # Booleans
  b = settings.custom_bool(x)
  require(isinstance(b, bool), "custom_bool(%r) is %r", x, b)
  if x.lower() in ("false", "f", ""):
    require(not b, "custom_bool(%r) is %r", x, b)
  elif v is not None:
    require(b == (v != 0), "custom_bool(%r) is %r", x, b)
  else:
    require(b, "custom_bool(%r) is %r", x, b)
  # Wrapper
  calls = []

  def fun(a, k=None):
    calls.append((a, k))
    return float(a)

  f = settings.try_func(fun, ValueError, "default")
  try:
    e = float(x)
  except ValueError:
    e = "default"
  r = f(x, k=1)
  require(calls == [(x, 1)] and (r == e or (r != r and e != e)),
          "try_func: %r instead of %r", r, e)
  ctx.nontrivial(v is not None)


# --- Tab ---------------------------------------------------------------------
FIELDS = {
    # name: (reference parser, default text)
    "max_n_modes": (lambda x: ref_int(x, None), None),
    "sinusoidal__tracker__max_n_sines": (ref_int, 64),
    "sinusoidal__n": (ref_pow2, 4096),
    "sinusoidal__tracker__h": (ref_int, 1024),
    "wsize": (ref_int, 4096),
    "wtype": (str, "blackman"),
    "sinusoidal__tracker__freq_dev_offset": (ref_float, 20.),
    "sinusoidal__tracker__freq_dev_slope": (ref_float, .0025),
    "smfb_0": (ref_float, 20.),
    "smfb_1": (ref_float, 16000.),
    "sinusoidal__tracker__peak_threshold": (ref_float, -66.),
    "sinusoidal__t": (ref_float, -90.),
    "sinusoidal__tracker__min_sine_dur": (
        lambda x: ref_clip(x, 0, None, .1), .1),
    "sinusoidal__tracker__strip_t": (ref_strip, .5),
    "sinusoidal__tracker__reverse": (bool, True),
    "sinusoidal__padded": (bool, False),
    "beatsdrop": (bool, False),
    "parallel": (bool, False),
    "n_jobs": (lambda x: ref_int(x, 4), 4),
    "beat_decisor__th": (lambda x: ref_clip(x, 0, None, 4), 4),
    "beatsdrop__lpf": (lambda x: ref_clip(x, 2, 50, 12), 12),
    "gui_theme": (str, ""),
}
BOOLEANS = ("sinusoidal__tracker__reverse", "sinusoidal__padded", "beatsdrop",
            "parallel")
SIZES = weighted(
    (6, st.integers(-1, 1025).map(str)),
    (1, st.integers(0, 20).map(lambda k: str(2**k))),
    (1, fl(0, 5000).map(lambda v: f"{v:.2f}")),
    (1, SPECIAL),
    (1, WORDS),
)
WINDOWS = ("boxcar", "triang", "blackman", "hamming", "hann", "bartlett",
           "flattop", "parzen", "bohman", "blackmanharris", "nuttall",
           "barthann", "cosine", "exponential", "tukey", "taylor")


def field_text(name):
  if name in BOOLEANS:
    return bools
  if name in ("sinusoidal__n", "wsize"):
    return SIZES
  if name == "wtype":
    return weighted((6, st.sampled_from(WINDOWS)),
                    (1, st.sampled_from(["kaiser", "", "nothing", "gaussian",
                                         "Hann"])))
  if name == "gui_theme":
    return st.sampled_from(["", "arc", "radiance", "black", "smog", "nope",
                            "Arc", " arc"])
  return TEXTS


@st.composite
def tab_cases(draw):
  ops = []
  for _ in range(draw(st.integers(1, 4))):
    names = draw(st.lists(st.sampled_from(sorted(FIELDS)), max_size=6))
    ops.append(["type", [[n, draw(field_text(n))] for n in names]])
    ops.append([draw(st.sampled_from(["apply", "apply", "apply", "reopen"]))])
  if draw(bools):
    # Settings which suit the short sound
    ops.insert(0, ["type", [["sinusoidal__tracker__h", "64"],
                            ["sinusoidal__n", "500"]]])
    ops.insert(1, ["apply"])
  return {
      "ops": ops,
      "yes": draw(bools),
      "file": draw(weighted((5, st.just(True)), (1, st.just(False)))),
      "audio": draw(st.integers(0, 20)),
      "fit": draw(bools),
  }


class Reference:
  """Model of the settings"""

  def __init__(self):
    from sample.widgets import userfiles
    self.shown = {k: "" if v is None else v for k, (_, v) in FIELDS.items()}
    self.theme = userfiles.UserTtkTheme.default()
    self.asked = False

  def apply(self, themes):
    s = {k: f(self.shown[k]) for k, (f, _) in FIELDS.items()}
    # Window not longer than the spectrum, and one which exists
    s["wsize"] = min(s["wsize"], s["sinusoidal__n"])
    from scipy import signal
    try:
      w = signal.get_window(s["wtype"], s["wsize"])
    except ValueError:
      s["wtype"] = "blackman"
      w = signal.get_window(s["wtype"], s["wsize"])
    a, b = s["smfb_0"], s["smfb_1"]
    if a == b:
      a, b = 20, 16000
    s["smfb_0"], s["smfb_1"] = min(a, b), max(a, b)
    if s["gui_theme"] not in themes:
      s["gui_theme"] = self.theme
    self.asked = s["gui_theme"] != self.theme
    p = {k: v for k, v in s.items() if k not in (
        "wsize", "wtype", "smfb_0", "smfb_1", "parallel", "gui_theme")}
    p["n_jobs"] = s["n_jobs"] if s["parallel"] else 0
    p["sinusoidal__tracker__frequency_bounds"] = (s["smfb_0"], s["smfb_1"])
    p["sinusoidal__w"] = w
    return s, p


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix="verif-p29-")
  level = logging.root.level
  logging.disable(logging.CRITICAL)
  try:
    yield d
  finally:
    logging.disable(logging.NOTSET)
    logging.root.setLevel(level)
    shutil.rmtree(d)


def typed_tab(settings):
  """Settings tab which remembers its fields"""

  class Tab(settings.SettingsTab):

    def add_setting(self, name, *args, **kwargs):
      s = super().add_setting(name, *args, **kwargs)
      if "fields" not in self.__dict__:
        self.fields = {}
      self.fields[name] = s
      return s

  return Tab


def check_state(tab, nb, s, p, what):
  """The tab shows, uses and has saved the settings"""
  got = tab.sample_object_kwargs
  require(set(got) == set(p), "%s: parameters %s, expected %s", what,
          sorted(got), sorted(p))
  for k, v in p.items():
    if k == "sinusoidal__w":
      same(np.asarray(got[k]), v, f"{what}: window")
    else:
      require(equal(got[k], v), "%s: parameter %s is %r, expected %r", what, k,
              got[k], v)
  for k, v in s.items():
    f = tab.fields[k]
    require(equal(f.get(), v), "%s: field %s shows %r, which reads %r instead "
            "of %r", what, k, f.var.get(), f.get(), v)
  if nb.settings_file.is_valid():
    with open(nb.settings_file.path, encoding="utf-8") as fp:
      j = json.load(fp)
    require(set(j) == set(s) and all(equal(j[k], s[k]) for k in s),
            "%s: saved settings %s, expected %s", what, j, s)


def check_tab(c, ctx):
  import ttkthemes
  from sample.widgets import responsive as tk
  from sample.widgets import settings, userfiles
  from sample.widgets.sample import sample_factory
  themes = list(ttkthemes.THEMES)
  typed = 0
  with scratch() as d, tkstub.dialogs(yes=c["yes"]) as boxes:
    root = tkstub.root()
    nb = tk.Notebook(root)
    nb.persistent_dir = userfiles.UserDir(d if c["file"] else "")
    nb.settings_file = nb.persistent_dir.user_file("settings.json")
    nb.audio_cache_file = nb.persistent_dir.user_file("audio.cache")
    ref = Reference()
    cls = typed_tab(settings)
    tab = cls(nb)
    if c["audio"]:
      nb.audio_x = np.arange(c["audio"]) / 32
      nb.audio_sr = 8000
      nb.audio_trim_start, nb.audio_trim_stop = 1, c["audio"]
    s, p = ref.apply(themes)

    def settle(s):
      # The fields show the settings in normal form
      for k, v in s.items():
        ref.shown[k] = v if k in BOOLEANS else str(v)
      if c["file"]:
        ref.theme = s["gui_theme"]

    def asked(before):
      n = [t for t in boxes.shown[before:] if t[0] == "askyesno"]
      require(len(n) == int(ref.asked and c["file"]),
              "theme %r, was %r: asked to reload %d times", s["gui_theme"],
              prev, len(n))
      cache = nb.audio_cache_file
      if n and c["yes"]:
        require(root.should_reload, "no reload")
        root.should_reload = False
        a = cache.load_pickled()
        require(set(a) == {"audio_x", "audio_sr", "audio_trim_start",
                           "audio_trim_stop"}, "cached: %s", sorted(a))
        if c["audio"]:
          require(
              np.array_equal(a["audio_x"], nb.audio_x) and
              a["audio_sr"] == 8000 and a["audio_trim_start"] == 1 and
              a["audio_trim_stop"] == c["audio"], "cached audio: %s", a)
        cache.delete()
      elif c["file"]:
        require(not cache.exists(), "audio cached without a reload")

    root.should_reload = False
    root.quit = lambda: None
    settle(s)
    check_state(tab, nb, s, p, "at start")
    for op in c["ops"]:
      if op[0] == "type":
        for k, v in op[1]:
          tab.fields[k].var.set(v)
          ref.shown[k] = v
          typed += 1
      elif op[0] == "apply":
        before, prev = len(boxes.shown), ref.theme
        tab.apply_cbk()
        s, p = ref.apply(themes)
        settle(s)
        check_state(tab, nb, s, p, "after applying")
        asked(before)
        before, prev = len(boxes.shown), ref.theme
        tab.apply_cbk()
        t, q = ref.apply(themes)
        check_state(tab, nb, s, p, "after applying twice")
        require(t == s and set(p) == set(q), "not in normal form: %s, %s", s, t)
        asked(before)
      else:
        # What was typed and not applied is lost
        tab = cls(nb)
        if not c["file"]:
          ref = Reference()
          s, p = ref.apply(themes)
          settle(s)
        else:
          settle(s)
        check_state(tab, nb, s, p, "after reopening")
        require(userfiles.UserTtkTheme(nb.settings_file).get() == ref.theme,
                "theme of the file")
    require(not boxes.errors(), "%s", boxes.shown)
    # The model has the parameters
    bar = object()
    m, fit = sample_factory(progressbar=bar, sinusoidal__tracker__fs=8000,
                            **tab.sample_object_kwargs)
    check_model(m, fit, {**p, "sinusoidal__tracker__fs": 8000}, bar)
    fits = (s["sinusoidal__n"] <= 2**14 and
            s["sinusoidal__tracker__h"] <= 10**6 and
            (s["sinusoidal__n"] + 1000) * (5000 //
                                           s["sinusoidal__tracker__h"]) < 5e5
            and
            s["sinusoidal__tracker__min_sine_dur"] < 1e6 and
            (s["sinusoidal__tracker__strip_t"] or 0) < 1e6 and
            np.sum(p["sinusoidal__w"]) > 1e-9)
    if c["fit"] and fits and not s["beatsdrop"]:
      x = np.exp(-np.arange(5000) / 1000) * np.cos(np.arange(5000) * .5)
      m, fit = sample_factory(sinusoidal__tracker__fs=8000,
                              **tab.sample_object_kwargs)
      with np.errstate(all="ignore"):
        m.fit(x, **fit)
      n = m.param_matrix_.shape
      require(len(n) == 2 and n[0] == 3, "parameters of shape %s", n)
      ctx.tag("modes" if n[1] else "no modes")
  ctx.nontrivial(typed >= 2)


def check_model(m, fit, p, bar):
  import sample
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  cls = SAMPLEBeatsDROP if p.get("beatsdrop") else sample.SAMPLE
  require(type(m) is cls, "a %s was built", type(m).__name__)
  ref = cls()
  kw = {k: v for k, v in p.items()
        if k in ref.get_params() and k not in ("beatsdrop", "n_jobs")}
  kw = {**{k: True for k in ("sinusoidal__intermediate__save",
                             "beat_decisor__intermediate__save")
           if k in ref.get_params()}, **kw}
  ref.set_params(**kw)
  a, b = m.get_params(), ref.get_params()
  require(set(a) == set(b), "parameters of the model")
  for k, v in b.items():
    if v is None or isinstance(v, (bool, int, float, str, tuple)):
      require(equal(a[k], v), "parameter %s of the model is %r, expected %r", k,
              a[k], v)
    elif isinstance(v, np.ndarray):
      same(np.asarray(a[k]), v, f"parameter {k} of the model")
    else:
      require(type(a[k]) is type(v), "parameter %s of the model is %r", k, a[k])
  require(fit["n_jobs"] == p.get("n_jobs", 0), "n_jobs is %r", fit["n_jobs"])
  if bar is not None:
    require(fit["_fit_args"].progressbar is bar, "progress bar")


# --- Factory -----------------------------------------------------------------
@st.composite
def factory_cases(draw):
  kw = {}
  for k, s in (
      ("max_n_modes", st.one_of(st.none(), st.integers(1, 99))),
      ("sinusoidal__n", st.sampled_from([64, 512, 4096])),
      ("sinusoidal__tracker__h", st.integers(1, 4096)),
      ("sinusoidal__tracker__fs", st.sampled_from([8000, 44100, 22050.5])),
      ("sinusoidal__t", fl(-120, 0)),
      ("sinusoidal__padded", bools),
      ("sinusoidal__tracker__reverse", bools),
      ("sinusoidal__tracker__strip_t", st.one_of(st.none(), fl(.1, 2))),
      ("sinusoidal__intermediate__save", bools),
      ("beat_decisor__intermediate__save", bools),
      ("beat_decisor__th", fl(0, 10)),
      ("beatsdrop__lpf", fl(2, 50)),
      ("unknown", st.just(3)),
      ("n_jobs", st.integers(0, 8)),
  ):
    if draw(bools):
      kw[k] = draw(s)
  return {"kw": kw, "beatsdrop": draw(bools), "bar": draw(bools),
          "explicit": draw(bools)}


def check_factory(c, ctx):
  from sample.widgets.sample import sample_factory
  kw = dict(c["kw"])
  kw0 = dict(kw)
  if c["explicit"] or c["beatsdrop"]:
    kw["beatsdrop"] = c["beatsdrop"]
  bar = Bar() if c["bar"] else None
  m, fit = sample_factory(progressbar=bar, **kw)
  check_model(m, fit, {**kw0, "beatsdrop": c["beatsdrop"]}, bar)
  # A second model does not depend on the first
  n, other = sample_factory()
  check_model(n, other, {}, None)
  require(fit["_fit_args"] is not other["_fit_args"], "shared fit arguments")
  if bar is not None:
    a = fit["_fit_args"]
    a.progress_start(7)
    require(bar.state["maximum"] == 7 and bar.state["value"] == 0,
            "progress starts at %s", bar.state)
    a.progress_stop()
    require(bar.state["maximum"] == bar.state["value"], "progress stops at %s",
            bar.state)
  ctx.nontrivial(len(kw0) >= 2)


class Bar:
  """Stand-in for a progress bar"""

  def __init__(self):
    self.state = {}

  def __setitem__(self, k, v):
    self.state[k] = v

  def config(self, **kw):
    self.state.update(kw)

  def update(self):
    pass


# --- Files -------------------------------------------------------------------
JSON = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**6),
              fl(-1e6, 1e6), st.text(max_size=6)),
    lambda s: st.one_of(st.lists(s, max_size=3),
                        st.dictionaries(st.text(max_size=4), s, max_size=3)),
    max_leaves=8)
PATHS = ["settings.json", "a/b.json", "audio.cache", "x y.json", "ü.json"]


@st.composite
def file_cases(draw):
  op = st.one_of(
      st.tuples(st.just("json"), st.integers(0, 4), JSON, bools),
      st.tuples(st.just("pickle"), st.integers(0, 4), JSON, bools),
      st.tuples(st.just("delete"), st.integers(0, 4)),
      st.tuples(st.just("theme"), st.integers(0, 4), st.sampled_from(
          ["arc", "radiance", "nope", "", None, 3, "ARC", "missing", "smog"])),
  )
  return {"ops": [list(o) for o in draw(st.lists(op, max_size=10))],
          "dir": draw(st.sampled_from(["", "sub", "sub/deep"])),
          "home": draw(bools)}


def check_files(c, ctx):
  import ttkthemes
  from sample.widgets import userfiles
  from unittest import mock
  again_ = 0
  with scratch() as d, tkstub.dialogs():
    if c["home"]:
      with mock.patch.dict(os.environ, HOME=d):
        u = userfiles.UserDir(c["dir"] or ".", in_home=True)
    else:
      u = userfiles.UserDir(os.path.join(d, c["dir"]))
    require(u.is_valid(), "directory %r is not valid", u.path)
    files = [u.user_file(p) for p in PATHS]
    ref = {}
    for i, f in enumerate(files):
      require(f.is_valid(), "file is not valid")
      require(os.path.realpath(f.path) == os.path.realpath(
          os.path.join(d, c["dir"], PATHS[i])), "path is %r", f.path)
    for op in c["ops"]:
      i = op[1]
      f = files[i]
      if op[0] == "json":
        again_ += i in ref
        f.save_json(op[2], **({"indent": 2} if op[3] else {}))
        ref[i] = ("json", op[2])
      elif op[0] == "pickle":
        again_ += i in ref
        f.save_pickled(op[2])
        ref[i] = ("pickle", op[2])
      elif op[0] == "theme":
        t = op[2]
        s = {"other": 1} if t == "missing" else {"gui_theme": t, "mine": "arc"}
        f.save_json(s)
        ref[i] = ("json", s)
        theme = userfiles.UserTtkTheme(f)
        g = theme.get()
        default = userfiles.UserTtkTheme.default()
        require(default in ttkthemes.THEMES, "default theme %r", default)
        require(g == (t if t in ttkthemes.THEMES else default), "theme %r reads"
                " %r", t, g)
        require(theme.get("mine") == ("arc" if t != "missing" else default),
                "theme from another key")
      elif i in ref:
        again_ += 1
        f.delete()
        del ref[i]
      for j, g in enumerate(files):
        require(g.exists() == (j in ref), "%s exists: %s", PATHS[j], g.exists())
        if j in ref:
          kind, v = ref[j]
          w = g.load_json() if kind == "json" else g.load_pickled()
          require(w == v and type(w) is type(v),
                  "%s: saved %r, loaded %r", PATHS[j], v, w)
    n = sum(len(fs) for _, _, fs in os.walk(d))
    require(n == len(ref), "%d files for %d saved", n, len(ref))
    # No file, no theme
    for bad in (None, ""):
      require(not userfiles.UserDir(bad).is_valid(), "directory %r", bad)
      require(not u.user_file(bad).is_valid(), "file %r", bad)
      f = userfiles.UserDir(bad).user_file("s.json")
      require(not f.is_valid(), "file in directory %r", bad)
      require(userfiles.UserTtkTheme(f).get() ==
              userfiles.UserTtkTheme.default(), "theme without a file")
  ctx.nontrivial(again_ > 0)


SUBS = [
    Sub("parsers", parser_cases, check_parsers, quick=3000, examples=[
        # regressions: these could not be parsed, or gave NaN
        {"x": x, "left": l, "right": r, "default": None, "dflt": 4}
        for x in ("nan", "inf", "-inf", "1e400")
        for l, r in ((None, None), (0., 1.))
    ]),
    Sub("tab", tab_cases, check_tab, quick=1000, shards=4, examples=[
        # regression: analysis failed with a window of one sample
        {"ops": [["type", [["wsize", "1"]]], ["apply"]], "yes": False,
         "file": True, "audio": 0, "fit": True},
        {"ops": [["type", [["sinusoidal__n", "nan"], ["wsize", "inf"],
                           ["smfb_0", "nan"], ["smfb_1", "nan"],
                           ["sinusoidal__tracker__strip_t", "nan"],
                           ["sinusoidal__tracker__min_sine_dur", "nan"]]],
                 ["apply"], ["reopen"]], "yes": True, "file": True,
         "audio": 4, "fit": True},
    ]),
    Sub("factory", factory_cases, check_factory, quick=600),
    Sub("files", file_cases, check_files, quick=600),
]
