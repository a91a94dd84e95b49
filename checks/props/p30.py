"""P30: notebook widgets embed the given audio and parameters"""
import contextlib
import copy
import html.parser
import io
import json
import math
import os
import re
import shutil
import subprocess
import tempfile
import time
import warnings
import wave
from unittest import mock

import numpy as np
from core import Sub, close, fail, require
from gens import bools, fl, seeds, sizes, st, weighted
from sklearn import base

PROPERTY = "P30"
RULE = (
    "A case is an array of audio (any type, channels, rate and label), a "
    "history of labelled players, a model with generated parameters and "
    "documentation (or one of the package), or a timed computation. What is "
    "displayed is parsed back. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least two samples or "
    "channels, at least two displayed items, a nested model, or a timed "
    "computation with a title.")
ASSUMPTIONS = [
    "Labels are text without markup",
    "Documentation has one section of arguments, after which the indentation "
    "does not increase",
]
TEXT = st.one_of(
    st.sampled_from(["Play", "Original", "{x}", "{}", "a b", "x_1", "100%",
                     "é ☃", "0", "'quoted'", "a - b"]),
    st.text(alphabet="abcXYZ {}%_-'é☃().,:;", min_size=1, max_size=12))


class Page(html.parser.HTMLParser):
  """Tree of a page: (tag, attributes, children), text is str"""
  VOID = {"meta", "br", "hr", "img", "input", "link", "source"}

  def __init__(self, text):
    super().__init__(convert_charrefs=True)
    self.root = ("", {}, [])
    self.stack = [self.root]
    self.feed(text)
    self.close()
    require(len(self.stack) == 1, "%s is not closed", self.stack[-1][0])

  def handle_starttag(self, tag, attrs):
    n = (tag, dict(attrs), [])
    self.stack[-1][2].append(n)
    if tag not in self.VOID:
      self.stack.append(n)

  def handle_startendtag(self, tag, attrs):
    self.stack[-1][2].append((tag, dict(attrs), []))

  def handle_endtag(self, tag):
    require(self.stack[-1][0] == tag, "</%s> closes <%s>", tag,
            self.stack[-1][0])
    self.stack.pop()

  def handle_data(self, data):
    self.stack[-1][2].append(data)

  def find(self, tag, node=None):
    for n in (node or self.root)[2]:
      if not isinstance(n, str):
        if n[0] == tag:
          yield n
        yield from self.find(tag, n)


def words(node):
  """Text of the node, without that of the nodes inside"""
  return " ".join(" ".join(n for n in node[2] if isinstance(n, str)).split())


# --- Web audio ---------------------------------------------------------------
DTYPES = ["float64", "float64", "float32", "int16", "int32", "uint8", "list"]


@st.composite
def audio_cases(draw):
  return {
      "channels": draw(st.sampled_from([0, 0, 1, 2, 2, 3, 5])),
      "n": draw(st.integers(1, 40)),
      "seed": draw(seeds),
      "dtype": draw(st.sampled_from(DTYPES)),
      "layout": draw(st.sampled_from(["c", "c", "f", "strided", "reversed"])),
      "rate": draw(st.sampled_from([44100, 8000, 22050.5, 1])),
      "np_rate": draw(bools),
      "label": draw(st.one_of(st.none(), TEXT)),
  }


def array(c):
  """The array of a case"""
  rng = np.random.default_rng(c["seed"])
  shape = (c["channels"], c["n"]) if c["channels"] else (c["n"],)
  kind = c.get("dtype", "float64")
  if kind.startswith(("int", "uint")):
    i = np.iinfo(kind)
    x = rng.integers(i.min, i.max, size=shape, dtype=kind, endpoint=True)
  else:
    x = rng.normal(size=shape) * 10.0**rng.integers(-6, 1)
    if kind == "float32":
      x = x.astype(kind)
  layout = c.get("layout", "c")
  if layout == "f":
    x = np.asfortranarray(x)
  elif layout == "strided":
    x = np.repeat(x, 3, axis=-1)[..., ::3]
  elif layout == "reversed":
    x = x[..., ::-1]
  return x.tolist() if kind == "list" else x


def players(cases):
  """HTML for each case"""
  from sample import ipython
  from IPython import display
  r = []
  for c in cases:
    x = array(c)
    x0 = copy.deepcopy(x)
    rate = np.float64(c["rate"]) if c["np_rate"] else c["rate"]
    if c["np_rate"] and c["rate"] == int(c["rate"]):
      rate = np.int64(c["rate"])
    kw = {} if c["label"] is None else {"label": c["label"]}
    w = ipython.WebAudio(x, rate, **kw)
    require(isinstance(w, display.HTML), "not a HTML widget")
    require(np.array_equal(x, x0), "the audio was modified")
    want = np.reshape(x, (max(1, c["channels"]), -1)).astype(float)
    r.append((w.data, want, c["rate"], c["label"] or "Play"))
  return r


def check_audio(c, ctx):
  (text, want, rate, label), = players([c])
  page = Page(text)
  b, = page.find("button")
  require("".join(b[2]) == label, "label %r, expected %r", "".join(b[2]), label)
  m = re.fullmatch(r"\s*\w+\((.*),([^,\]]*)\)\s*;?\s*", b[1]["onclick"],
                   flags=re.DOTALL)
  require(m is not None, "button without audio")
  got = json.loads(m.group(1))
  require([len(r) for r in got] == [want.shape[1]] * want.shape[0],
          "shape of the audio: %s, expected %s", [len(r) for r in got],
          want.shape)
  require(np.array_equal(np.array(got, dtype=float), want),
          "other audio is embedded")
  require(float(m.group(2)) == rate, "rate %s", m.group(2))
  ctx.nontrivial(want.size >= 2)


NODE = """
const log = [];
global.window = global;
class Ctx {
  constructor() { this.destination = {name: "out"}; log.push(["context"]); }
  createBuffer(c, n, sr) {
    const b = {channels: Array.from({length: c}, () => null), n: n, sr: sr,
      copyToChannel(a, i) {
        if (!(a instanceof Float32Array)) throw new Error("type");
        if (i >= c || a.length > n) throw new Error("size");
        this.channels[i] = Array.from(a); } };
    return b;
  }
  createBufferSource() {
    return {buffer: null, to: null, connect(d) { this.to = d; },
      start() { log.push(["play", this.buffer, this.to && this.to.name]); } };
  }
}
global.AudioContext = Ctx;
const jobs = JSON.parse(require("fs").readFileSync(0, "utf8"));
for (const [script, click] of jobs) {
  (0, eval)(script); (0, eval)(click);
}
process.stdout.write(JSON.stringify(log));
"""


@st.composite
def browser_cases(draw):
  return {"players": draw(st.lists(audio_cases(), min_size=1, max_size=4))}


def check_browser(c, ctx):
  """Players of one page, played by a JavaScript engine"""
  node = shutil.which("node")
  if node is None:
    ctx.reject()
  ps = players(c["players"])
  jobs = []
  for text, *_ in ps:
    page = Page(text)
    jobs.append(["".join("".join(s[2]) for s in page.find("script")),
                 next(page.find("button"))[1]["onclick"]])
  p = subprocess.run([node, "-e", NODE], input=json.dumps(jobs), timeout=120,
                     capture_output=True, text=True, check=False)
  require(p.returncode == 0, "the player fails: %s", p.stderr[-400:])
  log = json.loads(p.stdout)
  plays = [v for v in log if v[0] == "play"]
  require(len(plays) == len(ps), "%d sounds played instead of %d", len(plays),
          len(ps))
  require(len(log) - len(plays) == 1, "%d audio contexts",
          len(log) - len(plays))
  for (_, buf, to), (_, want, rate, _) in zip(plays, ps):
    require(to == "out", "not connected to the output")
    got = np.array(buf["channels"], dtype=float)
    require(got.shape == want.shape and buf["n"] == want.shape[1],
            "played shape %s, expected %s", got.shape, want.shape)
    require(np.array_equal(got.astype(np.float32), want.astype(np.float32)),
            "other audio is played")
    require(buf["sr"] == rate, "played at %s", buf["sr"])
  ctx.nontrivial(any(w.size >= 2 for _, w, _, _ in ps))


# --- Labels and players ------------------------------------------------------
@st.composite
def foreach_cases(draw):
  def item(draw=draw):
    return {
        "i": draw(st.one_of(st.none(), st.integers(0, 30))),
        "k": draw(st.one_of(st.none(), TEXT, st.just(""))),
        "channels": draw(st.sampled_from([None, 0, 0, 2, 3])),
        "n": draw(st.integers(1, 30)),
        "seed": draw(seeds),
        "scale": draw(st.sampled_from([.1, .5, 1., 3.])),
    }
  return {
      "items": [item() for _ in range(draw(st.integers(1, 4)))],
      "normalize": draw(st.one_of(st.none(), bools)),
      "rate": draw(st.sampled_from([8000, 44100, 22050])),
      "autoplay": draw(st.one_of(st.none(), bools)),
      "html": draw(st.sampled_from([None, {}, {"metadata": {"a": 1}}])),
      "display": draw(st.sampled_from([None, {}, {"clear": False}])),
      "default": draw(st.integers(0, 3)) == 0,
  }


@contextlib.contextmanager
def displayed():
  """Collect what is displayed"""
  from IPython.core import display_functions
  from sample import ipython
  calls = []

  def display(*args, **kwargs):
    calls.append((args, kwargs))

  real = display_functions.display
  with contextlib.ExitStack() as s:
    for n in [k for k, v in vars(ipython).items() if v is real]:
      s.enter_context(mock.patch.object(ipython, n, display))
    s.enter_context(mock.patch("IPython.display.display", display))
    s.enter_context(mock.patch("IPython.core.display_functions.display",
                               display))
    yield calls


def check_foreach(c, ctx):
  from IPython import display
  from sample import ipython
  audio = {"rate": c["rate"]}
  for k in ("normalize", "autoplay"):
    if c[k] is not None:
      audio[k] = c[k]
  kws = [c["html"], audio, c["display"]]
  kws0 = copy.deepcopy(kws)
  f = ipython.LabelAndPlayForeach(html_kws=kws[0], audio_kws=kws[1],
                                  display_kws=kws[2])
  g = ipython.LabelAndPlayForeach(audio_kws={"rate": 1000, "normalize": True})
  shown = 0
  for it in c["items"]:
    y = None
    if it["channels"] is not None:
      y = array(it)
      y = y / np.max(np.abs(y)) * it["scale"]
    y0 = None if y is None else y.copy()
    with displayed() as calls:
      r = f(it["i"], it["k"], y) if not c["default"] else f(
          **{k: v for k, v in (("i", it["i"]), ("k", it["k"]), ("y", y))
             if v is not None})
    require(r is None, "returned %r", r)
    want = []
    if it["i"] is not None or it["k"] is not None:
      k = it["k"]
      if it["i"] is not None:
        k = f"{it['i'] + 1} - {k}" if k else f"{it['i'] + 1}"
      want.append(k)
    if not want and y is None:
      require(not calls, "displayed %s", calls)
      continue
    (args, kw), = calls
    require(kw == (c["display"] or {}), "display options %s", kw)
    require(len(args) == len(want) + (y is not None), "%d widgets", len(args))
    if want:
      require(isinstance(args[0], display.HTML), "label: %r", args[0])
      h, = Page(args[0].data).find("h1")
      require("".join(h[2]) == want[0], "label %r, expected %r",
              "".join(h[2]), want[0])
      require(args[0].metadata == ((c["html"] or {}).get("metadata", {})),
              "metadata of the label: %s", args[0].metadata)
    if y is not None:
      require(np.array_equal(y, y0), "the audio was modified")
      a = args[-1]
      require(isinstance(a, display.Audio), "audio: %r", a)
      require(a.autoplay == bool(c["autoplay"]), "autoplay: %s", a.autoplay)
      with wave.open(io.BytesIO(a.data)) as w:
        require(w.getframerate() == c["rate"], "rate: %s", w.getframerate())
        require(w.getsampwidth() == 2, "width: %s", w.getsampwidth())
        n = w.getnchannels()
        got = np.frombuffer(w.readframes(w.getnframes()), dtype="<i2")
      got = got.reshape(-1, n).T / 32767.
      v = np.atleast_2d(y)
      v = v / np.max(np.abs(v)) if c["normalize"] else np.clip(v, -1, 1)
      require(got.shape == v.shape, "shape of the audio: %s", got.shape)
      close(got, v, rtol=0, atol=1.01 / 32767, what="audio played")
    shown += len(args)
  require(kws == kws0, "the options were modified")
  del g
  ctx.nontrivial(shown >= 2)


# --- Parameters --------------------------------------------------------------
WORDS = ["gain", "of the filter", "x < 5", "a & b", "<b", "{x}", "(Hz)", "100%",
         ":class:`foo.Bar`", ":data:`None`", "``code``", "default is 3",
         ":func:`numpy.abs` or :func:`abs`", "`x`", "e.g.:", "n (int): no",
         "\"quoted\"", "é ☃", "- item", "Args", "x > y", ":math:`a^2`"]
PNAMES = ["n", "w", "gain", "n_jobs", "a", "ab", "abc", "x1", "default",
          "model", "tracker", "n_"]


def phrases(draw):
  return " ".join(draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4)))


def model_case(draw, depth=0):
  params = []
  for n in draw(st.lists(st.sampled_from(PNAMES), max_size=5, unique=True)):
    k = draw(st.integers(0, 7))
    params.append({
        "name": n,
        "model": model_case(draw, depth + 1) if k < 3 and depth < 3 else None,
        "value": draw(st.sampled_from([None, 1, 2.5, "s", [1], "class"])),
        "doc": None if draw(st.integers(0, 4)) == 0 else [
            draw(st.sampled_from(["", " (int)", " (float, optional)",
                                  " (:class:`a.B`)", "\n"])),
            [phrases(draw) for _ in range(draw(st.integers(1, 3)))]],
    })
  return {
      "name": draw(st.sampled_from(["Model", "Filter", "SAMPLE"])),
      "params": params,
      "head": draw(st.sampled_from(["A model", "", "A model.\n\n  More text: "
                                    "with (this)\n", None])),
      "tail": draw(st.sampled_from(["", "", "\n\n  ", "\n\n  Returns:\n    x",
                                    "\n\n  Example:\n    >>> foo(n=1)"])),
      "blank": draw(bools),
      "indent": draw(st.sampled_from([2, 4])),
      "empty": draw(st.sampled_from(["", "", "    "])),
      "extra": draw(st.integers(0, 4)) == 0,
  }


@st.composite
def params_cases(draw):
  return {"model": model_case(draw)}


class Dynamic(base.BaseEstimator):
  """A model of which parameters are decided by the instance"""

  def get_params(self, deep=True):
    r = {}
    for k, v in self.items_:
      r[k] = v
      if deep and hasattr(v, "get_params") and not isinstance(v, type):
        r.update((k + "__" + i, j) for i, j in v.get_params().items())
    return r


def make(c):
  """The model of a case, and the wanted tree"""
  i = " " * c["indent"]
  items, doc, tree = [], [], []
  for p in c["params"]:
    value = p["value"]
    if value == "class":
      value = Dynamic
    sub = None
    if p["model"] is not None:
      value, sub = make(p["model"])
    items.append((p["name"], value))
    text = p["name"]
    if p["doc"] is not None:
      type_, lines = p["doc"]
      if type_ == "\n":
        type_ = ""
      doc.append(f"{i}{i}{p['name']}{type_}: {lines[0]}")
      for l in lines[1:]:
        if c["blank"]:
          doc.append(c["empty"])
        doc.append(f"{i}{i}{i}{l}")
      text = f"{p['name']}{type_}: " + " ".join(lines)
    tree.append((" ".join(plain(text).split()), sub))
  if c["extra"]:
    doc.append(f"{i}{i}zzz (int): not a parameter")
  head = c["head"]
  if head is None:
    doc = None
    tree = [(p["name"], t[1]) for p, t in zip(c["params"], tree)]
  else:
    doc = f"{head}\n\n{i}Args:\n" + "\n".join(doc) + c["tail"].replace("  ", i)
    if not c["params"] and not c["extra"]:
      doc = head
  cls = type(c["name"], (Dynamic,), {"__doc__": doc})
  m = cls()
  m.items_ = items
  return m, tree


def plain(s):
  """Text without the commands of the documentation"""
  return re.sub(r":\w+:`([^`\n]*)`", r"\1", s)


def nodes(page):
  """The displayed tree"""
  body, = page.find("body")

  def level(node):
    r = []
    ns = [n for n in node[2] if not isinstance(n, str)]
    require(not words(node), "loose text %r", words(node))
    while ns:
      n = ns.pop(0)
      if n[0] == "button":
        require("collapsible" in n[1]["class"].split(), "class %s", n[1])
        content = ns.pop(0)
        require(content[0] == "div" and content[1]["class"] == "content",
                "nothing to collapse")
        r.append((words(n), level(content)))
      else:
        require(n[0] == "div" and n[1]["class"] == "noncollapsible",
                "unknown %s %s", n[0], n[1])
        require(all(isinstance(k, str) for k in n[2]), "text %s read as markup",
                n[2])
        r.append((words(n), None))
    return r
  return level(body)


def depth(tree):
  return 0 if tree is None else 1 + max((depth(t) for _, t in tree), default=0)


def compare(got, want, where):
  require([t for t, _ in got] == [t for t, _ in want],
          "%s: shown %s, expected %s", where, [t for t, _ in got],
          [t for t, _ in want])
  for (t, u), (_, v) in zip(got, want):
    require((u is None) == (v is None), "%s, %s: %s", where, t,
            "not a model" if v is None else "a model without parameters")
    if v is not None:
      compare(u, v, f"{where} > {t}")


def check_params(c, ctx):
  from sample import ipython
  m, want = make(c["model"])
  page = Page(ipython.CollapsibleModelParams(m).data)
  compare(nodes(page), [(c["model"]["name"], want)], "page")
  ctx.tag(f"depth {depth(want)}")
  ctx.nontrivial(depth(want) > 1)


# --- Models of the package ---------------------------------------------------
@st.composite
def package_cases(draw):
  return {
      "model": draw(st.sampled_from(
          ["sample.SAMPLE", "sample.beatsdrop.sample.SAMPLEBeatsDROP",
           "sample.sms.sm.SinusoidalModel", "sample.sms.mm.ModalModel",
           "sample.sms.sm.SineTracker", "sample.sms.mm.ModalTracker",
           "sample.hinge.HingeRegression",
           "sample.beatsdrop.regression.BeatRegression",
           "sample.beatsdrop.regression.DualBeatRegression",
           "sample.beatsdrop.decision.BeatDecisor",
           "sample.beatsdrop.decision.AlmostNotABeatDecisor",
           "sklearn.linear_model.LinearRegression"])),
      "set": draw(st.lists(st.tuples(seeds, st.sampled_from(
          [None, 1, "text", "model", "class"])).map(list), max_size=2)),
  }


def check_package(c, ctx):
  import importlib

  from sample import ipython
  mod, name = c["model"].rsplit(".", 1)
  m = getattr(importlib.import_module(mod), name)()
  for i, v in c["set"]:
    keys = sorted(k for k in m.get_params(deep=False))
    if keys:
      v = {"model": Dynamic(), "class": Dynamic}.get(v, v)
      if isinstance(v, Dynamic):
        v.items_ = [("q", 1)]
      m.set_params(**{keys[i % len(keys)]: v})

  def tree(v):
    return [(k, tree(u) if hasattr(u, "get_params") and
             not isinstance(u, type) else None)
            for k, u in v.get_params().items() if "__" not in k]

  def names(got, want, where):
    require([re.match(r"\w*", t).group() for t, _ in got] ==
            [t for t, _ in want], "%s: shown %s, expected %s", where,
            [t for t, _ in got], [t for t, _ in want])
    for (t, u), (_, v) in zip(got, want):
      require((u is None) == (v is None), "%s, %s", where, t)
      if v is not None:
        names(u, v, f"{where} > {t}")

  def texts(got, v, where):
    doc = v.__doc__ or ""
    for (t, u), (k, w) in zip(got, [(k, w) for k, w in v.get_params().items()
                                    if "__" not in k]):
      # Every word of the documentation of the parameter, at least
      e = re.search(r"^([ ]+)" + k + r"\W.*(?:\n(?:\1[ ]+.*|[ ]*$))*", doc.split(
          "Args:", 1)[-1], flags=re.MULTILINE) if "Args:" in doc else None
      if e is not None:
        want_ = " ".join(plain(e.group()).split())
        require(t == want_, "%s, %s: documentation %r, expected %r", where, k,
                t, want_)
      if u is not None:
        texts(u, w, f"{where} > {k}")

  page = Page(ipython.CollapsibleModelParams(m).data)
  got = nodes(page)
  names(got, [(type(m).__name__, tree(m))], "page")
  texts(got[0][1], m, c["model"])
  ctx.nontrivial(depth(got) > 2)


# --- Timer -------------------------------------------------------------------
@st.composite
def timer_cases(draw):
  return {
      "title": draw(st.one_of(st.none(), TEXT, st.just(""))),
      "msg": draw(st.sampled_from([None, "Took {}", "{}", "<b>{}</b> {{x}}"])),
      "unit": draw(st.sampled_from([None, ["s", 1], ["us", 1e6], ["h", 1 / 3600],
                                    ["ns", 1e9]])),
      "ndigits": draw(st.one_of(st.none(), st.integers(0, 9))),
      "sleep": draw(st.sampled_from([0, 0, .001, .003, .01])),
      "fail": draw(st.integers(0, 4)) == 0,
      "nested": draw(st.integers(0, 3)) == 0,
  }


def check_timer(c, ctx):
  from IPython import display
  from sample import ipython
  kw = {}
  if c["title"] is not None:
    kw["title"] = c["title"]
  if c["msg"] is not None:
    kw["msg"] = c["msg"]
  unit, scale = c["unit"] or ["ms", 1000]
  if c["unit"] is not None:
    kw["unit"], kw["scale"] = unit, scale
  if c["ndigits"] is not None:
    kw["ndigits"] = c["ndigits"]
  result = error = None
  inner = 0.
  with displayed() as calls:
    t0 = time.perf_counter()
    try:
      with ipython.time_this(**kw):
        a = time.perf_counter()
        time.sleep(c["sleep"])
        if c["nested"]:
          with ipython.time_this("inner "):
            result = [1]
        if c["fail"]:
          raise KeyError("inside")
        result = [result, 2]
        inner = time.perf_counter() - a
    except KeyError as e:
      error = e
    outer = time.perf_counter() - t0
  if c["fail"]:
    require(error is not None and error.args == ("inside",),
            "the error was lost: %r", error)
    return
  require(len(calls) == 1 + c["nested"], "%d messages", len(calls))
  (w,), _ = calls[-1]
  require(isinstance(w, display.HTML), "displayed %r", w)
  pre, post = (c["msg"] or "Execution time: {}").split("{}")
  pre = (c["title"] or "") + pre
  post = post.replace("{{", "{").replace("}}", "}")
  text = w.data
  require(text.startswith(pre) and text.endswith(f" {unit}" + post),
          "message %r", text)
  num = text[len(pre):len(text) - len(f" {unit}" + post)]
  nd = c["ndigits"] or 0
  require(re.fullmatch(r"\d+" + (r"\.\d{%d}" % nd if nd else ""), num),
          "time %r with %d digits", num, nd)
  tol = .51 * 10.**-nd + 2e-3 * scale
  require(inner * scale - tol <= float(num) <= outer * scale + tol,
          "%s %s displayed for %s to %s", num, unit, inner * scale,
          outer * scale)
  ctx.nontrivial(bool(c["title"]))


SUBS = [
    Sub("long_audio", lambda: st.builds(
        lambda c, n: {**c, "n": n}, audio_cases(), sizes(41, 30000)),
        check_audio, quick=80),
    Sub("long_players", lambda: st.builds(
        lambda c, n: {**c, "items": [{**i, "n": n} for i in c["items"][:2]]},
        foreach_cases(), sizes(31, 30000)), check_foreach, quick=80),
    Sub("audio", audio_cases, check_audio, quick=800),
    Sub("browser", browser_cases, check_browser, quick=60),
    Sub("players", foreach_cases, check_foreach, quick=600),
    Sub("params", params_cases, check_params, quick=1200, shards=2),
    Sub("package", package_cases, check_package, quick=150),
    Sub("timer", timer_cases, check_timer, quick=300),
]
