"""P26: hyperparameter search evaluates the parameters it reports"""
import math
import warnings

import numpy as np
import sounds
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P26"
RULE = (
    "A case is a search space over the model's parameters, a base model, a "
    "short sound, and either single points to evaluate or a history of "
    "searches (each continuing the previous one, or new). The model is a "
    "subclass of SAMPLE that logs its fits and resynthesizes with zero "
    "phases instead of random ones, so that every loss can be recomputed "
    "exactly by a fresh plain model. Non-trivial: at least one mode was "
    "found and one parameter searched.")
ASSUMPTIONS = [
    "When windows are remapped, the base model does not fix the FFT size or "
    "the window (the remapper does not see them)",
    "Most searches use random points instead of the Gaussian process, for "
    "speed; which points are visited is not judged",
]
LOG = []


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def clear():
  del LOG[:]


def spy_class():
  global Spy
  if Spy is None:
    from sample import SAMPLE

    class Spy_(SAMPLE):
      """Logs what it is asked"""

      def fit(self, x, y=None, **kwargs):
        LOG.append(("fit", self, np.copy(x), dict(kwargs)))
        return super().fit(x, y, **kwargs)

      def predict(self, x, *args, **kwargs):
        LOG.append(("predict", self, np.copy(x), kwargs.get("phases")))
        kwargs = {k: v for k, v in kwargs.items() if k != "phases"}
        return super().predict(x, *args, **kwargs)

    Spy = Spy_
    Spy.__name__ = Spy.__qualname__ = "Spy"
  return Spy


Spy = None


# --- Remapper -----------------------------------------------------------------
WTYPES = ["hamming", "blackman", "hann", "boxcar"]


def remap_cases():
  return st.fixed_dictionaries({
      "log_n": opt(st.integers(2, 13)),
      "wtype": st.sampled_from([None] + WTYPES),
      "wsize": opt(weighted((4, fl(.25, 1)), (1, st.just(1.)))),
      "overlap": opt(weighted((4, fl(0, 1)), (1, st.sampled_from(
          [0., .5, .75, 1.])))),
      "n": opt(st.sampled_from([64, 100, 1024])),
      "w": opt(st.integers(4, 64)),
      "h": opt(st.integers(1, 300)),
      "other": st.dictionaries(st.sampled_from(
          ["sinusoidal__t", "sinusoidal__tracker__max_n_sines", "max_n_modes"]),
                               st.integers(-5, 50)),
      "np": bools,
  })


def expected_remap(kw):
  """Reference remapper, and the exact hop size before rounding"""
  from scipy import signal
  kw = dict(kw)
  out = {k: v for k, v in kw.items()
         if k not in ("sinusoidal__log_n", "sinusoidal__wtype",
                      "sinusoidal__wsize", "sinusoidal__overlap")}
  n = kw.get("sinusoidal__n", None)
  if n is None:
    if kw.get("sinusoidal__log_n") is not None:
      n = out["sinusoidal__n"] = 2**int(kw["sinusoidal__log_n"])
    else:
      from sample import SAMPLE
      n = SAMPLE().sinusoidal.n
  if "sinusoidal__w" not in out:
    out["sinusoidal__w"] = signal.get_window(
        kw.get("sinusoidal__wtype", "hamming"),
        int(n * kw.get("sinusoidal__wsize", 1.)))
  if "sinusoidal__tracker__h" not in out:
    ws = np.size(out["sinusoidal__w"])
    h = int((1 - kw.get("sinusoidal__overlap", .5)) * ws)
    out["sinusoidal__tracker__h"] = max(1, min(ws, h))
  return out


def check_remap(case, ctx):
  from sample import optimize
  kw = dict(case["other"])
  cast = {"log_n": np.int64, "wsize": np.float64, "overlap": np.float64,
          "wtype": str}
  for k, c in cast.items():
    if case[k] is not None:
      kw[f"sinusoidal__{k}"] = c(case[k]) if case["np"] else case[k]
  if case["n"] is not None:
    kw["sinusoidal__n"] = case["n"]
  if case["w"] is not None:
    kw["sinusoidal__w"] = np.hanning(case["w"])
  if case["h"] is not None:
    kw["sinusoidal__tracker__h"] = case["h"]
  exp = expected_remap(kw)
  got = optimize.sample_kwargs_remapper(**kw)
  require(set(got) == set(exp), "remapped names are %r, expected %r",
          sorted(got), sorted(exp))
  for k, v in exp.items():
    if k == "sinusoidal__w":
      near(np.asarray(got[k]), v, "window")
      if case["w"] is not None:
        require(got[k] is kw[k], "the given window was replaced")
    else:
      require(np.ndim(got[k]) == 0 and got[k] == v, "%s is %r, expected %r",
              k, got[k], v)
  n = exp.get("sinusoidal__n")
  if n is not None and case["w"] is None:
    require(np.size(got["sinusoidal__w"]) <= n, "window longer than the FFT")
  require(1 <= got["sinusoidal__tracker__h"] and
          (case["h"] is not None or got["sinusoidal__tracker__h"] <= np.size(
              got["sinusoidal__w"])), "hop size %r",
          got["sinusoidal__tracker__h"])
  ctx.nontrivial(case["w"] is None or case["h"] is None)


# --- Search spaces ------------------------------------------------------------
MAPPED = {
    "sinusoidal__log_n": (6, 10),
    "sinusoidal__wsize": (.3, 1.),
    "sinusoidal__overlap": (0., .9),
    "sinusoidal__wtype": WTYPES,
}
DIRECT = {
    "sinusoidal__tracker__max_n_sines": (1, 30),
    "sinusoidal__t": (-100., -40.),
    "sinusoidal__tracker__min_sine_dur": (0., .05),
    "sinusoidal__tracker__freq_dev_offset": (5., 60.),
    "sinusoidal__tracker__reverse": [False, True],
    "max_n_modes": (1, 5),
}


@st.composite
def spaces(draw):
  remap = draw(st.sampled_from(["default", "default", "default", "none",
                                "custom"]))
  names = list(DIRECT) + (list(MAPPED) if remap == "default" else
                          ["sinusoidal__tracker__h"])
  keys = draw(st.lists(st.sampled_from(names), min_size=0, max_size=4,
                       unique=True))
  if remap == "default" and "sinusoidal__log_n" not in keys and \
     draw(st.integers(0, 3)):
    keys.append("sinusoidal__log_n")
  fixed = {}
  if remap != "default":
    fixed["n"] = 512
    fixed["w"] = [draw(st.sampled_from(sounds.WINDOWS)),
                  draw(st.sampled_from([128, 255, 512]))]
    fixed["h"] = 64
  for k, v in (("t", -70), ("padded", True), ("max_n_sines", 5),
               ("reverse", False), ("min_sine_dur", .02),
               ("merge_strategy", "single"), ("max_n_modes", 3)):
    if draw(st.integers(0, 2)) == 0:
      fixed[k] = v
  return {
      "remap": remap,
      "keys": keys,
      "fixed": fixed,
      "clip": draw(weighted((2, st.none()), (1, bools))),
      "loss_kw": draw(st.sampled_from([None, {}, {"k": 3.}])),
      "model": draw(st.sampled_from(["spy", "spy", "spy", "default"])),
  }


def space_of(k):
  if k == "sinusoidal__tracker__h":
    return (20, 100)
  return {**MAPPED, **DIRECT}[k]


def point_strategy(keys):
  l = []
  for k in keys:
    s = space_of(k)
    if isinstance(s, list):
      l.append(st.sampled_from(s))
    elif isinstance(s[0], int):
      l.append(st.integers(*s))
    else:
      l.append(fl(*s))
  return st.tuples(*l).map(list)


def custom_remap(**kw):
  """Changes a name and a value"""
  if "sinusoidal__t" in kw:
    kw["sinusoidal__t"] = kw["sinusoidal__t"] - 5
  if "max_n_modes" in kw:
    kw["sinusoidal__tracker__max_n_sines"] = kw.pop("max_n_modes")
  return kw


CALLS = []


def loss_fn(x, y, k=1.):
  """Sensitive to the order of the arguments"""
  CALLS.append((np.copy(x), np.copy(y), k))
  return float(np.mean((x - y)**2) + .1 * np.mean(np.abs(y))) * k


def build(sp):
  from sample import optimize
  kw = {k: space_of(k) for k in sp["keys"]}
  fixed = sounds.params(sp["fixed"])
  cls = spy_class()
  args = {"loss_fn": loss_fn}
  if sp["model"] == "spy":
    args["model"] = cls(**fixed)
  else:
    fixed = {}
    if sp["remap"] != "default":
      fixed = None
  if sp["loss_kw"] is not None:
    args["loss_kw"] = dict(sp["loss_kw"])
  if sp["remap"] == "none":
    args["remap"] = None
  elif sp["remap"] == "custom":
    args["remap"] = custom_remap
  if sp["clip"] is not None:
    args["clip"] = sp["clip"]
  return optimize.SAMPLEOptimizer(**args, **kw), args.get("model"), fixed


def remapped(sp, kw):
  if sp["remap"] == "none":
    return dict(kw)
  if sp["remap"] == "custom":
    return custom_remap(**kw)
  return expected_remap(kw)


def reference(sp, fixed, x, fs, point, extra, peak):
  """Plain model, its resynthesis, and its loss"""
  from sample import SAMPLE
  kw = dict(zip(sp["keys"], point), **extra)
  kw["sinusoidal__tracker__fs"] = fs
  par = remapped(sp, kw)
  m = SAMPLE(**{**fixed, **par}).fit(x)
  y = m.predict(np.arange(x.size) / fs)
  if sp["clip"] is not False:
    y = np.minimum(peak, np.maximum(-peak, y))
  k = (sp["loss_kw"] or {}).get("k", 1.)
  return m, y, (np.mean((x - y)**2) + .1 * np.mean(np.abs(y))) * k


def audio(case):
  s = dict(case["sound"])
  x = sounds.render(s)
  return x, s["fs"]


def sound_strategy(lo=.08, hi=.2):
  return sounds.sounds(fs=(8000,), max_partials=3, dur=(lo, hi),
                       kinds=["modal", "modal", "modal", "modal", "silence"])


# --- Losses of points ---------------------------------------------------------
@st.composite
def loss_cases(draw):
  sp = draw(spaces())
  sp["model"] = "spy"
  if sp["remap"] == "default" and "sinusoidal__log_n" not in sp["keys"]:
    sp["keys"].append("sinusoidal__log_n")
  left = sorted(set(DIRECT) - set(sp["keys"]) - {"max_n_modes"})
  return {
      "space": sp,
      "sound": draw(sound_strategy()),
      "points": draw(st.lists(point_strategy(sp["keys"]), min_size=1,
                              max_size=3)),
      "extra": {k: draw(st.sampled_from(space_of(k))) for k in draw(
          st.lists(st.sampled_from(left), max_size=1))} if left else {},
      "override": draw(st.sampled_from([None, None, None, "x", "fs"])),
      "bad": draw(st.sampled_from([0, 0, 1, -1])),
      "tuple": draw(bools),
  }


def check_loss(case, ctx):
  clear()
  del CALLS[:]
  sp = case["space"]
  o, model, fixed = build(sp)
  x, fs = audio(case)
  keep = x.copy()
  before = {k: v for k, v in model.get_params(deep=True).items()}
  loss = o.loss(x, fs) if case["tuple"] else o.loss(x=x, fs=fs)
  require(list(o.dimensions) == sp["keys"], "dimensions are %r",
          list(o.dimensions))
  peak = np.max(np.abs(x))
  found = False
  for p in case["points"]:
    over = {}
    xx, ff = x, fs
    if case["override"] == "x":
      xx = over["x"] = x[::-1].copy()
    elif case["override"] == "fs":
      ff = over["sinusoidal__tracker__fs"] = 6000
    if sp["keys"] and case["bad"]:
      q = p + p[:1] if case["bad"] > 0 else p[:-1]
      raises(ValueError, loss, q, what="wrong number of parameters")
    clear()
    del CALLS[:]
    got = loss(tuple(p) if case["tuple"] else p, **over, **case["extra"])
    m, y, exp = reference(sp, fixed, xx, ff, p, case["extra"], peak)
    require(len(CALLS) == 1, "the loss function was called %d times",
            len(CALLS))
    cx, cy, _ = CALLS[0]
    same(cx, xx, "first argument of the loss function")
    near(cy, y, "resynthesis given to the loss function", rtol=1e-9,
         atol=1e-10 * (1 + peak))
    near(float(got), float(exp), "loss", rtol=1e-8, atol=1e-14)
    fits = [e for e in LOG if e[0] == "fit"]
    preds = [e for e in LOG if e[0] == "predict"]
    require(len(fits) == 1 and len(preds) == 1, "%d fits and %d resyntheses "
            "for a point", len(fits), len(preds))
    require(fits[0][1] is not model, "the loss fit the search's own model")
    require(isinstance(preds[0][3], str) and preds[0][3] == "random",
            "phases are %r instead of random", preds[0][3])
    near(preds[0][2], np.arange(xx.size) / ff, "times of the resynthesis")
    found = found or m.freqs_.size > 0
  same(x, keep, "audio")
  require(o.model is model, "the search's model was replaced")
  after = model.get_params(deep=True)
  require(set(after) == set(before), "parameters of the model changed")
  for k, v in before.items():
    require(after[k] is v or sounds.equal(after[k], v),
            "parameter %s of the search's model became %r", k, after[k])
  require(not hasattr(model, "param_matrix_"), "the search's model was fit")
  ctx.nontrivial(found and bool(sp["keys"]))
  ctx.tag("remap-" + sp["remap"])


# --- Searches -----------------------------------------------------------------
@st.composite
def search_cases(draw):
  sp = draw(spaces())
  if not sp["keys"]:
    sp["keys"].append("sinusoidal__t")
  return {
      "space": sp,
      "sound": draw(sound_strategy(.3, .4)),
      "calls": draw(st.lists(st.fixed_dictionaries({
          "n": st.integers(1, 5),
          "initial": st.integers(1, 5),
          "continue": st.sampled_from([True, True, False]),
          "explicit": st.sampled_from([False, False, True]),
          "fit_kws": st.sampled_from([None, None, {}, {
              "sinusoidal__tracker__min_sine_dur": .03}]),
          "ignore": bools,
          "positional": bools,
          "callback": bools,
      }), min_size=1, max_size=3)),
      "engine": draw(st.sampled_from(["dummy"] * 7 + ["gp"])),
      "random_state": draw(st.integers(0, 1000)),
  }


def params_match(got, exp, what):
  g = got.get_params(deep=True)
  for k, v in exp.items():
    require(k in g, "%s has no parameter %s", what, k)
    require(sounds.equal(g[k], v), "%s: %s is %r, expected %r", what, k, g[k],
            v)


def check_search(case, ctx):
  sp = case["space"]
  o, model, fixed = build(sp)
  if fixed is None:
    ctx.reject()
  x, fs = audio(case)
  keep = x.copy()
  peak = np.max(np.abs(x))
  own = o.model
  res, hist, vals = None, [], []
  found = False
  for c in case["calls"]:
    kw = {"n_calls": c["n"], "n_initial_points": min(c["initial"], c["n"]),
          "random_state": case["random_state"]}
    if case["engine"] == "dummy":
      kw["base_estimator"] = "dummy"
    if c["fit_kws"] is not None:
      kw["fit_kws"] = dict(c["fit_kws"])
    if not c["ignore"]:
      kw["ignore_warnings"] = False
    seen = []
    if c["callback"]:
      kw["callback"] = lambda r: seen.append(len(r.x_iters))
    if c["continue"] and res is not None:
      if c["explicit"]:
        kw.update(x0=list(res.x_iters), y0=list(res.func_vals))
      else:
        kw["state"] = res
      old, oldv = [list(p) for p in res.x_iters], list(res.func_vals)
    else:
      old, oldv = [], []
    clear()
    del CALLS[:]
    if sp["model"] == "default":
      spy = None
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      best, res = o.gp_minimize(x, fs, **kw) if c["positional"] else \
          o.gp_minimize(x=x, fs=fs, **kw)
    n = len(old) + c["n"]
    require(len(res.x_iters) == n and len(res.func_vals) == n,
            "%d evaluations after %d more than %d", len(res.x_iters), c["n"],
            len(old))
    require(len(CALLS) == c["n"], "%d evaluations of the loss, requested %d",
            len(CALLS), c["n"])
    for a, b in zip(old, res.x_iters):
      require(list(a) == list(b), "an earlier point became %r from %r", b, a)
    same(np.asarray(res.func_vals[:len(old)]), oldv, "earlier losses")
    if sp["model"] == "spy":
      # Every reported value is the loss of its point
      for p, v in zip(res.x_iters[len(old):], res.func_vals[len(old):]):
        m, _, exp = reference(sp, fixed, x, fs, p, {}, peak)
        near(float(v), float(exp), "reported loss", rtol=1e-8, atol=1e-14)
        found = found or m.freqs_.size > 0
    for p in res.x_iters:
      for k, v in zip(sp["keys"], p):
        s = space_of(k)
        if isinstance(s, list):
          require(v in s, "%s: %r is not in the space", k, v)
        else:
          require(s[0] <= v <= s[1], "%s: %r is not in the space", k, v)
    i = int(np.argmin(res.func_vals))
    require(res.fun == res.func_vals[i], "best loss is %r, not %r", res.fun,
            res.func_vals[i])
    # The reported model
    par = remapped(sp, dict(zip(sp["keys"], res.x),
                            sinusoidal__tracker__fs=fs))
    par.update(c["fit_kws"] or {})
    require(best is not own and type(best) is type(own),
            "the best model is a %r", type(best))
    params_match(best, {**fixed, **par}, "the best model")
    from sample import SAMPLE
    ref = SAMPLE(**{**fixed, **par}).fit(x)
    near(best.param_matrix_, ref.param_matrix_, "modes of the best model",
         rtol=1e-9)
    require(o.model is own, "the search's model was replaced")
    require(not hasattr(own, "param_matrix_"), "the search's model was fit")
    if c["callback"]:
      require(seen and seen[-1] == n, "the callback saw %r evaluations", seen)
  same(x, keep, "audio")
  ctx.nontrivial(found)
  ctx.tag(case["engine"], "remap-" + sp["remap"])


# --- Progress bar -------------------------------------------------------------
def bar_cases():
  return st.fixed_dictionaries({
      "keys": st.lists(st.sampled_from(sorted(DIRECT)), min_size=1,
                       max_size=3, unique=True),
      "total": st.integers(1, 20),
      "initial": opt(st.integers(0, 6)),
      "minimum": opt(bools),
      "history": st.lists(st.sampled_from(["call", "call", "call", "call",
                                           "reset", "start"]), max_size=12),
      "values": st.lists(fl(-3, 3), min_size=3, max_size=3),
  })


class Bar:

  def __init__(self, total=None):
    self.total = total
    self.n = 0
    self.closed = False
    self.text = None

  def update(self, n=1):
    self.n += n

  def close(self):
    self.closed = True

  def set_postfix_str(self, s="", refresh=True):
    self.text = s


def check_bar(case, ctx):
  from scipy import optimize as so
  from sample import optimize
  o = optimize.SAMPLEOptimizer(**{k: space_of(k) for k in case["keys"]})
  bars = []

  def factory(total=None, **kw):
    bars.append(Bar(total))
    return bars[-1]

  kw = {}
  if case["initial"] is not None:
    kw["n_initial_points"] = case["initial"]
  if case["minimum"] is not None:
    kw["minimum"] = case["minimum"]
  cb = optimize.TqdmCallback(o, case["total"], tqdm_fn=factory, **kw)
  initial = case["initial"] or 0
  n, started, made = 0, False, 0
  for a in case["history"]:
    require(bool(cb.started) == started, "started is %r", cb.started)
    if a == "reset":
      require(cb.reset() is cb, "reset does not return the callback")
      if started:
        require(bars[-1].closed, "the bar was not closed")
      n, started = 0, False
    elif a == "start":
      if started:
        continue
      require(cb.start() is cb, "start does not return the callback")
      n, started, made = 0, True, made + 1
      require(cb.i == 0, "the count starts from %r", cb.i)
    else:
      if not started:
        made, started = made + 1, True
      n += 1
      x = [round(v, 3) for v in case["values"][:len(case["keys"])]]
      cb(so.OptimizeResult(x=x, fun=n / 8))
      require(cb.i == n and bars[-1].n == n, "%d calls were counted %r and "
              "%r times", n, cb.i, bars[-1].n)
      text = bars[-1].text
      require(("randomize" in text) == (n <= initial) and
              ("minimize" in text) == (n > initial),
              "call %d of %d initial ones: %s", n, initial, text)
      if case["minimum"] is not False:
        require(str(n / 8) in text, "the minimum %r is not in: %s", n / 8,
                text)
        for k, v in zip(case["keys"], x):
          require(f"{k}={v}" in text, "%s=%r is not in: %s", k, v, text)
      else:
        require("minimum" not in text, "unrequested minimum: %s", text)
    require(len(bars) == made, "%d bars, expected %d", len(bars), made)
    if bars:
      require(bars[-1].total == case["total"], "total is %r", bars[-1].total)
  ctx.nontrivial(n > 1)


SUBS = [
    Sub("remapper", remap_cases, check_remap, quick=800),
    Sub("loss", loss_cases, check_loss, quick=360, shards=3, teardown=clear),
    Sub("search", search_cases, check_search, quick=100, shards=4,
        teardown=clear),
    Sub("progress", bar_cases, check_bar, quick=400),
]
