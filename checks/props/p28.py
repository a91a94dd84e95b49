"""P28: deprecated names keep working exactly like the new ones"""
import inspect
import warnings

import numpy as np
import sounds
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P28"
RULE = (
    "A case spells some arguments of a constructor, method or function with "
    "their deprecated names and the rest with the current ones; the oracle "
    "is the same call with current names only, plus one warning per "
    "deprecated name. The helpers behind (renaming, variants, warning "
    "filters, defaults) are exercised on generated functions against plain "
    "Python models. Non-trivial: at least one deprecated name (variants: more "
    "than one option; filters: a warning was issued).")
ASSUMPTIONS = [
    "An old and a new name of the same argument are never given together",
    "safe_sine_len is judged by its known finding only",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def call(func, *args, **kwargs):
  """Result, and the deprecation warnings issued"""
  from sample.utils import SAMPLEDeprecationWarning
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    r = func(*args, **kwargs)
  d = [v for v in w if issubclass(v.category, DeprecationWarning)
       and issubclass(v.category, SAMPLEDeprecationWarning)]
  return r, [str(v.message) for v in d]


def judge(msgs, old):
  """Exactly one message per deprecated name"""
  require(len(msgs) == len(old), "%d warnings for deprecated names %r: %r",
          len(msgs), old, msgs)
  left = list(msgs)
  for k in old:
    m = [v for v in left if f"'{k}'" in v]
    require(m, "no warning names %r: %r", k, msgs)
    left.remove(m[0])


# --- Parameters of models -----------------------------------------------------
TRACKER = {
    "max_n_sines": [1, 5, 100],
    "min_sine_dur": [0, .01, .05],
    "freq_dev_offset": [20, 50, 5],
    "freq_dev_slope": [.01, .1, 0],
    "fs": [8000, 11025],
    "h": [16, 50, 64],
}
MODAL = {
    "reverse": [True, False],
    "frequency_bounds": [[20, 16000], [None, 2000]],
    "peak_threshold": [-90, -60],
    "merge_strategy": ["average", "single"],
    "strip_t": [None, .1],
}
OTHER = {
    "save_intermediate": [True, False],
    "n": [256, 512],
    "t": [-90, -60],
    "padded": [True, False],
}
ALL = {**TRACKER, **MODAL, **OTHER}
CURRENT = {
    "save_intermediate": "intermediate__save",
    "n": "n",
    "t": "t",
    "padded": "padded",
    **{k: f"tracker__{k}" for k in (*TRACKER, *MODAL)},
}


@st.composite
def model_cases(draw):
  cls = draw(st.sampled_from(["SAMPLE", "SAMPLE", "ModalModel",
                              "SinusoidalModel", "SAMPLEBeatsDROP"]))
  pool = [k for k in ALL if cls != "SinusoidalModel" or k not in MODAL]
  calls = []
  for i in range(draw(st.integers(1, 3))):
    how = "init" if i == 0 else draw(st.sampled_from(["set", "set", "fit"]))
    ks = draw(st.lists(st.sampled_from(pool), max_size=4, unique=True))
    calls.append({
        "how": how,
        "kw": [[k, draw(st.sampled_from(ALL[k])), draw(bools), draw(bools)]
               for k in ks],
        "cls": draw(st.sampled_from([None, None, None, True])),
        "whole": draw(st.sampled_from([None, None, None, True, False])),
        "pos": draw(bools),
    })
  return {"cls": cls, "calls": calls, "seed": draw(seeds)}


def check_models(case, ctx):
  from sample import SAMPLE
  from sample.beatsdrop.decision import BeatDecisor
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sample.sms import mm, sm
  cls = {"SAMPLE": SAMPLE, "SAMPLEBeatsDROP": SAMPLEBeatsDROP,
         "ModalModel": mm.ModalModel,
         "SinusoidalModel": sm.SinusoidalModel}[case["cls"]]
  top = case["cls"].startswith("SAMPLE")
  tcls = sm.SineTracker if case["cls"] == "SinusoidalModel" else \
      mm.ModalTracker
  x = np.sin(np.arange(800) * .5) * np.exp(-np.arange(800) / 300) + \
      1e-3 * np.random.default_rng(case["seed"]).normal(size=800)
  fit_kw = {"n": 256, "w": np.hamming(101), "tracker__fs": 8000,
            "tracker__h": 50}
  models = []
  n_old = 0
  for c in case["calls"]:
    old_kw, new_kw, used = {}, {}, []
    # A whole sub-model
    if top and c["whole"] is not None:
      a, b = (mm.ModalModel(w=np.hamming(101), n=300) for _ in range(2))
      new_kw["sinusoidal"] = b
      if c["whole"]:
        old_kw["sinusoidal_model"] = a
        used.append("sinusoidal_model")
      else:
        old_kw["sinusoidal"] = a
    for k, v, inner, outer in c["kw"]:
      v = tuple(v) if isinstance(v, list) else v
      name = CURRENT[k]
      key = k if inner and name != k else name
      if top:
        new_kw[f"sinusoidal__{name}"] = v
        pre = "sinusoidal_model" if outer else "sinusoidal"
        old_kw[f"{pre}__{key}"] = v
        if outer:
          used.append(f"{pre}__{key}")
      else:
        new_kw[name] = v
        old_kw[key] = v
      if key != name:
        used.append(key)
    if c["cls"] and not (top and c["whole"] is not None):
      p = "sinusoidal__" if top else ""
      new_kw = {p + "tracker": tcls(), **new_kw}
      old_kw[p + "sine_tracker_cls"] = tcls
      used.append("sine_tracker_cls")
    if c["how"] == "init":
      if case["cls"] == "SAMPLEBeatsDROP":
        old_kw["beat_decisor"] = BeatDecisor()
        new_kw["beat_decisor"] = BeatDecisor()
      if not top and c["pos"]:
        w = np.hamming(101)
        f = lambda kw: cls(w, **kw)
      else:
        f = lambda kw: cls(**kw)
      (a, m1), (b, m2) = call(f, old_kw), call(f, new_kw)
      models = [a, b]
    else:
      if c["how"] == "fit":
        if case["cls"] == "SAMPLEBeatsDROP":
          continue
        # Small enough to be quick
        for m in models:
          m.set_params(**{("sinusoidal__" if top else "") + k: v
                          for k, v in fit_kw.items()})
        _, m1 = call(models[0].fit, x, **old_kw)
        _, m2 = call(models[1].fit, x, **new_kw)
        if top:
          same(models[0].param_matrix_, models[1].param_matrix_, "modes")
        ta, tb = ((m.sinusoidal if top else m).tracks_ for m in models)
        require(sounds.equal(ta, tb), "tracks differ")
        ctx.tag("fit")
      else:
        r, m1 = call(models[0].set_params, **old_kw)
        require(r is models[0], "set_params does not return the model")
        _, m2 = call(models[1].set_params, **new_kw)
    judge(m1, used)
    require(not m2, "warnings for current names: %r", m2)
    n_old += len(used)
    # Same parameters
    pa, pb = (m.get_params(deep=True) for m in models)
    require(set(pa) == set(pb), "parameters %r and %r differ", sorted(pa),
            sorted(pb))
    for k, v in pb.items():
      if hasattr(v, "get_params"):
        require(type(pa[k]) is type(v), "%s is a %r", k, type(pa[k]))
      elif not callable(v):
        require(sounds.equal(pa[k], v), "%s is %r, expected %r", k, pa[k], v)
  ctx.nontrivial(n_old > 0)
  ctx.tag(case["cls"])


# --- Functions ----------------------------------------------------------------
@st.composite
def func_cases(draw):
  return {
      "func": draw(st.sampled_from([
          "synth", "predict", "wavefun", "ir", "precompute", "bank", "convolve",
          "cochleagram", "loss", "remap"])),
      "value": draw(st.sampled_from([True, False])),
      "str": draw(st.sampled_from([None, "input", "ir", "output"])),
      "f": draw(fl(200, 2000)),
      "seed": draw(seeds),
      "remap": draw(st.dictionaries(
          st.sampled_from(["log_n", "wtype", "wsize", "overlap"]),
          bools, min_size=1)),
      "log_n": draw(st.integers(4, 12)),
      "wtype": draw(st.sampled_from(["hann", "blackman"])),
      "wsize": draw(fl(.3, 1)),
      "overlap": draw(fl(0, .9)),
  }


def flat(r):
  """All the arrays in a result"""
  if isinstance(r, dict):
    return [(k, v) for k in sorted(r) for v in flat(r[k])]
  if isinstance(r, (tuple, list)):
    return [v for e in r for v in flat(e)]
  return [np.asarray(r)] if not hasattr(r, "irs") else flat(list(r.irs))


def check_func(case, ctx):
  from sample import SAMPLE, optimize, psycho
  from sample.evaluation import metrics
  from sample.sample import additive_synth
  rng = np.random.default_rng(case["seed"])
  x = rng.normal(size=400)
  t = np.arange(60) / 8000
  f = case["f"]
  filt = psycho.GammatoneFilter(f)
  bank = psycho.GammatoneFilterbank(freqs=[f, 1.5 * f])
  v = case["value"]
  s = case["str"]
  name = case["func"]
  if name == "remap":
    new = {f"sinusoidal__{k}": case[k] for k in case["remap"]}
    old = {f"sinusoidal_{'model__' if o else '_'}{k}": case[k]
           for k, o in case["remap"].items()}
    used = [k for k in old if k not in new]
    a, m1 = call(optimize.sample_kwargs_remapper, **old)
    b, m2 = call(optimize.sample_kwargs_remapper, **new)
  else:
    used = ["analytical"]
    if name == "synth":
      g, v = additive_synth, v
      args = (t, [f], [.5], [1.])
    elif name == "predict":
      m = SAMPLE()
      m.param_matrix_ = np.array([[f], [.5], [1.]])
      g, args = m.predict, (t,)
    elif name == "wavefun":
      g, args = filt.wavefun, (t,)
    elif name == "ir":
      g, args = filt.ir, (t,)
    elif name == "precompute":
      g, args = bank.precompute, (8000,)
    elif name == "bank":
      g, args = psycho.GammatoneFilterbank.PrecomputedIRBank, (bank, 8000)
    elif name == "convolve":
      g, args, v = bank.convolve, (x, 8000), s
    elif name == "cochleagram":
      g, args, v = (lambda *a, **k: psycho.cochleagram(
          *a, filterbank=bank, **k)), (x, 8000), s
    else:
      y = rng.normal(size=400)
      v = s
      g = lambda **k: metrics.CochleagramLoss(
          fs=8000, freqs=[f, 1.5 * f], **k)(x, y)
      args = ()
    a, m1 = call(g, *args, analytical=v)
    b, m2 = call(g, *args, analytic=v)
  judge(m1, used)
  require(not m2, "warnings for current names: %r", m2)
  fa, fb = flat(a), flat(b)
  require(len(fa) == len(fb), "results have %d and %d parts", len(fa),
          len(fb))
  for u, w in zip(fa, fb):
    if isinstance(u, tuple):
      require(u[0] == w[0], "keys %r and %r", u[0], w[0])
      u, w = u[1], w[1]
    require(u.dtype == w.dtype, "types %s and %s", u.dtype, w.dtype)
    same(u, w, "result of " + name)
  ctx.nontrivial(bool(used))
  ctx.tag(name)


# --- Optimizer ----------------------------------------------------------------
@st.composite
def opt_cases(draw):
  return {
      "kw": draw(st.dictionaries(st.sampled_from(
          ["sinusoidal__t", "max_n_modes", "sinusoidal__log_n",
           "sinusoidal__wsize", "sinusoidal__tracker__h"]),
                                 st.just(0), max_size=3)),
      "t": draw(st.integers(-100, -40)),
      "log_n": draw(st.integers(6, 12)),
      "wsize": draw(fl(.3, 1)),
      "h": draw(st.integers(10, 90)),
      "modes": draw(st.integers(1, 9)),
      "fn": draw(st.sampled_from([None, "class", "function"])),
      "use_kw": draw(bools),
      "remap": draw(st.sampled_from([None, "custom"])),
      "model": draw(bools),
  }


def check_opt(case, ctx):
  from sample import SAMPLE, optimize
  val = {"sinusoidal__t": case["t"], "sinusoidal__log_n": case["log_n"],
         "sinusoidal__wsize": case["wsize"],
         "sinusoidal__tracker__h": case["h"], "max_n_modes": case["modes"]}
  kw = {k: val[k] for k in case["kw"]}
  remap = optimize.sample_kwargs_remapper
  common = {}
  if case["remap"] == "custom":
    kw = {k: v for k, v in kw.items() if k not in
          ("sinusoidal__log_n", "sinusoidal__wsize")}

    def remap(**k):
      if "max_n_modes" in k:
        k["max_n_modes"] += 1
      return k

    common["remap"] = remap
  old, used = {}, []
  fn = None
  if case["fn"] is not None:
    fn = SAMPLE if case["fn"] == "class" else (
        lambda **k: SAMPLE(regressor_k="coef_", **k))
    old["sample_fn"] = fn
    used.append("sample_fn")
  if case["use_kw"]:
    given = dict(kw)
    old["sample_kw"] = given
    used.append("sample_kw")
  else:
    kw = {}
  if fn is None and case["model"]:
    old["model"] = SAMPLE(regressor_q="intercept_")
  exp = (fn or SAMPLE)(**remap(**kw)) if case["use_kw"] or fn else SAMPLE()
  if fn is None and case["model"]:
    exp.set_params(regressor_q="intercept_")
  dims = {"sinusoidal__tracker__min_sine_dur": (0., .1)}
  o, msgs = call(optimize.SAMPLEOptimizer, **old, **common, **dims)
  judge(msgs, used)
  o2, msgs = call(optimize.SAMPLEOptimizer, model=exp, **common, **dims)
  require(not msgs, "warnings for current names: %r", msgs)
  require(list(o.dimensions) == list(o2.dimensions) == list(dims),
          "dimensions are %r", list(o.dimensions))
  pa, pb = (v.model.get_params(deep=True) for v in (o, o2))
  require(set(pa) == set(pb), "parameters differ")
  for k, v in pb.items():
    if not hasattr(v, "get_params") and not callable(v):
      require(sounds.equal(pa[k], v), "%s is %r, expected %r", k, pa[k], v)
  if case["use_kw"]:
    require(given == kw, "the given dictionary was changed to %r", given)
  ctx.nontrivial(bool(used))


# --- Generated deprecations ---------------------------------------------------
NAMES = ["a", "ab", "b", "c", "size", "size_x", "old", "old_x", "new", ""]


@st.composite
def dep_cases(draw):
  layers = []
  for _ in range(draw(st.integers(1, 3))):
    kind = draw(st.sampled_from(["name", "name", "prefix", "convert"]))
    layers.append({
        "kind": kind,
        "old": draw(st.sampled_from(["old", "size", "a", "c"])),
        "new": draw(st.sampled_from(["new", "b", "x", "y"])),
        "msg": draw(st.sampled_from([None, None, "Extra words"])),
        "warn": draw(st.sampled_from([True, True, True, False])),
    })
  keys = draw(st.lists(st.sampled_from(
      ["old", "old_x", "size", "size_", "a", "ab", "a1", "c", "z", "old_old",
       "size_of_size", "aba", "x_old", "z_size", "ca", "cc"]),
                       unique=True, max_size=4))
  return {
      "layers": layers,
      "args": draw(st.lists(st.integers(0, 9), max_size=3)),
      "kw": [[k, draw(st.integers(0, 9))] for k in keys],
      "method": draw(bools),
      "fails": draw(st.sampled_from([False, False, False, True])),
  }


def check_dep(case, ctx):
  from sample.utils import deprecated_argument
  seen = []

  def func(*args, **kwargs):
    """Documentation"""
    seen.append((args, kwargs))
    if case["fails"]:
      raise LookupError("as written")
    return "result"

  g = func
  for l in reversed(case["layers"]):
    kw = {"warn": l["warn"]}
    if l["msg"] is not None:
      kw["msg"] = l["msg"]
    if l["kind"] == "name":
      g = deprecated_argument(l["old"], l["new"], **kw)(g)
    elif l["kind"] == "prefix":
      g = deprecated_argument(l["old"], l["new"], prefix=True, **kw)(g)
    else:

      def convert(*args, l=l, **kwargs):
        return l["new"], (len(args), kwargs[l["old"]], sorted(kwargs))

      g = deprecated_argument(l["old"], convert=convert, **kw)(g)
  require(g.__doc__ == "Documentation" and g.__name__ == "func",
          "name or documentation lost")
  args = list(case["args"])
  # Reference
  kw = dict(case["kw"])
  exp, msgs = dict(kw), []
  for l in case["layers"]:
    if l["kind"] == "prefix":
      ren = [(k, l["new"] + k[len(l["old"]):]) for k in list(exp)
             if k.startswith(l["old"])]
    else:
      ren = [(l["old"], l["new"])] if l["old"] in exp else []
    if len({b for _, b in ren} | set(exp)) < len(ren) + len(exp):
      ctx.reject()  # Old and new names given together
    for o, n in ren:
      if l["kind"] == "convert":
        v = (len(args) + case["method"], exp[o], sorted(exp))
      else:
        v = exp[o]
      del exp[o]
      exp[n] = v
      if l["warn"]:
        msgs.append(f"The '{o}' argument is deprecated, use '{n}' instead." +
                    ("" if l["msg"] is None else " " + l["msg"]))
  given = dict(kw)
  if case["method"]:
    cls = type("C", (), {"g": g})
    o = cls()
    f = o.g
  else:
    f = g
  if case["fails"]:
    r, got = call(lambda: raises(LookupError, f, *args, **kw,
                                 what="failing function"))
  else:
    r, got = call(f, *args, **kw)
    require(r == "result", "returned %r", r)
  require(len(seen) == 1, "called %d times", len(seen))
  require(kw == given, "arguments were changed to %r", kw)
  a, k = seen[0]
  if case["method"]:
    require(a[0] is o, "self is %r", a[0])
    a = a[1:]
  require(list(a) == args, "positional arguments are %r", a)
  require(k == exp, "keyword arguments are %r, expected %r", k, exp)
  require(got == msgs, "warnings are %r, expected %r", got, msgs)
  ctx.nontrivial(bool(msgs))


def check_dep_bad(case, ctx):
  from sample.utils import deprecated_argument
  kw = {}
  if case["convert"]:
    kw["convert"] = lambda *a, **k: ("x", 1)
  if case["prefix"]:
    kw["prefix"] = True
  if case["prefix"] or not case["convert"]:
    raises(ValueError, deprecated_argument, case["old"], **kw,
           what="no new name")
    ctx.nontrivial()
  else:
    deprecated_argument(case["old"], **kw)


# --- Variants -----------------------------------------------------------------
@st.composite
def variant_cases(draw):
  name = st.text("abcdefgh ", min_size=1, max_size=5)
  return {
      "options": draw(st.lists(name, unique=True, max_size=5)),
      "this": draw(opt(name)),
      "default": draw(opt(name)),
      "key": draw(st.sampled_from([None, "mode", "kind"])),
      "style": draw(bools),
      "calls": draw(st.lists(st.fixed_dictionaries({
          "which": st.one_of(st.none(), st.integers(0, 6), name),
          "args": st.lists(st.integers(0, 9), max_size=3),
          "kw": st.dictionaries(st.sampled_from(["p", "q"]), st.integers(0, 9)),
          "fails": st.sampled_from([False, False, False, True]),
      }), min_size=1, max_size=6)),
      "late": draw(opt(name)),
  }


def check_variants(case, ctx):
  from sample import utils
  log = []

  def make(tag):

    def f(*args, fails=False, **kwargs):
      log.append((tag, args, kwargs))
      if fails:
        raise KeyError(tag)
      return tag

    return f

  kw = {}
  if case["key"] is not None:
    kw["key"] = case["key"]
  if case["default"] is not None:
    kw["default"] = case["default"]
  if case["this"] is not None:
    kw["this"] = case["this"]
  main = make("<main>")
  main.__name__ = "main"
  f = utils.function_with_variants(**kw)(main) if case["style"] else \
      utils.function_with_variants(main, **kw)
  key = case["key"] or "type"
  default = case["default"] or "default"
  ref = {} if case["this"] is None else {case["this"]: "<main>"}

  def register(o, tag):
    g = make(tag)
    r = utils.function_variant(f, o)(g) if case["style"] else \
        utils.function_variant(f, o, g)
    require(r is g, "registering a variant replaced it")
    ref[o] = tag

  for o in case["options"]:
    register(o, o)
  p = inspect.signature(f).parameters
  require(key in p and p[key].default == default, "signature is %s",
          inspect.signature(f))
  for i, c in enumerate(case["calls"]):
    if i == 2 and case["late"] is not None:
      register(case["late"], "late")
    w = c["which"]
    if isinstance(w, int):
      w = sorted(ref)[w % len(ref)] if ref else None
    kw = dict(c["kw"])
    if w is not None:
      kw[key] = w
    w = default if w is None else w
    del log[:]
    if w not in ref:
      e = raises(ValueError, f, *c["args"], **kw, what="unknown variant")
      require(not log, "a variant ran anyway")
      for o in (*ref, w, key):
        require(f"'{o}'" in str(e), "%r is not in: %s", o, e)
    else:
      if c["fails"]:
        e = raises(KeyError, f, *c["args"], fails=True, **kw,
                   what="failing variant")
      else:
        r = f(*c["args"], **kw)
        require(r == ref[w], "variant %r ran %r", w, r)
      require(log == [(ref[w], tuple(c["args"]), c["kw"])],
              "called %r, expected variant %r with %r and %r", log, ref[w],
              c["args"], c["kw"])
  ctx.nontrivial(len(ref) > 1)


# --- Filters ------------------------------------------------------------------
@st.composite
def filter_cases(draw):
  return {
      "toggle": draw(opt(bools)),
      "given": draw(opt(bools)),
      "traces": draw(bools),
      "emit": draw(st.lists(st.sampled_from(["Runtime", "User", "Syntax"]),
                            max_size=4)),
      "action": draw(st.sampled_from(["ignore", "ignore", "error", "always"])),
      "fails": draw(bools),
      "style": draw(bools),
      "calls": draw(st.integers(1, 3)),
  }


CATS = {"Runtime": RuntimeWarning, "User": UserWarning,
        "Syntax": SyntaxWarning}


def check_filter(case, ctx):
  from sample import utils
  runs = []

  def func(*args, **kwargs):
    runs.append((args, kwargs))
    for i, k in enumerate(case["emit"]):
      warnings.warn(f"{k}-{i}", CATS[k])
    if case["fails"]:
      raise LookupError("as written")
    return "result"

  traces = []
  kw = {"action": case["action"], "category": RuntimeWarning}
  if case["toggle"] is not None:
    kw["toggle"] = ("quiet", case["toggle"])
  if case["traces"]:
    kw.update(catch_kws={"record": True}, traces=traces)
  g = utils.warnings_simplefilter(**kw)(func) if case["style"] else \
      utils.warnings_simplefilter(func, **kw)
  on = case["toggle"] is None or (
      case["toggle"] if case["given"] is None else case["given"])
  ckw = {"p": 3}
  if case["toggle"] is not None and case["given"] is not None:
    ckw["quiet"] = case["given"]
  for n in range(case["calls"]):
    del runs[:]
    with warnings.catch_warnings(record=True) as outer:
      warnings.simplefilter("always")
      before = list(warnings.filters)
      show = warnings.showwarning
      stop = on and case["action"] == "error" and "Runtime" in case["emit"]
      if stop:
        raises(RuntimeWarning, g, 1, **ckw, what="warnings as errors")
      elif case["fails"]:
        raises(LookupError, g, 1, **ckw, what="failing function")
      else:
        require(g(1, **ckw) == "result", "the result was lost")
      require(list(warnings.filters) == before and
              warnings.showwarning is show, "filters changed after the call")
      warnings.warn("after", RuntimeWarning)
    require(runs == [((1,), {"p": 3})], "called as %r", runs)
    emitted = [f"{k}-{i}" for i, k in enumerate(case["emit"])]
    if stop:
      emitted = emitted[:case["emit"].index("Runtime")]
    passed = [m for m in emitted if not (
        on and case["action"] == "ignore" and m.startswith("Runtime"))]
    inner = on and case["traces"]
    got = [str(w.message) for w in outer]
    require(got == ([] if inner else passed) + ["after"],
            "warnings outside are %r, expected %r", got,
            ([] if inner else passed) + ["after"])
    if inner:
      require(len(traces) == n + 1 and
              [str(w.message) for w in traces[-1]] == passed,
              "recorded warnings are %r, expected %r", traces, passed)
    else:
      require(not any(traces), "unrequested record %r", traces)
  ctx.nontrivial(bool(case["emit"]))


class Warner:
  """Frequency reduction which warns"""

  def __init__(self, emit):
    self.emit = emit

  def __call__(self, f):
    for k in self.emit:
      warnings.warn("reduce-" + k, CATS[k])
    return float(np.mean(f))


def check_fit_filter(case, ctx):
  """Runtime warnings of a fit are ignored, unless asked"""
  from sample import SAMPLE
  t = np.arange(2000) / 8000
  x = np.exp(-8 * t) * np.sin(2 * np.pi * case["f"] * t)
  kw = {} if case["ignore"] is None else {"ignore_warnings": case["ignore"]}
  m = SAMPLE(sinusoidal__n=512, sinusoidal__w=np.hamming(255),
             sinusoidal__tracker__fs=8000, sinusoidal__tracker__h=64,
             sinusoidal__tracker__max_n_sines=1,
             freq_reduce=Warner(case["emit"]))
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    m.fit(x, **kw)
    warnings.warn("after", RuntimeWarning)
  n = len(m.sinusoidal.tracks_)
  got = [str(v.message) for v in w if str(v.message)[:6] in
         ("reduce", "after")]
  exp = [f"reduce-{k}" for k in case["emit"]
         if k != "Runtime" or case["ignore"] is False] * n + ["after"]
  require(got == exp, "warnings are %r, expected %r", got, exp)
  require("ignore_warnings" not in m.get_params(), "a parameter was added")
  ctx.nontrivial(n > 0 and bool(case["emit"]))


# --- Defaults -----------------------------------------------------------------
def kws_cases():
  v = st.one_of(st.none(), st.integers(-2, 2), st.just(0), st.just(""),
                st.text(max_size=2), bools)
  d = st.dictionaries(st.sampled_from(["a", "b", "c", "e"]), v)
  return st.fixed_dictionaries({"given": opt(d), "defaults": d})


def check_kws(case, ctx):
  from sample.utils import comma_join_quote, default_kws
  g = None if case["given"] is None else dict(case["given"])
  r = default_kws(g, **case["defaults"]) if g is not None else \
      default_kws(**case["defaults"])
  exp = {**case["defaults"], **(case["given"] or {})}
  require(r == exp and all(type(r[k]) is type(exp[k]) for k in exp),
          "arguments are %r, expected %r", r, exp)
  require(g == case["given"], "the given dictionary was changed to %r", g)
  r["z"] = 1
  require(g is None or "z" not in g, "the given dictionary is shared")
  require(default_kws(None, **case["defaults"]) == case["defaults"],
          "defaults for None")
  names = list(exp.values())
  require(comma_join_quote(names) == ", ".join("'%s'" % v for v in names),
          "joined as %s", comma_join_quote(names))
  ctx.nontrivial(bool(set(case["given"] or ()) & set(case["defaults"])))


# --- Signatures ---------------------------------------------------------------
@st.composite
def sig_cases(draw):
  names = draw(st.lists(st.sampled_from("abcdef"), unique=True, max_size=4))
  n = draw(st.integers(0, len(names)))
  return {
      "pos": names[:n],
      "kwonly": names[n:],
      "var": draw(bools),
      "varkw": draw(bools),
      "name": draw(st.sampled_from("abcdefg")),
      "style": draw(bools),
  }


def check_sig(case, ctx):
  from sample.utils import add_keyword_arg
  src = list(case["pos"])
  if case["var"]:
    src.append("*args")
  elif case["kwonly"]:
    src.append("*")
  src += [f"{k}=1" for k in case["kwonly"]]
  if case["varkw"]:
    src.append("**kws")
  ns = {}
  exec(f"def f({', '.join(src)}): return {len(src)}", ns)  # pylint: disable=W0122
  f = ns["f"]
  before = list(inspect.signature(f).parameters)
  kw = {"name": case["name"], "default": 7, "annotation": int}
  g = add_keyword_arg(**kw)(f) if case["style"] else add_keyword_arg(f, **kw)
  require(g is f, "the function was replaced")
  p = inspect.signature(g).parameters
  exp = [k for k in before if k != case["name"]]
  i = len(exp) - int(case["varkw"])
  exp.insert(i, case["name"])
  require(list(p) == exp, "parameters are %r, expected %r", list(p), exp)
  q = p[case["name"]]
  require(q.kind == q.KEYWORD_ONLY and q.default == 7 and q.annotation is int,
          "the parameter is %r", q)
  ctx.nontrivial(len(before) > 1)


def sine_len_known():
  """safe_sine_len is in frames, but it becomes a duration in seconds"""
  from sample.sms import sm
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    m = sm.SinusoidalModel(safe_sine_len=2)
  return m.tracker.min_sine_len != 2 and m.tracker.min_sine_dur >= 2


PROBES = [("safe-sine-len-seconds", sine_len_known)]

SUBS = [
    Sub("models", model_cases, check_models, quick=800, shards=3),
    Sub("functions", func_cases, check_func, quick=500),
    Sub("optimizer", opt_cases, check_opt, quick=300),
    Sub("renaming", dep_cases, check_dep, quick=1200),
    Sub("renaming_errors", lambda: st.fixed_dictionaries({
        "convert": bools, "prefix": bools, "old": st.sampled_from("ab")}),
        check_dep_bad, quick=20),
    Sub("variants", variant_cases, check_variants, quick=800),
    Sub("filters", filter_cases, check_filter, quick=600),
    Sub("fit_filter", lambda: st.fixed_dictionaries({
        "f": fl(300, 3000),
        "ignore": opt(bools),
        "emit": st.lists(st.sampled_from(["Runtime", "User"]), max_size=3),
    }), check_fit_filter, quick=100),
    Sub("defaults", kws_cases, check_kws, quick=400),
    Sub("signatures", sig_cases, check_sig, quick=300),
]
