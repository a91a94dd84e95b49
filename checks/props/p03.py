"""P03: a fit depends only on its arguments, never on history"""
import copy

import numpy as np
import sounds
from core import Sub, arr, fail, require, same
from gens import bools, fl, opt, seeds, st

PROPERTY = "P03"
RULE = (
    "A case is a history of up to 12 operations (build, clone, set "
    "parameters, fit with or without parameters, resynthesize, edit the "
    "estimates, rebuild from the parameters, replace or share sub-models) on "
    "a pool of SAMPLE and SAMPLEBeatsDROP models and three generated sounds. "
    "The oracle keeps each model's configuration as a plain dictionary and "
    "compares every fit, bitwise, with a brand new model. Non-trivial: at "
    "least two fits, of which one refit or fit of a clone, with modes found.")
ASSUMPTIONS = [
    "Beat regression is replaced with a stub estimator of the same interface",
]

BASE = {
    "n": 512, "w": ["hamming", 256], "t": -90, "h": 64, "max_n_sines": 12,
    "min_sine_dur": .02, "freq_dev_offset": 20, "freq_dev_slope": .01,
    "reverse": False, "frequency_bounds": [20, 16000], "peak_threshold": -90,
    "merge_strategy": "average", "strip_t": None, "padded": False,
    "save": False, "freq_reduce": "mean", "max_n_modes": None,
}
CHOICES = {
    "n": [512, 256, 700],
    "w": [["hamming", 256], ["blackman", 101], ["hann", 200],
          ["blackman", 256]],
    "t": [-90, -50],
    "h": [64, 40, 100],
    "max_n_sines": [12, 2],
    "min_sine_dur": [.02, .06],
    "freq_dev_offset": [20, 60],
    "freq_dev_slope": [.01, .1],
    "reverse": [False, True],
    "frequency_bounds": [[20, 16000], [300, 2000], [None, None]],
    "peak_threshold": [-90, -30],
    "merge_strategy": ["average", "single"],
    "strip_t": [None, .03],
    "padded": [False, True],
    "save": [False, True],
    "freq_reduce": ["mean", "median"],
    "max_n_modes": [None, 1, 3],
    "fs": [8000, 10000],
    "method": ["dogbox", "trf"],
}
BD_CHOICES = {"dsave": [False, True]}


@st.composite
def changes(draw, most=4):
  ks = draw(st.lists(st.sampled_from(sorted(CHOICES)), max_size=most,
                     unique=True))
  return {k: draw(st.sampled_from(CHOICES[k])) for k in ks}


@st.composite
def ops(draw):
  kind = draw(st.sampled_from(
      ["new", "clone", "set", "fit", "fit", "fit", "fit", "predict", "edit",
       "rebuild", "part", "storage", "deepcopy", "window"]))
  o = {"op": kind, "i": draw(st.integers(0, 5))}
  if kind == "new":
    o["bd"] = draw(bools)
    o["set"] = draw(changes())
  elif kind in ("set", "fit"):
    o["set"] = draw(changes(3))
    o["sound"] = draw(st.integers(0, 2))
  elif kind == "edit":
    o["f"] = draw(fl(.5, 2))
  elif kind == "window":
    o["name"] = draw(st.sampled_from(sounds.WINDOWS))
    o["sound"] = draw(st.integers(0, 2))
  elif kind == "part":
    o["part"] = draw(st.sampled_from(["sinusoidal", "tracker", "regressor",
                                      "decisor", "default_w"]))
    o["how"] = draw(st.sampled_from(["set", "fit"]))
    o["sound"] = draw(st.integers(0, 2))
    o["set"] = {k: v for k, v in draw(changes(4)).items()}
  elif kind == "storage":
    o["j"] = draw(st.integers(0, 5))
    o["sound"] = draw(st.integers(0, 2))
  elif kind == "clone":
    o["fitted"] = draw(bools)
  return o


@st.composite
def hist_cases(draw):
  return {
      "sounds": draw(st.lists(sounds.sounds(dur=(.06, .2)), min_size=3,
                              max_size=3)),
      "first": {"bd": draw(bools), "set": draw(changes())},
      "ops": draw(st.lists(ops(), min_size=3, max_size=12)),
  }


TRACKER = ("h", "fs", "max_n_sines", "min_sine_dur", "freq_dev_offset",
           "freq_dev_slope", "reverse", "frequency_bounds", "peak_threshold",
           "merge_strategy", "strip_t")
SINUS = TRACKER + ("n", "w", "t", "padded", "save")
DEFAULT = {
    "n": 2048, "w": ["default", 2001], "t": -90, "padded": False,
    "save": False, "h": 500, "fs": 44100, "max_n_sines": 100,
    "min_sine_dur": .04, "freq_dev_offset": 20, "freq_dev_slope": .01,
    "reverse": False, "frequency_bounds": [20, 16000], "peak_threshold": -90,
    "merge_strategy": "average", "strip_t": None, "method": "dogbox",
    "dsave": False,
}


def fresh(bd, conf):
  """A brand new model"""
  import sample
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  kw = sounds.params({k: v for k, v in conf.items() if bd or k != "dsave"})
  if bd:
    return SAMPLEBeatsDROP(beatsdrop=sounds.StubBeat(), **kw)
  return sample.SAMPLE(**kw)


def summary(m):
  r = [m.param_matrix_.copy(), m.sinusoidal.tracks_,
       m.sinusoidal.intermediate.get_state()]
  if hasattr(m, "beat_decisor"):
    r.append(m.beat_decisor.intermediate.get_state())
  return r


PARTS = ("params", "tracks", "stored frames", "stored decisions")


def check_hist(c, ctx):
  import sample
  from sample.sms import mm
  from sample import hinge
  from sample.beatsdrop import decision
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sklearn import base
  xs = [sounds.render(s) for s in c["sounds"]]
  xs0 = [x.copy() for x in xs]
  models = []  # [model, bd, configuration, summary or None]
  nfit = refit = modes = 0

  def new(bd, over):
    conf = {**BASE, "fs": 8000, "method": "dogbox", "dsave": False, **over}
    models.append([fresh(bd, conf), bd, conf, None])

  def expect(e, x):
    f = fresh(e[1], e[2])
    f.fit(x)
    return summary(f)

  def after_fit(e, x, what):
    nonlocal nfit, refit, modes
    got, want = summary(e[0]), expect(e, x)
    for name, a, b in zip(PARTS, got, want):
      require(sounds.equal(a, b), "%s: %s differ from those of a new model "
              "with the same parameters:\n%s\n%s", what, name, repr(a)[:500],
              repr(b)[:500])
    nfit += 1
    refit += e[3] is not None or what.startswith("clone")
    modes += got[0].shape[1]
    e[3] = got

  def valid(conf, over):
    """Make the FFT size large enough for the window"""
    conf = {**conf, **over}
    return over if conf["n"] >= conf["w"][1] else {**over, "n": 2048}

  def check_params(e, what):
    p = e[0].get_params()
    for k, v in e[2].items():
      if k == "dsave" and not e[1]:
        continue
      require(sounds.equal(p[sounds.path(k)], sounds.value(k, v)),
              "%s: parameter %s is %s, expected %s", what, sounds.path(k),
              p[sounds.path(k)], v)

  new(c["first"]["bd"], c["first"]["set"])
  for o in c["ops"]:
    e = models[o["i"] % len(models)]
    m, bd, conf, last = e
    op = o["op"]
    if op == "new":
      new(o["bd"], o["set"])
    elif op == "clone":
      models.append([base.clone(m), bd, dict(conf), None])
      require(not hasattr(models[-1][0], "param_matrix_"), "a clone is fitted")
      if o["fitted"] and conf["n"] >= conf["w"][1]:
        models[-1][0].fit(xs[0])
        after_fit(models[-1], xs[0], "clone, fit")
    elif op == "deepcopy":
      models.append([copy.deepcopy(m), bd, dict(conf), last])
    elif op == "set":
      m.set_params(**sounds.params(o["set"]))
      conf.update(o["set"])
      if last is not None:
        # whether tracks still active at the end are reported depends on the
        # current parameters; nothing else does
        now = summary(m)
        require(sounds.equal(now[0], last[0]) and
                sounds.equal(now[2:], last[2:]),
                "setting parameters changed the results")
        e[3] = now
    elif op == "fit":
      x = xs[o["sound"]]
      over = valid(conf, o["set"])
      r = m.fit(x, **sounds.params(over))
      require(r is m, "fit does not return the model")
      conf.update(over)
      after_fit(e, x, f"fit({sorted(o['set'])})")
    elif op == "predict":
      if last is not None:
        t = np.arange(50) / 1000
        y = arr(m.predict(t), what="resynthesis")
        same(m.predict(t), y, what="second resynthesis")
        same(m.param_matrix_, last[0], what="parameters after resynthesis")
    elif op == "edit":
      if last is not None:
        m.freqs_ = m.freqs_ * o["f"]
        m.amps_[...] = 0
        e[3] = summary(m)
    elif op == "window":
      # the values of the window are changed, in the same array
      add = valid(conf, {})
      m.set_params(**sounds.params(add))
      conf.update(add)
      w = m.sinusoidal.w
      name = o["name"]
      w[:] = sounds.window([name, w.size])
      for e2 in models:
        # models built from the same parameters share the array
        if e2[0].sinusoidal.w is w:
          e2[2]["w"] = [name, w.size]
      m.fit(xs[o["sound"]])
      after_fit(e, xs[o["sound"]], "fit after writing in the window")
    elif op == "rebuild":
      # a model built from the parameters read back
      p = {k: v for k, v in m.get_params().items()
           if base.clone(v, safe=False) is v or not hasattr(v, "get_params")}
      if bd:
        p["beatsdrop"] = sounds.StubBeat()
      p = {k: v for k, v in p.items() if not k.startswith("beatsdrop__")}
      models.append([(SAMPLEBeatsDROP if bd else sample.SAMPLE)(**p), bd,
                     dict(conf), None])
    elif op == "part":
      over, part = o["set"], o["part"]
      if part == "sinusoidal":
        over = {k: v for k, v in over.items() if k in SINUS}
        kw = {"sinusoidal": mm.ModalModel(**{
            sounds.path(k)[len("sinusoidal__"):]: sounds.value(k, v)
            for k, v in over.items()})}
        new_conf = {**{k: DEFAULT[k] for k in SINUS}, **over}
      elif part == "tracker":
        over = {k: v for k, v in over.items() if k in TRACKER}
        kw = {"sinusoidal__tracker": mm.ModalTracker(
            **{k: sounds.value(k, v) for k, v in over.items()})}
        new_conf = {**{k: DEFAULT[k] for k in TRACKER}, **over}
      elif part == "regressor":
        kw = {"regressor": hinge.HingeRegression(method="trf")}
        new_conf = {"method": "trf"}
      elif part == "decisor":
        if not bd:
          continue
        kw = {"beat_decisor": decision.AlmostNotABeatDecisor(
            intermediate__save=True)}
        new_conf = {"dsave": True}
      else:
        kw = {"sinusoidal__w": None}
        new_conf = {"w": DEFAULT["w"]}
      if o["how"] == "fit":
        add = {k: v for k, v in valid(conf, new_conf).items()
               if k not in new_conf or new_conf[k] != v}
        kw.update(sounds.params(add))
        new_conf.update(add)
        m.fit(xs[o["sound"]], **kw)
        conf.update(new_conf)
        after_fit(e, xs[o["sound"]], f"fit with {part}")
      else:
        m.set_params(**kw)
        conf.update(new_conf)
        if last is not None:
          # parts that hold results were replaced
          e[3] = None
    elif op == "storage":
      # hand a storage over, with its data
      e2 = models[o["j"] % len(models)]
      if e2 is not e:
        add = valid(conf, {})
        conf.update(add)
        s = copy.deepcopy(e2[0].sinusoidal.intermediate)
        m.fit(xs[o["sound"]], sinusoidal__intermediate=s,
              **sounds.params(add))
        conf["save"] = e2[2]["save"]
        after_fit(e, xs[o["sound"]], "fit with a used storage")
        require(m.sinusoidal.intermediate is s, "given storage not used")
    # nothing leaks to other models, nor to the inputs
    for x, x0 in zip(xs, xs0):
      require(np.array_equal(x, x0), "%s modified its input", op)
    last_op = o is c["ops"][-1]
    for j, e in enumerate(models):
      check_params(e, f"model {j} after {op} of {o['i'] % len(models)}")
      if e[3] is not None:
        require(hasattr(e[0], "param_matrix_"), "results lost")
        if not last_op:
          same(e[0].param_matrix_, e[3][0],
               what=f"model {j}: params changed by {op} of another model")
        elif not sounds.equal(summary(e[0]), e[3]):
          bad = [n for n, a, b in zip(PARTS, summary(e[0]), e[3])
                 if not sounds.equal(a, b)]
          fail("model %d: %s changed by %s of another model" % (j, bad, op))
  # Regressors given as parameters are never fitted themselves
  for j, e in enumerate(models):
    for k in ("regressor",) + ("beatsdrop",) * e[1]:
      r = getattr(e[0], k)
      own = set(vars(base.clone(r)))
      require(set(vars(r)) == own, "%s of model %d was fitted: %s", k, j,
              set(vars(r)) - own)
  ids = [id(e[0].sinusoidal) for e in models]
  ids += [id(e[0].sinusoidal.tracker) for e in models]
  ids += [id(e[0].sinusoidal.intermediate) for e in models]
  ids += [id(e[0].regressor) for e in models]
  ids += [id(e[0].beat_decisor) for e in models if e[1]]
  require(len(set(ids)) == len(ids), "models share sub-models")
  ctx.tag(*{o["op"] for o in c["ops"]})
  ctx.nontrivial(nfit >= 2 and refit and modes)


# --- The sinusoidal model alone -----------------------------------------------
@st.composite
def sine_cases(draw):
  return {
      "modal": draw(bools),
      "sounds": draw(st.lists(sounds.sounds(dur=(.05, .15)), min_size=2,
                              max_size=2)),
      "first": draw(changes()),
      "second": draw(changes()),
      "fresh_storage": draw(bools),
  }


def sine_kw(modal, conf):
  r = {}
  for k, v in conf.items():
    p = sounds.path(k)
    if not p.startswith("sinusoidal__"):
      continue
    p = p[len("sinusoidal__"):]
    if not modal and k in ("reverse", "frequency_bounds", "peak_threshold",
                           "merge_strategy", "strip_t"):
      continue
    r[p] = sounds.value(k, v)
  return r


def check_sine(c, ctx):
  from sample.sms import mm, sm
  from sample.utils import learn
  cls = mm.ModalModel if c["modal"] else sm.SinusoidalModel
  xs = [sounds.render(s) for s in c["sounds"]]
  m = cls(**sine_kw(c["modal"], {**BASE, "fs": 8000, "save": True}))
  m.fit(xs[0], **sine_kw(c["modal"], c["first"]))
  old = m.tracks_
  kept = [{k: np.copy(v) for k, v in t.items()} for t in old]
  stored = m.intermediate.get_state()
  kw = sine_kw(c["modal"], c["second"])
  if c["fresh_storage"]:
    used = learn.OptionalStorage(save=True)
    used.append("stft", 1)
    used.append("other", 2)
    kw = {k: v for k, v in kw.items() if k != "intermediate__save"}
    kw["intermediate"] = used
  m.fit(xs[1], **kw)
  f = cls(**sine_kw(c["modal"], {**BASE, "fs": 8000, "save": True,
                                 **c["first"], **c["second"],
                                 **({"save": True} if c["fresh_storage"]
                                    else {})})).fit(xs[1])
  require(sounds.equal(m.tracks_, f.tracks_), "refit finds other tracks than "
          "a new model:\n%s\n%s", repr(m.tracks_)[:600], repr(f.tracks_)[:600])
  same(m.w_, f.w_, "effective window")
  require(sounds.equal(m.intermediate.get_state(),
                       f.intermediate.get_state()), "stored data of a refit")
  require(sounds.equal(old, kept), "a refit changed earlier tracks")
  require(isinstance(stored, dict), "no state")
  ctx.nontrivial(bool(f.tracks_) and bool(old))


SUBS = [
    Sub("histories", hist_cases, check_hist, quick=420, thorough=8000,
        shards=6),
    Sub("sinusoidal", sine_cases, check_sine, quick=400, shards=2),
]
