"""P37: copies of public objects are equivalent and independent"""
import copy
import math
import pickle
import warnings

import numpy as np
from props import p08
import sounds
from core import Sub, fail, require
from gens import bools, fl, logfl, opt, seeds, st, weighted

PROPERTY = "P37"
RULE = (
    "A case is an object (analysis models, with and without beat decoupling, "
    "fitted or not; sinusoidal and modal models; trackers in the middle of a "
    "history of peaks; regressors; gammatone filters, banks and precomputed "
    "banks; random generators in the middle of a sequence; losses; optimizers) "
    "with generated settings and data, a way of copying (pickling with every "
    "protocol, deep copies, or a chain of them) and a use that changes the "
    "object (a refit, another frame, another draw, changed settings, edits "
    "in place of its results). What the copy answers is compared bitwise with "
    "what the original answers; then one of them is used, and the other one "
    "must answer as before; then the other one is used too, and must do the "
    "same. Non-trivial: the object holds results (modes, tracks, "
    "samples), and the use changed what it answers.")
ASSUMPTIONS = [
    "Shallow copies (copy.copy) share members by definition, and are not "
    "judged",
]


# --- Objects ------------------------------------------------------------------
class Model:
  """SAMPLE or SAMPLEBeatsDROP"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {
        "bd": draw(bools),
        "fit": draw(opt(sounds.sounds(kinds=["modal"]))),
        "use": draw(st.sampled_from(["fit", "fit", "edit", "set"])),
        "next": draw(sounds.sounds(kinds=["modal"])),
        "config": draw(sounds.configs()),
        "method": draw(st.sampled_from([None, "trf"])),
    }

  @staticmethod
  def make(c):
    import sample
    from sample.beatsdrop.sample import SAMPLEBeatsDROP
    kw = sounds.params(c["config"])
    kw["sinusoidal__tracker__fs"] = 8000
    if c["bd"]:
      m = SAMPLEBeatsDROP(beatsdrop=sounds.StubBeat(),
                          beat_decisor__intermediate__save=True, **kw)
    else:
      m = sample.SAMPLE(**kw)
    if c["fit"]:
      m.fit(sounds.render(c["fit"]))
    return m

  @staticmethod
  def look(m):
    r = {k: v for k, v in m.get_params().items()
         if isinstance(v, (int, float, str, bool, tuple, np.ndarray,
                           type(None)))}
    r["fitted"] = hasattr(m, "param_matrix_")
    if not r["fitted"]:
      return r
    t = np.arange(50) / 1000
    r.update(params=m.param_matrix_, sdt=m.sdt_params_(), freqs=m.freqs_,
             decays=m.decays_, amps=m.amps_, tracks=m.sinusoidal.tracks_,
             stored=m.sinusoidal.intermediate.get_state(),
             y=m.predict(t, phases=None),
             yr=m.predict(t, phases="random", seed=3))
    if hasattr(m, "beat_decisor"):
      r["decided"] = m.beat_decisor.intermediate.get_state()
    return r

  @staticmethod
  def full(r):
    return r["fitted"] and np.size(r["params"])

  @staticmethod
  def use(m, c):
    how = c["use"] if hasattr(m, "param_matrix_") else "fit"
    if how == "fit":
      m.fit(sounds.render(c["next"]))
    elif how == "edit":
      m.param_matrix_ *= 2
      for t in m.sinusoidal.tracks_:
        t["freq"] += 1
        t["mag"] = t["mag"][:0]
      for v in m.sinusoidal.intermediate.get_state().values():
        del v[:]
    else:
      m.set_params(sinusoidal__tracker__h=7, max_n_modes=1,
                   sinusoidal__intermediate__save=not m.get_params()
                   ["sinusoidal__intermediate__save"])
      m.sinusoidal.w = np.ones(11)


class Sinusoidal:
  """Sinusoidal or modal model"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {
        "modal": draw(bools),
        "fit": draw(opt(sounds.sounds(kinds=["modal"]))),
        "next": draw(sounds.sounds(kinds=["modal"])),
        "save": draw(bools),
        "n": draw(st.sampled_from([256, 512])),
        "h": draw(st.sampled_from([32, 100])),
        "use": draw(st.sampled_from(["fit", "edit"])),
    }

  @staticmethod
  def make(c):
    from sample.sms import mm, sm
    m = (mm.ModalModel if c["modal"] else sm.SinusoidalModel)(
        n=c["n"], w=np.hamming(c["n"] - 1), tracker__h=c["h"],
        tracker__fs=8000, intermediate__save=c["save"],
        tracker__min_sine_dur=.02)
    if c["fit"]:
      m.fit(sounds.render(c["fit"]))
    return m

  @staticmethod
  def look(m):
    r = {k: v for k, v in m.get_params().items()
         if isinstance(v, (int, float, str, bool, tuple, np.ndarray,
                           type(None)))}
    try:
      r["tracks"] = list(m.tracks_)
    except AttributeError:
      r["tracks"] = None
    r["stored"] = m.intermediate.get_state()
    r["frames"] = len(m.time_frames(np.zeros(1000)))
    return r

  @staticmethod
  def full(r):
    return r["tracks"]

  @staticmethod
  def use(m, c):
    if c["use"] == "fit" or not c["fit"]:
      m.fit(sounds.render(c["next"]))
    else:
      m.set_params(t=-33)
      for t in m.tracks_:
        t["freq"][:] = 0
      for v in m.intermediate.get_state().values():
        del v[:]


class Tracker:
  """Tracker in the middle of a history"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {
        "modal": draw(bools),
        "set": draw(p08.settings()),
        "frames": draw(p08.history(modal=True)),
        "next": draw(p08.history(modal=True)),
        "reverse": draw(bools),
    }

  @staticmethod
  def feed(tr, frames):
    for fr in frames:
      tr(*(np.array([v[k] for v in fr], dtype=float) for k in range(3)))

  @staticmethod
  def make(c):
    from sample.sms import mm, sm
    if c["modal"]:
      tr = mm.ModalTracker(reverse=c["reverse"], peak_threshold=-200,
                           frequency_bounds=(None, None), **c["set"])
    else:
      tr = sm.SineTracker(**c["set"])
    tr.reset()
    Tracker.feed(tr, c["frames"])
    return tr

  @staticmethod
  def look(tr):
    return {"params": {k: v for k, v in tr.get_params().items()},
            "done": list(tr.tracks_), "all": list(tr.all_tracks_),
            "active": tr.n_active_tracks}

  @staticmethod
  def full(r):
    return r["all"] or r["active"]

  @staticmethod
  def use(tr, c):
    Tracker.feed(tr, c["next"])


class Regressor:
  """Hinge, beat, or dual beat regression"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {
        "kind": draw(st.sampled_from(["hinge", "hinge", "beat", "dual"])),
        "k": [-draw(fl(5, 60)), -draw(fl(5, 60))],
        "knee": draw(fl(.5, .9)),
        "df": draw(fl(3, 8)),
        "fit": draw(bools),
    }

  @staticmethod
  def fit(m, c, i):
    t = np.arange(60) / 60
    if c["kind"] == "hinge":
      return m.fit(t.reshape(-1, 1), c["k"][i] * np.minimum(t, c["knee"]))
    a0 = .6 * np.exp(t * c["k"][i] / 5)
    z1 = a0 / 2 * np.exp(2j * np.pi * c["df"] * t)
    z = a0 + z1
    f = 400 + c["df"] * np.real(z1 / z)
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      return m.fit(t=t, a=20 * np.log10(np.abs(z)), f=f)

  @staticmethod
  def make(c):
    from sample import hinge
    from sample.beatsdrop import regression
    m = {"hinge": hinge.HingeRegression,
         "beat": lambda: regression.BeatRegression(fs=60),
         "dual": lambda: regression.DualBeatRegression(fs=60)}[c["kind"]]()
    if c["fit"]:
      Regressor.fit(m, c, 0)
    return m

  @staticmethod
  def look(m):
    r = {"params": {k: v for k, v in m.get_params().items()
                    if isinstance(v, (int, float, str, type(None)))}}
    if hasattr(m, "coeffs_"):
      r["value"] = (m.coeffs_, m.k_, m.q_, m.a_,
                    m.predict(np.arange(9.).reshape(-1, 1)))
    elif hasattr(m, "params_"):
      r["cost"] = m.res_fn_(m.params_)
      r["value"] = (m.params_, m.predict(np.arange(9.) / 60, "am", "fm", "pm",
                                         "x"))
    return r

  @staticmethod
  def full(r):
    return "value" in r

  @staticmethod
  def use(m, c):
    Regressor.fit(m, c, 1)


class Bank:
  """Gammatone filters"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {
        "kind": draw(st.sampled_from(["filter", "bank", "precomputed"])),
        "f": draw(st.lists(fl(100, 3000), min_size=1, max_size=4)),
        "n": draw(st.integers(1, 6)),
        "analytic": draw(bools),
        "seed": draw(seeds),
    }

  @staticmethod
  def make(c):
    from sample import psycho
    if c["kind"] == "filter":
      return psycho.GammatoneFilter(c["f"][0], n=c["n"])
    b = psycho.GammatoneFilterbank(freqs=c["f"], n=c["n"])
    if c["kind"] == "precomputed":
      b = b.precompute(fs=8000, analytic=c["analytic"])
    return b

  @staticmethod
  def look(b):
    x = np.random.default_rng(0).normal(size=300)
    if hasattr(b, "irs"):
      return {"len": len(b), "irs": b.irs, "off": b.offsets, "f": b.freqs,
              "y": b.convolve(x), "s": b.convolve(x, stride=7)}
    if hasattr(b, "__len__"):
      return {"len": len(b), "f": b.f, "t": b.t_c,
              "y": b.convolve(x, fs=8000)}
    return {"f": b.f, "t": b.t_c, "ir": b.ir(fs=8000), "t60": b.t60()}

  @staticmethod
  def full(r):
    return True

  @staticmethod
  def use(b, c):
    if hasattr(b, "irs"):
      for v in b.irs:
        v *= .5
    elif hasattr(b, "__len__"):
      b[0].f *= 2
    else:
      b.f *= 2


class Generator:
  """Random generator in the middle of a sequence"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {"seed": draw(seeds), "skip": draw(st.integers(0, 4)),
            "onlybeat": draw(bools), "snr": draw(fl(0, 60))}

  @staticmethod
  def make(c):
    from sample.evaluation import random
    g = random.BeatsGenerator(seed=c["seed"], onlybeat=c["onlybeat"],
                              snr=c["snr"])
    for _ in range(c["skip"]):
      g.freqs()
    return g

  @staticmethod
  def look(g):
    s = copy.deepcopy(g.rng.bit_generator.state)
    r = {"freqs": g.freqs(size=2), "decays": g.decays(), "amps": g.amps(),
         "x": g.audio(dur=.02, fs=4000)}
    g.rng.bit_generator.state = s
    return r

  @staticmethod
  def full(r):
    return True

  @staticmethod
  def use(g, c):
    g.freqs()


class Loss:
  """Losses"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {"kind": draw(st.sampled_from(["spectral", "cochleagram"])),
            "n": draw(st.sampled_from([[64], [128, 32]])),
            "stride": draw(st.sampled_from([None, 10])),
            "seed": draw(seeds)}

  @staticmethod
  def make(c):
    from sample.evaluation import metrics
    if c["kind"] == "spectral":
      return metrics.MultiScaleSpectralLoss(
          metrics.lin_log_spectral_loss,
          [{"n": n} for n in c["n"]])
    return metrics.CochleagramLoss(fs=8000, freqs=[300., 900.],
                                   stride=c["stride"])

  @staticmethod
  def look(l):
    rng = np.random.default_rng(1)
    a, b = rng.normal(size=(2, 400))
    return {"v": l(a, b), "same": l(a, a)}

  @staticmethod
  def full(r):
    return True

  use = None


class Optimizer:
  """Hyperparameter optimizer"""

  @staticmethod
  @st.composite
  def cases(draw):
    return {"lo": draw(st.integers(-120, -80)), "fs": 8000,
            "sound": draw(sounds.sounds(kinds=["modal"])),
            "t": draw(st.integers(-79, -60))}

  @staticmethod
  def make(c):
    from sample import SAMPLE
    from sample.optimize import SAMPLEOptimizer
    kw = sounds.params({"n": 512, "w": ["hann", 256], "h": 64})
    return SAMPLEOptimizer(
        model=SAMPLE(**kw), sinusoidal__t=(c["lo"], -60),
        sinusoidal__tracker__max_n_sines=(1, 9))

  @staticmethod
  def look(o):
    return {"dims": [(k, *v) for k, v in o.dimensions.items()],
            "model": o.model.get_params()["sinusoidal__n"]}

  @staticmethod
  def full(r):
    return True

  @staticmethod
  def use(o, c):
    o.model.set_params(sinusoidal__n=777)


OBJECTS = {k.__name__: k for k in (Model, Sinusoidal, Tracker, Regressor, Bank,
                                   Generator, Loss, Optimizer)}
WAYS = ["deepcopy"] + [f"pickle{i}" for i in range(2, 6)]


def duplicate(v, how):
  try:
    if how == "deepcopy":
      return copy.deepcopy(v)
    return pickle.loads(pickle.dumps(v, protocol=int(how[-1])))
  except Exception as e:  # pylint: disable=W0703
    return fail("cannot copy a %s (%s): %s: %s", type(v).__name__, how,
                type(e).__name__, e)


def frozen(v):
  """Answers do not change later"""
  return copy.deepcopy(v)


def expect(got, want, what):
  if sounds.equal(got, want):
    return
  for k in want:
    if k not in got or not sounds.equal(got[k], want[k]):
      fail(f"{what}: {k} is {got.get(k)!r:.700}, expected {want[k]!r:.700}")
  fail(f"{what}: {set(got) ^ set(want)}")


def cases(name):

  @st.composite
  def strategy(draw):
    return {
        "name": name,
        "obj": draw(OBJECTS[name].cases()),
        "how": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=2)),
        "first": draw(bools),
    }

  return strategy


def check(c, ctx):
  cls = OBJECTS[c["name"]]
  a = cls.make(c["obj"])
  before = frozen(cls.look(a))
  b = a
  for h in c["how"]:
    b = duplicate(b, h)
    require(b is not a and type(b) is type(a), "the copy is %r", b)
  expect(frozen(cls.look(b)), before, "the copy differs")
  expect(frozen(cls.look(a)), before, "copying changed the original")
  if cls.use is None:
    ctx.nontrivial()
    return
  one, two = (a, b) if c["first"] else (b, a)
  names = ("original", "copy") if c["first"] else ("copy", "original")
  cls.use(one, c["obj"])
  after = frozen(cls.look(one))
  expect(frozen(cls.look(two)), before,
         f"using the {names[0]} changed the {names[1]}")
  cls.use(two, c["obj"])
  expect(frozen(cls.look(two)), after,
         f"the {names[1]} does not do what the {names[0]} did")
  expect(frozen(cls.look(one)), after,
         f"using the {names[1]} changed the {names[0]}")
  ctx.tag(*c["how"])
  ctx.nontrivial(cls.full(before) and not sounds.equal(before, after))


SUBS = [
    Sub("model", cases("Model"), check, quick=150, shards=3),
    Sub("sinusoidal", cases("Sinusoidal"), check, quick=150, shards=2),
    Sub("tracker", cases("Tracker"), check, quick=300),
    Sub("regressor", cases("Regressor"), check, quick=60, shards=3),
    Sub("bank", cases("Bank"), check, quick=200),
    Sub("generator", cases("Generator"), check, quick=150),
    Sub("loss", cases("Loss"), check, quick=60),
    Sub("optimizer", cases("Optimizer"), check, quick=60),
]
