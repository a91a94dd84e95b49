"""P14: beat decoupling adds modes only where a beat was decided"""
import math
import warnings

import numpy as np
import sounds
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted
from sklearn import base

PROPERTY = "P14"
RULE = (
    "A case is a sound, a configuration of the analysis, a beat regression "
    "(a stand-in that summarizes the data it is given, with generated invalid "
    "results, or the real one) and a decision rule (a drawn pattern over the "
    "tracks, a threshold on the data, or the package's rules). The oracle is "
    "the plain analysis of the same sound, the beats of the stand-in "
    "recomputed on the plain analysis's tracks, and the drawn decisions. "
    "Non-trivial: at least one mode (rules: one track decided as a beat).")
ASSUMPTIONS = [
    "Sounds for which the real beat regression raises its error about "
    "unfeasible starting values (growing tracks) are set aside and counted",
]
LOG = []


def clear():
  del LOG[:]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


# --- Stand-ins ----------------------------------------------------------------
class Stub(base.BaseEstimator):
  """Beat parameters that depend on everything that is fit"""

  def __init__(self, fs=100, kind="plain", salt=0.):
    self.fs = fs
    self.kind = kind
    self.salt = salt

  def fit(self, t, a, f, **kwargs):
    LOG.append(("fit", self))
    t, a, f = (np.array(v, dtype=float) for v in (t, a, f))
    self.seen_ = (t, a, f)
    m = float(np.mean(f))
    p = [.5 + float(np.mean(t)), .25 + float(t[0]), m + float(np.ptp(f)),
         m - self.salt, 1. + self.salt, t.size / self.fs,
         .1 * float(a[0]), -.1 * float(a[-1])]
    u = math.modf(abs(math.sin(m * 12.9898 + self.salt)) * 43758.5453)[0]
    if self.kind == "invalid":
      i = int(u * 16)
      if i < 8:
        p[i] = [math.nan, math.inf, -math.inf][i % 3]
    elif self.kind == "degenerate":
      i = int(u * 6)
      if i < 2:
        p[i] = 0.
      elif i == 2:
        p[2] = p[3]
      elif i == 3:
        p[0] = p[1] = 1e-17
    self.params_ = np.array(p) if u > .5 else tuple(p)
    return self


def rule_class():
  from sample.beatsdrop import decision
  global Rule
  if Rule is None:

    class Rule_(decision.BeatDecisor):
      """Drawn decisions"""

      def __init__(self, pattern=(), th=None, result="bool",
                   intermediate=None, **kwargs):
        self.pattern = pattern
        self.th = th
        self.result = result
        super().__init__(intermediate=intermediate, **kwargs)

      def decide_beat(self, i, t, track, beatsdrop, params):
        if self.th is not None:
          d = float(np.mean(track["freq"])) > self.th
        else:
          d = bool(self.pattern[i % len(self.pattern)])
        LOG.append(("decide", i, np.array(t), track, beatsdrop, params, d))
        return {"bool": d, "np": np.bool_(d), "int": int(d)}[self.result]

    Rule = Rule_
    Rule.__name__ = Rule.__qualname__ = "Rule"
  return Rule


Rule = None


def rules():
  return st.fixed_dictionaries({
      "rule": st.sampled_from(["pattern", "pattern", "pattern", "never",
                               "always", "base", "th", "default"]),
      "pattern": st.lists(bools, min_size=1, max_size=6),
      "th": fl(200, 3800),
      "eps": st.sampled_from([None, 1, 0, 1e6, 1e14]),
      "result": st.sampled_from(["bool", "np", "int"]),
      "dsave": bools,
      "kind": st.sampled_from(["plain", "plain", "invalid", "degenerate"]),
      "salt": fl(0, 2),
      "given": bools,
      "predict": opt(st.fixed_dictionaries({
          "n": opt(st.integers(0, 6)),
          "order": st.sampled_from(["energies", "freqs", "amps", "decays"]),
          "reverse": bools,
          "phases": st.sampled_from(["own", "own", "own", "none", "given"]),
          "analytic": bools,
      })),
  })


def decisor(r):
  from sample.beatsdrop import decision
  if r["rule"] == "base":
    return decision.BeatDecisor
  if r["rule"] == "default":
    return decision.AlmostNotABeatDecisor
  return rule_class()


def rule_params(r):
  if r["rule"] == "base":
    return {}
  if r["rule"] == "default":
    return {} if r["eps"] is None else {"th": r["eps"]}
  if r["rule"] == "th":
    return {"th": r["th"], "result": r["result"]}
  p = {"never": [False], "always": [True]}.get(r["rule"], r["pattern"])
  return {"pattern": tuple(p), "result": r["result"]}


@st.composite
def rule_cases(draw):
  return {
      "sound": draw(sounds.sounds(fs=(8000, 11025), dur=(.08, .25))),
      "conf": draw(sounds.configs()),
      "rule": draw(rules()),
      "regressor": draw(st.sampled_from(["hinge", "line"])),
      "refit": draw(bools),
  }


def lin(a):
  return 10**(np.asarray(a) / 20)


def times_of(m, x, tr):
  """Time axis of a track, in the unreversed sound"""
  s = m.sinusoidal
  k = np.flatnonzero(~np.isnan(tr["mag"]))
  fs, h = s.tracker.fs, s.tracker.h
  t = (k + tr["start_frame"]) * h / fs
  if not s.padded:
    t = t + .5 * s.w.size / fs
  if s.tracker.reverse:
    t = x.size / fs - t
  return k, t


def expected_decision(r, i, freq, b):
  if r["rule"] == "base":
    return False
  if r["rule"] == "default":
    th = (1 if r["eps"] is None else r["eps"]) * np.finfo(float).eps
    return all(v > th for v in (abs(b[2] - b[3]), abs(b[0]), abs(b[1])))
  if r["rule"] == "th":
    return bool(np.mean(freq) > r["th"])
  p = rule_params(r)["pattern"]
  return bool(p[i % len(p)])


def check_rules(case, ctx):
  from sample import SAMPLE
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  clear()
  r = case["rule"]
  s = case["sound"]
  x = sounds.render(s)
  keep = x.copy()
  p = {**sounds.params(case["conf"]), "sinusoidal__tracker__fs": s["fs"]}
  if case["regressor"] == "line":
    p["regressor"] = sounds.LineFit()
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    plain = SAMPLE(**{**p, "sinusoidal__intermediate__save": False}).fit(x)
    stub = Stub(kind=r["kind"], salt=r["salt"])
    kw = rule_params(r)
    if r["given"]:
      d = decisor(r)(**kw)
      dkw = {"beat_decisor": d}
    else:
      d = None
      dkw = {"beat_decisor": decisor(r)(),
             **{f"beat_decisor__{k}": v for k, v in kw.items()}}
      if r["rule"] == "default":
        dkw.pop("beat_decisor")
    if r["dsave"]:
      dkw["beat_decisor__intermediate__save"] = True
    m = SAMPLEBeatsDROP(beatsdrop=stub, **dkw, **p)
    require(d is None or m.beat_decisor is d, "the decisor was replaced")
    if case["refit"]:
      m.fit(x[:x.size // 2])
    clear()
    require(m.fit(x) is m, "fit does not return the model")
  same(x, keep, "audio")
  require(m.beatsdrop is stub and not hasattr(stub, "params_") and
          stub.fs == 100, "the given beat regression was changed")
  tracks = plain.sinusoidal.tracks_
  fits = [e[1] for e in LOG if e[0] == "fit"]
  decs = [e for e in LOG if e[0] == "decide"]
  require(len(fits) == len(tracks), "%d beats were fit for %d tracks",
          len(fits), len(tracks))
  if r["rule"] not in ("base", "default"):
    require([e[1] for e in decs] == list(range(len(tracks))),
            "decided tracks are %r out of %d", [e[1] for e in decs],
            len(tracks))
  # Expected modes, from the tracks of the plain analysis
  cols, decisions, tests, singles = [], [], [], []
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    for i, tr in enumerate(tracks):
      k, t = times_of(plain, x, tr)
      mag = tr["mag"][k] + 20 * math.log10(2)
      freq = tr["freq"][k]
      b = Stub(fs=s["fs"], kind=r["kind"], salt=r["salt"]).fit(t, mag, freq)
      fit = fits[i]
      require(fit.fs == s["fs"], "sample rate of the beat regression is %r",
              fit.fs)
      near(np.reshape(fit.seen_[0], -1), t, "times of track %d" % i,
           rtol=0, atol=1e-9)
      near(fit.seen_[1], mag, "magnitudes of track %d" % i, rtol=1e-9)
      near(fit.seen_[2], freq, "frequencies of track %d" % i, rtol=1e-9)
      b = fit.params_
      reg = SAMPLE(**p).regressor.fit(np.reshape(t, (-1, 1)), mag)
      f0 = float(plain.freq_reduce(freq))
      single = (f0, -40 * math.log10(math.e) / reg.k_, 10**(reg.q_ / 20))
      dec = expected_decision(r, i, freq, b)
      decisions.append(dec)
      tests.append([abs(b[2] - b[3]), abs(b[0]), abs(b[1])])
      if decs:
        e = decs[i]
        near(np.reshape(e[2], -1), t, "times given to the decision",
             rtol=0, atol=1e-9)
        near(e[3]["freq"], freq, "track given to the decision", rtol=1e-9)
        near(e[3]["mag"], mag, "track given to the decision", rtol=1e-9)
        require(e[4] is fit, "the decision saw another beat")
        near(list(e[5]), single, "parameters given to the decision",
             rtol=1e-6, atol=1e-12)
        single = tuple(float(v) for v in e[5])
      singles.append(single)
      if dec:
        cols += [(b[2], b[4], b[0], b[6]), (b[3], b[5], b[1], b[7])]
      else:
        cols.append((*single, 0.))
  # Modes of the plain analysis are the singles
  fin = [c for c in singles if np.all(np.isfinite(c))]
  near(plain.param_matrix_, np.array(fin).T if fin else np.empty((3, 0)),
       "modes of the plain analysis", rtol=0 if decs else 1e-6,
       atol=0 if decs else 1e-12)
  exp = [c for c in cols if np.all(np.isfinite(c))]
  exp = np.array(exp, dtype=float).T if exp else np.empty((4, 0))
  require(np.shape(m.param_matrix_) == exp.shape, "modes have shape %r, "
          "expected %r", np.shape(m.param_matrix_), exp.shape)
  near(m.param_matrix_, exp, "modes", rtol=0 if decs else 1e-6,
       atol=0 if decs else 1e-12)
  for n, row in zip(("freqs", "decays", "amps", "phases"), m.param_matrix_):
    same(getattr(m, n + "_"), row, n)
  if not any(decisions):
    same(m.param_matrix_[:3], plain.param_matrix_, "modes without beats")
    same(m.param_matrix_[3], np.zeros(exp.shape[1]), "phases without beats")
    ctx.tag("no beats")
  # Stored decisions
  state = m.beat_decisor.intermediate.get_state()
  if r["dsave"] and tracks:
    got = state["decision"]
    require([bool(v) for v in got] == decisions, "stored decisions are %r, "
            "expected %r", got, decisions)
    if r["rule"] == "default":
      near(np.array(state["test"], dtype=float), np.array(tests, dtype=float),
           "stored test statistics")
    else:
      require(set(state) == {"decision"}, "stored keys are %r", set(state))
  else:
    require(not state, "unrequested decisions stored: %r", state)
  # Resynthesis
  q = r["predict"]
  if q is not None and exp.size and np.all(exp[1] > 0):
    tt = np.arange(50) / s["fs"]
    ph = exp[3]
    kw = {}
    if q["phases"] == "none":
      kw["phases"] = None
      ph = 0 * ph
    elif q["phases"] == "given":
      kw["phases"] = ph = np.linspace(0, 3, ph.size)
    if q["n"] is not None:
      kw["n_modes"] = q["n"]
    if q["analytic"]:
      kw["analytic"] = True
    y = m.predict(tt, order=q["order"], reverse=q["reverse"], **kw)
    n = q["n"] if q["n"] is not None else (
        exp.shape[1] if case["conf"]["max_n_modes"] is None else
        case["conf"]["max_n_modes"])
    idx = m.mode_argsort_(order=q["order"], reverse=q["reverse"])[:n]
    require(sorted(set(idx)) == sorted(idx), "repeated modes %r", idx)
    ref = np.zeros(50, dtype=complex)
    for j in idx:
      f, dd, a, _ = exp[:, j]
      ref += a * np.exp(-2 * tt / dd) * np.exp(
          1j * (2 * np.pi * f * tt + ph[j]))
    near(y, ref if q["analytic"] else ref.real, "resynthesis", rtol=0,
         atol=1e-8 * (1 + np.sum(np.abs(exp[2]))))
    ctx.tag("predict")
  ctx.tag(r["rule"])
  ctx.nontrivial(any(decisions) and exp.shape[1] > 0)


# --- Decision API -------------------------------------------------------------
@st.composite
def api_cases(draw):
  v = weighted((3, fl(-2, 2)), (1, st.just(0.)), (1, logfl(1e-18, 1e-13)))
  h = []
  for _ in range(draw(st.integers(1, 8))):
    h.append({
        "i": draw(st.integers(0, 6)),
        "b": [draw(v) for _ in range(8)],
        "tie": draw(st.sampled_from([False, False, False, True])),
        "single": [draw(fl(1, 1000)), draw(fl(.1, 2)), draw(fl(0, 1))],
        "fit": draw(opt(bools)),
    })
  return {
      "history": h,
      "kind": draw(st.sampled_from(["base", "almost", "almost"])),
      "th": draw(st.sampled_from([None, 0, 1, 100, 1e15])),
      "save": draw(bools),
  }


class Fixed(base.BaseEstimator):

  def __init__(self, p=None):
    self.p = p
    self.n = 0
    self.params_ = p

  def fit(self, t, a, f):
    self.n += 1
    self.seen = (t, a, f)
    return self


def check_api(case, ctx):
  from sample.beatsdrop import decision
  if case["kind"] == "base":
    d = decision.BeatDecisor()
  elif case["th"] is None:
    d = decision.AlmostNotABeatDecisor()
  else:
    d = decision.AlmostNotABeatDecisor(th=case["th"])
  d.intermediate.save = case["save"]
  th = (1 if case["th"] is None else case["th"]) * 2.**-52
  stored, beats = {}, 0
  for e in case["history"]:
    p = list(e["b"])
    if e["tie"]:
      p[3] = p[2]
    b = Fixed(tuple(p))
    t, a, f = (np.arange(4.) + k for k in range(3))
    kw = {} if e["fit"] is None else {"fit": e["fit"]}
    out = d.track_params(i=e["i"], t=t, track={"mag": a, "freq": f},
                         beatsdrop=b, params=tuple(e["single"]), **kw)
    out = [tuple(float(v) for v in o) for o in out]
    if e["fit"]:
      require(b.n == 1 and all(u is v for u, v in zip(b.seen, (t, a, f))),
              "the beat was fit %d times, or to other data", b.n)
    else:
      require(b.n == 0, "the beat was fit %d times", b.n)
    if case["kind"] == "base":
      dec = False
    else:
      dec = all(abs(v) > th for v in (p[2] - p[3], p[0], p[1]))
    exp = [(p[2], p[4], p[0], p[6]), (p[3], p[5], p[1], p[7])] if dec else \
        [(*e["single"], 0.)]
    require(out == exp, "parameters are %r, expected %r", out, exp)
    stored[e["i"]] = (dec, [abs(v) for v in (p[2] - p[3], p[0], p[1])])
    beats += dec
  st_ = d.intermediate.get_state()
  if not case["save"]:
    require(not st_, "unrequested data stored: %r", st_)
  else:
    n = max(stored) + 1
    got = st_["decision"]
    require(len(got) == n, "%d decisions stored for %d tracks", len(got), n)
    for i in range(n):
      if i in stored:
        require(bool(got[i]) == stored[i][0], "stored decision %d is %r", i,
                got[i])
        if case["kind"] != "base":
          near(np.array(st_["test"][i], dtype=float), stored[i][1],
               "stored statistics")
      else:
        require(got[i] is None, "decision for a track never seen: %r", got[i])
  ctx.nontrivial(0 < beats < len(case["history"]))


# --- Real regression ----------------------------------------------------------
@st.composite
def real_cases(draw):
  return {
      "f": draw(logfl(300, 2000)),
      "df": draw(fl(3, 8)),
      "d": draw(fl(.8, 2)),
      "a": [draw(fl(.2, 1)), draw(fl(.2, 1))],
      "dur": draw(fl(.6, .9)),
      "seed": draw(seeds),
      "rule": draw(st.sampled_from(["default", "default", "base"])),
      "dual": draw(st.sampled_from([None, True, False])),
      "reverse": draw(bools),
  }


def real_rule(rule):
  """The package's rules, logging what they see"""
  from sample.beatsdrop import decision
  if rule not in REAL:
    sup = decision.BeatDecisor if rule == "base" else \
        decision.AlmostNotABeatDecisor

    class Logging(sup):

      def decide_beat(self, i, t, track, beatsdrop, params):
        LOG.append((i, np.array(t), track, beatsdrop))
        return super().decide_beat(i=i, t=t, track=track, beatsdrop=beatsdrop,
                                   params=params)

    REAL[rule] = Logging
  return REAL[rule]


REAL = {}


def check_real(case, ctx):
  """The whole method, on an actual beat"""
  from sample import SAMPLE
  from sample.beatsdrop import regression
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  clear()
  fs = 8000
  n = int(case["dur"] * fs)
  t = np.arange(n) / fs
  x = np.zeros(n)
  for a, f in zip(case["a"], (case["f"], case["f"] + case["df"])):
    x += a * np.exp(-2 * t / case["d"]) * np.cos(2 * np.pi * f * t)
  x += 1e-5 * np.random.default_rng(case["seed"]).normal(size=n)
  p = {
      "sinusoidal__n": 1024,
      "sinusoidal__w": np.hamming(511),
      "sinusoidal__tracker__fs": fs,
      "sinusoidal__tracker__h": 64,
      "sinusoidal__tracker__max_n_sines": 3,
      "sinusoidal__tracker__min_sine_dur": .3,
      "sinusoidal__tracker__freq_dev_offset": 30,
      "sinusoidal__tracker__reverse": case["reverse"],
      "sinusoidal__t": -60,
  }
  kw = {"beat_decisor": real_rule(case["rule"])()}
  if case["dual"] is not None:
    kw["beatsdrop"] = (regression.DualBeatRegression if case["dual"] else
                       regression.BeatRegression)(lpf=20)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    plain = SAMPLE(**p).fit(x)
    m = SAMPLEBeatsDROP(**kw, **p, beat_decisor__intermediate__save=True)
    try:
      m.fit(x)
    except ValueError as e:
      if "unfeasible" in str(e):
        ctx.reject()
      raise
    tracks = plain.sinusoidal.tracks_
    exp = []
    dec = m.beat_decisor.intermediate.get_state().get("decision", [])
    require(len(dec) == len(tracks), "%d decisions for %d tracks", len(dec),
            len(tracks))
    for i, tr in enumerate(tracks):
      k, tt = times_of(plain, x, tr)
      mag = tr["mag"][k] + 20 * math.log10(2)
      e = LOG[i]
      near(np.reshape(e[1], -1), tt, "times of the track", rtol=0, atol=1e-9)
      near(e[2]["mag"], mag, "magnitudes of the track", rtol=1e-9)
      b = e[3]
      require(isinstance(b, (regression.DualBeatRegression
                             if case["dual"] in (None, True) else
                             regression.BeatRegression)) and b.fs == fs,
              "the beat regression is %r", b)
      am = b.predict(tt, "am")[0]
      near(am, np.abs(sum(
          b.params_[j] * np.exp(-2 * tt / b.params_[4 + j] + 1j * (
              2 * np.pi * b.params_[2 + j] * tt + b.params_[6 + j]))
          for j in range(2))), "predicted amplitude", atol=1e-9)
      a0, a1, f0, f1, d0, d1, p0, p1 = b.params_
      yes = case["rule"] != "base" and all(
          v > 2.**-52 for v in (abs(f0 - f1), a0, a1))
      require(bool(dec[i]) == yes, "decision is %r, expected %r", dec[i], yes)
      exp += [(f0, d0, a0, p0), (f1, d1, a1, p1)] if yes else \
          [tuple(plain.param_matrix_[:, i]) + (0.,)]
  require(m.param_matrix_.shape == (4, len(exp)), "%r modes, expected %d",
          m.param_matrix_.shape, len(exp))
  if exp:
    near(m.param_matrix_, np.array(exp).T, "modes")
  ctx.nontrivial(len(exp) > 0)
  ctx.tag("beat" if any(dec) else "no beat")


SUBS = [
    Sub("rules", rule_cases, check_rules, quick=800, shards=4,
        teardown=clear),
    Sub("api", api_cases, check_api, quick=1000),
    Sub("real", real_cases, check_real, quick=30, shards=3, thorough=300,
        teardown=clear),
]
