"""P12: beat models are consistent with the sum of their partials"""
import cmath
import copy
import math
import pickle

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, sizes, st, weighted

PROPERTY = "P12"
RULE = (
    "A case is two partials (amplitude, frequency, phase, and decay or "
    "constant amplitude or another differentiable law) and a time axis (regular "
    "or not, also backwards), starting anywhere. The oracle is the sum of two "
    "complex phasors, with scalar arithmetic. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: both partials sound and differ in "
    "frequency.")
ASSUMPTIONS = [
    "Frequencies and phases are constant in time (amplitudes are not): for "
    "variable ones the model does not define the partials' phase",
    "The phase and the signal come from numeric integration: they are "
    "compared where it converges (finely sampled axes, no amplitude close to "
    "zero), within its error bound",
]


class Law:
  """Amplitude law with a derivative"""

  def __init__(self, kind, a, d):
    self.kind, self.a, self.d = kind, a, d
    self.dt = self._dt

  def value(self, t):
    a, d = self.a, self.d
    return {
        "const": lambda: a,
        "exp": lambda: a * math.exp(-2 * t / d),
        "inv": lambda: a / (1 + (t / d)**2),
        "ramp": lambda: a * (1 + t / (4 * d)),
    }[self.kind]()

  def slope(self, t):
    a, d = self.a, self.d
    return {
        "const": lambda: 0.,
        "exp": lambda: -2 / d * a * math.exp(-2 * t / d),
        "inv": lambda: -2 * a * t / d**2 / (1 + (t / d)**2)**2,
        "ramp": lambda: a / (4 * d),
    }[self.kind]()

  def __call__(self, t):
    return np.vectorize(self.value, otypes=[float])(t)

  def _dt(self, t):
    return np.vectorize(self.slope, otypes=[float])(t)


@st.composite
def cases(draw):
  amp = st.one_of(fl(.01, 2), st.just(1.), logfl(1e-4, 1))
  f = draw(st.one_of(fl(1, 5000), st.just(100.)))
  df = draw(weighted((4, fl(-10, 10)), (1, st.just(0.)), (1, fl(-500, 500))))
  a0 = draw(amp)
  a1 = draw(weighted((3, amp), (1, st.just(a0)), (1, st.just(0.))))
  return {
      "a": [a0, a1],
      "f": [f, max(f + df, .5)],
      "p": [draw(fl(-7, 7)), draw(fl(-7, 7))],
      "d": [draw(logfl(.05, 5)), draw(logfl(.05, 5))],
      "kind": draw(st.sampled_from(["modal", "modal", "const", "laws"])),
      "laws": draw(st.lists(st.sampled_from(["const", "exp", "inv", "ramp"]),
                            min_size=2, max_size=2)),
      "swap": draw(bools),
      "t0": draw(weighted((2, st.just(0.)), (3, fl(-.5, 2)))),
      "n": draw(st.integers(2, 60)),
      "dt": draw(logfl(1e-5, .05)),
      "callable_f": draw(bools),
      "axis": draw(weighted((4, st.none()), (1, st.sampled_from(
          ["backwards", "shuffled", "uneven", "gap"])))),
  }


def model(c):
  from sample import beatsdrop as bd
  a, f, p, d = c["a"], c["f"], c["p"], c["d"]
  if c["kind"] == "modal":
    laws = [Law("exp", *v) for v in zip(a, d)]
    return bd.ModalBeat(a0=a[0], a1=a[1], f0=f[0], f1=f[1], d0=d[0], d1=d[1],
                        p0=p[0], p1=p[1]), laws
  if c["kind"] == "const":
    laws = [Law("const", *v) for v in zip(a, d)]
    vals = list(a)
  else:
    laws = [Law(k, *v) for k, v in zip(c["laws"], zip(a, d))]
    vals = laws
  g = list(f)
  if c["callable_f"]:
    # constant functions
    g = [(lambda v: lambda t: np.full(np.shape(t), v))(v) for v in f]
  return bd.Beat(a0=vals[0], a1=vals[1], f0=g[0], f1=g[1], p0=p[0],
                 p1=p[1]), laws


def axis(c):
  """Time axis: not always at a regular pace, nor forwards"""
  t = c["t0"] + c["dt"] * np.arange(c["n"])
  how = c["axis"]
  if how == "backwards":
    return t[::-1]
  rng = np.random.default_rng(c["n"])
  if how == "shuffled":
    rng.shuffle(t)
  elif how == "uneven":
    t = np.sort(t + c["dt"] * rng.uniform(-.9, .9, size=t.size))
  elif how == "gap":
    t[t.size // 2:] += 7 * c["dt"]
  return t


def phasors(c, laws, t):
  """Values of both partials, and of their derivatives"""
  z, dz = [], []
  for law, f, p in zip(laws, c["f"], c["p"]):
    e = cmath.exp(1j * (2 * math.pi * f * t + p))
    a, s = law.value(t), law.slope(t)
    z.append(a * e)
    dz.append((s + 2j * math.pi * f * a) * e)
  return z, dz


def check(c, ctx):
  b, laws = model(c)
  t = axis(c)
  t_copy = t.copy()
  zs = [phasors(c, laws, float(v)) for v in t]
  s = np.array([sum(z) for z, _ in zs])
  ds = np.array([sum(dz) for _, dz in zs])
  tot = np.array([abs(z[0]) + abs(z[1]) for z, _ in zs])
  w = 2 * math.pi * max(c["f"])
  eps = 1e-14 * (8 + w * np.abs(t).max() + np.abs(c["p"]).max())
  am, fm, pm, x = (arr(v, shape=t.shape, what=k) for k, v in zip(
      ("am", "fm", "pm", "x"), b.compute(t, ("am", "fm", "pm", "x"))))
  require(np.array_equal(t, t_copy), "time axis modified")
  # amplitude: the modulus. It is a square root: rounding grows near zero
  close(am**2, np.abs(s)**2, rtol=1e-9, atol=8 * eps * tot**2,
        what="squared amplitude modulation")
  ok = np.abs(s) > 1e-4 * tot
  close(am[ok], np.abs(s[ok]), rtol=1e-7 + eps * 1e4, what="amplitude")
  # frequency: the derivative of the argument
  ref = np.array([(d / v).imag if v else math.nan for d, v in zip(ds, s)])
  ok = np.abs(s) > 1e-2 * tot
  close(fm[ok], ref[ok], rtol=0,
        atol=(1e-9 * w + w * eps) * (tot[ok] / np.abs(s[ok]))**2 * 10,
        what="instantaneous frequency")
  # phase: where the integral starts from
  if abs(s[0]) > 1e-2 * tot[0]:
    close(np.exp(1j * pm[0]), s[0] / abs(s[0]), rtol=0,
          atol=1e-9 + 100 * eps * tot[0] / abs(s[0]), what="first phase")
  # the signal has those amplitude and phase
  close(x, am * np.cos(pm), rtol=1e-9, atol=1e-12 * tot.max(), what="signal")
  # partial queries
  vs = b.variables
  require(set(vs) >= {"t", "am", "fm", "pm", "x", "a0", "a1", "f0", "f1",
                      "p0", "p1"}, "variables: %s", vs)
  all_ = b.compute(t, vs)
  require(len(all_) == len(vs), "%d results for %d variables", len(all_),
          len(vs))
  for k, v in zip(vs, all_):
    same(getattr(b, k)(t), v, what=f"attribute {k}")
    same(b.compute(t, k), v, what=f"compute {k}")
  d = dict(zip(vs, all_))
  for i in range(2):
    close(np.broadcast_to(d[f"a{i}"], t.shape),
          [laws[i].value(float(v)) for v in t], rtol=1e-12, what=f"a{i}")
    close(np.broadcast_to(d[f"f{i}"], t.shape), np.full(t.shape, c["f"][i]),
          rtol=0, atol=0, what=f"f{i}")
    close(np.broadcast_to(d[f"p{i}"], t.shape), np.full(t.shape, c["p"][i]),
          rtol=0, atol=0, what=f"p{i}")
  for k in ("a", "f", "p"):
    close(np.broadcast_to(d[f"{k}_oln"] + d[f"{k}_hat"], t.shape),
          np.broadcast_to(d[f"{k}0"], t.shape), rtol=1e-12,
          atol=1e-12 * (np.abs(d[f"{k}0"]) + np.abs(d[f"{k}1"])).max(),
          what=f"{k}0 from half sum and difference")
    close(np.broadcast_to(d[f"{k}_oln"] - d[f"{k}_hat"], t.shape),
          np.broadcast_to(d[f"{k}1"], t.shape), rtol=1e-12,
          atol=1e-12 * (np.abs(d[f"{k}0"]) + np.abs(d[f"{k}1"])).max(),
          what=f"{k}1 from half sum and difference")
  raises(AttributeError, getattr, b, "no_such_variable", what="unknown name")
  # copies are equivalent
  if not c["callable_f"] or c["kind"] == "modal":
    same(copy.deepcopy(b).compute(t, "x"), x, what="signal of a deep copy")
    same(pickle.loads(pickle.dumps(b)).compute(t, "x"), x,
         what="signal of a pickled copy")
  # exchanging the partials changes nothing
  c2 = {**c, **{k: c[k][::-1] for k in ("a", "f", "p", "d", "laws")}}
  b2, _ = model(c2)
  close(b2.am(t)**2, am**2, rtol=1e-9, atol=8 * eps * tot**2,
        what="amplitude with exchanged partials")
  ctx.tag(c["kind"])
  ctx.nontrivial(min(c["a"]) > 0 and c["f"][0] != c["f"][1])


@st.composite
def signal_cases(draw):
  c = draw(cases())
  r = draw(fl(0, .8))
  c["a"][1] = c["a"][0] * r
  c["kind"] = draw(st.sampled_from(["modal", "const"]))
  # the second partial never takes over
  c["d"][1] = min(c["d"])
  c["d"][0] = max(c["d"])
  if c["kind"] == "modal" and c["t0"] < 0:
    c["t0"] = 0.
  c["f"] = [min(c["f"][0], 3000), min(c["f"][1], 3000)]
  c["n"] = draw(st.integers(2, 3000))
  c["dt"] = 1 / 44100
  if draw(bools):
    c["a"].reverse()
    c["d"].reverse()
  return c


def check_signal(c, ctx):
  """The signal is the sum of the partials, on finely sampled axes"""
  b, laws = model(c)
  t = c["t0"] + c["dt"] * np.arange(c["n"])
  if c["axis"] in ("backwards", "shuffled"):
    t = t[::-1]
  s = np.array([sum(phasors(c, laws, float(v))[0]) for v in t])
  x, pm, fm = (arr(v, shape=t.shape, what=k) for k, v in zip(
      ("x", "pm", "fm"), b.compute(t, ("x", "pm", "fm"))))
  # error of the trapezoidal rule: h^2 / 12 times the variation of the slope
  dfm = np.abs(np.diff(fm)) if t.size > 1 else np.zeros(1)
  bound = c["dt"] / 2 * np.sum(np.abs(np.diff(dfm))) + c["dt"] * (
      dfm.max() if dfm.size else 0)
  if bound > .2:
    ctx.reject()
  bound += 1e-9 * (1 + np.abs(pm).max())
  scale = np.abs(s)
  close(x, s.real, rtol=0, atol=scale * bound + 1e-12, what="signal")
  close(np.cos(pm), np.cos(np.angle(s)), rtol=0, atol=bound, what="phase")
  close(np.sin(pm), np.sin(np.angle(s)), rtol=0, atol=bound, what="phase")
  # degenerate beats
  ctx.tag("late" if c["t0"] else "from zero", c["kind"])
  ctx.nontrivial(c["a"][1] > 0 and c["f"][0] != c["f"][1] and t.size > 9)


@st.composite
def decay_cases(draw):
  return {
      "a": draw(st.one_of(fl(-2, 2), logfl(1e-6, 10))),
      "d": draw(logfl(1e-3, 100)),
      "t": draw(st.lists(fl(-1, 10), min_size=1, max_size=9)),
      "scalar": draw(bools),
  }


def check_decay(c, ctx):
  from sample import beatsdrop as bd
  e = bd.ExponentialDecay(c["a"], c["d"])
  t = c["t"][0] if c["scalar"] else np.array(c["t"])
  ts = c["t"][:1] if c["scalar"] else c["t"]
  if min(ts) * -2 / c["d"] > 600:
    ctx.reject()
  v = np.array([c["a"] * math.exp(-2 * x / c["d"]) for x in ts])
  y = e(t)
  g = e.dt(t)
  require(np.ndim(y) == np.ndim(t) and np.ndim(g) == np.ndim(t), "shapes")
  close(np.reshape(y, -1), v, rtol=1e-12, what="decay")
  close(np.reshape(g, -1), v * (-2 / c["d"]), rtol=1e-12, what="derivative")
  if not c["scalar"]:
    out = np.empty(t.shape)
    r = e(t, out=out)
    require(r is out, "the output array is not returned")
    same(out, y, what="values in the output array")
    r = e.dt(t, out=out)
    require(r is out, "the output array is not returned")
    same(out, g, what="derivatives in the output array")
  ctx.nontrivial(c["a"] != 0)


@st.composite
def bad_cases(draw):
  return {"which": draw(st.integers(0, 2)), "t": draw(fl(0, 1))}


def check_bad(c, ctx):
  """An amplitude function without a derivative is rejected"""
  from sample import beatsdrop as bd
  fn = lambda t: np.ones(np.shape(t))
  kw = [{"a0": fn}, {"a1": fn}, {"a0": fn, "a1": fn}][c["which"]]
  raises(AttributeError, bd.Beat, **kw, what="amplitude without derivative")
  ctx.nontrivial()


SUBS = [
    Sub("large", lambda: st.builds(
        lambda c, n: {**c, "n": n, "dt": min(c["dt"], 5 / n)}, cases(),
        sizes(61, 20000)), check, quick=60, shards=2),
    Sub("large_signal", lambda: st.builds(
        lambda c, n: {**c, "n": n}, signal_cases(), sizes(3000, 40000)),
        check_signal, quick=60, shards=2),
    Sub("phasors", cases, check, quick=1000, shards=3),
    Sub("signal", signal_cases, check_signal, quick=500, shards=2),
    Sub("decay", decay_cases, check_decay, quick=400),
    Sub("rejections", bad_cases, check_bad, quick=20, thorough=40),
]
