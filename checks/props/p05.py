"""P05: resynthesis is the closed-form sum of the selected modes"""
import cmath
import math

import numpy as np
from core import Sub, arr, close, fail, raises, require
from gens import bools, fl, logfl, opt, seeds, sizes, st

PROPERTY = "P05"
RULE = (
    "A case is a set of 0-8 modes (frequency, decay, amplitude), a list of "
    "evaluation times, an ordering, a truncation and a choice of phases, all "
    "drawn by Hypothesis, or up to 2000 modes and 300000 times expanded from a "
    "seed; the oracle is a mode-by-mode reference sum. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least 2 modes with non-zero amplitude and at least 2 "
    "times.")
ASSUMPTIONS = [
    "Modes tied in the ordering key at the truncation boundary may be chosen "
    "either way"
]

ORDERS = ("energies", "freqs", "amps", "decays")


def model(modes, max_n=None):
  import sample
  m = sample.SAMPLE(max_n_modes=max_n)
  m.param_matrix_ = np.array(modes, dtype=float).reshape(-1, 3).T.copy()
  return m


def key(mode, order):
  f, d, a = mode
  return {"energies": d * a * a / 4, "freqs": f, "decays": d, "amps": a}[order]


def select(modes, order, reverse, n):
  """Indices of the selected modes, and whether ties make that ambiguous"""
  ks = [key(m, order) for m in modes]
  idx = sorted(range(len(modes)), key=lambda i: ks[i], reverse=reverse)
  n = min(n, len(modes))
  amb = 0 < n < len(modes) and math.isclose(ks[idx[n - 1]], ks[idx[n]],
                                            rel_tol=1e-12, abs_tol=1e-300)
  return idx[:n], amb


def ref(modes, phases, times, analytic):
  out = []
  for t in times:
    s = 0j
    for (f, d, a), p in zip(modes, phases):
      ph = 2 * math.pi * f * t + p
      s += a * math.exp(-2 * t / d) * (cmath.exp(1j * ph)
                                       if analytic else math.cos(ph))
    out.append(s if analytic else s.real)
  return np.array(out, dtype=complex if analytic else float)


def tol(modes, times):
  """Rounding of 2*pi*f*t dominates"""
  return max([1e-12] + [
      a * math.exp(-2 * t / d) *
      (1e-12 + 1e-15 * (abs(2 * math.pi * f * t) + abs(2 * t / d)) * 16)
      for f, d, a in modes
      for t in times]) * max(1, len(modes))


mode = st.tuples(fl(0, 20000), logfl(1e-2, 100), st.one_of(
    fl(0, 2), logfl(1e-6, 10))).map(list)


@st.composite
def synth_cases(draw):
  modes = draw(st.lists(mode, min_size=0, max_size=8))
  times = draw(st.one_of(
      st.lists(fl(0, 4), min_size=1, max_size=24),
      st.tuples(st.integers(1, 64), st.sampled_from([100., 8000., 44100.]),
                fl(0, 1)).map(lambda v: [v[2] + i / v[1] for i in range(v[0])]),
      st.lists(fl(-0.004, 1), min_size=2, max_size=24)))
  return {
      "modes": modes,
      "times": times,
      "order": draw(st.sampled_from(ORDERS)),
      "reverse": draw(bools),
      "n": draw(opt(st.integers(0, 10))),
      "max_n": draw(opt(st.integers(0, 10))),
      "conv": draw(st.sampled_from(["array", "array", "list", "tuple"])),
      "phases": draw(opt(st.lists(fl(-10, 10), min_size=len(modes),
                                  max_size=len(modes)))),
      "analytic": draw(bools),
      "defaults": draw(bools),
  }


def check_predict(c, ctx):
  modes, times = c["modes"], c["times"]
  m = model(modes, c["max_n"])
  before = m.param_matrix_.copy()
  kw = {}
  order, reverse = "energies", True
  if not c["defaults"]:
    order, reverse = kw["order"], kw["reverse"] = c["order"], c["reverse"]
  if c["n"] is not None:
    kw["n_modes"] = c["n"]
  if c["phases"] is not None:
    kw["phases"] = {"list": list, "tuple": tuple}.get(
        c.get("conv"), np.array)(c["phases"])
  elif c.get("conv") == "list":
    kw["phases"] = None
  if c["analytic"]:
    kw["analytic"] = True
  n = c["n"] if c["n"] is not None else (
      c["max_n"] if c["max_n"] is not None else len(modes))
  t_in = np.array(times)
  y = np.asarray(m.predict(t_in, **kw))
  require(np.array_equal(t_in, np.array(times)), "the time axis was modified")
  require(np.array_equal(m.param_matrix_, before), "the model was modified")
  if c["phases"] is not None:
    require(list(kw["phases"]) == c["phases"], "phases were modified")
  require(y.size == len(times), "size %s for %s times", y.shape, len(times))
  require(y.shape == (len(times),), "shape %s", y.shape)
  require(np.iscomplexobj(y) == bool(c["analytic"]), "dtype %s", y.dtype)
  idx, amb = select(modes, order, reverse, n)
  ctx.tag("truncated" if n < len(modes) else "full",
          "phases" if c["phases"] else "nophases",
          "analytic" if c["analytic"] else "real")
  if amb:
    ctx.tag("tie at the cut")
    return
  ph = c["phases"] or [0.] * len(modes)
  r = ref([modes[i] for i in idx], [ph[i] for i in idx], times, c["analytic"])
  close(y.reshape(-1), r, rtol=0, atol=tol(modes, times), what="resynthesis")
  ctx.nontrivial(len(times) > 1 and sum(m_[2] > 0 for m_ in modes) > 1)


@st.composite
def direct_cases(draw):
  c = draw(synth_cases())
  return {k: c[k] for k in ("modes", "times", "phases", "analytic")} | {
      "lists": draw(bools), "old": draw(bools), "scalar": draw(bools)}


def check_direct(c, ctx):
  """The synthesis function itself, with sequences of any kind"""
  from sample.sample import additive_synth
  modes, times = c["modes"], c["times"]
  conv = list if c["lists"] else np.array
  f, d, a = ([m[i] for m in modes] for i in range(3))
  kw = {}
  if c["phases"] is not None:
    kw["phases"] = conv(c["phases"])
  if c["analytic"]:
    kw["analytical" if c["old"] else "analytic"] = True
  y = np.asarray(additive_synth(conv(times), conv(f), conv(d), conv(a), **kw))
  require(y.shape == (len(times),), "shape %s", y.shape)
  require(np.iscomplexobj(y) == bool(c["analytic"]), "dtype %s", y.dtype)
  r = ref(modes, c["phases"] or [0.] * len(modes), times, c["analytic"])
  close(y.reshape(-1), r, rtol=0, atol=tol(modes, times), what="synthesis")
  if c["scalar"]:
    for t, v in zip(times, r):
      z = np.asarray(additive_synth(t, conv(f), conv(d), conv(a), **kw))
      require(z.size == 1 and np.iscomplexobj(z) == bool(c["analytic"]),
              "synthesis at one time is %r", z)
      close(z.reshape(()), v, rtol=0, atol=tol(modes, times),
            what="synthesis at one time")
  ctx.nontrivial(len(times) > 1 and sum(m_[2] > 0 for m_ in modes) > 1)


@st.composite
def random_cases(draw):
  n = draw(st.integers(1, 4))
  f0 = draw(fl(10, 200))
  return {
      "modes": [[
          f0 + 20 * i + draw(fl(0, 10)),
          draw(logfl(.2, 10)),
          draw(fl(.1, 2))
      ] for i in range(n)],
      "seed": draw(seeds),
      "seed2": draw(seeds),
      "n": draw(opt(st.integers(1, 4))),
      "bad": draw(st.text(max_size=8)),
  }


def check_random(c, ctx):
  """Random phases: reproducible, and the only thing that is random"""
  modes = c["modes"]
  m = model(modes)
  t = np.arange(256) / 1024
  kw = {"n_modes": c["n"]} if c["n"] else {}
  y = m.predict(t, phases="random", seed=c["seed"], analytic=True, **kw)
  y2 = m.predict(t, phases="random", seed=c["seed"], analytic=True, **kw)
  require(np.array_equal(y, y2), "same seed, different phases")
  yr = m.predict(t, phases="random", seed=c["seed"], **kw)
  close(yr, np.real(y), rtol=0, atol=1e-9,
        what="real synthesis vs real part of the analytic one")
  y3 = m.predict(t, phases="random", rng=np.random.default_rng(c["seed"]),
                 analytic=True, **kw)
  require(np.array_equal(y, y3), "a generator with the same seed gives "
          "different phases")
  if c["seed2"] != c["seed"]:
    y4 = m.predict(t, phases="random", seed=c["seed2"], analytic=True, **kw)
    require(not np.allclose(y4, y), "different seeds, same phases")
  idx, amb = select(modes, "energies", True, c["n"] or len(modes))
  if amb:
    return
  sel = [modes[i] for i in idx]
  basis = np.array([ref([s], [0.], t, True) for s in sel]).T
  if np.linalg.cond(basis) > 1e6:
    return
  coef, *_ = np.linalg.lstsq(basis, y, rcond=None)
  close(np.abs(coef), np.ones(len(sel)), rtol=0, atol=1e-6,
        what="mode gains under random phases")
  close(basis @ coef, y, rtol=0, atol=1e-6, what="random phases resynthesis")
  ctx.nontrivial(len(sel) > 1)
  if c["bad"] != "random":
    raises(ValueError, m.predict, t, phases=c["bad"],
           what="unsupported phases option")


@st.composite
def large_cases(draw):
  n = draw(st.one_of(sizes(1, 400), sizes(20, 2000)))
  return {
      "n": n,
      "size": draw(sizes(1, max(2, min(300000, 4000000 // n)))),
      "fs": draw(st.sampled_from([1000., 8000., 44100.])),
      "seed": draw(seeds),
      "order": draw(st.sampled_from(ORDERS)),
      "reverse": draw(bools),
      "cut": draw(opt(fl(0, 1))),
      "phases": draw(st.sampled_from([False, True, "seed", "rng"])),
      "analytic": draw(bools),
  }


def check_large(c, ctx):
  """Many modes, long sounds"""
  rng = np.random.default_rng(c["seed"])
  n = c["n"]
  f = rng.uniform(20, 15000, size=n)
  d = np.exp(rng.uniform(-3, 1, size=n))
  a = rng.uniform(.01, 1, size=n)
  p = rng.uniform(-7, 7, size=n) if c["phases"] is True else np.zeros(n)
  t = np.arange(c["size"]) / c["fs"]
  m = model(np.stack((f, d, a), axis=1).tolist())
  kw = {"phases": p.copy()} if c["phases"] is True else {}
  k = n
  if c["cut"] is not None:
    k = kw["n_modes"] = round(c["cut"] * n)
  kw.update(order=c["order"], reverse=c["reverse"], analytic=c["analytic"])
  if isinstance(c["phases"], str):
    # The phases are those of the modes: all times get the same ones
    def func(times):
      if c["phases"] == "seed":
        return m.predict(times, phases="random", seed=c["seed"], **kw)
      return m.predict(times, phases="random",
                       rng=np.random.default_rng(c["seed"]), **kw)

    y = arr(func(t.copy()), shape=t.shape,
            kind="c" if c["analytic"] else "f", what="resynthesis")
    idx = np.unique(np.concatenate((
        rng.integers(t.size, size=50), [0, t.size // 2, t.size - 1])))
    close(y[idx], func(t[idx]), rtol=0, atol=1e-11 * (1 + np.sum(a)) *
          (1 + t[-1]), what="resynthesis of part of the times")
    ctx.tag("random phases")
    ctx.nontrivial(k > 0 and t.size > 1)
    return
  y = m.predict(t.copy(), **kw)
  y = arr(y, shape=t.shape, kind="c" if c["analytic"] else "f",
          what="resynthesis")
  keys = {"freqs": f, "decays": d, "amps": a, "energies": a * a * d / 4}
  idx = sorted(range(n), key=keys[c["order"]].__getitem__,
               reverse=c["reverse"])[:k]
  ref = np.zeros(t.size, dtype=complex)
  for i in idx:
    ref += a[i] * np.exp(t * (2j * np.pi * f[i] - 2 / d[i]) + 1j * p[i])
  atol = 1e-11 * (1 + np.sum(a)) * (1 + t[-1])
  close(y, ref if c["analytic"] else ref.real, rtol=0, atol=atol,
        what="resynthesis")
  ctx.tag("truncated" if k < n else "full")
  ctx.nontrivial(k > 8 or t.size > 64)


SUBS = [
    Sub("large", large_cases, check_large, quick=60, shards=2),
    Sub("predict", synth_cases, check_predict, quick=2500, shards=2),
    Sub("direct", direct_cases, check_direct, quick=1500),
    Sub("random_phases", random_cases, check_random, quick=500),
]
