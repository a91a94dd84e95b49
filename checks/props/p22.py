"""P22: cochleagrams do not depend on the convolution method"""
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P22"
RULE = (
    "A case is a gammatone bank (1-40 filters), a signal (up to 50000 "
    "samples), and the way of computing "
    "the cochleagram (entry point, method, stride, analytic mode, "
    "post-processing). Oracle: numpy's direct convolution with each filter's "
    "response, evaluated on the grid aligned to its leading time, delayed so "
    "that all leading times coincide, then decimated. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: more than "
    "one filter with different delays, or a stride greater than one.")
ASSUMPTIONS = [
    "Leading times within rounding of a whole number of samples are set "
    "aside (they move the grid by one sample)",
    "The responses themselves are judged by P21",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def psy():
  from sample import psycho
  return psycho


@st.composite
def cases(draw):
  n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
  return {
      "freqs": draw(st.lists(logfl(60, 3500), min_size=n, max_size=n)),
      "order": draw(st.integers(1, 5)),
      "b": draw(opt(logfl(40, 400))),
      "t_c": draw(weighted((4, st.none()), (1, st.just(0.)),
                           (2, fl(0, .01)))),
      "normalize": draw(bools),
      "fs": draw(st.sampled_from([8000, 11025.])),
      "size": draw(weighted((1, st.integers(1, 5)), (3, st.integers(1, 300)))),
      "seed": draw(seeds),
      "kind": draw(st.sampled_from(["float", "float", "int", "float32",
                                    "complex", "impulse", "view"])),
      "entry": draw(st.sampled_from(["cochleagram", "kwargs", "precomputed",
                                     "method", "bank"])),
      "method": draw(st.sampled_from([None, "overlap-add", "auto", "fft",
                                      "direct"])),
      "stride": draw(opt(weighted((2, st.integers(1, 9)),
                                  (2, st.integers(1, 150)),
                                  (1, st.integers(1, 2000))))),
      "analytic": draw(st.sampled_from([None, None, "input", "ir", "output"])),
      "post": draw(st.sampled_from(["default", "default", None, "abs",
                                    "square"])),
      "warm": draw(weighted((2, st.just([])), (1, st.lists(st.tuples(
          st.sampled_from(["precompute", "convolve", "cochleagram"]),
          st.sampled_from([8000, 11025., 6000]),
          st.sampled_from([None, "ir", "input", "output"])).map(list),
                                                 min_size=1, max_size=3)))),
  }


def signal_of(case):
  rng = np.random.default_rng(case["seed"])
  n, kind = case["size"], case["kind"]
  x = rng.normal(size=n)
  if kind == "int":
    return rng.integers(-5, 6, size=n)
  if kind == "float32":
    return x.astype(np.float32)
  if kind == "complex":
    return x + 1j * rng.normal(size=n)
  if kind == "impulse":
    x = np.zeros(n)
    x[rng.integers(n)] = 1
    return x
  if kind == "view":
    return np.repeat(x, 2)[::2]
  return x


def ref_hilbert(x):
  """Analytic signal by a direct transform along the last axis"""
  n = x.shape[-1]
  s = np.fft.fft(x, axis=-1)
  w = np.zeros(n)
  w[0] = 1
  w[1:(n + 1) // 2] = 2
  if n % 2 == 0:
    w[n // 2] = 1
  return np.fft.ifft(s * w, axis=-1)


def responses(bank, fs, analytic, ctx):
  """Responses on their grids, and their delays"""
  offs, hs = [], []
  for g in bank:
    o = float(g.t_c) * fs
    if o and abs(o - round(o)) < 1e-6:
      ctx.reject()
    offs.append(math.ceil(o))
    t = (np.arange(int(g.ir_size(fs=fs))) - offs[-1]) / fs
    if t.size < 2:
      ctx.reject()
    hs.append(np.asarray(g.ir(t=t, analytic=analytic)))
  top = max(offs)
  return hs, [top - o for o in offs]


def ref_bank(x, hs, delays):
  x = np.asarray(x)
  s = max(h.size + d for h, d in zip(hs, delays))
  out = np.zeros((len(hs), x.size + s - 1),
                 dtype=np.result_type(x, float, *hs))
  for row, h, d in zip(out, hs, delays):
    y = np.convolve(x, h)
    row[d:d + y.size] = y
  return out


POST = {"abs": np.abs, "square": np.square}


def check(case, ctx):
  p = psy()
  kw = {"n": case["order"], "normalize": case["normalize"]}
  if case["b"] is not None:
    kw["bandwidth"] = case["b"]
  if case["t_c"] is not None:
    kw["t_c"] = case["t_c"]
  fs, an = case["fs"], case["analytic"]
  bank = p.GammatoneFilterbank(freqs=case["freqs"], **kw)
  x = signal_of(case)
  before = x.copy()
  entry, stride, method = case["entry"], case["stride"], case["method"]
  if stride is not None and case["seed"] % 5:
    method = None
  ckw = {}
  if method is not None:
    ckw["method"] = method
  if stride is not None:
    ckw["stride"] = stride
  hs, delays = responses(bank, fs, an == "ir", ctx)
  S = max(h.size + d for h, d in zip(hs, delays))

  # Whatever the bank was used for before does not matter
  for how, rate, mode in case.get("warm", ()):
    if how == "precompute":
      bank.precompute(rate, analytic=mode == "ir")
    elif how == "convolve":
      bank.convolve(np.ones(3), rate, analytic=mode)
    else:
      p.cochleagram(np.ones(3), fs=rate, filterbank=bank, analytic=mode)

  if entry == "bank":
    # The bank itself, without post-processing
    pre = bank.precompute(fs, analytic=an == "ir")
    func = lambda v: pre.convolve(v, **ckw)
    an = an if an == "ir" else None
    post = None
  else:
    post = case["post"]
    akw = dict(ckw)
    if an is not None:
      akw["analytic"] = an
    if post != "default":
      akw["postprocessing"] = POST.get(post)
    else:
      post = "hwr" if an is None else None
    if entry == "cochleagram":
      func = lambda v: p.cochleagram(v, fs=fs, filterbank=bank, **akw)
    elif entry == "kwargs":
      func = lambda v: p.cochleagram(v, fs=fs, freqs=case["freqs"], **kw,
                                     **akw)
    elif entry == "precomputed":
      pre = bank.precompute(fs, analytic=an == "ir")
      if an == "ir" and case["seed"] % 2:
        akw.pop("analytic")
      if an == "ir" and case["seed"] % 3 == 0:
        for bad in ("input", "output"):
          raises(ValueError, p.cochleagram, x, filterbank=pre, analytic=bad,
                 what="analytic bank, analytic " + bad)
      func = lambda v: p.cochleagram(v, filterbank=pre, **akw)
    else:
      if stride is not None and case["seed"] % 2:
        func = lambda v: bank.convolve(v, fs, **akw)
      else:
        func = lambda v: bank.convolve(v, fs=fs, **akw)
  if stride is not None and method is not None:
    raises(ValueError, func, x, what="stride and method together")
    ctx.tag("both")
    return
  if an == "input" and case["kind"] == "complex":
    ctx.reject()
  if an == "output" and (case["kind"] == "complex"):
    ctx.reject()
  if post == "hwr" and case["kind"] == "complex":
    ctx.reject()
  if stride is not None and (case["kind"] == "complex" or an == "input"):
    raises(ValueError, func, x, what="strided convolution of complex input")
    ctx.tag("complex-stride")
    return
  got = func(x)
  same(x, before, "input")
  if entry not in ("bank", "method"):
    require(isinstance(got, tuple) and len(got) == 2,
            "cochleagram() returned %r", type(got))
    got, fc = got
    near(fc, case["freqs"], "center frequencies")

  v = x.astype(float) if x.dtype.kind != "c" else x
  if an == "input":
    v = ref_hilbert(v)
  exp = ref_bank(v, hs, delays)
  full = exp.shape[1]
  require(full == x.size + S - 1, "reference length")
  if stride is not None:
    exp = exp[:, ::stride]
  scale = float(np.max(np.abs(exp), initial=0)) + 1e-300
  if an == "output":
    real, exp = exp, ref_hilbert(exp)
  if post == "hwr":
    exp = np.maximum(exp, 0)
  elif post in POST:
    exp = POST[post](exp)
  tol = 1e-5 if case["kind"] == "float32" else 1e-9
  got = arr(got, shape=exp.shape, what="cochleagram", kind=exp.dtype.kind
            if case["kind"] != "float32" else "fc")
  pw = 2 if post == "square" else 1
  near(got, exp, "cochleagram", rtol=0, atol=tol * scale**pw + 1e-25)

  # Relations
  if an in ("output", "input") and post is None and \
     case["kind"] != "float32" and entry != "bank":
    plain = ref_bank(x.astype(float), hs, delays)
    if stride is not None:
      plain = plain[:, ::stride]
    near(np.real(got), plain, "real part of the analytic cochleagram",
         rtol=0, atol=tol * scale + 1e-25)
  if an == "ir" and post is None and not case["normalize"]:
    hr, _ = responses(bank, fs, False, ctx)
    plain = ref_bank(v, hr, delays)
    if stride is not None:
      plain = plain[:, ::stride]
    if case["kind"] != "complex":
      near(np.real(got), plain, "real part of the analytic cochleagram",
           rtol=0, atol=tol * scale + 1e-25)
  if case["kind"] in ("float", "view"):
    g2 = func(x * 4)
    if isinstance(g2, tuple):
      g2 = g2[0]
    near(g2, got * 4.**pw, "cochleagram of a louder signal", rtol=0,
         atol=1e-11 * (4 * scale)**pw + 1e-25)
  ctx.nontrivial((len(set(delays)) > 1) or (stride or 1) > 1)
  ctx.tag(entry, "stride" if stride else str(method), "analytic-" + str(an))


def error_cases():
  return st.fixed_dictionaries({
      "freqs": st.lists(logfl(60, 3500), min_size=1, max_size=3),
      "size": st.integers(1, 50),
      "kind": st.sampled_from(["bank", "kwargs"]),
      "analytic": st.sampled_from([None, "input", "ir", "output"]),
      "stride": opt(st.integers(1, 9)),
  })


def check_error(case, ctx):
  p = psy()
  x = np.ones(case["size"])
  kw = {"analytic": case["analytic"], "stride": case["stride"]}
  if case["kind"] == "bank":
    kw["filterbank"] = p.GammatoneFilterbank(freqs=case["freqs"])
  else:
    kw["freqs"] = case["freqs"]
  raises(TypeError, p.cochleagram, x, what="cochleagram without a rate", **kw)
  ctx.nontrivial()


# --- Real sizes ---------------------------------------------------------------
@st.composite
def large_cases(draw):
  c = draw(cases())
  n = draw(sizes(1, 40))
  c.update(size=draw(sizes(300, min(50000, 300000 // n))), n=n,
           order=draw(st.integers(3, 5)))
  return c


def check_large(case, ctx):
  rng = np.random.default_rng(case["seed"])
  f = 10**rng.uniform(1.8, 3.5, size=case["n"])
  if rng.random() < .5:
    f.sort()
  check({**case, "freqs": f.tolist()}, ctx)


SUBS = [
    Sub("large", large_cases, check_large, quick=160, shards=2),
    Sub("methods", cases, check, quick=4000, shards=4),
    Sub("errors", error_cases, check_error, quick=100),
]
