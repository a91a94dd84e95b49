"""P19: spectral autocorrelation agrees with direct autocorrelation"""
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P19"
RULE = (
    "A case is a signal (evenly or unevenly sampled), an FFT size and the "
    "options. Oracles: the circular autocorrelation as a double sum, and the "
    "least-squares fit of a sinusoid at each frequency. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: more "
    "than one sample (and, for the periodogram, some well-conditioned bin "
    "in the band).")
ASSUMPTIONS = [
    "Bins where the least-squares problem is singular (sine and cosine are "
    "collinear on the sampling times) are set aside",
    "Whether a cutoff frequency that falls exactly on a bin is in the stop "
    "band of the low-pass is not judged",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


# --- Autocorrelogram ----------------------------------------------------------
@st.composite
def fft_cases(draw):
  n = draw(st.integers(1, 24))
  return {
      "n": n,
      "seed": draw(seeds),
      "real": draw(bools),
      "complex": draw(bools),
      "nfft": draw(st.sampled_from(["n", "2n", "2n-1", "n+1", "3n+1"])),
      "len": draw(st.sampled_from(["n", "default", "half", "nfft"])),
      "input": draw(st.sampled_from(["fft", "magnitude", "power"])),
      "args": draw(bools),
  }


def ref_autocorr(x, nfft):
  if nfft > 100:
    x = np.concatenate((x, np.zeros(nfft - len(x))))
    y = np.concatenate((x, x))
    return np.array([np.dot(y[k:k + nfft], x.conj()) for k in range(nfft)])
  x = list(x) + [0] * (nfft - len(x))
  return [
      sum(complex(x[(m + k) % nfft]) * complex(x[m]).conjugate()
          for m in range(nfft)) for k in range(nfft)
  ]


def check_fft(case, ctx):
  from sample.utils import dsp
  n = case["n"]
  nfft = {"n": n, "2n": 2 * n, "2n-1": 2 * n - 1, "n+1": n + 1,
          "3n+1": 3 * n + 1}[case["nfft"]]
  rng = np.random.default_rng(case["seed"])
  x = rng.normal(size=n)
  if case["complex"] and not case["real"]:
    x = x + 1j * rng.normal(size=n)
  a = np.fft.rfft(x, nfft) if case["real"] else np.fft.fft(x, nfft)
  if case["input"] == "magnitude":
    a = np.abs(a)
  elif case["input"] == "power":
    a = np.abs(a)**2
  kw = {"power": True} if case["input"] == "power" else {}
  if not case["real"]:
    kw["real"] = False
  # Number of lags
  size = nfft
  if case["len"] == "default":
    if case["real"] and nfft % 2:
      # the default assumes an even size
      kw.update(nfft=nfft, n=nfft)
    elif case["args"]:
      kw["nfft"] = nfft
  else:
    size = {"n": n, "half": max(1, n // 2), "nfft": nfft}[case["len"]]
    kw.update(n=size)
    if size != nfft or case["args"]:
      kw["nfft"] = nfft
  a0 = a.copy()
  got = dsp.fft2autocorrelogram(a, **kw)
  exp = np.array(ref_autocorr(x, nfft)[:size])
  got = arr(got, shape=(size,), finite=True,
            kind="f" if case["real"] else "c")
  tol = 1e-9 * (1 + abs(exp[0]))
  near(got, exp.real if case["real"] else exp, "autocorrelation", rtol=1e-9,
       atol=tol)
  if nfft >= 2 * n - 1 and size <= n:
    lin = np.correlate(x, x, "full")[n - 1:n - 1 + size]
    near(got, lin, "linear autocorrelation", rtol=1e-9, atol=tol)
    ctx.tag("linear")
  same(a, a0, "the transform was modified")
  ctx.nontrivial(n > 1)


# --- Lomb-Scargle -------------------------------------------------------------
@st.composite
def ls_cases(draw):
  n = draw(st.integers(4, 40))
  return {
      "n": n,
      "even": draw(st.sampled_from([False, False, True])),
      "seed": draw(seeds),
      "t0": draw(weighted((2, st.just(0.)), (1, fl(-3, 3)))),
      "fs": draw(st.sampled_from([1, 100., 8000])),
      "nfft": draw(st.integers(2, 64)),
      "hpf": draw(opt(fl(0, .6))),
      "lpf": draw(opt(fl(0, .6))),
      "grid": draw(bools),
      "shift": draw(fl(-20, 20)),
      "normalize": draw(st.sampled_from([None, None, True])),
      "size": draw(opt(st.integers(1, 32))),
      "mean": draw(st.sampled_from([0, 0, 1, 5])),
  }


def signal_of(case):
  rng = np.random.default_rng(case["seed"])
  n, fs = case["n"], case["fs"]
  if case["even"]:
    t = np.arange(n) / fs
  else:
    t = np.sort(rng.uniform(0, n, size=n)) / fs
  t = t + case["t0"] / fs
  x = rng.normal(size=n) + 2 * np.cos(
      2 * np.pi * rng.uniform(0, .5) * fs * t) + case["mean"]
  return t, x


def direct(t, x, w):
  """Direct periodogram at an angular velocity, and its conditioning"""
  if len(t) > 50:
    # with the cosine and the sine as they are
    t, x = np.asarray(t), np.asarray(x)
    b = np.stack((np.cos(w * t), np.sin(w * t)), axis=1)
    g, r = b.T @ b, b.T @ x
    if np.linalg.eigvalsh(g)[0] < 1e-3 * len(t):
      return None
    return .5 * float(r @ np.linalg.solve(g, r))
  c2 = math.fsum(math.cos(2 * w * u) for u in t)
  s2 = math.fsum(math.sin(2 * w * u) for u in t)
  tau = math.atan2(s2, c2) / 2
  c = [math.cos(w * u - tau) for u in t]
  s = [math.sin(w * u - tau) for u in t]
  cc, ss = math.fsum(v * v for v in c), math.fsum(v * v for v in s)
  if min(cc, ss) < 1e-3 * len(t):
    return None
  xc = math.fsum(u * v for u, v in zip(x, c))
  xs = math.fsum(u * v for u, v in zip(x, s))
  return .5 * (xc * xc / cc + xs * xs / ss)


def ls_kwargs(case):
  fs, nfft = case["fs"], case["nfft"]
  kw = {"nfft": nfft}
  if fs != 1 or case["grid"]:
    kw["fs"] = fs
  for k in ("hpf", "lpf"):
    if case[k] is not None:
      v = case[k] * fs
      if case["grid"]:
        v = round(v * nfft / fs) * fs / nfft
      kw[k] = v
  if case["normalize"]:
    kw["normalize"] = True
  return kw


def check_ls(case, ctx):
  from sample.utils import dsp
  t, x = signal_of(case)
  fs, nfft = case["fs"], case["nfft"]
  kw = ls_kwargs(case)
  t0, x0 = t.copy(), x.copy()
  with np.errstate(all="ignore"):
    ls, f = dsp.lombscargle_as_fft(t, x, **kw)
    shifted, _ = dsp.lombscargle_as_fft(t + case["shift"] / fs, x, **kw)
  n = nfft // 2 + 1
  near(f, [k * fs / nfft for k in range(n)], "frequencies", rtol=1e-12)
  ls = arr(ls, shape=(n,))
  lo, hi = kw.get("hpf", 0), kw.get("lpf", math.inf)
  energy = math.fsum(v * v for v in x)
  used = 0
  for k in range(n):
    fk = k * fs / nfft
    if fk < lo * (1 - 1e-9) or fk > hi * (1 + 1e-9):
      if k == 0 and hi < fk + 1e-12:
        continue
      require(ls[k] == 0, "bin %d (%g Hz) is out of the band, but is %r", k,
              fk, ls[k])
      continue
    if k == 0:
      if lo <= 0:
        near(ls[0], (math.fsum(x) / x.size)**2, "power at zero", rtol=1e-9,
             atol=1e-12)
      continue
    if abs(fk - hi) < 1e-9 * fs:
      continue
    d = direct(t.tolist(), x.tolist(), 2 * math.pi * fk)
    if d is None:
      ctx.tag("singular")
      continue
    if case["normalize"]:
      d *= 2 / energy
    used += 1
    tol = 1e-6 * (energy if not case["normalize"] else 1)
    near(ls[k], d, "bin %d (%g Hz)" % (k, fk), rtol=1e-6, atol=tol)
    near(shifted[k], ls[k], "bin %d (%g Hz) of the shifted signal" % (k, fk),
         rtol=1e-6, atol=tol)
  same(t, t0, "time axis modified")
  same(x, x0, "signal modified")
  ctx.nontrivial(used)
  if case["hpf"] is not None or case["lpf"] is not None:
    ctx.tag("band")


def check_corr(case, ctx):
  """Autocorrelogram from the periodogram"""
  from sample.utils import dsp
  t, x = signal_of(dict(case, even=False, t0=abs(case["t0"])))
  fs = case["fs"]
  kw = ls_kwargs(case)
  nfft = kw.pop("nfft")
  size = case["size"]
  if size is None:
    size = math.ceil(t.max() * fs - 1e-9)
    if abs(t.max() * fs - round(t.max() * fs)) < 1e-6:
      ctx.reject()
    nfft = 2 * size
  else:
    kw["n"] = size
    if case["even"]:
      nfft = 2 * size
    else:
      nfft = max(nfft, size)
      kw["nfft"] = nfft
  lk = {k: v for k, v in kw.items() if k not in ("n", "nfft")}
  with np.errstate(all="ignore"):
    got = dsp.lombscargle_autocorrelogram(t, x, **kw)
    ls, _ = dsp.lombscargle_as_fft(t, x, nfft=nfft, **lk)
  if not np.isfinite(ls).all():
    ctx.tag("singular")
    ctx.reject()
  m = np.arange(1, nfft // 2 + 1)
  wgt = np.full(m.size, 2.)
  if nfft % 2 == 0:
    wgt[-1] = 1
  exp = [(ls[0] + float(np.sum(
      wgt * ls[1:] * np.cos(2 * np.pi * m * k / nfft)))) / nfft
         for k in range(size)]
  near(got, exp, "autocorrelogram", rtol=1e-9,
       atol=1e-9 * (1 + float(np.sum(ls))))
  ctx.nontrivial(size > 1 and float(np.sum(ls[1:])) > 0)


# --- Real sizes ---------------------------------------------------------------
SUBS = [
    Sub("large_fft", lambda: st.builds(
        lambda c, n: {**c, "n": n}, fft_cases(), sizes(25, 2500)), check_fft,
        quick=100),
    Sub("large_lombscargle", lambda: st.builds(
        lambda c, n, m: {**c, "n": n, "nfft": m}, ls_cases(), sizes(30, 2000),
        sizes(16, 1024)), check_ls, quick=80),
    Sub("large_autocorrelogram", lambda: st.builds(
        lambda c, n, m, s: {**c, "n": n, "nfft": m, "size": s}, ls_cases(),
        sizes(30, 1500), sizes(16, 1024), opt(sizes(16, 800))), check_corr,
        quick=100),
    Sub("fft", fft_cases, check_fft, quick=2000),
    Sub("lombscargle", ls_cases, check_ls, quick=2000, shards=3),
    Sub("autocorrelogram", ls_cases, check_corr, quick=1200),
]
