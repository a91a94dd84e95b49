"""P07: spectra and spectral peaks"""
import math

import numpy as np
from core import Sub, arr, close, require
from gens import bools, fl, opt, seeds, sizes, st

PROPERTY = "P07"
RULE = (
    "Frames: samples (drawn, constant, silent, sinusoidal or noise expanded "
    "from a drawn seed), windows of 2-48 samples (large: up to 5000) and FFT "
    "sizes from the window size up; spectra: drawn values on coarse grids (so that plateaus "
    "and ties occur) or fine ones. Oracles: naive O(n^2) DFT, loop over "
    "triples, exact parabola. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: a frame with at least two "
    "distinct bin magnitudes; a spectrum with at least one peak and one "
    "non-peak local feature.")

WINDOWS = ("boxcar", "hann", "hamming", "blackman", "triang", "drawn")


def make_window(kind, size, drawn):
  from scipy import signal
  if kind == "drawn":
    return np.array([drawn[i % len(drawn)] for i in range(size)])
  return signal.get_window(kind, size, fftbins=False)


@st.composite
def frames(draw):
  m = draw(st.one_of(st.integers(1, 16), st.integers(1, 48)))
  n = m + draw(st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 80)))
  kind = draw(st.sampled_from(("values", "const", "zero", "sine", "noise")))
  x = {"kind": kind}
  if kind == "values":
    x["v"] = draw(st.lists(fl(-2, 2), min_size=m, max_size=m))
  elif kind == "const":
    x["v"] = draw(fl(-2, 2))
  elif kind == "sine":
    x["v"] = [draw(fl(0, .5)), draw(fl(1e-4, 1)), draw(fl(0, 7))]
  elif kind == "noise":
    x["v"] = [draw(seeds), draw(st.sampled_from([1e-12, 1e-6, 1., 1e3]))]
  return {
      "m": m,
      "n": n,
      "x": x,
      "w": draw(st.sampled_from(WINDOWS)),
      "wv": draw(st.lists(fl(-1, 1), min_size=1, max_size=6)),
      "norm": draw(bools),
      "tol": draw(opt(st.sampled_from([0., 1e-14, 1e-9, 1e-3]))),
  }


def expand(x, m):
  if x["kind"] == "values":
    return np.array(x["v"], dtype=float)
  if x["kind"] == "const":
    return np.full(m, x["v"], dtype=float)
  if x["kind"] == "sine":
    f, a, p = x["v"]
    return a * np.cos(2 * np.pi * f * np.arange(m) + p)
  if x["kind"] == "noise":
    return np.random.default_rng(x["v"][0]).normal(size=m) * x["v"][1]
  return np.zeros(m)


def check_dft(c, ctx):
  from sample.sms import dsp
  m, n = c["m"], c["n"]
  x = expand(c["x"], m)
  w = make_window(c["w"], m, c["wv"])
  if c["norm"] and abs(np.sum(w)) > 1e-3:
    w = w / np.sum(w)
  x0, w0 = x.copy(), w.copy()
  kw = {} if c["tol"] is None else {"tol": c["tol"]}
  mx, px = dsp.dft(x, w, n, **kw)
  require(np.array_equal(x, x0) and np.array_equal(w, w0), "inputs modified")
  k = n // 2 + 1
  mx = arr(mx, shape=(k,), kind="f", what="magnitude", finite=True)
  px = arr(px, shape=(k,), kind="f", what="phase", finite=True)
  # naive zero-phase DFT: the sample at m//2 is at time 0
  t = np.arange(m) - m // 2
  ref = np.array(
      [np.sum(x * w * np.exp(-2j * np.pi * b * t / n)) for b in range(k)])
  scale = float(np.sum(np.abs(x * w)))
  eps = np.finfo(float).eps
  noise = 1e-13 * scale
  close(10**(mx / 20), np.maximum(np.abs(ref), eps), rtol=1e-9,
        atol=noise + 1e-18, what="magnitude")
  require((mx >= 20 * math.log10(eps) - 1e-9).all(), "below the floor")
  tol = 1e-14 if c["tol"] is None else c["tol"]
  # phases where they are well-defined
  a = np.abs(ref)
  defined = (a > 1e4 * noise) & (a > tol + 2 * noise) & (a > 1e-300)
  close(np.exp(1j * px[defined]), ref[defined] / a[defined], rtol=0,
        atol=1e-3, what="phase")
  zero = (a < tol - 2 * noise) & (eps < tol)
  close(np.exp(1j * px[zero]), np.ones(zero.sum()), rtol=0, atol=1e-9,
        what="phase of null bins")
  require((np.abs(np.diff(px)) <= np.pi + 1e-9).all(), "phase not unwrapped")
  require(abs(px[0]) <= np.pi + 1e-9, "first phase is %s", px[0])
  ctx.tag(c["x"]["kind"], "odd" if m % 2 else "even")
  ctx.nontrivial(scale > 0 and np.ptp(mx) > 0)


@st.composite
def spectra(draw):
  el = draw(
      st.sampled_from(
          (st.integers(-4, 4).map(float), st.integers(-120, 0).map(float),
           fl(-120, 0).map(lambda v: round(v, 5)))))
  mx = draw(st.lists(el, min_size=2, max_size=40))
  return {
      "mx": mx,
      "px": draw(opt(st.lists(fl(-10, 10), min_size=len(mx),
                              max_size=len(mx)))),
      "t": draw(opt(el)),
  }


def ref_peaks(mx, t):
  return [
      i for i in range(1,
                       len(mx) - 1)
      if mx[i] > mx[i - 1] and mx[i] > mx[i + 1] and (t is None or mx[i] > t)
  ]


def check_peaks(c, ctx):
  from sample.sms import dsp
  mx, t = np.array(c["mx"], dtype=float), c["t"]
  px = None if c["px"] is None else np.array(c["px"], dtype=float)
  ref = ref_peaks(c["mx"], t)
  mx0 = mx.copy()
  got = arr(dsp.peak_detect(mx, t), shape=(len(ref),), kind="iu", what="peaks")
  require(got.tolist() == ref, "peaks are %s, expected %s", got.tolist(), ref)
  if t is None:
    require(np.asarray(dsp.peak_detect(mx)).tolist() == ref, "default threshold")
  for res in (dsp.peak_refine(got, mx, px), dsp.peak_detect_interp(mx, px, t)):
    require(len(res) == (2 if px is None else 3), "%d outputs", len(res))
    loc = arr(res[0], shape=(len(ref),), kind="f", what="locations")
    mag = arr(res[1], shape=(len(ref),), kind="f", what="magnitudes")
    for j, i in enumerate(ref):
      l, m, r = (float(mx[i + o]) for o in (-1, 0, 1))
      # vertex of the parabola through (-1, l), (0, m), (1, r)
      a2, a1 = (l + r) / 2 - m, (r - l) / 2
      v = -a1 / (2 * a2)
      h = m - a1 * a1 / (4 * a2)
      require(abs(loc[j] - i) <= .5 + 1e-9, "peak %d moved to %s", i, loc[j])
      require(mag[j] >= m - 1e-9, "refined magnitude is lower")
      close(loc[j], i + v, rtol=0, atol=1e-6, what="refined location")
      close(mag[j], h, rtol=0, atol=1e-6, what="refined magnitude")
      if px is not None:
        p0 = int(math.floor(loc[j]))
        fr = loc[j] - p0
        want = px[p0] + (fr * (px[p0 + 1] - px[p0]) if fr else 0)
        close(np.asarray(res[2])[j], want, rtol=0, atol=1e-9,
              what="interpolated phase")
  require(np.array_equal(mx, mx0), "spectrum modified")
  ctx.tag("with peaks" if ref else "no peaks")
  ctx.nontrivial(ref and len(ref_peaks(c["mx"], None)) < len(mx) - 2)


@st.composite
def parabolas(draw):
  return {
      "p": draw(fl(1.51, 30.49)),
      "h": draw(fl(-80, 0)),
      "c": draw(fl(.05, 20)),
      "n": 34,
      "slope": draw(fl(-3, 3)),
  }


def check_parabola(c, ctx):
  """Exactness: a sampled parabola gives back its vertex"""
  from sample.sms import dsp
  frac = abs(c["p"] - math.floor(c["p"]) - .5)
  if frac < 1e-3:
    ctx.reject()
  k = np.arange(c["n"])
  mx = c["h"] - c["c"] * (k - c["p"])**2
  px = c["slope"] * k
  loc, mag, ph = dsp.peak_detect_interp(mx, px, None)
  loc = arr(loc, shape=(1,), what="locations")
  close(loc, np.array([c["p"]]), rtol=0, atol=1e-6, what="vertex")
  close(mag, np.array([c["h"]]), rtol=0, atol=1e-6, what="height")
  close(ph, np.array([c["slope"] * c["p"]]), rtol=0, atol=1e-4, what="phase")
  ctx.nontrivial()


@st.composite
def large_frames(draw):
  m = draw(sizes(2, 5000))
  return {
      "m": m,
      "n": max(m, draw(st.one_of(st.just(m), sizes(m, 4 * m),
                                 st.integers(1, 14).map(lambda e: 2**e)))),
      "w": draw(st.sampled_from(WINDOWS[:-1])),
      "seed": draw(seeds),
      "level": draw(st.sampled_from([1e-9, 1e-3, 1., 1e4])),
      "tone": draw(fl(0, .5)),
      "t": draw(opt(fl(-200, 40))),
  }


def check_large(c, ctx):
  """Long frames, and the peaks of their spectra"""
  from sample.sms import dsp
  m, n = c["m"], c["n"]
  rng = np.random.default_rng(c["seed"])
  x = c["level"] * (rng.normal(size=m) * .1 + np.cos(
      2 * np.pi * c["tone"] * np.arange(m)))
  w = make_window(c["w"], m, [])
  w = w / max(abs(np.sum(w)), 1e-3)
  mx, px = dsp.dft(x, w, n)
  k = n // 2 + 1
  mx = arr(mx, shape=(k,), kind="f", what="magnitude", finite=True)
  px = arr(px, shape=(k,), kind="f", what="phase", finite=True)
  # Zero-phase: the transform, moved back by half of the window
  b = np.arange(k)
  ref = np.fft.fft(x * w, n)[:k] * np.exp(2j * np.pi * b * (m // 2) / n)
  a = np.abs(ref)
  scale = float(np.sum(np.abs(x * w)))
  close(10**(mx / 20), np.maximum(a, np.finfo(float).eps), rtol=1e-9,
        atol=1e-12 * scale + 1e-18, what="magnitude")
  ok = (a > 1e-7 * scale) & (a > 1e-12)
  close(np.exp(1j * px[ok]), ref[ok] / a[ok], rtol=0, atol=1e-3, what="phase")
  require((np.abs(np.diff(px)) <= np.pi + 1e-9).all(), "phase not unwrapped")
  t = c["t"]
  peaks = ref_peaks(mx.tolist(), t)
  got = np.asarray(dsp.peak_detect(mx, t)).tolist()
  require(got == peaks, "%d peaks, expected %d", len(got), len(peaks))
  loc, mag, ph = dsp.peak_detect_interp(mx, px, t)
  i = np.array(peaks, dtype=int)
  l, h, r = mx[i - 1], mx[i], mx[i + 1]
  v = .5 * (l - r) / (l - 2 * h + r)
  close(arr(loc, shape=i.shape, what="locations"), i + v, rtol=0, atol=1e-6,
        what="locations")
  close(arr(mag, shape=i.shape, what="magnitudes"), h - .25 * (l - r) * v,
        rtol=0, atol=1e-6, what="magnitudes")
  j = np.where(v < 0, i - 1, i)
  close(arr(ph, shape=i.shape, what="phases"),
        px[j] + (i + v - j) * (px[j + 1] - px[j]), rtol=0, atol=1e-6,
        what="phases")
  ctx.nontrivial(peaks)


SUBS = [
    Sub("large", large_frames, check_large, quick=250),
    Sub("dft", frames, check_dft, quick=2500, shards=2),
    Sub("peaks", spectra, check_peaks, quick=3000, shards=2),
    Sub("parabola", parabolas, check_parabola, quick=800),
]
