"""P23: mel spectra are non-negative linear maps of the spectrum"""
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P23"
RULE = (
    "A case is a frequency axis and a way of specifying a triangular bank "
    "(number of filters, bandwidth function, limits, scale), and for "
    "conversions a transform, an exponent and an optional given bank. "
    "Oracle: each triangle evaluated point by point from its three corners; "
    "explicit sums for the conversion. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: more than one filter and "
    "some non-zero response.")
ASSUMPTIONS = [
    "Bandwidths are positive and corner frequencies at least 1 Hz apart",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def psy():
  from sample import psycho
  return psycho


SCALES = {
    None: (lambda f: 2595 * np.log10(1 + f / 700),
           lambda m: 700 * (10**(m / 2595) - 1)),
    "linear": (lambda f: f, lambda m: m),
    "log": (np.log, np.exp),
    "sqrt": (np.sqrt, np.square),
}
BANDS = {
    "const": lambda f: 150.,
    "prop": lambda f: 20 + f / 5,
    "erb": lambda f: 24.7 * (.00437 * f + 1),
}


@st.composite
def specs(draw):
  """How to specify a bank"""
  return {
      "n": draw(opt(st.integers(1, 20))),
      "band": draw(st.sampled_from([None, None, "const", "prop", "erb"])),
      "flim": draw(weighted(
          (1, st.none()),
          (2, st.tuples(fl(20, 500), fl(1000, 6000)).map(list)),
          (3, st.lists(fl(20, 5000), min_size=1, max_size=8)))),
      "container": draw(st.sampled_from(["list", "tuple", "array"])),
      "scale": draw(st.sampled_from([None, None, "linear", "log", "sqrt"])),
  }


@st.composite
def axes(draw):
  kind = draw(st.sampled_from(["fft", "fft", "uneven", "list"]))
  return {
      "kind": kind,
      "size": draw(st.integers(3, 80)),
      "fs": draw(st.sampled_from([8000., 16000, 11025])),
      "lo": draw(st.sampled_from([0., 0., 30.])),
      "seed": draw(seeds),
  }


def axis(a):
  lo = a["lo"]
  if a["kind"] == "uneven":
    rng = np.random.default_rng(a["seed"])
    f = np.cumsum(rng.uniform(.5, 2, size=a["size"]))
    return lo + f / f[-1] * a["fs"] / 2
  f = lo + np.arange(a["size"]) * (a["fs"] / 2 / (a["size"] - 1))
  return f.tolist() if a["kind"] == "list" else f


def reference(freqs, spec):
  """Corners (left, center, right) per filter, or None if invalid"""
  flim, n, band = spec["flim"], spec["n"], BANDS.get(spec["band"])
  if flim is None:
    flim = [freqs[0], freqs[-1]]
  t, inv = SCALES[spec["scale"]]
  if n is None:
    pts = [float(f) for f in flim]
  else:
    a, b = float(t(float(flim[0]))), float(t(float(flim[-1])))
    pts = [float(inv(a + (b - a) * i / (n + 1))) for i in range(n + 2)]
    if band is not None:
      pts = pts[1:-1]
  if band is not None:
    return [(c - band(c), c, c + band(c)) for c in pts]
  return [(pts[i - 1], pts[i], pts[i + 1]) for i in range(1, len(pts) - 1)]


def triangle(f, l, c, r):
  if f <= l or f >= r:
    return 0.
  return (f - l) / (c - l) if f <= c else (r - f) / (r - c)


def prepare(freqs, spec, ctx):
  """Keyword arguments and corners"""
  spec = dict(spec)
  if spec["flim"] is not None:
    spec["flim"] = sorted(spec["flim"])
  if spec["scale"] == "log" and spec["n"] is not None and \
     spec["flim"] is None and freqs[0] == 0:
    ctx.reject()
  if spec["n"] is not None and spec["flim"] is not None and \
     len(spec["flim"]) < 2:
    ctx.reject()
  corners = reference(freqs, spec)
  for l, c, r in corners:
    if not (c - l >= 1 and r - c >= 1):
      ctx.reject()
  kw = {}
  if spec["n"] is not None:
    kw["n_filters"] = spec["n"]
  if spec["band"] is not None:
    kw["bandwidth"] = BANDS[spec["band"]]
  if spec["flim"] is not None:
    kw["flim"] = {"list": list, "tuple": tuple,
                  "array": np.array}[spec["container"]](spec["flim"])
  if spec["scale"] is not None:
    kw["freq_transform"] = SCALES[spec["scale"]]
  return kw, corners


def bank_cases():
  return st.fixed_dictionaries({"axis": axes(), "spec": specs()})


def check_bank(case, ctx):
  p = psy()
  freqs = axis(case["axis"])
  kw, corners = prepare(freqs, case["spec"], ctx)
  fb = np.copy(freqs)
  lb = np.copy(kw["flim"]) if "flim" in kw else None
  if not corners:
    raises(ValueError, p.mel_triangular_filterbank, freqs,
           what="bank without filters", **kw)
    ctx.tag("error")
    ctx.nontrivial()
    return
  m, c = p.mel_triangular_filterbank(freqs, **kw)
  m = arr(m, shape=(len(corners), len(freqs)), what="bank", finite=True)
  near(np.asarray(c), [v[1] for v in corners], "center frequencies",
       rtol=1e-9)
  require((m >= 0).all() and (m <= 1).all(), "values outside of 0-1")
  exp = [[triangle(float(f), *v) for f in freqs] for v in corners]
  near(m, exp, "filters", rtol=1e-7, atol=1e-9)
  same(np.asarray(freqs), fb, "frequency axis")
  if lb is not None:
    same(np.asarray(kw["flim"]), lb, "limits")
  # On the corners themselves
  pts = sorted({v for t in corners for v in t})
  m2, _ = p.mel_triangular_filterbank(
      np.array(pts), **{**kw, "flim": kw.get("flim", (freqs[0], freqs[-1]))})
  for i, (l, ce, r) in enumerate(corners):
    near(m2[i][[pts.index(l), pts.index(ce), pts.index(r)]], [0, 1, 0],
         f"filter {i} on its corners", atol=1e-9)
  if case["spec"]["band"] is None and len(corners) > 1:
    # Filters overlap to one between the first and the last center
    f = np.linspace(corners[0][1], corners[-1][1], 9)[1:-1]
    m3, _ = p.mel_triangular_filterbank(
        f, **{**kw, "flim": kw.get("flim", (freqs[0], freqs[-1]))})
    near(np.sum(m3, axis=0), np.ones(7), "sum of overlapping filters",
         rtol=1e-7)
  ctx.nontrivial(len(corners) > 1 and m.any())
  ctx.tag("n" if "n_filters" in kw else "no-n",
          "band" if "bandwidth" in kw else "no-band")


# --- Conversions --------------------------------------------------------------
POWERS = ["default", 2, 1, None, .5, 3, 2.]


@st.composite
def conv_cases(draw):
  return {
      "axis": draw(axes()),
      "spec": draw(specs()),
      "power": draw(st.sampled_from(POWERS)),
      "given": draw(bools),
      "kind": draw(st.sampled_from(["complex", "complex", "real", "vector",
                                    "complex64", "fortran"])),
      "cols": draw(st.integers(0, 5)),
      "gain": draw(st.sampled_from([1e-6, .01, 1., 100.])),
      "seed": draw(seeds),
  }


def transform(case, n):
  rng = np.random.default_rng(case["seed"])
  shape = (n,) if case["kind"] == "vector" else (n, case["cols"])
  s = rng.normal(size=shape) * case["gain"]
  if case["kind"] != "real":
    s = s + 1j * rng.normal(size=shape) * case["gain"]
  if case["kind"] == "complex64":
    s = s.astype(np.complex64)
  if case["kind"] == "fortran":
    s = np.asfortranarray(s)
  return s


def ref_mel(m, s, power):
  m, s = np.asarray(m), np.asarray(s)
  if power is None:
    return np.tensordot(m, s, axes=(1, 0))
  a = np.sqrt(np.real(s)**2 + np.imag(s)**2)
  return np.tensordot(m, a**power, axes=(1, 0))**(1 / power)


def check_conv(case, ctx):
  p = psy()
  freqs = axis(case["axis"])
  kw, corners = prepare(freqs, case["spec"], ctx)
  if not corners:
    ctx.reject()
  s = transform(case, len(freqs))
  power = case["power"]
  pk = {} if power == "default" else {"power": power}
  power = 2 if power == "default" else power
  m = np.array([[triangle(float(f), *v) for f in freqs] for v in corners])
  if case["given"]:
    kw = {"filterbank": m.copy()}
  else:
    # Roots would amplify rounding errors of the corners
    m = np.array(p.mel_triangular_filterbank(freqs, **kw)[0])
  before = s.copy()
  got, c = p.stft2mel(s, freqs, **kw, **pk)
  same(s, before, "transform after the conversion")
  if case["given"]:
    require(c is None, "center frequencies of a given bank: %r", c)
    same(kw["filterbank"], m, "given bank")
  else:
    near(np.asarray(c), [v[1] for v in corners], "center frequencies",
         rtol=1e-9)
  exp = ref_mel(m, s, power)
  low = case["kind"] == "complex64"
  sc = float(np.max(np.abs(exp), initial=0))
  # Roots amplify the rounding of very small sums
  t = 1e-4 if low else 1e-8
  got = arr(got, shape=exp.shape, what="mel spectrum",
            kind="c" if power is None and case["kind"] != "real" else "f")
  near(got, exp, "mel spectrum", rtol=t, atol=t * sc)
  if power is not None:
    require((got >= 0).all(), "negative mel spectrum")
    neg, _ = p.stft2mel(-s, freqs, **kw, **pk)
    near(neg, got, "mel spectrum of the opposite", rtol=t, atol=t * sc)
    half, _ = p.stft2mel(s * 2, freqs, **kw, **pk)
    near(half, got * 2, "mel spectrum of the double", rtol=t, atol=t * sc)
  ctx.nontrivial(len(corners) > 1 and exp.size > 0 and exp.any())
  ctx.tag(str(power), case["kind"])


# --- Spectrograms -------------------------------------------------------------
@st.composite
def gram_cases(draw):
  return {
      "size": draw(st.integers(64, 600)),
      "seed": draw(seeds),
      "fs": draw(st.sampled_from([8000, 16000, None])),
      "nperseg": draw(st.sampled_from([None, 32, 64, 63])),
      "hop": draw(opt(st.integers(4, 31))),
      "nfft": draw(st.sampled_from([None, 64, 128])),
      "window": draw(st.sampled_from([None, "hamming", "boxcar"])),
      "padded": draw(opt(bools)),
      "power": draw(st.sampled_from(POWERS)),
      "n": draw(st.integers(1, 12)),
      "scale": draw(st.sampled_from([None, "linear"])),
      "given": draw(bools),
  }


def check_gram(case, ctx):
  from scipy import signal
  p = psy()
  rng = np.random.default_rng(case["seed"])
  x = rng.normal(size=case["size"])
  sk = {}
  if case["fs"]:
    sk["fs"] = case["fs"]
  if case["nperseg"]:
    sk["nperseg"] = case["nperseg"]
    if case["hop"]:
      sk["noverlap"] = case["nperseg"] - case["hop"]
    if case["nfft"] and case["nfft"] >= case["nperseg"]:
      sk["nfft"] = case["nfft"]
  if case["window"]:
    sk["window"] = case["window"]
  if case["padded"] is not None:
    sk["padded"] = case["padded"]
  kept = dict(sk)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    f, t, s = signal.stft(x, **sk)
    hi = float(f[-1])
    spec = {"n": case["n"], "band": None, "flim": [hi * .02, hi],
            "scale": case["scale"]}
    corners = reference(f, spec)
    m = np.array([[triangle(float(v), *u) for v in f] for u in corners])
    pk = {} if case["power"] == "default" else {"power": case["power"]}
    power = 2 if case["power"] == "default" else case["power"]
    if case["given"]:
      kw = {"filterbank": m}
    else:
      kw = {"n_filters": case["n"], "flim": (hi * .02, hi)}
      if case["scale"]:
        kw["freq_transform"] = SCALES[case["scale"]]
      m = np.array(p.mel_triangular_filterbank(f, **kw)[0])
    args = {"stft_kws": sk} if sk or case["given"] else {}
    before = x.copy()
    c, tt, mel = p.mel_spectrogram(x, **args, **kw, **pk)
  same(x, before, "signal")
  require(sk == kept, "the options were changed to %r", sk)
  near(np.asarray(tt), t, "times")
  if case["given"]:
    require(c is None, "center frequencies of a given bank: %r", c)
  else:
    near(np.asarray(c), [v[1] for v in corners], "center frequencies")
  exp = ref_mel(m, s, power)
  sc = float(np.max(np.abs(exp), initial=0))
  near(mel, exp, "mel spectrogram", rtol=1e-7, atol=1e-8 * sc)
  ctx.nontrivial(len(corners) > 1)


# --- Real sizes ---------------------------------------------------------------
@st.composite
def big_spec(draw, base):
  c = draw(base)
  m = draw(sizes(21, 200))
  c["axis"]["size"] = draw(sizes(80, 4096))
  c["spec"]["n"] = m if draw(bools) else None
  if c["spec"]["n"] is None or len(c["spec"]["flim"] or ()) == 1:
    c["spec"]["flim"] = (20 + 60 * np.arange(m)).tolist()
  if "cols" in c:
    c["cols"] = draw(sizes(6, max(7, min(1000, 400000 // m // 10))))
  return c


def big_gram(draw=None):
  return st.builds(
      lambda c, n, k, m: {**c, "size": n, "nperseg": k, "nfft": None,
                          "hop": c["hop"] and k // 3, "n": m}, gram_cases(),
      sizes(2000, 60000), st.sampled_from([256, 512, 1000, 1024, 2048]),
      sizes(13, 128))


SUBS = [
    Sub("large_bank", lambda: big_spec(bank_cases()), check_bank, quick=150),
    Sub("large_convert", lambda: big_spec(conv_cases()), check_conv, quick=150),
    Sub("large_spectrogram", big_gram, check_gram, quick=150),
    Sub("bank", bank_cases, check_bank, quick=3000, shards=2),
    Sub("conversion", conv_cases, check_conv, quick=3000, shards=2),
    Sub("spectrogram", gram_cases, check_gram, quick=800, shards=2),
]
