"""P17: windowing and strided convolution equal their definitions"""
import numpy as np
from core import Sub, arr, close, require, same
from gens import bools, fl, opt, seeds, sizes, st

PROPERTY = "P17"
RULE = (
    "A case is an array (0-120 samples, and up to 60000; float32/float64/int/complex; "
    "contiguous, strided, reversed or 2-d), a window/kernel size, a hop or "
    "stride and whether an output array is given. Oracles: list of slices; "
    "numpy.convolve(..., 'valid')[::stride]. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least 2 windows "
    "with hop different from the window size, or an input shorter than the "
    "window.")


@st.composite
def win_cases(draw):
  w = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
  return {
      "size": draw(
          st.one_of(st.integers(0, 120),
                    st.integers(-3, 3).map(lambda d: max(0, w + d)),
                    st.integers(0, w))),
      "w": w,
      "hop": draw(opt(st.one_of(st.integers(1, 5), st.integers(1, 50)))),
      "layout": draw(st.sampled_from(["c", "stride", "rev", "2d"])),
      "dtype": draw(st.sampled_from(["f8", "f4", "i4", "c16"])),
      "writeable": draw(bools),
  }


@st.composite
def large_windows(draw):
  c = draw(win_cases())
  w = draw(sizes(1, 5000))
  return {**c, "w": w, "hop": draw(opt(sizes(max(1, w // 30), 2 * w))),
          "size": draw(st.one_of(sizes(1, 60000 if w > 50 else 5000),
                                 st.integers(-2, 2).map(
                                     lambda d: max(0, 4 * w + d))))}


def lay(n, layout, dtype):
  if layout == "stride":
    return np.arange(2 * n).astype(dtype)[::2]
  if layout == "rev":
    return np.arange(n).astype(dtype)[::-1]
  if layout == "2d" and n % 2 == 0:
    return np.arange(n).astype(dtype).reshape(2, -1)
  return np.arange(n).astype(dtype)


def check_windows(c, ctx):
  from sample.utils import dsp, numpy_id
  a = lay(c["size"], c["layout"], c["dtype"])
  flat = a.reshape(-1)
  w, hop = c["w"], c["hop"]
  h = w if hop is None else hop
  ref = [flat[i:i + w].tolist() for i in range(0, flat.size - w + 1, h)]
  kw = {} if hop is None else {"hop": hop}
  n = dsp.n_windows(flat.size, w, **kw)
  require(n == len(ref), "n_windows(%d, %d, %s) is %s, expected %d", flat.size,
          w, hop, n, len(ref))
  before = flat.copy()
  if c["writeable"]:
    kw["writeable"] = True
  b = dsp.overlapping_windows(a, w, **kw)
  arr(b, shape=(len(ref), w), what="windows")
  require(b.dtype == a.dtype, "dtype %s for %s", b.dtype, a.dtype)
  same(b, np.array(ref, dtype=a.dtype).reshape(len(ref), w), "windows")
  require(np.array_equal(flat, before), "input modified")
  if ref:
    require(b.flags.writeable == c["writeable"], "writeable is %s",
            b.flags.writeable)
    if a.ndim == 1:
      require(numpy_id(a) == numpy_id(b) and np.shares_memory(a, b),
              "not a view of the input")
      # a view: changes of the input show through
      a[0] += 1
      require(b[0, 0] == a[0], "not a view of the input")
      if c["writeable"]:
        b[-1, -1] = 77
        require(a[(len(ref) - 1) * h + w - 1] == 77, "not a writeable view")
      else:
        try:
          b[0, 0] = 5
        except ValueError:
          pass
        else:
          require(False, "read-only windows were written")
  ctx.tag("short" if flat.size < w else "windows", c["layout"])
  ctx.nontrivial((len(ref) > 1 and h != w) or flat.size < w)


@st.composite
def conv_cases(draw):
  k = draw(st.one_of(st.integers(1, 5), st.integers(1, 24)))
  n = k + draw(st.one_of(st.integers(0, 5), st.integers(0, 80)))
  return {
      "n": n,
      "k": k,
      "seed": draw(seeds),
      "ints": draw(bools),
      "stride": draw(st.one_of(st.integers(1, 4), st.integers(1, 90))),
      "xdtype": draw(st.sampled_from(["f8", "f4", "i4", "c16"])),
      "kdtype": draw(st.sampled_from(["f8", "f4", "c16", "c8"])),
      "out": draw(bools),
      "dtype": draw(opt(st.sampled_from(["c16", "c8"]))),
      "layout": draw(st.sampled_from(["c", "stride", "rev"])),
      "default": draw(bools),
  }


@st.composite
def large_conv(draw):
  c = draw(conv_cases())
  k = draw(sizes(1, 3000))
  return {**c, "k": k, "n": draw(sizes(k, max(k + 9, 20000))),
          "stride": draw(sizes(1, 3000))}


def rnd(rng, n, dtype, ints):
  v = rng.integers(-5, 6, n).astype(float) if ints else rng.normal(size=n)
  if dtype.startswith("c"):
    v = v + 1j * (rng.integers(-5, 6, n) if ints else rng.normal(size=n))
  if dtype.startswith("i"):
    v = np.round(v * 3)
  return v.astype(dtype)


def check_conv(c, ctx):
  from sample.utils import dsp
  rng = np.random.default_rng(c["seed"])
  x = rnd(rng, c["n"], c["xdtype"], c["ints"])
  k = rnd(rng, c["k"], c["kdtype"], c["ints"])
  if c["layout"] == "stride":
    x = np.repeat(x, 2)[::2]
  elif c["layout"] == "rev":
    x = x[::-1].copy()[::-1]
  x0, k0 = x.copy(), k.copy()
  s = 1 if c["default"] else c["stride"]
  kw = {} if c["default"] else {"stride": s}
  full = np.convolve(x.astype(complex), k.astype(complex), "valid")[::s]
  single = "f4" in (c["xdtype"], c["kdtype"]) or "c8" in (
      c["kdtype"], c["dtype"])
  tol = (3e-5 if single else 1e-11) * (1 + np.abs(x).sum()) * (
      1 + np.abs(k).max())
  cplx = k.dtype.kind == "c"
  if not cplx:
    # Real kernel, any signal
    ref = full if x.dtype.kind == "c" else full.real
    out = np.full((ref.size, 1), 9, dtype=np.result_type(x, k)) \
        if c["out"] else None
    r = dsp.strided_convolution(x, k, out=out, **kw)
    r = arr(r, what="convolution")
    require(r.size == ref.size, "%s values, expected %d", r.shape, ref.size)
    close(r.reshape(-1), ref, rtol=0, atol=tol, what="strided convolution")
    if out is not None:
      require(np.shares_memory(r, out), "not written in the output array")
      close(out.reshape(-1), ref, rtol=0, atol=tol, what="output array")
  if x.dtype.kind != "c":
    # Complex kernel (or real, seen as complex), real signal
    # (without types to deduce)
    raw = c["out"] or c["dtype"] is not None
    kc = k if cplx or raw and c["ints"] else k.astype(complex)
    dt = c["dtype"]
    out = np.full(full.size, 9 - 5j, dtype=dt or "c16") if c["out"] else None
    kw2 = dict(kw)
    if out is not None:
      kw2["out"] = out
    elif dt is not None:
      kw2["dtype"] = np.dtype(dt).type
    r = dsp.strided_convolution_complex_kernel(x, kc, **kw2)
    r = arr(r, kind="c", what="complex convolution")
    require(r.size == full.size, "%s values, expected %d", r.shape, full.size)
    close(r.reshape(-1), full, rtol=0, atol=tol, what="complex convolution")
    if out is not None:
      require(r is out, "not the output array")
    else:
      require(r.dtype == np.dtype(dt or np.result_type(x, kc)), "dtype %s",
              r.dtype)
  require(np.array_equal(x, x0) and np.array_equal(k, k0), "inputs modified")
  ctx.tag("complex kernel" if cplx else "real kernel",
          "stride" if s > 1 else "dense")
  ctx.nontrivial(full.size > 1 and s != c["k"])


SUBS = [
    Sub("large_windows", large_windows, check_windows, quick=200),
    Sub("large_convolution", large_conv, check_conv, quick=150),
    Sub("windows", win_cases, check_windows, quick=2500, shards=2, examples=[
        {"size": 3, "w": 40, "hop": 5, "layout": "c", "dtype": "f8",
         "writeable": False},
    ]),
    Sub("convolution", conv_cases, check_conv, quick=2500, shards=2),
]
