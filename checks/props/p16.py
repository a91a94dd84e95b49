"""P16: in-place, typed and scalar calls agree"""
import cmath
import math
import warnings

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P16"
RULE = (
    "A case is a function, its options, a set of values in its domain "
    "(up to 5000), a shape, and a way of calling it: kind of input (scalar types, list, "
    "nested list, array of several types and memory layouts) times kind of "
    "output (allocated, given array, strided view, the input itself, typed). "
    "The oracle is the closed form of each value in scalar arithmetic. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least two different values.")
ASSUMPTIONS = [
    "Overwriting its own input means the first argument, not the parameters "
    "(as the decays in the modal energy)",
    "Functions whose result has the type of the input are called on "
    "floating-point inputs",
]


def near(a, b, what, **kw):
  close(a, b, what=what, **kw)


def _db(a):
  return 20 * math.log10(a) if a > 0 else -math.inf


def _aw(f, db):
  g = 12194**2 * f**4 / ((f**2 + 20.6**2) * math.sqrt(
      (f**2 + 107.7**2) * (f**2 + 737.9**2)) * (f**2 + 12194**2))
  return _db(g) - AW1K if db else g


AW1K = 0.
AW1K = _aw(1e3, True)


def _gamma(t, q, osc):
  n, f, b, tc, phi, a = q
  u = t + tc
  if u < 0:
    return 0.
  e = u**(n - 1) * math.exp(-2 * math.pi * b * u)
  if osc is None:
    return e
  if osc == "complex":
    return e * cmath.exp(1j * (2 * math.pi * f * t + phi))
  return e * math.cos(2 * math.pi * f * t + phi) * (a if osc == "ir" else 1)


def _g(q):
  from sample import psycho
  n, f, b, tc, phi, a = q
  return psycho.GammatoneFilter(f=f, n=n, bandwidth=b, t_c=tc, phi=phi, a=a)


def _variants():
  """name -> (caller, reference, (low, high), flags)

  Callers take (x, q, **kw), where q is a list of drawn parameters"""
  from sample import hinge, psycho
  from sample import sample as ss
  from sample import beatsdrop as bd
  from sample.utils import dsp
  hz = (0, 24000)
  f = {
      "db2a": (lambda x, q, **k: dsp.db2a(x, **k),
               lambda x, q: 10**(x / 20), (-200, 100), ""),
      "a2db": (lambda x, q, **k: dsp.a2db(x, **k),
               lambda x, q: _db(x), (0, 100), ""),
      "a2db-floor": (lambda x, q, **k: dsp.a2db(x, floor=q[0] * 50, **k),
                     lambda x, q: _db(max(x, q[0] * 50)), (0, 100), ""),
      "a2db-floor-pos": (lambda x, q, **k: dsp.a2db(x, q[0] * 50, **k),
                         lambda x, q: _db(max(x, q[0] * 50)), (0, 100), ""),
      "a2db-floor-db": (
          lambda x, q, **k: dsp.a2db(x, floor=q[0] * 30, floor_db=True, **k),
          lambda x, q: _db(max(x, 10**(q[0] * 1.5))), (0, 100), ""),
      "complex2db": (lambda x, q, **k: dsp.complex2db(x, **k),
                     lambda x, q: _db(abs(x)), (-10, 10), "ci"),
      "complex2db-floor": (
          lambda x, q, **k: dsp.complex2db(x, floor=q[0] * 10, **k),
          lambda x, q: _db(max(abs(x), q[0] * 10)), (-10, 10), "ci"),
      "expi": (lambda x, q, **k: dsp.expi(x, **k),
               lambda x, q: cmath.exp(1j * x), (-10, 10), "co"),
      "bin2f": (lambda x, q, **k: dsp.bin2f(x, nfft=512, fs=q[0] * 1e4, **k),
                lambda x, q: x * q[0] * 1e4 / 512, (0, 512), ""),
      "hz2bark": (lambda x, q, **k: psycho.hz2bark(x, **k),
                  lambda x, q: 26.81 * x / (1960 + x) - .53, hz, ""),
      "hz2bark-zwicker": (
          lambda x, q, **k: psycho.hz2bark(x, mode="zwicker", **k),
          lambda x, q: 13 * math.atan(.00076 * x) +
          3.5 * math.atan((x / 7500)**2), hz, ""),
      "hz2bark-wang": (lambda x, q, **k: psycho.hz2bark(x, mode="wang", **k),
                       lambda x, q: 6 * math.asinh(x / 600), hz, ""),
      "bark2hz": (lambda x, q, **k: psycho.bark2hz(x, **k),
                  lambda x, q: 1960 * (x + .53) / (26.28 - x), (-.5, 24.5),
                  ""),
      "bark2hz-wang": (lambda x, q, **k: psycho.bark2hz(x, mode="wang", **k),
                       lambda x, q: 600 * math.sinh(x / 6), (0, 25), ""),
      "hz2mel": (lambda x, q, **k: psycho.hz2mel(x, **k),
                 lambda x, q: 2595 * math.log10(1 + x / 700), hz, ""),
      "hz2mel-fant": (lambda x, q, **k: psycho.hz2mel(x, mode="fant", **k),
                      lambda x, q: 1000 * math.log2(1 + x / 1000), hz, ""),
      "mel2hz": (lambda x, q, **k: psycho.mel2hz(x, **k),
                 lambda x, q: 700 * (10**(x / 2595) - 1), (0, 4000), ""),
      "mel2hz-fant": (lambda x, q, **k: psycho.mel2hz(x, mode="fant", **k),
                      lambda x, q: 1000 * (2**(x / 1000) - 1), (0, 4600), ""),
      "erb": (lambda x, q, **k: psycho.erb(x, **k),
              lambda x, q: 6.23e-6 * x**2 + .09339 * x + 28.52, hz, ""),
      "erb-linear": (lambda x, q, **k: psycho.erb(x, degree="linear", **k),
                     lambda x, q: 24.7 * (.00437 * x + 1), hz, ""),
      "hz2cams": (lambda x, q, **k: psycho.hz2cams(x, **k),
                  lambda x, q: 11.17 * math.log((x + 312) / (x + 14675)) + 43,
                  hz, ""),
      "hz2cams-linear": (
          lambda x, q, **k: psycho.hz2cams(x, degree="linear", **k),
          lambda x, q: 21.4 * math.log10(1 + .00437 * x), hz, ""),
      "cams2hz": (lambda x, q, **k: psycho.cams2hz(x, **k), _cams, (0, 38),
                  ""),
      "cams2hz-linear": (
          lambda x, q, **k: psycho.cams2hz(x, degree="linear", **k),
          lambda x, q: (10**(x / 21.4) - 1) / .00437, (0, 43), ""),
      "a_weighting": (lambda x, q, **k: psycho.a_weighting(x, **k),
                      lambda x, q: _aw(x, True), (1, 24000), ""),
      "a_weighting-lin": (
          lambda x, q, **k: psycho.a_weighting(x, db=False, **k),
          lambda x, q: _aw(x, False), hz, ""),
      "hwr": (lambda x, q, **k: psycho.hwr(x, **k),
              lambda x, q: max(x, 0.), (-10, 10), "f"),
      "hwr-th": (lambda x, q, **k: psycho.hwr(x, th=q[0], **k),
                 lambda x, q: max(x, q[0]), (-2, 2), "f"),
      "hinge": (lambda x, q, **k: hinge.hinge_function(
          x, q[0] * 5, -q[1], q[2], **k),
                lambda x, q: -q[1] * min(x, q[0] * 5) + q[2], (-10, 10), "f"),
      "energy": (lambda x, q, **k: ss.modal_energy(x, q[0], **k),
                 lambda x, q: x * x * q[0] / 4, (0, 100), ""),
      "decay": (lambda x, q, **k: bd.ExponentialDecay(q[0], q[1])(x, **k),
                lambda x, q: q[0] * math.exp(-2 * x / q[1]), (-1, 10), ""),
      "decay-dt": (lambda x, q, **k: bd.ExponentialDecay(q[0], q[1]).dt(
          x, **k), lambda x, q: -2 / q[1] * q[0] * math.exp(-2 * x / q[1]),
                   (-1, 10), ""),
      "envelope": (lambda x, q, **k: _g(GAMMA).envelope(x, **k),
                   lambda x, q: _gamma(x, GAMMA, None), (-.5, 1), ""),
      "wavefun": (lambda x, q, **k: _g(GAMMA).wavefun(x, **k),
                  lambda x, q: _gamma(x, GAMMA, "real"), (-.5, 1), "d"),
      "wavefun-analytic": (
          lambda x, q, **k: _g(GAMMA).wavefun(x, analytic=True, **k),
          lambda x, q: _gamma(x, GAMMA, "complex"), (-.5, 1), "dco"),
      "ir": (lambda x, q, **k: _g(GAMMA).ir(x, **k),
             lambda x, q: _gamma(x, GAMMA, "ir"), (-.5, 1), "d"),
      "ir-analytic": (
          lambda x, q, **k: _g(GAMMA).ir(x, analytic=True, **k),
          lambda x, q: _gamma(x, GAMMA, "complex") * GAMMA[-1], (-.5, 1),
          "dco"),
      "peak": (lambda x, q, **k: dsp.normalize(x, **k), None, (-10, 10), "f"),
      "rms": (lambda x, q, **k: dsp.normalize(x, mode="rms", **k), None,
              (-10, 10), "f"),
      "range": (lambda x, q, **k: dsp.normalize(x, mode="range", **k), None,
                (-10, 10), "f"),
      "semisum": (lambda x, q, **k: _np2pg("semisum")(x, q[0], **k),
                  lambda x, q: (x + q[0]) / 2, (-10, 10), ""),
      "semidiff": (lambda x, q, **k: _np2pg("semidiff")(x, q[0], **k),
                   lambda x, q: (x - q[0]) / 2, (-10, 10), ""),
  }
  return f


def _np2pg(key):
  """Function inside of an operator of the computation graph"""
  from sample import utils
  import paragraph as pg

  def func(x, y, **kw):
    if kw:
      raise NotImplementedError
    a, b = pg.Variable("a"), pg.Variable("b")
    op = getattr(utils.np2pg, key)(a, b)
    return pg.evaluate([op], {a: x, b: y})[0]

  return func


def _cams(x, q):
  k = math.exp((x - 43) / 11.17)
  return (312 - 14675 * k) / (k - 1)


GAMMA = [4, 3., 2., .2, .3, 1.5]

NAMES = [
    "db2a", "a2db", "a2db-floor", "a2db-floor-pos", "a2db-floor-db",
    "complex2db", "complex2db-floor", "expi", "bin2f", "hz2bark",
    "hz2bark-zwicker", "hz2bark-wang", "bark2hz", "bark2hz-wang", "hz2mel",
    "hz2mel-fant", "mel2hz", "mel2hz-fant", "erb", "erb-linear", "hz2cams",
    "hz2cams-linear", "cams2hz", "cams2hz-linear", "a_weighting",
    "a_weighting-lin", "hwr", "hwr-th", "hinge", "energy", "decay",
    "decay-dt", "envelope", "wavefun", "wavefun-analytic", "ir",
    "ir-analytic", "peak", "rms", "range", "semisum", "semidiff"
]

INPUTS = ["float", "npfloat", "array0", "int", "list", "nested", "array",
          "array", "float32", "ints", "view", "fortran", "empty"]
OUTPUTS = ["new", "new", "out", "outview", "alias", "dtype"]


@st.composite
def cases(draw):
  shape = draw(st.sampled_from([[1], [3], [7], [2, 3], [3, 1], [2, 2, 2]]))
  n = int(np.prod(shape))
  return {
      "name": draw(st.sampled_from(NAMES)),
      "u": draw(st.lists(weighted((4, fl(0, 1)), (1, st.sampled_from(
          [0., 1., .5]))), min_size=n, max_size=n)),
      "v": draw(st.lists(fl(0, 1), min_size=n, max_size=n)),
      "q": [draw(fl(.05, 1)) for _ in range(3)],
      "shape": shape,
      "input": draw(st.sampled_from(INPUTS)),
      "output": draw(st.sampled_from(OUTPUTS)),
  }


def span(ref, lo, hi, q):
  """Order of magnitude of the values of a function"""
  v = [0.]
  if ref is not None:
    v.extend(abs(ref(u, q)) for u in (lo, (lo + hi) / 2, hi))
  return max(u for u in v if math.isfinite(u))


@st.composite
def large_cases(draw):
  n = draw(sizes(9, 5000))
  shape = draw(st.sampled_from([[n], [n], [n, 1], [1, n], [2, n // 2],
                                [n // 3, 3], [2, n // 4, 2]]))
  return {
      "name": draw(st.sampled_from(NAMES)),
      "seed": draw(seeds),
      "q": [draw(fl(.05, 1)) for _ in range(3)],
      "shape": shape,
      "input": draw(st.sampled_from(INPUTS[4:-1])),
      "output": draw(st.sampled_from(OUTPUTS)),
  }


def check_large(case, ctx):
  """The same with many values"""
  rng = np.random.default_rng(case["seed"])
  n = int(np.prod(case["shape"]))
  check({**case, "u": rng.random(size=n).tolist(),
         "v": rng.random(size=n).tolist()}, ctx)


def check(case, ctx):
  name, q = case["name"], case["q"]
  func, ref, (lo, hi), flags = _variants()[name]
  inp, outp = case["input"], case["output"]
  kind = complex if "ci" in flags else float
  rdtype = complex if "co" in flags else float
  vals = [lo + u * (hi - lo) for u in case["u"]]
  if kind is complex:
    vals = [complex(u, lo + v * (hi - lo)) for u, v in zip(vals, case["v"])]
  scalar = inp in ("float", "npfloat", "array0", "int")
  ints = inp in ("int", "ints")
  if ints:
    if kind is complex or "f" in flags:
      ctx.reject()
    vals = [round(v) for v in vals]
  if scalar:
    if ref is None:
      ctx.reject()
    vals = vals[:1]
  shape = tuple(case["shape"])
  if inp == "list":
    shape = (len(vals),)
  if inp == "empty":
    if ref is None:
      ctx.reject()
    vals, shape = [], (0,)
  if name in ("a_weighting",):
    vals = [max(v, 1) for v in vals]
  if inp == "float32" and rdtype is float and kind is float:
    vals = [float(np.float32(v)) for v in vals]

  # Make the input
  if scalar:
    shape = ()
    x = vals[0]
    if inp == "npfloat":
      x = np.float64(x) if kind is float else np.complex128(x)
    elif inp == "array0":
      x = np.array(x)
  else:
    x = np.reshape(np.array(vals, dtype=int if ints else kind), shape)
    if inp in ("list", "nested"):
      x = x.tolist()
    elif inp == "float32":
      x = x.astype(np.complex64 if kind is complex else np.float32)
    elif inp == "view":
      big = np.zeros(tuple(2 * s for s in shape), dtype=kind)
      v = big[tuple(slice(1, None, 2) for _ in shape)]
      v[...] = x
      x = v
    elif inp == "fortran":
      x = np.asfortranarray(x)
  low = inp == "float32"

  # Expected values
  if ref is None:
    a = np.array(vals)
    c = {"peak": np.abs(a).max(), "rms": a.std(), "range": np.ptp(a)}[name]
    if c < 1e-2:
      ctx.reject()
    m = {"peak": 0, "rms": a.mean(), "range": a.min()}[name]
    exp = (a - m) / c
  else:
    exp = np.array([ref(v, q) for v in vals], dtype=rdtype)
  exp = np.reshape(exp, shape)

  # Make the output
  kw = {}
  out = None
  if name in ("semisum", "semidiff") and outp != "new":
    ctx.reject()
  odt = np.dtype(rdtype)
  if outp in ("out", "outview"):
    out = np.full(shape, np.nan, dtype=odt)
    if outp == "outview":
      if scalar:
        ctx.reject()
      big = np.full(tuple(3 * s for s in shape), -7., dtype=odt)
      out = big[tuple(slice(1, None, 3) for _ in shape)]
    kw["out"] = out
  elif outp == "alias":
    if not isinstance(x, np.ndarray) or x.dtype.kind != odt.kind:
      ctx.reject()
    out = kw["out"] = x
  elif outp == "dtype":
    if "d" in flags or name == "a_weighting":
      # methods without a dtype argument
      ctx.reject()
    odt = np.dtype(np.complex64 if rdtype is complex else np.float32)
    kw["dtype"] = odt
    low = True
  if ref is None and inp == "ints" and out is None:
    ctx.reject()

  before = None if outp == "alias" else (
      x.copy() if isinstance(x, np.ndarray) else x)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    got = func(x, q, **kw)

  if out is not None:
    require(got is out, "%s: the given array is not returned", name)
  elif scalar:
    require(not isinstance(got, np.ndarray) and np.ndim(got) == 0,
            "%s: a scalar gave %r", name, type(got).__name__)
  else:
    require(isinstance(got, np.ndarray), "%s: result is %r", name,
            type(got).__name__)
  g = arr(got, shape=shape, what=name)
  if out is None:
    require(g.dtype.kind == odt.kind, "%s: result of type %s", name, g.dtype)
    if outp == "dtype":
      require(g.dtype == odt, "%s: result of type %s, requested %s", name,
              g.dtype, odt)
  tol = 2e-4 if low else 1e-9
  big = float(np.max(np.abs(exp[np.isfinite(exp)]), initial=0))
  if exp.dtype.kind == "f" and exp.size:
    # Singularities of the logarithm
    fin = np.isfinite(exp)
    same(np.isfinite(g), fin, f"{name}: finite values") if not low else None
    atol = 1e-9 * (1e-3 + big)
    if low:
      # Intermediate values are as precise as the range of the function
      atol = tol * (1e-2 + big) + 1e-6 * span(ref, lo, hi, q)
    near(g[fin], exp[fin], name, rtol=tol, atol=atol)
  elif exp.size:
    near(g, exp, name, rtol=tol, atol=tol * (1e-3 + big))
  if before is not None:
    if isinstance(x, np.ndarray):
      same(x, before, f"{name}: input after the call")
    else:
      require(x == before, "%s: the input was modified", name)
  if outp == "outview":
    rest = np.ones(big_shape(shape), dtype=bool)
    rest[tuple(slice(1, None, 3) for _ in shape)] = False
    base = out.base
    require(np.all(base[rest] == -7), "%s: wrote outside of the given array",
            name)
  ctx.nontrivial(len(set(vals)) > 1)
  ctx.tag(inp, "output-" + outp)


def big_shape(shape):
  return tuple(3 * s for s in shape)


# --- The decorator itself -----------------------------------------------------
def deco_cases():
  return st.fixed_dictionaries({
      "x": st.lists(fl(-10, 10), min_size=1, max_size=5),
      "y": fl(-10, 10),
      "dtype": st.sampled_from([None, "f8", "f4", "c8", "i8", "b1"]),
      "promote": bools,
      "method": bools,
      "kind": st.sampled_from(["f8", "f4", "i8", "c16", "list", "scalar"]),
      "key": st.sampled_from(["out", "result"]),
      "out": bools,
  })


def check_deco(case, ctx):
  from sample import utils
  seen = {}

  def body(x, y, out):
    seen.update(x=x, out=out)
    r = np.add(x, y)
    np.copyto(out, r, casting="unsafe")
    return out

  if case["key"] == "out":
    def plain(x, y, out=None):
      return body(x, y, out)

    def meth(self, x, y, out=None):
      seen["self"] = self
      return body(x, y, out)
  else:
    def plain(x, y, result=None):
      return body(x, y, result)

    def meth(self, x, y, result=None):
      seen["self"] = self
      return body(x, y, result)

  kw = {}
  if case["dtype"] is not None:
    kw.update(dtype=np.dtype(case["dtype"]), dtype_promote=case["promote"])
  if case["key"] != "out":
    kw["key"] = case["key"]
  if case["method"]:
    cls = type("C", (), {"f": utils.numpy_out(method=True, **kw)(meth)})
    obj = cls()
    func = obj.f
  else:
    func = utils.numpy_out(**kw)(plain) if kw else utils.numpy_out(plain)
  k = case["kind"]
  if k == "scalar":
    x = case["x"][0]
  elif k == "list":
    x = case["x"]
  else:
    x = np.array(case["x"]).astype(k)
  xd = np.asarray(x).dtype
  yd = np.asarray(case["y"]).dtype
  if case["dtype"] is None:
    exp = np.result_type(xd, yd)
  elif case["promote"]:
    exp = np.result_type(np.dtype(case["dtype"]), xd, yd)
  else:
    exp = np.dtype(case["dtype"])
  akw = {}
  if case["out"]:
    given = akw[case["key"]] = np.zeros(np.shape(x), dtype=complex)
    exp = given.dtype
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    got = func(x, case["y"], **akw)
  require(seen["x"] is x, "the function did not get its argument")
  if case["method"]:
    require(seen["self"] is obj, "the method did not get its object")
  require(isinstance(seen["out"], np.ndarray) and
          seen["out"].shape == np.shape(x),
          "the function got %r to write into", seen["out"])
  require(seen["out"].dtype == exp, "output of type %s, expected %s",
          seen["out"].dtype, exp)
  if case["out"]:
    require(seen["out"] is given and got is given,
            "the given array was not used")
  elif k == "scalar":
    require(not isinstance(got, np.ndarray), "a scalar gave an array")
  require(func.__name__ in ("plain", "meth"), "name of the function lost")
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    want = np.empty(np.shape(x), dtype=exp)
    np.copyto(want, np.add(x, case["y"]), casting="unsafe")
  same(np.asarray(got), want, "values")
  ctx.nontrivial(case["dtype"] is not None)


SUBS = [
    Sub("large", large_cases, check_large, quick=600, shards=2),
    Sub("calls", cases, check, quick=8000, shards=4, thorough=120000),
    Sub("decorator", deco_cases, check_deco, quick=1500),
]
