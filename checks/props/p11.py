"""P11: hinge regression is a bounded least-squares fit"""
import math

import numpy as np
from core import Sub, arr, close, raises, require
from gens import bools, fl, logfl, opt, seeds, sizes, st, weighted

PROPERTY = "P11"
RULE = (
    "Cases: (a) hinge function on drawn points and coefficients; (b) "
    "decay-like exact hinges (8-80 points, and up to 3000, any time offset and "
    "slope) that the default bounds allow, with the knee in the second half "
    "of the data or after it; (c) noisy or arbitrary data with "
    "default or drawn bounds/initializers. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: a knee strictly "
    "inside the data with points on both sides, or non-default "
    "bounds/initializer.")


def ref_hinge(x, a, k, q):
  return np.array([k * min(v, a) + q for v in np.asarray(x).reshape(-1)])


@st.composite
def func_cases(draw):
  v = fl(-50, 50)
  return {
      "x": draw(st.lists(v, min_size=1, max_size=20)),
      "a": draw(st.one_of(v, st.sampled_from([math.inf, -1e300, 0.]))),
      "k": draw(v),
      "q": draw(v),
  }


def check_func(c, ctx):
  from sample import hinge
  x = np.array(c["x"])
  if c["a"] == math.inf and c["k"] == 0:
    ctx.reject()
  with np.errstate(all="ignore"):
    r = ref_hinge(x, c["a"], c["k"], c["q"])
    y = hinge.hinge_function(x, c["a"], c["k"], c["q"])
  close(y, r, rtol=1e-13, atol=1e-12, what="hinge")
  require(x.tolist() == c["x"], "input modified")
  ctx.nontrivial(min(c["x"]) < c["a"] < max(c["x"]))


def lin_fit(x, y):
  xm, ym = np.mean(x), np.mean(y)
  k = float(np.sum((x - xm) * (y - ym)) / np.sum((x - xm)**2))
  return k, float(ym - k * xm)


def sse(x, y, p):
  return float(np.sum((ref_hinge(x, *p) - y)**2))


@st.composite
def exact_cases(draw):
  n = draw(weighted((5, st.integers(8, 80)), (1, sizes(81, 3000))))
  return {
      "n": n,
      "t0": draw(fl(0, .2)),
      "dt": draw(logfl(1e-3, 1e-1)) * min(1, 80 / n),
      "knee": draw(fl(.51, 1.2)),
      "k": draw(logfl(.5, 3000)),
      "q": draw(fl(-80, 20)),
      "shift": draw(fl(-30, 30)),
      "newx": draw(st.lists(fl(-3, 3), min_size=1, max_size=5)),
  }


def check_exact(c, ctx):
  from sample import hinge
  x = c["t0"] + c["dt"] * np.arange(c["n"])
  a = c["t0"] + c["knee"] * c["dt"] * (c["n"] - 1)
  span = c["dt"] * c["n"]
  # keep the drop within what audio can have
  k = -min(c["k"], 120 / span)
  y = ref_hinge(x, a, k, c["q"])
  lk, lq = lin_fit(x, y)
  if not 8 * lk * (1 - 1e-9) <= k <= lk * (1 - 1e-9):
    if not (a >= x[-1] and math.isclose(k, lk, rel_tol=1e-9)):
      ctx.reject()
  x0, y0 = x.copy(), y.copy()
  r = hinge.HingeRegression().fit(x.reshape(-1, 1), y)
  require(np.array_equal(x, x0) and np.array_equal(y, y0), "inputs modified")
  rng = max(np.ptp(y), 1e-9)
  p = arr(r.coeffs_, shape=(3,), finite=True, what="coefficients")
  require(p[0] == r.a_ and p[1] == r.k_ and p[2] == r.q_, "coefficient names")
  rms = math.sqrt(sse(x, y, p) / c["n"])
  require(rms <= 1e-4 * rng, "exact hinge (a=%s, k=%s, q=%s) fit with %s: rms "
          "%s over a range of %s", a, k, c["q"], p, rms, rng)
  if a < x[-1]:
    close(p[1], k, rtol=1e-5, what="slope")
    close(p[2], c["q"], rtol=0, atol=1e-4 * rng, what="intercept")
  xn = np.array(c["newx"])
  close(
      np.asarray(r.predict(xn)).reshape(-1), ref_hinge(xn, *p), rtol=1e-12,
      atol=1e-9, what="prediction")
  # shifting the data shifts the intercept only
  s = hinge.HingeRegression().fit(x.reshape(-1, 1), y + c["shift"])
  close(s.k_, p[1], rtol=1e-5, what="slope of the shifted data")
  close(s.q_, p[2] + c["shift"], rtol=0, atol=1e-4 * rng,
        what="intercept of the shifted data")
  ctx.tag("knee inside" if a < x[-1] else "line")
  ctx.nontrivial(x[1] < a < x[-2])


@st.composite
def any_cases(draw):
  n = draw(weighted((3, st.integers(2, 6)), (3, st.integers(2, 40)),
                    (1, sizes(41, 1500))))
  return {
      "n": n,
      "x": draw(st.sampled_from(["uniform", "uneven", "repeated"])),
      "y": draw(st.sampled_from(["noise", "hinge", "const", "line", "values"])),
      "seed": draw(seeds),
      "vals": draw(st.lists(fl(-100, 10), min_size=1, max_size=8)),
      "k": draw(fl(-200, 50)),
      "knee": draw(fl(-.2, 1.2)),
      "noise": draw(logfl(1e-4, 10)),
      "t0": draw(fl(-1, 1)),
      "dt": draw(logfl(1e-3, 1)),
      "bounds": draw(opt(st.lists(fl(.05, 3), min_size=6, max_size=6))),
      "init": draw(opt(st.lists(fl(.01, .99), min_size=3, max_size=3))),
      "method": draw(st.sampled_from(["dogbox", "dogbox", "trf"])),
      "nfev": draw(opt(st.integers(1, 30))),
  }


def default_bounds(x, y, k, q):
  a0, a1 = np.min(x), np.max(x)
  if a0 == a1:
    a0, a1 = a0 - 1, a1 + 1
  dq = np.max(np.abs(y - q)) or 1
  ks = (-1, 1) if k == 0 else sorted((k, 8 * k))
  return (a0, ks[0], q - dq), (a1, ks[1], q + dq)


def check_any(c, ctx):
  from sample import hinge
  from sklearn import base, linear_model
  n = c["n"]
  rng = np.random.default_rng(c["seed"])
  if c["x"] == "uneven":
    x = np.sort(rng.uniform(0, n * c["dt"], n)) + c["t0"]
  else:
    x = c["t0"] + c["dt"] * np.arange(n)
    if c["x"] == "repeated" and n > 2:
      x[1] = x[0]
  if np.ptp(x) < 1e-6:
    ctx.reject()
  a = x[0] + c["knee"] * np.ptp(x)
  y = {
      "noise": lambda: rng.normal(size=n) * c["noise"] - 40,
      "hinge": lambda: ref_hinge(x, a, c["k"], -10) + rng.normal(size=n) * c[
          "noise"],
      "const": lambda: np.full(n, c["vals"][0]),
      "line": lambda: c["k"] * x - 30,
      "values": lambda: np.array([c["vals"][i % len(c["vals"])]
                                  for i in range(n)]),
  }[c["y"]]()
  x0, y0 = x.copy(), y.copy()
  kw = {"method": c["method"]}
  seen = {}

  def init(x_, y_, k, q):
    lo, hi = (bounds if c["bounds"] else default_bounds)(x_, y_, k, q)
    f = c["init"]
    seen["init"] = tuple(l + u * (h - l) for l, u, h in zip(lo, f, hi))
    return seen["init"]

  def bounds(x_, y_, k, q):
    b = c["bounds"]
    am = (np.min(x_) + np.max(x_)) / 2
    lo = (am - b[0], k - b[1], q - b[2])
    hi = (am + b[3], k + b[4], q + b[5])
    return lo, hi

  if c["bounds"]:
    kw["bounds"] = bounds
  if c["init"]:
    kw["coeffs_init"] = init
  r0 = hinge.HingeRegression(**kw)
  r = base.clone(r0)
  require(r.linear_regressor is not r0.linear_regressor,
          "a clone shares its sub-model")
  fk = {} if c["nfev"] is None else {"max_nfev": c["nfev"]}
  lm = linear_model.LinearRegression().fit(x.reshape(-1, 1), y)
  lk, lq = float(np.squeeze(lm.coef_)), float(lm.intercept_)
  lo, hi = (bounds if c["bounds"] else default_bounds)(x, y, lk, lq)
  if min(h - l - 1e-9 * (abs(h) + abs(l)) for l, h in zip(lo, hi)) <= 0:
    ctx.tag("degenerate bounds")
    ctx.reject()
  r.fit(x.reshape(-1, 1), y, **fk)
  require(np.array_equal(x, x0) and np.array_equal(y, y0), "inputs modified")
  p = arr(r.coeffs_, shape=(3,), finite=True, what="coefficients")
  for name, v, l, h in zip("akq", p, lo, hi):
    e = 1e-9 * (abs(l) + abs(h) + 1)
    require(l - e <= v <= h + e, "%s = %s is not in [%s, %s]", name, v, l, h)
  start = seen.get("init") or ((np.min(x) + np.max(x)) / 2, lk, lq)
  s0, s1 = sse(x, y, start), sse(x, y, p)
  scale = 1e-9 * (1 + float(np.sum(y * y)))
  require(s1 <= s0 * (1 + 1e-9) + scale,
          "the fit (%s) is worse than the starting point: %s > %s", p, s1, s0)
  close(np.asarray(r.predict(x)), ref_hinge(x, *p), rtol=1e-12, atol=1e-9,
        what="prediction")
  # nothing depends on a previous fit
  r2 = base.clone(r0).fit(x.reshape(-1, 1) + 3, y - 5)
  r2.fit(x.reshape(-1, 1), y, **fk)
  close(r2.coeffs_, p, rtol=1e-9, atol=1e-12, what="refit")
  require(not hasattr(r0, "coeffs_"), "fitting a clone fits the original")
  improved = s1 < s0 * .99
  ctx.tag("improved" if improved else "same", c["y"])
  ctx.nontrivial(improved or c["bounds"] or c["init"])


@st.composite
def short_cases(draw):
  return {"x": draw(st.lists(fl(-5, 5), min_size=1, max_size=1)),
          "y": draw(fl(-90, 0))}


def check_short(c, ctx):
  """A single point cannot be fit: the documented error"""
  from sample import hinge
  raises(ValueError, hinge.HingeRegression().fit,
         np.array(c["x"]).reshape(-1, 1), np.array([c["y"]]),
         what="fit of one point")
  ctx.nontrivial()


@st.composite
def scale_cases(draw):
  n = draw(st.integers(2, 20))
  return {
      "x": draw(st.lists(fl(-1, 1), min_size=n, max_size=n)),
      "y": draw(st.lists(fl(-1, 1), min_size=n, max_size=n)),
      "k": draw(st.one_of(st.sampled_from([0., -0.]), fl(-10, 10))),
      "q": draw(fl(-2, 2)),
      "xs": draw(logfl(1e-12, 1e12)),
      "ys": draw(logfl(1e-12, 1e12)),
      "t0": draw(fl(-10, 10)),
      "column": draw(bools),
  }


def check_scales(c, ctx):
  """Default bounds and starting point, with any units of measurement"""
  from sample import hinge
  x = (np.array(c["x"]) + c["t0"]) * c["xs"]
  y = np.array(c["y"]) * c["ys"]
  k, q = c["k"] * c["ys"] / c["xs"], c["q"] * c["ys"]
  if np.ptp(x) <= 1e-9 * np.max(np.abs(x)):
    ctx.reject()
  h = hinge.HingeRegression()
  xc = x.reshape(-1, 1) if c["column"] else x
  x0, y0 = xc.copy(), y.copy()
  lo, hi = h.bounds(xc, y, k, q)
  want = default_bounds(x, y, k, q)
  scale = np.array([np.max(np.abs(x)), abs(k) or 1,
                    np.max(np.abs(y)) + abs(q)])
  for b, r, s in ((lo, want[0], "lower"), (hi, want[1], "upper")):
    close(arr(b, shape=(3,)) / scale, np.array(r) / scale, rtol=0, atol=1e-12,
          what=s + " bounds")
  a = arr(h.coeffs_init(xc, y, k, q), shape=(3,), what="starting point")
  require(np.all(np.array(lo) <= a) and np.all(a <= np.array(hi)),
          "the starting point %s is out of bounds %s, %s", a, lo, hi)
  require(np.array_equal(xc, x0) and np.array_equal(y, y0), "inputs modified")
  ctx.nontrivial(k != 0)


SUBS = [
    Sub("scales", scale_cases, check_scales, quick=1200),
    Sub("function", func_cases, check_func, quick=600),
    Sub("exact", exact_cases, check_exact, quick=1200, shards=2),
    Sub("any", any_cases, check_any, quick=1500, shards=3),
    Sub("single_point", short_cases, check_short, quick=30, thorough=100),
]
