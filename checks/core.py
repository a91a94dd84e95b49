"""Shared machinery for the property checks.

A *property module* (checks/props/pNN.py) defines ``PROPERTY`` (its id),
``RULE`` (what a case is and when it is non-trivial) and ``SUBS``, a list of
:class:`Sub`.  A sub-check pairs a Hypothesis strategy producing JSON-able
cases with an oracle ``check(case, ctx)``.  All randomness lives in the
strategy; an oracle is a pure function of the case and of the code under test,
so a shrunk failing case, stored as JSON, is a replay file.
"""
import hashlib
import json
import math
import os
import pickle
import sys
import time
import traceback

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap():
  """Make the code under test and hypothesis importable"""
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  try:
    import hypothesis  # noqa
  except ImportError:
    sys.path.append(_HYP)
    import hypothesis  # noqa


class Violation(AssertionError):
  """The property does not hold on a case"""


class HarnessError(Exception):
  """The check itself misbehaved"""


class Skip(Exception):
  """The case is outside of the property's domain"""


def fail(msg, *args):
  raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)


class Ctx:
  """Per-case notebook"""

  def __init__(self, hyp=False):
    self.tags = []
    self.nt = False
    self.hyp = hyp

  def nontrivial(self, cond=True):
    if cond:
      self.nt = True

  def tag(self, *labels):
    self.tags.extend(labels)

  def reject(self):
    raise Skip()

  def target(self, v, label):
    if self.hyp and math.isfinite(v):
      import hypothesis
      try:
        hypothesis.target(float(v), label=label)
      except Exception:  # pylint: disable=W0703
        pass


class Sub:
  """A sub-check

  Args:
    name: unique name within the property
    strategy: zero-argument callable returning a SearchStrategy of JSON cases
    check: oracle, ``check(case, ctx)``
    quick, thorough: numbers of generated cases
    shards: number of processes sharing the cases
    examples: fixed regression cases, run before the generated ones
    setup: optional callable run once per process (e.g. imports)"""

  def __init__(self,
               name,
               strategy,
               check,
               quick=200,
               thorough=None,
               shards=1,
               thorough_shards=None,
               examples=(),
               teardown=None):
    self.name = name
    self.strategy = strategy
    self.check = check
    self.quick = quick
    self.thorough = quick * 20 if thorough is None else thorough
    self.shards = shards
    self.thorough_shards = thorough_shards
    self.examples = list(examples)
    self.teardown = teardown


UNREADABLE = (TypeError, ValueError, AttributeError, LookupError,
              ArithmeticError, AssertionError, pickle.PicklingError)


def in_repo(tb):
  """Whether a traceback goes through the code under test"""
  while tb is not None:
    fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if fn.startswith(REPO + os.sep):
      return True
    tb = tb.tb_next
  return False


def run_case(sub, case, ctx):
  """Run one case.  Raises Violation, Skip, or HarnessError"""
  try:
    sub.check(case, ctx)
  except (Violation, Skip, HarnessError):
    raise
  except Exception as e:  # pylint: disable=W0703
    if in_repo(e.__traceback__):
      raise Violation(
          "the code under test raised on a valid input: "
          f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}") from e
    if isinstance(e, UNREADABLE):
      # Never seen on the unchanged tree: the result is not what it used to be
      raise Violation(
          "the oracle could not read the result (another type, shape, or key, "
          f"or an object that cannot be copied): {type(e).__name__}: {e}\n"
          f"{traceback.format_exc(limit=-4)}") from e
    raise HarnessError(
        f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e
  finally:
    if sub.teardown is not None:
      sub.teardown()


def dumps(case):
  return json.dumps(case, sort_keys=True)


def derive_seed(*parts):
  h = hashlib.sha256(":".join(map(str, parts)).encode()).digest()
  return int.from_bytes(h[:8], "big")


def brief(case, limit=600):
  s = dumps(case)
  if len(s) <= limit:
    return json.loads(s)
  return s[:limit] + "... (%d chars)" % len(s)


def run_sub(prop, sub, seed, tier, shard, nshards, out_path, soft_limit):
  """Worker entry: run one shard of a sub-check, write a JSON report"""
  import hypothesis
  from hypothesis import HealthCheck, Phase
  from hypothesis.internal.conjecture import engine
  # Bound the time spent on shrinking
  engine.MAX_SHRINKING_SECONDS = float(
      os.environ.get("VERIF_SHRINK", "90" if tier == "quick" else "240"))

  n_total = sub.quick if tier == "quick" else sub.thorough
  n = n_total // nshards + (1 if shard < n_total % nshards else 0)
  rep = {
      "sub": sub.name,
      "shard": shard,
      "evaluations": 0,
      "skipped_out_of_domain": 0,
      "tags": {},
      "hashes": [],
      "samples": [],
      "violation": None,
      "harness_error": None,
      "truncated": 0,
  }
  hashes = set()
  t0 = time.monotonic()
  last_fail = {}
  wrote = [0]

  def write():
    rep["hashes"] = sorted(hashes)
    rep["wall_s"] = time.monotonic() - t0
    tmp = out_path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
      json.dump(rep, f)
    os.replace(tmp, out_path)

  state = {"failing": False}

  def one(case, hyp):
    ctx = Ctx(hyp)
    if not state["failing"]:
      rep["evaluations"] += 1
    try:
      run_case(sub, case, ctx)
    except Violation as e:
      state["failing"] = True
      last_fail["case"] = case
      last_fail["msg"] = str(e)
      # leave a trace right away, in case we are killed while shrinking
      now = time.monotonic()
      if rep["violation"] is None or now - wrote[0] > 5:
        rep["violation"] = dict(last_fail)
        wrote[0] = now
        write()
      raise
    except Skip:
      if not state["failing"]:
        rep["skipped_out_of_domain"] += 1
      raise
    if state["failing"]:
      return
    for t in ctx.tags:
      rep["tags"][t] = rep["tags"].get(t, 0) + 1
    if ctx.nt:
      h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
      if h not in hashes:
        hashes.add(h)
        k = len(hashes)
        if k in (1, 5, 25, 125, 625):
          rep["samples"].append(brief(case))

  try:
    if shard == 0:
      for case in sub.examples:
        try:
          one(case, False)
        except Skip:
          pass
        except Violation:
          rep["violation"] = dict(last_fail)
          return
    if n > 0:

      @hypothesis.seed(derive_seed(seed, prop, sub.name, shard, tier))
      @hypothesis.settings(max_examples=n,
                           database=None,
                           deadline=None,
                           phases=(Phase.generate, Phase.target, Phase.shrink),
                           report_multiple_bugs=False,
                           print_blob=False,
                           suppress_health_check=list(HealthCheck))
      @hypothesis.given(sub.strategy())
      def prop_test(case):
        if not state["failing"] and time.monotonic() - t0 > soft_limit:
          rep["truncated"] += 1
          return
        try:
          one(case, True)
        except Skip:
          hypothesis.reject()

      try:
        prop_test()
      except Violation:
        rep["violation"] = dict(last_fail)
      except HarnessError as e:
        rep["harness_error"] = str(e)
      except BaseException as e:  # pylint: disable=W0703
        if last_fail:
          # e.g. Flaky: a failure was observed but did not repeat in-process
          rep["violation"] = dict(last_fail)
          rep["violation"]["msg"] += (
              f"\n(note: hypothesis reported {type(e).__name__} on replay)")
        elif type(e).__name__ == "Unsatisfiable":
          rep["harness_error"] = "Unsatisfiable: the generator only produced " \
              "out-of-domain cases"
        else:
          rep["harness_error"] = "".join(traceback.format_exception(e))
  except HarnessError as e:
    rep["harness_error"] = str(e)
  finally:
    write()


# --- Numeric helpers --------------------------------------------------------
def arr(v, shape=None, ndim=None, kind=None, what="result", finite=False):
  """Coerce an output of the code under test to an array, checking its form"""
  import numpy as np
  try:
    a = np.asarray(v)
  except Exception as e:  # pylint: disable=W0703
    raise Violation(f"{what} is not array-like: {type(v).__name__}") from e
  if a.dtype.kind == "O":
    raise Violation(f"{what} is not a numeric array: {v!r:.200}")
  if shape is not None and a.shape != tuple(shape):
    raise Violation(f"{what} has shape {a.shape}, expected {tuple(shape)}")
  if ndim is not None and a.ndim != ndim:
    raise Violation(f"{what} has {a.ndim} dimensions, expected {ndim}")
  if kind is not None and a.dtype.kind not in kind:
    raise Violation(f"{what} has dtype {a.dtype}, expected kind in '{kind}'")
  if finite and not np.isfinite(a).all():
    raise Violation(f"{what} has non-finite values: {a!r:.300}")
  return a


def close(a, b, rtol=1e-9, atol=1e-12, what="values", equal_nan=True):
  """Require elementwise closeness; shapes must be equal"""
  import numpy as np
  a = arr(a, what=what)
  b = np.asarray(b)
  if a.shape != b.shape:
    raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
  if a.size == 0:
    return
  atol = np.broadcast_to(np.asarray(atol, dtype=float), a.shape)
  with np.errstate(all="ignore"):
    ok = np.isclose(a, b, rtol=rtol, atol=0, equal_nan=equal_nan) | (
        np.abs(a - b) <= atol + rtol * np.abs(b))
  if not ok.all():
    i = tuple(int(j) for j in np.argwhere(~ok)[0])
    raise Violation(
        f"{what}: {int((~ok).sum())} of {a.size} differ; first at {i}: "
        f"got {a[i]!r}, expected {b[i]!r}")


def same(a, b, what="values"):
  """Require bitwise equality (nan equal to nan)"""
  import numpy as np
  a = arr(a, what=what)
  b = np.asarray(b)
  if a.shape != b.shape:
    raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
  ok = (a == b)
  if a.dtype.kind in "fc" and b.dtype.kind in "fc":
    ok = ok | (np.isnan(a) & np.isnan(b))
  if not np.all(ok):
    i = tuple(int(j) for j in np.argwhere(~ok)[0]) if a.ndim else ()
    raise Violation(f"{what}: differ, first at {i}: got {a[i]!r}, "
                    f"expected {b[i]!r}")


def raises(excs, func, *args, what="call", **kwargs):
  """Require that a call raises one of the given exceptions"""
  try:
    r = func(*args, **kwargs)
  except excs as e:
    return e
  except Exception as e:  # pylint: disable=W0703
    raise Violation(f"{what} raised {type(e).__name__} ({e}) instead of "
                    f"{excs}") from e
  raise Violation(f"{what} should raise {excs}, but returned {r!r:.200}")
