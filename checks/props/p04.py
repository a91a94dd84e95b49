"""P04: parallel and progress-tracked fits equal serial fits"""
import atexit
import contextlib
import math
import os
import signal
import threading
import time

import core
import numpy as np
import sounds
from core import Sub, Violation, fail, require, same
from gens import bools, fl, opt, seeds, sizes, st

PROPERTY = "P04"
RULE = (
    "A case is a generated sound and configuration (SAMPLE or SAMPLEBeatsDROP, "
    "storage on or off), a way of running (workers started by the fit, a "
    "caller's process pool, a caller's thread pool), a progress reporter, "
    "delays that make tasks finish out of order, and optionally a failure "
    "injected in a task, in the progress reporter or in the analysis. The "
    "oracle is the plain serial fit, compared bitwise. The schedule cases also "
    "interrupt the process that holds the storage between its statements. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least 2 tracks, or a failure was injected.")
ASSUMPTIONS = [
    "Real worker processes are scheduled by the OS: the harness only perturbs "
    "the schedule, with drawn delays",
    "Beat regression is replaced with a stub estimator of the same interface "
    "(the real one is exercised by P13 and P14)",
]

_pools = {}


def pool(kind, n):
  import multiprocessing as mp
  from multiprocessing.pool import ThreadPool
  k = kind, n
  if k not in _pools:
    _pools[k] = (mp.Pool if kind == "pool" else ThreadPool)(n)
    atexit.register(_pools[k].terminate)
  return _pools[k]


@st.composite
def par_cases(draw):
  return {
      "bd": draw(bools),
      "sound": draw(sounds.sounds(kinds=["modal", "modal", "modal", "noise",
                                         "silence"], max_partials=6)),
      "config": draw(sounds.configs()),
      "dsave": draw(bools),
      "how": draw(st.sampled_from(["pool", "pool", "threads", "threads", "jobs",
                                   "serial"])),
      "n": draw(st.integers(1, 4)),
      "delay": draw(st.sampled_from([0, 0, .003, .01])),
      "salt": draw(st.integers(0, 99)),
      "progress": draw(st.sampled_from([None, "count", "gui"])),
      "again": draw(opt(sounds.sounds())),
  }


def build(c, reduce_kw):
  import sample
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  kw = sounds.params(c["config"])
  kw["freq_reduce"] = sounds.Reduce(kw["freq_reduce"], **reduce_kw)
  kw["sinusoidal__tracker__fs"] = c["sound"]["fs"]
  if c.get("line"):
    kw["regressor"] = sounds.LineFit()
  if c["bd"]:
    # the base class decisor always finds tracks not to beat
    from sample.beatsdrop.decision import AlmostNotABeatDecisor
    return SAMPLEBeatsDROP(
        beatsdrop=sounds.StubBeat(),
        beat_decisor=AlmostNotABeatDecisor(th=(c["salt"] % 3) * 1e15),
        beat_decisor__intermediate__save=c["dsave"], **kw)
  return sample.SAMPLE(**kw)


class Log:
  """Progress log"""

  def __init__(self, limit=None, exc=sounds.TaskError):
    self.events = []
    self.limit = limit
    self.exc = exc

  def add(self, *e):
    self.events.append(e)
    if self.limit is not None and len(self.events) > self.limit:
      raise self.exc("progress")


@contextlib.contextmanager
def watchdog(seconds=150):
  """Turn a deadlock into a failure: cases take a few seconds"""

  def give_up(*_):
    raise Violation("no progress in %d s" % seconds)

  old = signal.signal(signal.SIGALRM, give_up)
  # again, should the clean up be blocked too
  signal.setitimer(signal.ITIMER_REAL, seconds, 20)
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


def guarded(check):
  """Apply the watchdog to a check"""

  def check_(c, ctx):
    with watchdog():
      check(c, ctx)

  return check_


class Bar(dict):
  """Stand-in for a progress bar widget"""

  def __init__(self):
    super().__init__()
    self.max = []
    self.value = None

  def config(self, **kw):
    self.value = kw.get("value", self.value)
    if "maximum" in kw:
      self.max.append(kw["maximum"])
      self["maximum"] = kw["maximum"]

  configure = config

  def update(self, *a, **kw):
    super().update(*a, **kw)


def reporter(kind, log):
  """Fit arguments that report progress"""
  from sample.widgets.sample import sample_factory
  if kind is None:
    return {}, None
  bar = Bar()
  fa = sample_factory(progressbar=bar)[1]["_fit_args"]
  if kind == "gui":
    return {"_fit_args": fa}, bar

  class Args(type(fa)):
    """Counting reporter"""

    def progress_start(self, maximum, value=0):
      log.add("start", maximum, value)

    def progress_update(self, value=None):
      log.add("update", value)

    def progress_stop(self):
      log.add("stop")

  return {"_fit_args": Args()}, None


def runner(c):
  how = c["how"]
  if how == "jobs":
    return {"n_jobs": c["n"]}
  if how == "pool":
    return {"pool": pool("pool", c["n"])}
  if how == "threads":
    return {"pool": pool("threads", c["n"])}
  return {}


def state(m):
  r = {"params": m.param_matrix_, "tracks": m.sinusoidal.tracks_,
       "stored": m.sinusoidal.intermediate.get_state()}
  if hasattr(m, "beat_decisor"):
    r["decided"] = m.beat_decisor.intermediate.get_state()
  return r


def configuration(m):
  """Identity of all parameters"""
  return {k: id(v) if not isinstance(v, (int, float, str, type(None))) else v
          for k, v in m.get_params().items()}


def check_log(log, frames, tracks):
  """Progress reports are complete"""
  phases = []
  for e in log.events:
    if e[0] == "start":
      phases.append([e[1], 0, False, []])
    require(phases and not (phases[-1][2] and e[0] != "start"),
            "progress report out of place: %s in %s", e, log.events[:50])
    p = phases[-1]
    if e[0] == "update":
      if e[1] is None:
        p[1] += 1
      else:
        p[3].append(e[1])
    elif e[0] == "stop":
      p[2] = True
  require([(p[0], p[1], p[2]) for p in phases] == [
      (frames, frames, True), (tracks, tracks, True)
  ], "progress (announced, reported, stopped): %s, but there were %d frames "
          "and %d tracks", [p[:3] for p in phases], frames, tracks)
  for p in phases:
    require(p[3] == sorted(p[3]) and all(0 <= v <= p[0] for v in p[3]),
            "progress goes back or past the end: %s of %s", p[3], p[0])


def compare(a, b, what):
  for k in a:
    require(sounds.equal(a[k], b[k]), "%s: %s differ from the serial fit:\n%s"
            "\n%s", what, k, repr(a[k])[:600], repr(b[k])[:600])


def check_par(c, ctx):
  from sklearn import base
  s = build(c, {})
  p = build(c, {"delay": c["delay"], "salt": c["salt"]})
  xs = [sounds.render(c["sound"])]
  if c["again"]:
    xs.append(sounds.render(c["again"]))
  n = 0
  for x in xs:
    x0 = x.copy()
    s.fit(x)
    log = Log()
    kw, bar = reporter(c["progress"], log)
    conf = configuration(p)
    r = p.fit(x, **runner(c), **kw)
    require(r is p, "fit does not return the model")
    require(configuration(p) == conf, "the fit changed the configuration")
    require(np.array_equal(x, x0), "input modified")
    compare(state(p), state(s), f"fit with {c['how']}")
    frames = len(p.sinusoidal.time_frames(x))
    tracks = len(p.sinusoidal.tracks_)
    if c["progress"] == "count":
      check_log(log, frames, tracks)
    if bar is not None:
      require(bar.max == [frames, 1, tracks, 1] and bar.value == 1,
              "progress bar went through the maxima %s and stopped at %s, "
              "with %d frames and %d tracks", bar.max, bar.value, frames, tracks)
    n = max(n, tracks)
  ctx.tag(c["how"])
  if n > 1:
    ctx.tag("several tracks")
  ctx.nontrivial(n > 1)
  # cloned, it gives the same again (without parallelism)
  if c["how"] != "serial":
    q = base.clone(p).fit(xs[-1])
    same(q.param_matrix_, p.param_matrix_, "clone of the model fit in parallel")


@st.composite
def fail_cases(draw):
  c = draw(par_cases())
  c["sound"]["kind"] = "modal"
  c["fault"] = draw(st.sampled_from(["task", "task", "progress", "input"]))
  c["at"] = draw(fl(0, 1))
  c["config"]["strip_t"] = None
  return c


def check_fail(c, ctx):
  s = build(c, {})
  x = sounds.render(c["sound"])
  s.fit(x)
  tracks = s.sinusoidal.tracks_
  frames = len(s.sinusoidal.time_frames(x))
  how = dict(c)
  bad = None
  xx, limit = x, None
  if c["fault"] == "task":
    if not tracks:
      ctx.reject()
    # fail on the tracks that have the frequency of one of them
    f = s.freq_reduce(
        [t for t in tracks][int(c["at"] * .999 * len(tracks))]["freq"])
    if not math.isfinite(f):
      ctx.reject()
    bad = (f - 1e-6, f + 1e-6)
  elif c["fault"] == "progress":
    tot = 3 + frames + len(tracks)
    limit = int(c["at"] * tot)
    how["progress"] = "count"
  else:
    # not audio
    xx = np.array(["a"] * x.size)
  p = build(c, {"delay": c["delay"], "salt": c["salt"], "bad": bad})
  log = Log(limit)
  conf = configuration(p)
  kw, _ = reporter(how["progress"], log)
  try:
    p.fit(xx, **runner(c), **kw)
  except sounds.TaskError:
    require(c["fault"] != "input", "unexpected failure")
  except Exception as e:  # pylint: disable=W0703
    require(c["fault"] == "input", "the failure of the %s surfaced as %s: %s",
            c["fault"], type(e).__name__, e)
  else:
    fail("the failure of the %s went unnoticed" % c["fault"])
  require(configuration(p) == conf, "after a failed fit (%s, %s) the model has "
          "another configuration", c["how"], c["fault"])
  # and it still works
  for m in (p,):
    m.set_params(freq_reduce=s.freq_reduce)
    m.fit(x, **runner(c))
    compare(state(m), state(s), "fit after a failed one")
  ctx.tag(c["fault"], c["how"])
  ctx.nontrivial()


@st.composite
def left_cases(draw):
  how = draw(st.sampled_from(["pool", "jobs", "jobs", "threads"]))
  rng = np.random.default_rng(draw(seeds))
  k = draw(st.integers(2, 7))
  f = (np.arange(k) + 1.2 + rng.uniform(-.2, .2, k)) * .05
  return {
      "bd": False,
      "sound": {"kind": "modal", "fs": 8000, "dur": .12, "noise": 0, "seed": 0,
                "partials": [[float(v), .3, .2, 0.] for v in f]},
      "config": {"n": 256, "w": ["hann", 128], "h": 64, "t": -60,
                 "save": draw(bools), "freq_reduce": "mean",
                 "min_sine_dur": .02},
      "dsave": False,
      "how": how,
      "n": draw(st.integers(1, 3)),
      # interrupts (that may also reach the workers) do not wait for the tasks
      # in the caller's pool
      "interrupt": how != "pool" and draw(bools),
      "at": draw(st.one_of(st.just(0.), fl(0, .999))),
      "times": draw(st.integers(1, 4)),
      "salt": 0,
  }


def check_left(c, ctx):
  """A fit that fails, or is interrupted, leaves nothing running"""
  import multiprocessing as mp
  from multiprocessing.pool import ThreadPool
  s = build(c, {})
  x = sounds.render(c["sound"])
  s.fit(x)
  k = len(s.sinusoidal.tracks_)
  if k < 2:
    ctx.reject()
  frames = len(s.sinusoidal.time_frames(x))
  exc = KeyboardInterrupt if c["interrupt"] else sounds.TaskError
  p = build(c, {"delay": .01, "salt": 1})
  own = None
  if c["how"] != "jobs":
    own = (mp.Pool if c["how"] == "pool" else ThreadPool)(c["n"])
  before = set(mp.active_children())
  try:
    for _ in range(c["times"]):
      # from the start of the tasks on
      log = Log(frames + 3 + int(c["at"] * k), exc)
      conf = configuration(p)
      kw, _ = reporter("count", log)
      if own is None:
        kw["n_jobs"] = c["n"]
      else:
        kw["pool"] = own
      try:
        p.fit(x, **kw)
      except exc:
        pass
      except Exception as e:  # pylint: disable=W0703
        fail("%s in the progress report surfaced as %s: %s", exc.__name__,
             type(e).__name__, e)
      else:
        fail("%s in the progress report went unnoticed", exc.__name__)
      require(configuration(p) == conf, "the model has another configuration")
    if own is None:
      for ch in set(mp.active_children()) - before:
        ch.join(20)
        require(not ch.is_alive(), "worker processes left behind")
    elif not c["interrupt"]:
      own.close()
      t = threading.Thread(target=own.join, daemon=True)
      t.start()
      t.join(60)
      require(not t.is_alive(), "the pool cannot be closed after a failed fit")
  finally:
    if own is not None:
      own.terminate()
  p.set_params(freq_reduce=s.freq_reduce).fit(x)
  compare(state(p), state(s), "fit after failed ones")
  ctx.tag(c["how"], exc.__name__)
  ctx.nontrivial()


# --- Schedules of the storage process -----------------------------------------
class Perturb:
  """Sleep between the statements that the storage process runs"""

  def __init__(self, seed, most):
    self.parent = os.getpid()
    self.state = seed
    self.most = most

  def __call__(self, frame, event, arg):
    if os.getpid() == self.parent:
      return None
    if not os.path.realpath(frame.f_code.co_filename).startswith(core.REPO):
      return None
    return self.line

  def line(self, frame, event, arg):
    if event == "line":
      self.state = (self.state * 1103515245 + 12345 +
                    threading.get_ident()) % 2**31
      u = (self.state >> 8) / 2**23
      if u > .4:
        time.sleep(self.most * (u - .4))
    return self.line


@st.composite
def sched_cases(draw):
  return {
      "partials": draw(st.integers(3, 8)),
      "seed": draw(seeds),
      "sseed": draw(st.integers(0, 2**31 - 1)),
      "most": draw(st.sampled_from([.001, .004])),
      "n": draw(st.integers(3, 6)),
      "how": draw(st.sampled_from(["pool", "jobs"])),
      "salt": draw(st.integers(0, 2)),
  }


def check_sched(c, ctx):
  rng = np.random.default_rng(c["seed"])
  fs = 8000
  ps = [[f, d, a, 0.] for f, d, a in zip(
      (np.arange(c["partials"]) + 1.2 + rng.uniform(-.2, .2, c["partials"])) *
      .045, rng.uniform(.1, .5, c["partials"]),
      rng.uniform(.05, .3, c["partials"]))]
  cc = {
      "sound": {"kind": "modal", "fs": fs, "dur": .15, "partials": ps,
                "noise": 0, "seed": 0},
      "config": {"n": 512, "w": ["hann", 256], "h": 64, "t": -60,
                 "save": False, "freq_reduce": "mean", "min_sine_dur": .02},
      "bd": True, "dsave": True, "salt": c["salt"],
  }
  x = sounds.render(cc["sound"])
  s = build(cc, {}).fit(x)
  p = build(cc, {})
  pl = pool("pool", c["n"]) if c["how"] == "pool" else None
  threading.settrace(Perturb(c["sseed"], c["most"]))
  try:
    if pl is None:
      p.fit(x, n_jobs=c["n"])
    else:
      p.fit(x, pool=pl)
  finally:
    threading.settrace(None)
  compare(state(p), state(s), "perturbed schedule")
  n = len(p.sinusoidal.tracks_)
  ctx.tag(f"{min(n, 6)} tracks")
  ctx.nontrivial(n > 1)


@st.composite
def large_cases(draw):
  """Many partials, or long sounds"""
  c = draw(par_cases())
  c["sound"] = draw(sounds.sounds(kinds=["modal"], max_partials=40,
                                  dur=(.3, 1)))
  c["sound"]["noise"] = min(c["sound"]["noise"], 1e-3)
  c["config"].update(strip_t=None, max_n_sines=100, min_sine_dur=.01)
  c["delay"] = draw(st.sampled_from([0, .001]))
  c["again"] = None
  c["line"] = True
  return c


SUBS = [
    Sub("large", large_cases, guarded(check_par), quick=30, thorough=1000,
        shards=2),
    Sub("parallel", par_cases, guarded(check_par), quick=200, thorough=6000,
        shards=4),
    Sub("failures", fail_cases, guarded(check_fail), quick=150, thorough=4000,
        shards=3),
    Sub("leftovers", left_cases, guarded(check_left), quick=80, thorough=800,
        shards=2),
    Sub("schedules", sched_cases, guarded(check_sched), quick=60, thorough=800),
]
