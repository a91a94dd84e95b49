"""P34: experiments resume after interruptions without losing results"""
import contextlib
import csv
import functools
import logging
import math
import os
import re
import shutil
import sys
import tempfile
import warnings
from unittest import mock

import numpy as np
import scipy.stats
from core import Sub, close, fail, require
from gens import bools, fl, seeds, st, weighted

PROPERTY = "P34"
RULE = (
    "A case is a history of runs of an experiment: number of cases, "
    "checkpoint period, tests which fail, interruptions between "
    "tests or while a file is being written, at any byte. The experiment is "
    "run to its end afterwards. Non-trivial: at least one interruption and "
    "one run which resumes.")
ASSUMPTIONS = [
    "Each test of the experiment is replaced by a function of its seed",
    "The number of cases of a resumed run is never less than before",
]


class Crash(BaseException):
  """The process ends here"""


@functools.lru_cache(None)
def script(folder, name):
  """Import a script from the repository under test"""
  import importlib.util

  import sample
  repo = os.path.dirname(os.path.dirname(os.path.abspath(sample.__file__)))
  path = os.path.join(repo, "scripts", folder, name + ".py")
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    spec = importlib.util.spec_from_file_location("p34_" + name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
  return m


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix="p34-")
  level = logging.root.manager.disable
  logging.disable(logging.CRITICAL)
  handlers = list(logging.root.handlers)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      yield d
  finally:
    logging.captureWarnings(False)
    logging.disable(level)
    logging.root.handlers[:] = handlers
    shutil.rmtree(d)


@contextlib.contextmanager
def moved(path):
  """Change the working directory"""
  if path is None:
    yield
    return
  cwd = os.getcwd()
  os.chdir(path)
  try:
    yield
  finally:
    os.chdir(cwd)


@contextlib.contextmanager
def torn_writes(after):
  """The process ends while the n-th table is being written

  Args:
    after (None or pair): number of the table, and fraction of it which is
      written before the end"""
  import pandas as pd
  real = pd.DataFrame.to_csv
  count = [0]

  def to_csv(self, path_or_buf=None, *args, **kwargs):
    if path_or_buf is None:
      return real(self, path_or_buf, *args, **kwargs)
    n = count[0]
    count[0] += 1
    if after is None or n != after[0]:
      return real(self, path_or_buf, *args, **kwargs)
    text = real(self, None, *args, **kwargs)
    text = text[:int(after[1] * len(text))]
    if hasattr(path_or_buf, "write"):
      path_or_buf.write(text)
      path_or_buf.flush()
    else:
      with open(path_or_buf, mode="w", encoding="utf-8") as f:
        f.write(text)
    raise Crash("while writing a table")

  with mock.patch.object(pd.DataFrame, "to_csv", to_csv):
    yield count


# --- Evaluation of the beat model --------------------------------------------
RUN = st.fixed_dictionaries({
    "more": st.sampled_from([0, 0, 0, 1, 3]),
    "checkpoint": st.one_of(st.none(), st.integers(1, 4), st.just(1)),
    "resume": st.integers(0, 7).map(lambda i: i > 0),
    "fail": st.lists(st.integers(0, 14), max_size=2, unique=True),
    "crash": st.one_of(st.none(),
                       st.integers(0, 10).map(lambda i: ["test", i]),
                       st.integers(11, 24).map(lambda i: ["test", i]),
                       st.tuples(st.integers(0, 4), fl(0, 1)).map(
                           lambda t: ["write", list(t)])),
    "wav": st.integers(0, 4).map(lambda i: i == 0),
})


@st.composite
def evaluation_cases(draw):
  return {
      "kind": draw(st.sampled_from(["eval", "decision", "fft"])),
      "n": draw(weighted((2, st.integers(1, 12)), (1, st.integers(12, 26)))),
      "seed": draw(seeds),
      "runs": draw(st.lists(RUN, min_size=1, max_size=4)),
      "name": draw(st.sampled_from(["out", "out", "a b", "out.d", "o-1", "o[1]", "{x}", "o*"])),
      "relative": draw(st.integers(0, 4)) == 0,
      "output": draw(st.integers(0, 9)) > 0,
  }


class Experiment:
  """Stand-in for a test of the experiment"""

  def __init__(self, mod, kind, salt):
    self.cls = {
        "eval": mod.BeatsDROPEvalResult,
        "decision": mod.BeatsDROPDecisionResult,
        "fft": mod.BeatsDROPFFTResult
    }[kind]
    self.salt = salt
    self.fail = ()
    self.crash = None
    self.done = []

  def result(self, seed):
    rng = np.random.default_rng([self.salt, seed])
    d = {}
    for k in self.cls._fields:
      if k == "seed":
        d[k] = seed
      elif k == "count":
        d[k] = int(rng.integers(0, 4))
      elif k in ("beat", "single"):
        d[k] = bool(rng.integers(0, 2))
      else:
        d[k] = float(rng.normal() * 10.0**rng.integers(-8, 5))
    return self.cls(**d)

  def __call__(self, seed, log_level=None, log_path=None, wav_path=None):
    if self.crash is not None and len(self.done) >= self.crash:
      raise Crash("between tests")
    self.done.append(seed)
    if wav_path is not None:
      with open(wav_path.format(seed), mode="wb") as f:
        f.write(b"RIFF")
    if seed in self.fail:
      return None
    return self.result(seed)


class Serial:
  """A pool which runs in this process, in some order"""

  def __init__(self, processes=None, **kwargs):
    del processes, kwargs

  def __enter__(self):
    return self

  def __exit__(self, *args):
    return False

  def imap_unordered(self, func, it, chunksize=1):
    del chunksize
    it = list(it)
    # Some results come before those of previous tests
    order = sorted(range(len(it)), key=lambda i: (i // 3, -i))
    for i in order:
      yield func(it[i])

  def imap(self, func, it, chunksize=1):
    del chunksize
    return map(func, it)

  map = imap

  def close(self):
    pass

  join = terminate = close


def table(path):
  """Rows of a table"""
  with open(path, encoding="utf-8", newline="") as f:
    return list(csv.DictReader(f))


def same_row(row, want, fields):
  for k in fields:
    v = getattr(want, k)
    u = row[k]
    if isinstance(v, bool):
      if u not in (str(v), str(float(v)), str(int(v))):
        return False
    else:
      try:
        if not math.isclose(float(u), v, rel_tol=1e-12):
          return False
      except ValueError:
        return False
  return True


def check_evaluation(c, ctx):
  mod = script("beatsdrop", "evaluation")
  exp = Experiment(mod, c["kind"], c["seed"])
  flags = {"eval": [], "decision": ["--test-decision"],
           "fft": ["--test-fft", "12"]}[c["kind"]]
  n = c["n"]
  crashes = resumed = 0
  with scratch() as d, moved(d if c["relative"] else None):
    base = os.path.join(d, "res", c["name"])
    if c["relative"]:
      base = c["name"]
    saved = {}  # Results which are surely saved
    last = {"more": 0, "checkpoint": None, "resume": True, "fail": [],
            "crash": None, "wav": False}
    runs = c["runs"] + [last]
    wavs = set()
    started = False
    for r in runs:
      n += r["more"]
      exp.fail = r["fail"]
      exp.crash = r["crash"][1] if r["crash"] and r["crash"][0] == "test" \
          else None
      exp.done = []
      torn = r["crash"][1] if r["crash"] and r["crash"][0] == "write" else None
      argv = [*flags, "-n", str(n), "-j", "1"]
      if c["output"]:
        argv += ["--output", base]
      if r["checkpoint"] is not None:
        argv += ["--checkpoint", str(r["checkpoint"])]
      if not r["resume"]:
        argv.append("--no-resume")
      if r["wav"]:
        argv += ["--wav", os.path.join(d, "wav")]
      end = False
      with torn_writes(torn), mock.patch("multiprocessing.Pool", Serial):
        try:
          args = mod.ArgParser().custom_parse_args(argv)
          args.test_func = exp
          args = mod.prepare_folders(args)
          args = mod.load_results(args)
          args = mod.run_tests(args)
          args = mod.save_dataframe(args)
          end = True
        except Crash:
          crashes += 1
      if not c["output"]:
        if end:
          # Results are only given to the report
          ok = [s for s in range(n) if s not in exp.fail]
          require(sorted(exp.done) == list(range(n)), "computed %s of %d",
                  exp.done, n)
          require(args.df["seed"].to_list() == ok, "results of %s",
                  args.df["seed"].to_list())
          require(not [f for f in os.listdir(d) if f != "wav"], "files: %s",
                  os.listdir(d))
        continue
      resumed += started and r["resume"]
      # Nothing is computed twice
      require(len(exp.done) == len(set(exp.done)), "computed twice in a run: %s",
              exp.done)
      require(set(exp.done) <= set(range(n)), "computed %s of %d", exp.done, n)
      if r["resume"]:
        for s in exp.done:
          if s in saved and not (r["wav"] and s not in wavs):
            fail("case %d was saved and is computed again" % s)
      if r["wav"]:
        wavs.update(exp.done)
      if not r["resume"]:
        saved = {}
      if end:
        saved_ = {s for s in (set(exp.done) | set(saved)) if s < n and
                  not (s in exp.fail and s in exp.done and s not in saved)}
        rows = table(base + ".csv")
        got = {int(float(row["seed"])) for row in rows}
        require(len(got) == len(rows), "results given twice")
        require(got >= saved_, "results of %s were lost: the file has %s",
                sorted(saved_ - got), sorted(got))
        require(got <= set(range(n)), "results of cases %s", sorted(got))
        for row in rows:
          s = int(float(row["seed"]))
          require(same_row(row, exp.result(s), exp.cls._fields),
                  "case %d: result %s, expected %s", s, row, exp.result(s))
        order = [int(float(row["seed"])) for row in rows]
        require(order == sorted(order), "order of the results: %s", order)
        require(set(args.df["seed"].astype(int)) == got,
                "the report is on other results")
        left = [f for f in os.listdir(os.path.dirname(base) or d)
                if f.startswith(c["name"] + ".ckpt")]
        require(not left, "files left: %s", left)
        saved = {s: True for s in got}
      elif r["checkpoint"] is not None and exp.crash is not None:
        # The tests before the last complete checkpoint
        k = len(exp.done) // r["checkpoint"] * r["checkpoint"]
        if k:
          saved.update({s: True for s in exp.done[:k] if s not in exp.fail})
      started = True
    if not c["output"]:
      return
    # In the end
    require(end, "the last run did not end")
    rows = table(base + ".csv")
    require([int(float(row["seed"])) for row in rows] == list(range(n)),
            "results of %s in the end, %d cases",
            [row["seed"] for row in rows], n)
  ctx.tag(c["kind"], f"{min(crashes, 2)} crashes")
  ctx.nontrivial(crashes > 0 and resumed > 0)


# --- Context of the tests ----------------------------------------------------
@st.composite
def context_cases(draw):
  return {
      "seed": draw(st.integers(0, 2**31)),
      "onlybeat": draw(bools),
      "error": draw(st.one_of(st.none(), st.sampled_from(
          ["message", "{x}", "two\nlines"]))),
      "log": draw(bools),
      "wav": draw(bools),
  }


def check_context(c, ctx):
  from scipy.io import wavfile
  mod = script("beatsdrop", "evaluation")
  from sample.beatsdrop import regression
  from sample.evaluation import random
  x, fs, ps = random.BeatsGenerator(seed=c["seed"],
                                    onlybeat=c["onlybeat"]).audio()
  (f, d_, a, p) = ps
  with scratch() as d:
    logs = os.path.join(d, "logs", "{:.0f}.log")
    wavs = os.path.join(d, "{:.0f}.wav")
    error = None
    try:
      with mod.test_case_context(c["seed"], onlybeat=c["onlybeat"],
                                 log_path=logs if c["log"] else None,
                                 wav_path=wavs if c["wav"] else None) as (
                                     (y, fs_, _), truth):
        require(fs_ == fs and np.array_equal(y, x), "other audio")
        truth = dict(truth)
        if c["error"] is not None:
          raise ValueError(c["error"])
    except ValueError as e:
      error = e
    # The ground truth has the partials of the audio, in the same order
    names = [k + str(i) for k in "afdp" for i in range(2)]
    want = regression.sort_params((a[0], a[1], f[0], f[1], d_[0], d_[1], p[0],
                                   p[1]))
    got = [truth[k] for k in names]
    close(np.array(got, dtype=float), np.array(want, dtype=float), rtol=1e-12,
          what="ground truth")
    if not c["onlybeat"]:
      require([truth[k + "2"] for k in "afdp"] == [a[2], f[2], d_[2], p[2]],
              "third partial")
    if c["wav"]:
      rate, z = wavfile.read(wavs.format(c["seed"]))
      require(rate == fs and np.array_equal(z, x), "saved audio")
    fn = logs.format(c["seed"])
    if c["error"] is None:
      require(error is None and not os.path.exists(fn), "error without error")
    elif c["log"]:
      require(error is None, "the error is logged and raised")
      with open(fn, encoding="utf-8") as g:
        text = g.read()
      require(str(c["seed"]) in text and c["error"] in text, "log: %r", text)
    else:
      require(error is not None and error.args == (c["error"],),
              "the error was lost")
  ctx.nontrivial(c["error"] is not None or not c["onlybeat"])


# --- The tests themselves ----------------------------------------------------
@st.composite
def test_cases(draw):
  return {
      "kind": draw(st.sampled_from(["eval", "decision", "fft", "fft"])),
      "seed": draw(st.integers(0, 10**6)),
      "n": draw(st.sampled_from([2048, 4096, 16384])),
      "t": draw(st.sampled_from([-90, -90, -20, 0])),
  }


def check_test(c, ctx):
  """Results of single tests, against the same analysis done here"""
  import sample
  from sample.beatsdrop import regression
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sample.evaluation import random
  from sklearn import base
  mod = script("beatsdrop", "evaluation")
  kind = c["kind"]
  x, fs, ps = random.BeatsGenerator(seed=c["seed"],
                                    onlybeat=kind != "decision").audio()
  f, d_, a, p = ps
  conf = mod.base_model.get_params()
  kw = {k: v for k, v in conf.items() if not hasattr(v, "get_params")}
  with scratch() as d, warnings.catch_warnings(), mock.patch.object(
      mod, "base_model", base.clone(mod.base_model)):
    warnings.simplefilter("ignore")
    if kind != "eval":
      # Nothing, or few partials are found
      kw["sinusoidal__t"] = c["t"]
      mod.base_model.set_params(sinusoidal__t=c["t"])
    logs = os.path.join(d, "{:.0f}.log")
    if kind == "fft":
      r = mod.test_case_fft(c["seed"], n=c["n"], log_path=logs)
      kw["sinusoidal__n"] = c["n"]
    else:
      r = {"eval": mod.test_case, "decision": mod.test_case_decision}[kind](
          c["seed"], log_path=logs)
    failed = os.path.exists(logs.format(c["seed"]))
    require(failed == (r is None), "result %s, error logged: %s", r, failed)
    require(not hasattr(mod.base_model, "param_matrix_"),
            "the common model was fitted")
    kw["sinusoidal__tracker__fs"] = fs
    if kind == "decision":
      m = SAMPLEBeatsDROP(beat_decisor__intermediate__save=True,
                          beat_decisor__th=4, **kw)
    else:
      m = sample.SAMPLE(**kw)
    error = None
    try:
      m.fit(x)
    except Exception as e:  # pylint: disable=W0703
      error = e
    tracks = [] if error else m.sinusoidal.tracks_
    if failed:
      require(error is not None or not tracks, "test failed, the analysis does "
              "not: %s", open(logs.format(c["seed"]), encoding="utf-8").read())
      ctx.tag("fails")
      return
    require(error is None, "%s does not fail", error)
    require(r.seed == c["seed"], "result of %s", r.seed)
    got = r._asdict()
    want = dict(zip([k + str(i) for k in "afdp" for i in range(2)],
                    regression.sort_params((a[0], a[1], f[0], f[1], d_[0],
                                            d_[1], p[0], p[1]))))
    tol = {}
    if kind == "fft":
      n = m.freqs_.size
      want["count"] = len(tracks)
      est = [[0] * 2] * 3
      if n:
        i = [0, 1] if n > 1 else [0, 0]
        est = [m.amps_[i] / (1 if n > 1 else 2), m.freqs_[i], m.decays_[i]]
      est = regression.sort_params((*est[0], *est[1], *est[2], 0, 0))
      want.update(zip([k + str(i) + "_hat" for k in "afd" for i in range(2)],
                      est[:6]))
    elif kind == "eval":
      t = tracks[int(np.argmax(m.energies_))]
      ok = np.flip(np.isfinite(t["mag"]))
      tm = np.flatnonzero(ok) / m.sinusoidal.frame_rate
      mag, freq = (np.flip(t[k])[ok] for k in ("mag", "freq"))
      for name, cls in (("br_", regression.BeatRegression),
                        ("dbr_", regression.DualBeatRegression)):
        b = cls().fit(t=tm, a=mag + 6, f=freq)
        new = dict(zip([name + k + str(i) for k in "afdp" for i in range(2)],
                       regression.sort_params(b.params_)))
        want.update(new)
        # The fit amplifies rounding, of phases more than anything else
        tol.update(dict.fromkeys(new, .05))
        want.update(dict.fromkeys([name + "p0", name + "p1"]))
    else:
      med = [np.nanmedian(t["freq"]) for t in tracks]
      dec = [int(np.argmin([abs(m_ - g) for m_ in med]))
             for g in ((f[0] + f[1]) / 2, f[2])]
      ds = m.beat_decisor.intermediate["decision"]
      require(len(ds) == len(tracks), "%d decisions for %d tracks", len(ds),
              len(tracks))
      want.update(beat=ds[dec[0]], single=ds[dec[1]])
      want.update({k + "2": v[2] for k, v in zip("afdp", (a, f, d_, p))})
    require(set(got) == {*want, "seed"}, "fields %s", sorted(got))
    for k, v in want.items():
      require(v is None or math.isclose(got[k], v, rel_tol=tol.get(k, 1e-9), abs_tol=1e-9),
              "%s is %s, expected %s", k, got[k], v)
  ctx.tag(kind)
  ctx.nontrivial(len(tracks) > 0)


# --- Image of the speed-up ---------------------------------------------------
@st.composite
def image_cases(draw):
  n, m = draw(st.integers(1, 6)), draw(st.integers(1, 6))
  return {
      "shape": [n, m],
      "side": draw(st.sampled_from(["both", "both", "faster", "slower",
                                    "same"])),
      "span": draw(fl(.1, 20)),
      "seed": draw(seeds),
      "missing": draw(bools),
      "ticks": draw(st.one_of(st.none(), st.integers(1, 6))),
  }


def check_image(c, ctx):
  import matplotlib.pyplot as plt
  mod = script("cim22", "performance")
  rng = np.random.default_rng(c["seed"])
  v = rng.uniform(-c["span"], c["span"], c["shape"])
  v = {"both": v, "faster": np.abs(v), "slower": -np.abs(v),
       "same": np.zeros(c["shape"])}[c["side"]]
  if c["missing"]:
    # Cells which were not computed before an interruption
    v.reshape(-1)[rng.integers(0, v.size):] = np.nan
  speed = 2.0**v
  before = speed.copy()
  kw = {} if c["ticks"] is None else {"nticks": c["ticks"]}
  try:
    with np.errstate(all="ignore"):
      im, bar = mod.log_speedup_imshow(speed, **kw)
    require(np.array_equal(speed, before, equal_nan=True), "input modified")
    z = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    pos, neg = np.nanmax([0, *v[v > 0]]), -np.nanmin([0, *v[v < 0]])
    want = np.where(v > 0, v / (pos or 1), v / (neg or 1))
    require(z.shape == v.shape, "image of shape %s", z.shape)
    close(np.nan_to_num(z, nan=9), np.nan_to_num(want, nan=9), rtol=1e-9,
          atol=1e-9, what="image")
    require(im.get_clim() == (-1, 1), "colors from %s", im.get_clim())
    ticks = list(bar.get_ticks())
    labels = [t.get_text() for t in bar.ax.get_yticklabels()]
    require(len(ticks) == len(labels), "labels %s of %s", labels, ticks)
    require(0 in ticks and sorted(ticks) == ticks and
            all(abs(t) <= 1 + 1e-9 for t in ticks), "ticks %s", ticks)
    for t, l in zip(ticks, labels):
      g = re.fullmatch(r"\$\\nicefrac\{1\}\{(\d+)\}\$", l)
      r = -math.log2(int(g.group(1))) if g else math.log2(int(l))
      close(r, t * (pos if t > 0 else neg), rtol=1e-9, atol=1e-9,
            what=f"label {l} of tick {t}")
  finally:
    plt.close("all")
  ctx.tag(c["side"])
  ctx.nontrivial(len(ticks) > 2)


# --- Benchmark of the filterbank ---------------------------------------------
BENCH = st.fixed_dictionaries({
    "stop": st.integers(0, 40),
    "kind": st.sampled_from(["interrupt", "interrupt", "error", "memory"]),
})


@st.composite
def benchmark_cases(draw):
  a, b = draw(fl(.05, 1)), draw(fl(.01, 3))
  s = draw(fl(0, .01))
  return {
      "n": draw(st.integers(1, 4)),
      "cases": draw(st.integers(2, 3)),
      "duration": [a, a + b],
      "stride": [s, s + draw(fl(.001, .02))],
      "fs": draw(st.sampled_from([44100, 8000, 22050])),
      "seed": draw(seeds),
      "runs": draw(st.lists(BENCH, max_size=3)),
  }


def check_benchmark(c, ctx):
  import timeit
  mod = script("cim22", "performance")
  methods = list(mod.convolutions)
  require(len(methods) == 5 and methods[-1] == "strided", "methods: %s",
          methods)
  state = {"left": None, "kind": None, "jobs": []}

  class Timer:
    """Stand-in for the benchmark"""

    def __init__(self, stmt="pass", setup="pass", *args, **kwargs):
      self.stmt, self.setup = stmt, setup

    def repeat(self, repeat=5, number=1):
      if state["left"] is not None:
        if state["left"] == 0:
          raise {"interrupt": KeyboardInterrupt, "error": ValueError,
                 "memory": MemoryError}[state["kind"]]("here")
        state["left"] -= 1
      state["jobs"].append((self.stmt, self.setup, repeat, number))
      return [cost(c["seed"], self.stmt, self.setup, i) for i in range(repeat)]

  total = c["cases"]**2 * len(methods)
  args_ = ["-n", str(c["n"]), "-c", str(c["cases"]), "--fs", str(c["fs"]),
           "--duration-min", repr(c["duration"][0]),
           "--duration-max", repr(c["duration"][1]),
           "--stride-min", repr(c["stride"][0]),
           "--stride-max", repr(c["stride"][1])]
  dur = np.geomspace(*c["duration"], c["cases"])
  strd = np.expm1(np.linspace(*np.log1p(c["stride"]), c["cases"])) \
      if c["stride"][0] else np.expm1(np.linspace(*np.log1p(c["stride"]),
                                                  c["cases"]))
  from matplotlib import pyplot as plt
  done = stops = 0
  with scratch() as d, mock.patch.object(timeit, "Timer", Timer):
    out = os.path.join(d, "out.csv")
    for r in [*c["runs"], {"stop": None, "kind": "interrupt"}]:
      state.update(left=r["stop"], kind=r["kind"], jobs=[])
      argv = [*args_, "-O", out, "--image-output", os.path.join(d, "x.png")]
      try:
        with plt.rc_context():
          args = mod.ArgParser().custom_parse_args(argv)
          # The main function, up to the figure
          data = mod.load_data(args)
          try:
            mod.run_benchmarks(data, args)
          except (KeyboardInterrupt, ValueError, MemoryError):
            stops += 1
          finally:
            import pandas as pd
            data = mod.clean_data(data, args)
            df = pd.DataFrame(data=data)
            df.to_csv(out)
      finally:
        plt.close("all")
      n = total - done if r["stop"] is None else min(total - done, r["stop"])
      require(len(state["jobs"]) == n, "%d jobs done, expected %d",
              len(state["jobs"]), n)
      done += n
      require(len(df) == done * c["n"], "%d results of %d jobs", len(df), done)
      for i, row in enumerate(df.to_dict("records")):
        j, rep = divmod(i, c["n"])
        di, j = divmod(j, c["cases"] * len(methods))
        si, mi = divmod(j, len(methods))
        require((row["method"], row["duration_i"], row["stride_i"],
                 row["method_i"]) == (methods[mi], di, si, mi),
                "result %d is that of %s", i, row)
        close(np.array([row["duration"], row["stride"]]),
              np.array([dur[di], strd[si]]), rtol=1e-9, atol=1e-12,
              what=f"settings of result {i}")
      for k, (stmt, setup, repeat, number) in enumerate(state["jobs"]):
        require((repeat, number) == (c["n"], 1), "%d x %d", repeat, number)
        j = done - n + k
        require(stmt == mod.convolutions[methods[j % len(methods)]],
                "job %d runs %r", j, stmt)
        v = np.array([cost(c["seed"], stmt, setup, i) for i in range(c["n"])])
        got = df["timeit"].to_numpy()[j * c["n"]:(j + 1) * c["n"]]
        close(got, v, rtol=1e-12, what=f"times of job {j}")
    # Speed-up with respect to the best of the others
    times = df["timeit"].to_numpy().reshape(c["cases"], c["cases"],
                                            len(methods), c["n"])
    mean = times.mean(axis=-1)
    want = mean[:, :, :-1].min(axis=-1) / mean[:, :, -1]
    with plt.rc_context():
      got = mod.compute_speedup(df, args)
    close(got, want, rtol=1e-9, what="speed-up")
  ctx.tag(f"{min(stops, 2)} stops")
  ctx.nontrivial(stops > 0 and done == total)


def cost(seed, stmt, setup, i):
  """Time of a job"""
  h = sum(map(ord, stmt)) * 31 + sum(j * ord(k) for j, k in enumerate(setup))
  return float(np.random.default_rng([seed, h, i]).uniform(.01, 1))


# --- Settings of the benchmark -----------------------------------------------
@st.composite
def setup_cases(draw):
  return {
      "fs": draw(st.sampled_from([4000, 8000, 6000])),
      "duration": draw(fl(.02, .1)),
      "stride": draw(st.one_of(st.just(0.), fl(0, .01))),
  }


def check_setup(c, ctx):
  from matplotlib import pyplot as plt
  from sample import psycho
  mod = script("cim22", "performance")
  with scratch(), plt.rc_context():
    args = mod.ArgParser().custom_parse_args(["--fs", str(c["fs"])])
    text = args.cochleagram_setup(duration=c["duration"],
                                  stride_time=c["stride"])
    state = np.random.get_state()
    try:
      ns = {}
      exec(text, ns)  # pylint: disable=W0122
      outs = {k: eval(s, ns)  # pylint: disable=W0123
              for k, s in mod.convolutions.items()}
    finally:
      np.random.set_state(state)
  require(ns["x"].size == np.round(c["fs"] * c["duration"]),
          "%d samples", ns["x"].size)
  stride = max(1, int(np.round(c["fs"] * c["stride"])))
  require(ns["stride"] == stride, "stride %s", ns["stride"])
  # Every method computes the same, at the rate of the input
  ref = psycho.GammatoneFilterbank(normalize=True).precompute(
      fs=c["fs"], analytic=True).convolve(ns["x"], stride=stride)
  for k, y in outs.items():
    require(np.shape(y) == np.shape(ref), "%s: shape %s, expected %s", k,
            np.shape(y), np.shape(ref))
    close(np.asarray(y), np.asarray(ref), rtol=1e-6,
          atol=1e-7 * float(np.max(np.abs(ref))), what=k)
  ctx.nontrivial(stride > 1)


# --- Reports -----------------------------------------------------------------
REPORT_RUN = st.fixed_dictionaries({
    "more": st.sampled_from([0, 0, 3, 8]),
    "salt": st.sampled_from([0, 0, 0, 1]),
    "tqdm": bools,
    "checkpoint": st.one_of(st.none(), st.integers(3, 20)),
    "crash": st.one_of(
        st.none(),
        st.tuples(st.just("test"), st.integers(0, 30)),
        st.tuples(st.just("table"), st.tuples(st.integers(0, 3), fl(0, 1))),
        st.tuples(st.just("data"), fl(0, 1)),
        st.tuples(st.just("analysis"), st.integers(0, 300)),
        st.tuples(st.just("figure"), st.integers(0, 3)),
    ).map(lambda t: t and list(t)),
})


@st.composite
def report_cases(draw):
  return {
      "kind": draw(st.sampled_from(["eval", "eval", "decision", "decision",
                                    "fft"])),
      "n": draw(st.integers(20, 40)),
      "seed": draw(seeds),
      "bayesian": draw(bools),
      "effects": draw(st.lists(st.sampled_from([-2, -1, 1, 2]), min_size=6,
                               max_size=6)),
      "runs": draw(st.lists(REPORT_RUN, min_size=1, max_size=3)),
      "fft": draw(st.integers(1, 20)),
  }


class ReportExperiment(Experiment):
  """Tests whose results have known differences"""
  version = 0
  effects = ()

  def result(self, seed):
    rng = np.random.default_rng([self.salt, self.version, seed])
    d = {}
    for k in self.cls._fields:
      d[k] = float(rng.uniform(100, 200))
    d["seed"] = seed
    for e, k in zip(self.effects, ("f0", "f1", "a0", "a1", "d0", "d1")):
      for m in ("br", "dbr"):
        if f"{m}_{k}" in d:
          s = 10.0**(-3 - e * (m == "dbr"))
          # Not normal
          s *= 20.0**float(rng.uniform() > .8)
          d[f"{m}_{k}"] = d[k] * (1 + s * float(rng.uniform(.5, 1)))
    if "count" in d:
      d["count"] = int(rng.integers(0, 4))
    for k in ("beat", "single"):
      if k in d:
        d[k] = bool(rng.integers(0, 3) > 0)
    return self.cls(**d)


class Axes:
  """Stand-in for plot axes"""

  def __init__(self, shown):
    self.shown = shown

  def hist(self, x, **kwargs):
    del kwargs
    x = [np.asarray(v, dtype=float) for v in x]
    bins = np.histogram_bin_edges(np.concatenate(x))
    return np.array([np.histogram(v, bins)[0] for v in x]), bins, None

  def boxplot(self, x, **kwargs):
    self.shown.append(len(x))

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return lambda *args, **kwargs: None


def check_reports(c, ctx):
  import pandas as pd
  import sklearn.metrics
  from matplotlib import pyplot as plt
  mod = script("beatsdrop", "evaluation")
  exp = ReportExperiment(mod, c["kind"], c["seed"])
  exp.effects = c["effects"]
  flags = {
      "eval": ["--n-samples", "60"] if c["bayesian"] else ["--frequentist"],
      "decision": ["--test-decision"],
      "fft": ["--test-fft", str(c["fft"])]
  }[c["kind"]]
  state = {"fits": [], "left": None, "figures": None, "data": None}

  def step(k, name):
    if state[k] is not None:
      if state[k] <= 0:
        raise Crash(name)
      state[k] -= 1

  class Tree:
    """Stand-in for the classifier"""

    def __init__(self, **kwargs):
      del kwargs

    def fit(self, x, y):
      step("left", "analysis")
      self.feature_names_in_ = np.array(x.columns, dtype=object)
      v = np.random.default_rng([c["seed"], len(state["fits"]), len(x)]).uniform(
          size=len(self.feature_names_in_))
      self.feature_importances_ = v
      state["fits"].append((y.name, dict(zip(x.columns, v)), len(x)))
      return self

  import autorank
  import chromatictools.pickle as ctpickle
  real_rank, real_save = autorank.autorank, ctpickle.save_pickled

  def rank(*args, **kwargs):
    step("left", "analysis")
    rng = np.random.get_state()
    np.random.seed(0)
    try:
      return real_rank(*args, **kwargs)
    finally:
      np.random.set_state(rng)

  def save(o, path, *args, **kwargs):
    r = real_save(o, path, *args, **kwargs)
    if state["data"] is not None:
      with open(path, mode="rb+") as f:
        f.truncate(int(state["data"] * f.seek(0, 2)))
      raise Crash("while saving")
    return r

  def savefig(*args, **kwargs):
    step("figures", "figure")

  def subplots(rows=1, cols=1, **kwargs):
    axs = np.empty(rows * cols, dtype=object)
    for i in range(axs.size):
      axs[i] = Axes([])
    return None, axs.reshape(rows, cols) if rows > 1 else axs

  crashes = changes = 0
  with scratch() as d, contextlib.ExitStack() as stack:
    for p in (mock.patch("multiprocessing.Pool", Serial),
              mock.patch("sklearn.tree.DecisionTreeClassifier", Tree),
              mock.patch.object(autorank, "autorank", rank),
              mock.patch.object(ctpickle, "save_pickled", save),
              mock.patch.object(plt, "savefig", savefig),
              mock.patch.object(plt, "subplots", subplots),
              mock.patch.object(plt, "clf", lambda: None),
              mock.patch("sys.stderr", open(os.devnull, "w"))):
      stack.enter_context(p)
    stack.callback(sys.stderr.close)
    base = os.path.join(d, "out")

    n = c["n"]
    learnt = (0, 0, [])  # By the classifiers
    resume = True  # Whether saved results are those of the present tests
    for r in [*c["runs"], None]:
      if r is not None:
        n += r["more"]
        if r["salt"]:
          exp.version += 1
          resume = False
          changes += 1
        changes += r["more"] > 0
      kind, arg = (r and r["crash"]) or (None, None)
      exp.crash = arg if kind == "test" else None
      exp.done = []
      state.update(left=arg if kind == "analysis" else None,
                   figures=arg if kind == "figure" else None,
                   data=arg if kind == "data" else None, fits=[])
      argv = [*flags, "-n", str(n), "-j", "1", "-O", base]
      if r and r["checkpoint"] is not None:
        argv += ["--checkpoint", str(r["checkpoint"])]
      if r and r["tqdm"]:
        argv.append("--tqdm")
      if not resume:
        argv.append("--no-resume")
      done = False
      with torn_writes(arg if kind == "table" else None):
        try:
          args = mod.ArgParser().custom_parse_args(argv)
          args.test_func = exp
          for f in (mod.prepare_folders, mod.load_results, mod.run_tests,
                    mod.save_dataframe):
            args = f(args)
          # From here on, results of previous tests are replaced
          resume = True
          args.output_func(args)
          done = True
        except Crash:
          crashes += 1
      if state["fits"]:
        learnt = (n, exp.version, state["fits"])
      if not done:
        continue
      want = [exp.result(s) for s in range(n)]
      ext = "tex" if c["kind"] == "eval" else "txt"
      with open(f"{base}_report.{ext}", encoding="utf-8") as f:
        text = f.read()
      if c["kind"] == "fft":
        m = sum(w.count >= 2 for w in want)
        size = 1 << c["fft"]
        require(text.split() == (
            "Detected at least two tracks in %d/%d cases (%.2f%%) using FFT "
            "size %d (%.2f seconds at 44100 Hz)" %
            (m, n, m * 100 / n, size, size / 44100)).split(), "report: %s",
                text)
      elif c["kind"] == "decision":
        pred = [w.beat for w in want] + [w.single for w in want]
        ref = sklearn.metrics.classification_report([True] * n + [False] * n,
                                                    pred)
        require(text.split() == ref.split(), "report: %s\nexpected: %s", text,
                ref)
        require(learnt[:2] == (n, exp.version), "the importances are those of "
                "%d cases of version %d, there are %d of %d", *learnt[:2], n,
                exp.version)
        check_importances(base, learnt[2], n)
      else:
        check_ranks(text, want, c["effects"],
                    None if c["bayesian"] else args.rank_result.cd)
  ctx.tag(c["kind"], f"{min(crashes, 2)} crashes")
  ctx.nontrivial(crashes > 0 or changes > 0)


def check_importances(base, fits, n):
  """Importances are those of the classifiers, which learn each target"""
  rows = table(base + "_errors_feature_importance.csv")
  names = [k for k in rows[0] if k not in ("", "target")]
  require({"f0", "a1", "d2", "f_delta"} <= set(names), "features: %s", names)
  for t in ("beat", "single"):
    k = sum(r["target"] == t for r in rows)
    require(2 * k == len(rows), "%d of %d importances for %s", k, len(rows), t)
  for r in rows:
    for k in names:
      v = float(r[k])
      require(0 <= v <= 1, "importance of %s: %s", k, v)
  require(len(rows) == len(fits), "%d importances of %d classifiers",
          len(rows), len(fits))
  got = sorted((r["target"], *(float(r[k]) for k in names)) for r in rows)
  ref = sorted((t, *(v[k] for k in names)) for t, v, _ in fits)
  for a, b in zip(got, ref):
    require(a[0] == b[0], "target %s, expected %s", a[0], b[0])
    close(np.array(a[1:]), np.array(b[1:]), rtol=1e-9, what="importances")
  require(max(s for _, _, s in fits) < n, "classifiers learn from every case")
  require(min(s for _, _, s in fits) >= n / 2, "classifiers learn from %d of %d",
          min(s for _, _, s in fits), n)


def check_ranks(text, want, effects, cd):
  """Medians and comparisons of the report"""
  names = ("f0", "f1", "a0", "a1", "d0", "d1")
  scale = {
      "f": lambda v: 2595 * np.log10(1 + v / 700),
      "a": lambda v: 20 * np.log10(np.abs(v)),
      "d": lambda v: v,
  }
  tab = text[text.rindex(r"\begin{tabular}"):]
  tab, tail = tab.split(r"\end{tabular}")
  errors = {}
  medians = {}
  for k in names:
    row = tab[tab.index("% " + k + "\n"):].splitlines()[1:]
    cells = " ".join(row).split(r"\\")[0].split("&")[1:]
    require(len(cells) >= 4, "row of %s: %s", k, cells)
    for m, cell, ci in zip(("dbr", "br"), cells[::2], cells[1::2]):
      x = np.array([getattr(w, k) for w in want])
      y = np.array([getattr(w, f"{m}_{k}") for w in want])
      v = np.abs(scale[k[0]](x) - scale[k[0]](y))
      errors[k, m] = v
      medians[k, m] = np.median(v)
      close(float(cell), np.median(v), rtol=2e-2, atol=2e-3,
            what=f"median error of {m} on {k}")
      lo, hi = map(float, ci.strip().strip("[]").split(","))
      require(lo <= float(cell) <= hi and v.min() <= lo + 2e-3 and
              hi - 2e-3 <= v.max(), "interval of %s on %s: %s", m, k, ci)
  pops = list(errors)
  ranks = dict(zip(pops, np.mean(scipy.stats.rankdata(
      [errors[k] for k in pops], axis=0), axis=1)))

  def decide(k1, k2, e):
    """Possible answers"""
    if cd is None:
      ref = {"larger" if e > 0 else "smaller"}
      return ref if abs(e) > 1 else ref | {"equal", "inconclusive"}
    r = ranks[k1] - ranks[k2]
    if abs(abs(r) - cd) < 1e-6 * cd:
      return {"equal", "larger", "smaller"}
    return {"equal" if abs(r) < cd else "larger" if r > 0 else "smaller"}

  models = dict(re.findall(
      r"\\item{\s*(\w+)\s*} median error of br is (\w+) wrt dbr", tail))
  for e, k in zip(effects, names):
    ref = decide((k, "br"), (k, "dbr"), e)
    require(models.get(k) in ref, "error of br on %s is %r wrt dbr, expected "
            "%s", k, models.get(k), ref)
  partials = {(m, k[0]): (a, w) for m, k, a, w in re.findall(
      r"\\item{\s*(\w+)\s*} median error on\s+(\w+)0\s+is (\w+) wrt\s+(\w+)",
      tail)}
  require(len(partials) == 6, "comparisons of the partials: %s", partials)
  for (m, k), (got, other) in partials.items():
    require(other == k + "1", "%s0 is compared with %s", k, other)
    if cd is not None:
      ref = decide((k + "0", m), (k + "1", m), None)
      require(got in ref, "error of %s on %s0 is %r wrt %s1, expected %s", m, k,
              got, k, ref)


SUBS = [
    Sub("evaluation", evaluation_cases, check_evaluation, quick=900, shards=4),
    Sub("reports", report_cases, check_reports, quick=32, shards=4),
    Sub("tests", test_cases, check_test, quick=20, thorough=300, shards=4),
    Sub("image", image_cases, check_image, quick=60),
    Sub("context", context_cases, check_context, quick=40),
    Sub("benchmark", benchmark_cases, check_benchmark, quick=240, shards=2),
    Sub("setup", setup_cases, check_setup, quick=16),
]
