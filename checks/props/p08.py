"""P08: peak tracking follows the greedy continuation rule"""
import math

import numpy as np
from core import Sub, require
from gens import bools, fl, seeds, sizes, st

PROPERTY = "P08"
RULE = (
    "A case is a tracker configuration and a history of up to 24 frames of "
    "up to 7 peaks (persistent drifting partials that appear, fade and "
    "cross, plus spurious peaks; steps: of exactly the threshold; large: up to "
    "200 partials and 300 frames), run in lockstep on the tracker and on a "
    "reference one; the reported tracks are compared after every frame. "
    "Histories stop where a frequency distance is within rounding of the "
    "threshold or of another distance. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least one "
    "continuation and one track that ends or is refused.")


class Ambiguous(Exception):
  pass


def exact(*vs):
  """Whether sums and differences of these have no rounding"""
  return all(abs(v) < 2**20 and v * 1024 == round(v * 1024) for v in vs)


class RefTracker:
  """Reference transcription of the documented rules"""

  def __init__(self, max_n, min_len, off, slope):
    self.max_n, self.min_len = max_n, min_len
    self.off, self.slope = off, slope
    self.done, self.active, self.frame = [], [], 0
    self.n_cont = self.n_end = self.n_refused = 0

  def ok(self, t):
    return len(t["freq"]) >= self.min_len

  def finish(self, t):
    if self.ok(t):
      self.done.append(t)

  def reported(self):
    return [t for t in self.done if self.strip_ok(t)
           ] + [t for t in self.active if self.ok(t) and self.strip_ok(t)]

  def strip_ok(self, t):
    return True

  def step(self, peaks):
    free = list(range(len(self.active)))
    taken = set()
    for p in sorted(range(len(peaks)), key=lambda i: -peaks[i][1]):
      if not free:
        break
      f = peaks[p][0]
      ds = sorted((abs(self.active[i]["freq"][-1] - f), i) for i in free)
      if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-7:
        raise Ambiguous()
      thr = self.off + self.slope * f
      if abs(ds[0][0] - thr) < 1e-7 and not exact(
          f, self.active[ds[0][1]]["freq"][-1], self.off, 64 * self.slope):
        raise Ambiguous()
      if ds[0][0] < thr:
        t = self.active[ds[0][1]]
        for k, v in zip(("freq", "mag", "phase"), peaks[p]):
          t[k].append(v)
        free.remove(ds[0][1])
        taken.add(p)
        self.n_cont += 1
    ended = [self.active[i] for i in free]
    self.active = [t for i, t in enumerate(self.active) if i not in free]
    for t in reversed(ended):
      self.n_end += 1
      self.finish(t)
    for p in range(len(peaks)):
      if p in taken:
        continue
      if len(self.active) >= self.max_n:
        self.n_refused += 1
        continue
      self.active.append({
          "start_frame": self.frame,
          "freq": [peaks[p][0]],
          "mag": [peaks[p][1]],
          "phase": [peaks[p][2]],
      })
    self.frame += 1


def norm(t):
  """A track as a comparable tuple (nan as None)"""
  out = [int(t["start_frame"])]
  for k in ("freq", "mag", "phase"):
    out.append(
        tuple(None if math.isnan(v) else float(v)
              for v in np.asarray(t[k], dtype=float).reshape(-1)))
  return tuple(out)


def srt(l):
  return sorted(l, key=lambda t: repr(t))


@st.composite
def history(draw, modal=False):
  """Frames of (freq, mag, phase) made of partials with a life span"""
  n_frames = draw(st.integers(1, 24))
  partials = draw(
      st.lists(
          st.fixed_dictionaries({
              "f": fl(50, 2000),
              "drift": st.one_of(st.just(0.), fl(-15, 15)),
              "start": st.integers(0, n_frames - 1),
              "len": st.integers(1, n_frames),
              "mag": fl(-90, 0),
              "dec": fl(-4, 1) if modal else fl(-4, 4),
              "jit": st.lists(fl(-1, 1), min_size=1, max_size=4),
              "off": st.lists(st.integers(0, n_frames - 1), max_size=3),
          }),
          min_size=0 if not modal else 1,
          max_size=6))
  # Partials related to each other in frequency, to provoke competition
  for i, p in enumerate(partials):
    if i and draw(bools):
      p["f"] = partials[i - 1]["f"] + draw(fl(-40, 40))
  spurious = draw(
      st.lists(st.tuples(st.integers(0, n_frames - 1), fl(20, 2100),
                         fl(-90, 0)),
               max_size=6))
  frames = []
  for i in range(n_frames):
    fr = []
    for p in partials:
      a = i - p["start"]
      if 0 <= a < p["len"] and i not in p["off"]:
        j = p["jit"][i % len(p["jit"])]
        fr.append((abs(p["f"] + p["drift"] * a + j), p["mag"] + p["dec"] * a + j,
                   math.sin(i + a)))
    for k, f, m in spurious:
      if k == i:
        fr.append((f, m, 0.))
    fr = [(f + 1e-3 * k, m - 1e-4 * k, ph) for k, (f, m, ph) in enumerate(fr)]
    fr.sort()
    frames.append([list(p) for p in fr])
  if draw(st.integers(0, 9)) == 0:
    frames = [list(reversed(f)) for f in frames]
  return frames


@st.composite
def settings(draw):
  fs = draw(st.sampled_from([100, 8000, 44100]))
  h = draw(st.sampled_from([1, 7, 500, 441]))
  k = draw(st.one_of(st.integers(0, 4), st.integers(0, 10)))
  return {
      "fs": fs,
      "h": h,
      # strictly inside a frame, away from the rounding of the ceiling
      "min_sine_dur": (k + draw(fl(.1, .9))) * h / fs if k else 0.,
      "max_n_sines": draw(st.one_of(st.integers(1, 4), st.integers(1, 100))),
      "freq_dev_offset": draw(st.one_of(fl(0, 10), fl(0, 60))),
      "freq_dev_slope": draw(st.sampled_from([0., .001, .01, .1])),
  }


@st.composite
def steps(draw):
  """Peaks which move by exactly the threshold, or almost, and tracks which
  last exactly the minimum duration, or almost"""
  off, slope = draw(st.integers(1, 40)), draw(st.sampled_from([0., 0., .125]))
  s = {"fs": 8000, "h": draw(st.sampled_from([500, 250, 125])),
       "max_n_sines": draw(st.integers(1, 6)), "freq_dev_offset": off,
       "freq_dev_slope": slope}
  s["min_sine_dur"] = draw(st.integers(0, 8)) * s["h"] / 8000
  n = draw(st.integers(2, 16))
  frames = [[] for _ in range(n)]
  for j in range(draw(st.integers(1, 3))):
    f = 1024. * (j + 1)
    for i in range(n):
      if draw(st.integers(0, 7)) == 0:
        continue
      sign = draw(st.sampled_from([-1, 1]))
      d = draw(st.sampled_from([0, 0, 1 / 64, 1, 1, 1 - 1 / 64, 1 + 1 / 64, .5]))
      # The threshold depends on where the peak moves to
      step = off + slope * f
      if slope:
        step = round(step / (1 - sign * slope) * 64) / 64
      f = min(1024. * (j + 1) + 300,
              max(1024. * (j + 1) - 300, f + round(64 * sign * d * step) / 64))
      frames[i].append([f, -10. * j - i / 8, .125 * i])
  return {"set": s, "frames": frames, "frames2": []}


def min_len(s):
  return max(2, math.ceil(s["min_sine_dur"] * s["fs"] / s["h"]))


@st.composite
def large(draw):
  """Long histories of many partials"""
  s = draw(settings())
  s["max_n_sines"] = draw(sizes(2, 300))
  return {"set": s, "frames2": [],
          "many": [draw(sizes(20, 300)), draw(sizes(5, 200)), draw(seeds)]}


def many(n, k, seed):
  rng = np.random.default_rng(seed)
  n = min(n, 8000 // k)
  f = np.sort(rng.uniform(100, 15000, size=k))
  drift = rng.normal(size=k) * rng.choice([0, 0, .5])
  start = rng.integers(0, max(1, n // 2), size=k) * rng.integers(0, 2, size=k)
  last = np.minimum(n, start + rng.integers(1, n + 1, size=k))
  m = rng.uniform(-60, 0, size=k)
  d = rng.uniform(-.5, -.01, size=k)
  holes = rng.random(size=(n, k)) < rng.choice([0, .01, .1])
  frames = []
  for i in range(n):
    on = (start <= i) & (i < last) & ~holes[i]
    j = rng.normal(size=k)
    fr = np.stack((np.abs(f + drift * i + j), m + d * i + .1 * j,
                   rng.uniform(-3, 3, size=k)), axis=1)[on]
    frames.append(fr[np.argsort(fr[:, 0])].tolist())
  return frames


@st.composite
def cases(draw):
  return {
      "set": draw(settings()),
      "frames": draw(history()),
      "frames2": draw(st.one_of(st.just([]), history())),
  }


def drive(tr, ref, frames, ctx):
  """Run a history; True if it went to its end"""
  every = 1 if len(frames) * max(map(len, frames), default=0) < 400 else 17
  for i, fr in enumerate(frames):
    if len({m for _, m, _ in fr}) < len(fr):
      return False
    f, m, p = (np.array([v[k] for v in fr], dtype=float) for k in range(3))
    f0, m0, p0 = f.copy(), m.copy(), p.copy()
    try:
      ref.step(fr)
    except Ambiguous:
      ctx.tag("ambiguous")
      return False
    tr(f, m, p)
    require(np.array_equal(f, f0) and np.array_equal(m, m0) and
            np.array_equal(p, p0), "the peaks were modified")
    require(tr.n_active_tracks == len(ref.active),
            "frame %d: %d active tracks, expected %d", i, tr.n_active_tracks,
            len(ref.active))
    if i % every and i < len(frames) - 1:
      continue
    try:
      want = srt([norm(t) for t in ref.reported()])
      want_done = srt([norm(t) for t in ref.done])
    except Ambiguous:
      ctx.tag("ambiguous")
      return False
    for _ in range(2):  # asking changes nothing
      got = srt([norm(t) for t in tr.all_tracks_])
      require(got == want, "frame %d: reported tracks are\n%s\nexpected\n%s", i,
              got, want)
    got = srt([norm(t) for t in tr.tracks_])
    require(got == want_done,
            "frame %d: finished tracks are\n%s\nexpected\n%s", i, got,
            want_done)
  return True


def check(c, ctx):
  from sample.sms import sm
  s = c["set"]
  tr = sm.SineTracker(**s).reset()
  require(tr.min_sine_len == min_len(s), "min_sine_len is %s, expected %s",
          tr.min_sine_len, min_len(s))
  if "many" in c:
    c = {**c, "frames": many(*c["many"])}
  for frames in (c["frames"], c["frames2"]):
    ref = RefTracker(s["max_n_sines"], min_len(s), s["freq_dev_offset"],
                     s["freq_dev_slope"])
    tr.reset()
    drive(tr, ref, frames, ctx)
    # No peak is in two tracks, nor in one that was never there
    seen = set()
    for t in tr.all_tracks_:
      for j in range(len(t["freq"])):
        k = (int(t["start_frame"]) + j, float(t["freq"][j]))
        require(k not in seen, "peak %s is in two tracks", k)
        seen.add(k)
        require(any(k[1] == p[0] for p in frames[k[0]]), "unknown peak %s", k)
    if ref.n_cont:
      ctx.tag("continuation")
    if ref.n_end:
      ctx.tag("ended")
    if ref.n_refused:
      ctx.tag("refused")
    ctx.nontrivial(ref.n_cont and (ref.n_end or ref.n_refused))


SUBS = [
    Sub("tracker", cases, check, quick=2400, shards=4),
    Sub("steps", steps, check, quick=1500),
    Sub("large", large, check, quick=100, shards=2),
]
