"""P09: modal tracks are filtered, merged and stripped as specified"""
import math

import numpy as np
from core import Sub, raises, require
from gens import bools, fl, opt, seeds, sizes, st

from props import p08
from props.p08 import Ambiguous

PROPERTY = "P09"
RULE = (
    "A case is a modal tracker configuration (bounds, thresholds, merge "
    "strategy, strip time, direction) and one or two histories of up to 24 "
    "frames (steady: with values exactly on the limits; large: up to 60 "
    "partials and 300 frames), run in lockstep with a reference tracker that implements the "
    "acceptance, merging and stripping rules; compared after every frame. "
    "Histories stop where a decision is within rounding. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at "
    "least one merge, rejection by a modal rule, or stripped track.")


class RefModal(p08.RefTracker):

  def __init__(self, s, frame_rate):
    super().__init__(s["max_n_sines"], p08.min_len(s), s["freq_dev_offset"],
                     s["freq_dev_slope"])
    self.s = s
    self.rate = frame_rate
    self.n_merge = self.n_rej = self.n_strip = 0

  def ok(self, t):
    if len(t["freq"]) < self.min_len:
      return False
    n = len(t["freq"])
    mf = math.fsum(t["freq"]) / n
    lo, hi = self.s["frequency_bounds"]
    steady = all(len(set(t[k])) == 1 and p08.exact(t[k][0])
                 for k in ("freq", "mag"))
    for b in (lo, hi):
      if b is not None and abs(mf - b) < 1e-7 and not steady:
        raise Ambiguous()
    res = not ((lo is not None and mf < lo) or (hi is not None and mf > hi))
    x = list(range(n))
    if self.s["reverse"]:
      x.reverse()
    xm, ym = sum(x) / n, math.fsum(t["mag"]) / n
    k = math.fsum((a - xm) * (b - ym) for a, b in zip(x, t["mag"])) / sum(
        (a - xm)**2 for a in x)
    q = ym - k * xm
    if res and not steady and (abs(k) < 1e-9 or
                (k <= 0 and abs(q - self.s["peak_threshold"]) < 1e-7)):
      raise Ambiguous()
    res = res and k <= 0 and q >= self.s["peak_threshold"]
    if not res:
      self.n_rej += 1
    return res

  def diff(self, u, t):
    if self.s["merge_strategy"] == "single":
      return abs(u["freq"][-1] - t["freq"][0])
    m = [[f for f in v["freq"] if not math.isnan(f)] for v in (u, t)]
    return abs(math.fsum(m[0]) / len(m[0]) - math.fsum(m[1]) / len(m[1]))

  def finish(self, t):
    if not self.ok(t):
      return
    cand = [
        (self.diff(u, t), i)
        for i, u in enumerate(self.done)
        if u["start_frame"] + len(u["mag"]) < t["start_frame"]
    ]
    cand.sort()
    thr = self.off + self.slope * t["freq"][0]
    if cand:
      if len(cand) > 1 and cand[1][0] - cand[0][0] < 1e-7:
        raise Ambiguous()
      u = self.done[cand[0][1]]
      if abs(cand[0][0] - thr) < 1e-7 and not (
          self.s["merge_strategy"] == "single" and
          p08.exact(u["freq"][-1], t["freq"][0], self.off, 64 * self.slope)):
        raise Ambiguous()
    if cand and cand[0][0] < thr:
      u = self.done[cand[0][1]]
      gap = t["start_frame"] - u["start_frame"] - len(u["mag"])
      for k in ("freq", "mag", "phase"):
        u[k] = u[k] + [math.nan] * gap + t[k]
      self.n_merge += 1
    else:
      self.done.append(t)

  def strip_ok(self, t):
    st_ = self.s["strip_t"]
    if st_ is None:
      return True
    o = t["start_frame"]
    if self.s["reverse"]:
      o = self.frame - (o + len(t["mag"]))
    r = o <= math.ceil(st_ * self.rate)
    if not r:
      self.n_strip += 1
    return r


@st.composite
def settings(draw):
  s = draw(p08.settings())
  s["min_sine_dur"] = draw(st.one_of(st.just(0.), st.just(s["min_sine_dur"])))
  k = draw(st.integers(0, 12))
  s.update({
      "frequency_bounds": [
          draw(st.sampled_from([None, 20, 300., 1000.])),
          draw(st.sampled_from([None, 16000, 1500., 500.]))
      ],
      "peak_threshold": draw(st.sampled_from([-90, -1000., -60., -40.])),
      "reverse": draw(bools),
      "merge_strategy": draw(st.sampled_from(["single", "average"])),
      "strip_t": draw(opt(st.just((k + draw(fl(.1, .9))) * s["h"] / s["fs"]))),
  })
  return s


@st.composite
def histories(draw):
  h = draw(p08.history(modal=True))
  if draw(bools) and len(h) > 6:
    # silence some frames, so that tracks break and can be merged
    for i in draw(st.lists(st.integers(1, len(h) - 2), min_size=1,
                           max_size=4)):
      h[i] = []
  if draw(bools):
    h = list(reversed(h))
  return h


@st.composite
def broken(draw):
  """Decaying partials interrupted by silences, mild settings"""
  s = draw(settings())
  s["min_sine_dur"] = 0.
  s["frequency_bounds"] = [None, draw(st.sampled_from([None, 16000]))]
  s["peak_threshold"] = -1000.
  s["max_n_sines"] = draw(st.integers(2, 10))
  n = draw(st.integers(7, 24))
  parts = draw(
      st.lists(st.tuples(fl(100, 1500), fl(-30, 0), fl(-3, -.1), fl(-3, 3)),
               min_size=1, max_size=4))
  gaps = draw(st.lists(st.integers(2, n - 3), min_size=1, max_size=6))
  frames = []
  for i in range(n):
    fr = []
    for j, (f, m, d, dr) in enumerate(parts):
      hole = i in gaps if j % 2 == 0 else (i + j) in gaps
      if not hole:
        fr.append([f + dr * i + .01 * j, m + d * i - 1e-4 * j, .1 * i])
    fr.sort()
    frames.append(fr)
  if s["reverse"]:
    frames.reverse()
  return {"set": s, "frames": frames, "frames2": [], "bad": None}


@st.composite
def jumps(draw):
  """A partial which stops and begins again at another frequency"""
  s = draw(settings())
  s.update(min_sine_dur=0., frequency_bounds=[None, None],
           peak_threshold=-1000., strip_t=None, max_n_sines=4,
           freq_dev_slope=draw(st.one_of(fl(0, .4), st.just(0.))),
           freq_dev_offset=draw(fl(0, 30)))
  f, frames = draw(fl(100, 1500)), []
  m = 0.
  for i in range(draw(st.integers(2, 5))):
    if i:
      # Near the threshold at either frequency, or at that of the first
      thr = s["freq_dev_offset"] + s["freq_dev_slope"] * f
      sign = draw(st.sampled_from([-1, 1]))
      k = draw(st.one_of(st.sampled_from([1, 1 / abs(
          1 - sign * s["freq_dev_slope"])]), fl(0, 2)))
      f = max(20., f + sign * thr * k * draw(fl(.9, 1.1)))
      frames += [[]] * draw(st.integers(1, 4))
    for _ in range(draw(st.integers(2, 4))):
      d = draw(fl(-1, 1)) * min(1, s["freq_dev_offset"] / 4)
      m -= draw(fl(.1, 2))
      frames.append([[f + d, m, 0.]])
  if s["reverse"]:
    frames.reverse()
  return {"set": s, "frames": frames, "frames2": [], "bad": None}


@st.composite
def steady(draw):
  """Constant partials, exactly on the limits or almost, at times which are
  a whole number of frames"""
  near = st.sampled_from([0, 0, 0, 1 / 64, -1 / 64])
  f, m = draw(st.integers(50, 4000)) / 2, draw(st.integers(-160, 20)) / 2
  h = draw(st.sampled_from([500, 250, 125]))
  fr = h / 8000
  s = {"fs": 8000, "h": h, "max_n_sines": draw(st.integers(1, 4)),
       "freq_dev_offset": draw(st.integers(1, 40)),
       "freq_dev_slope": draw(st.sampled_from([0., .125])),
       "min_sine_dur": draw(st.integers(0, 5)) * fr,
       "frequency_bounds": [draw(opt(near.map(lambda d: f + d))),
                            draw(opt(near.map(lambda d: f + d)))],
       "peak_threshold": m + draw(near), "reverse": draw(bools),
       "merge_strategy": draw(st.sampled_from(["single", "average"])),
       "strip_t": draw(opt(st.integers(0, 9).map(lambda i: i * fr)))}
  frames = []
  g = f
  for _ in range(draw(st.integers(1, 3))):
    frames += [[]] * draw(st.integers(0, 4))
    frames += [[[g, m, .5]]] * draw(st.integers(1, 7))
    if draw(bools):
      g += draw(st.sampled_from([-1, 1])) * (
          s["freq_dev_offset"] + draw(near))
  frames += [[]] * draw(st.integers(0, 5))
  return {"set": s, "frames": frames, "frames2": [], "bad": None}


@st.composite
def large(draw):
  """Long histories of many partials"""
  s = draw(settings())
  s.update(max_n_sines=draw(sizes(2, 300)), peak_threshold=-1000.)
  s["min_sine_dur"] = min(s["min_sine_dur"], 3.5 * s["h"] / s["fs"])
  if s["strip_t"]:
    s["strip_t"] *= draw(sizes(1, 20))
  return {"set": s, "frames2": [], "bad": None,
          "many": [draw(sizes(20, 300)), draw(sizes(5, 60)), draw(seeds)]}


@st.composite
def cases(draw):
  kind = draw(st.integers(0, 3))
  if kind == 0:
    return draw(jumps())
  if kind == 1:
    return draw(broken())
  return {
      "set": draw(settings()),
      "frames": draw(histories()),
      "frames2": draw(st.one_of(st.just([]), histories())),
      "bad": draw(st.sampled_from([None, None, None, "mean", "", "Single"])),
  }


def check(c, ctx):
  from sample.sms import mm
  s = dict(c["set"])
  s["frequency_bounds"] = tuple(s["frequency_bounds"])
  tr = mm.ModalTracker(**s).reset()
  rate = s["fs"] / s["h"]
  if "many" in c:
    c = {**c, "frames": p08.many(*c["many"])}
    if s["reverse"]:
      c["frames"].reverse()
  for frames in (c["frames"], c["frames2"]):
    ref = RefModal(s, rate)
    tr.reset()
    p08.drive(tr, ref, frames, ctx)
    for k, n in (("merge", ref.n_merge), ("rejected", ref.n_rej),
                 ("stripped", ref.n_strip)):
      if n:
        ctx.tag(k)
        ctx.nontrivial()
    if ref.n_merge and s["reverse"]:
      ctx.tag("reverse merge")
  if c["bad"] is not None:
    # An unsupported strategy is refused when it is needed
    tr = mm.ModalTracker(merge_strategy=c["bad"], min_sine_dur=0).reset()
    one = lambda f, m: [np.array([v], dtype=float) for v in (f, m, 0)]
    for i in range(3):
      tr(*one(440, -20 - i))
    e = raises(KeyError, tr, *[np.array([])] * 3,
               what="unsupported merge strategy")
    for k in ("single", "average"):
      require(f"'{k}'" in str(e), "the error does not name '%s': %s", k, e)


SUBS = [
    Sub("modal_tracker", cases, check, quick=3000, shards=5),
    Sub("steady", steady, check, quick=800),
    Sub("large", large, check, quick=100, shards=2),
]
