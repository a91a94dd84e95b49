"""Shared strategies"""
import core

core.bootstrap()
from hypothesis import strategies as st  # noqa


def fl(lo, hi, **kw):
  return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                   allow_subnormal=False, **kw)


def logfl(lo, hi):
  """Floats spread evenly on a log scale"""
  import math
  return fl(math.log10(lo), math.log10(hi)).map(
      lambda e: min(hi, max(lo, 10.0**e)))


def opt(s):
  return st.one_of(st.none(), s)


def weighted(*pairs):
  """Choose among strategies with integer weights"""
  l = []
  for w, s in pairs:
    l.extend([s] * w)
  return st.sampled_from(range(len(l))).flatmap(lambda i: l[i])


seeds = st.integers(0, 2**32 - 1)
bools = st.booleans()


def sizes(lo, hi):
  """Integers spread evenly on a log scale, often close to round numbers"""
  near = [b + d for e in range(1, 25) for b in (2**e, 10**e, 5 * 10**e)
          for d in (-1, 0, 1) if lo <= b + d <= hi]
  s = logfl(lo, hi).map(round)
  return st.one_of(s, st.sampled_from(sorted(set(near)))) if near else s
