BUGS = []
def bug(id, property, edits, needs, what, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

bug("p05-blocks", "P05", [("sample/sample.py",
"  row = functools.partial(np.reshape, newshape=(1, -1))\n",
"""  if np.ndim(x) == 1 and np.size(x) * np.size(freqs) > (1 << 16):
    # Limit memory usage
    n = np.size(x) // 2
    return np.concatenate([
        additive_synth(b, freqs, decays, amps, phases, analytic, **kwargs)
        for b in (x[:n], x[n:])
    ])
  row = functools.partial(np.reshape, newshape=(1, -1))
""")],
"random phases from a given generator (or no seed) and more than 65536 products of samples and modes",
"long sounds are synthesised in blocks, each with its own random phases",
'''
import numpy as np
from sample.sample import additive_synth
t = np.arange(50000) / 44100
kw = dict(freqs=[440., 880.], decays=[1., 1.], amps=[.5, .4])
p = np.random.default_rng(3).uniform(0, 2 * np.pi, 2)
y = additive_synth(t, phases="random", rng=np.random.default_rng(3), **kw)
assert np.allclose(y, additive_synth(t, phases=p, **kw))
''')

bug("p17-short-input", "P17", [("sample/utils/dsp.py",
"  return max(0, 1 + (input_size - wsize) // hop)\n",
"  return max(0, 1 + int((input_size - wsize) / hop))\n")],
"an input shorter than the window by less than a hop",
"one window is extracted that reads past the end of the input",
'''
import numpy as np
from sample.utils.dsp import overlapping_windows
a = np.arange(20.)[:10]
assert overlapping_windows(a, 12, 4).shape == (0, 12)
''')

bug("p09-merge-adjacent", "P09", [("sample/sms/mm.py",
"(u[\"start_frame\"] + u[\"mag\"].size) < t[\"start_frame\"]",
"(u[\"start_frame\"] + u[\"mag\"].size) <= t[\"start_frame\"]")],
"a track that ends in the frame just before a track of similar average frequency starts",
"tracks which follow one another with no gap are merged too",
'''
import numpy as np
from sample.sms.mm import ModalTracker
m = ModalTracker(fs=8000, h=100, min_sine_dur=0.01, freq_dev_offset=20, freq_dev_slope=0).reset()
z = np.zeros(0)
# A track that drifts upwards and one that starts at its average right after
for f in (500., 515., 530., 545., 522., 522., 522., 522.):
  m(np.array([f]), np.array([-20.]), np.array([0.]))
assert len(m._active_tracks) == 1 and len(m.tracks_) == 1
m(z, z, z)
assert len(m.tracks_) == 2, len(m.tracks_)
''')

bug("p03-window-identity", "P03", [("sample/sms/sm.py",
"    self.w_ = self._normalized_window\n",
"""    if getattr(self, "_last_w", None) is not self.w:
      self.w_ = self._normalized_window
      self._last_w = self.w
""")],
"the window array is modified in place between two fits",
"the normalized window of the previous fit is used",
'''
import numpy as np
from sample.sms.sm import SinusoidalModel
fs = 8000
x = np.cos(2 * np.pi * 500 * np.arange(fs // 2) / fs)
w = np.hanning(255)
a = SinusoidalModel(w=w, n=512, tracker__fs=fs, tracker__h=64).fit(x)
w[:] = np.hamming(255)
a.fit(x)
b = SinusoidalModel(w=np.hamming(255), n=512, tracker__fs=fs, tracker__h=64).fit(x)
assert np.array_equal(a.tracks_[0]["mag"], b.tracks_[0]["mag"])
''')

bug("p24-reference-cache", "P24", [("sample/evaluation/metrics.py",
"    return self.lp_distance(self.cochleagram(x), self.cochleagram(y))\n",
"""    # The reference usually stays the same
    if getattr(self, "_x", None) is not x:
      self._x, self._cx = x, self.cochleagram(x)
    return self.lp_distance(self._cx, self.cochleagram(y))
""")],
"the same loss object is called with an array whose contents were changed in place",
"the cochleagram of the old contents is used as the reference",
'''
import numpy as np
from sample.evaluation.metrics import CochleagramLoss
rng = np.random.default_rng(0)
l = CochleagramLoss(fs=8000, n_filters=4, flim=(200, 2000))
x, y = rng.normal(size=(2, 500))
l(x, y)
x[:] = y
assert l(x, y) == 0
''')

bug("p22-bank-cache", "P22", [("sample/psycho.py",
"    return GammatoneFilterbank.PrecomputedIRBank(parent=self,\n                                                 fs=fs,\n                                                 analytic=analytic)\n",
"""    if fs not in vars(self).setdefault("_banks", {}):
      self._banks[fs] = GammatoneFilterbank.PrecomputedIRBank(
          parent=self, fs=fs, analytic=analytic)
    return self._banks[fs]
""")],
"a filterbank that is used both for analytic and for real cochleagrams at the same sample rate",
"the impulse responses of the first use are used for the second",
'''
import numpy as np
from sample import psycho
rng = np.random.default_rng(0)
x = rng.normal(size=300)
b = psycho.GammatoneFilterbank(n_filters=4, flim=(200, 2000))
a = b.convolve(x, 8000, analytic="ir")
r = b.convolve(x, 8000)
r_ = psycho.GammatoneFilterbank(n_filters=4, flim=(200, 2000)).convolve(x, 8000)
assert not np.iscomplexobj(r) and np.allclose(r, r_)
''')

bug("p18-onset-overflow", "P18", [("sample/utils/dsp.py",
"  ons_idx = np.flatnonzero(ons_subs)\n",
"  ons_idx = np.flatnonzero(ons_subs).astype(np.int32)\n")],
"more than about half a minute of audio, and an onset which is not close to the beginning",
"the product of the indices and the size overflows",
'''
import numpy as np
from sample.utils.dsp import onset_detection
x = np.zeros(1 << 22)
f = np.zeros(2048)
f[1500] = 1
ons = np.flatnonzero(onset_detection(x, detection_fn=lambda _: f))
assert list(ons) == [1500 * (1 << 22) // 2048], ons
''')

bug("p36-odd-window", "P36", [("sample/sample.py",
"      time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs\n",
"      time_axis += (self.sinusoidal.w.size // 2) / self.sinusoidal.fs\n")],
"a window with an odd number of samples, without padding",
"the times of the frames are half a sample early",
'''
import numpy as np
import sample
from sklearn import base
seen = []
class Line(base.BaseEstimator):
  def fit(self, x, y):
    seen.append(np.array(x).reshape(-1))
    self.k_, self.q_ = np.polyfit(np.reshape(x, -1), y, 1)
    return self
fs = 8000
t = np.arange(fs) / fs
x = np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .8)
sample.SAMPLE(sinusoidal__n=512, sinusoidal__w=np.hanning(255), sinusoidal__tracker__h=64,
              sinusoidal__tracker__fs=fs, regressor=Line()).fit(x)
assert any(abs(s[0] * fs - 127.5) < 1e-6 for s in seen), seen[0][0] * fs
''')

bug("p08-loudest-only", "P08", [("sample/sms/sm.py",
"    peak_order = np.argsort(-pmag)  # decreasing order of magnitude\n",
"    # decreasing order of magnitude\n    peak_order = np.argsort(-pmag)[:self.max_n_sines]\n")],
"a frame with more peaks than the maximum number of tracks, where a quiet one continues a track",
"only the loudest peaks can continue a track",
'''
import numpy as np
from sample.sms.sm import SineTracker
m = SineTracker(fs=8000, h=100, max_n_sines=1, min_sine_dur=.01).reset()
z = lambda *a: np.array(a, dtype=float)
m(z(500), z(-40), z(0))
m(z(500, 1500), z(-40, -10), z(0, 0))
m(z(500, 1500), z(-40, -10), z(0, 0))
assert [len(t["freq"]) for t in m._active_tracks] == [3] and m._active_tracks[0]["freq"][0] == 500
''')

bug("p04-pool-failure", "P04", [("sample/_training.py",
"  return (r.get() for r in results)\n",
"  return (r.get() for r in results if r.successful())\n")],
"a task that fails in a worker process",
"tracks whose analysis failed are silently left out, instead of raising the exception",
'''
import multiprocessing as mp
import numpy as np
import sample

def bad(f):
  raise RuntimeError("bad track")

if __name__ == "__main__":
  fs = 8000
  t = np.arange(fs) / fs
  x = np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .8)
  m = sample.SAMPLE(sinusoidal__n=512, sinusoidal__w=np.hanning(255), sinusoidal__tracker__h=64,
                    sinusoidal__tracker__fs=fs, freq_reduce=bad)
  try:
    m.fit(x, n_jobs=2)
  except RuntimeError:
    pass
  else:
    raise AssertionError("no failure")
''')

bug("p25-frozen-band", "P25", [
("sample/evaluation/random.py",
"    self.f_min = f_min\n    self.f_max = f_max\n",
"    self.f_min = f_min\n    self.f_max = f_max\n    self._f_bark = psycho.hz2bark(f_min), psycho.hz2bark(f_max)\n"),
("sample/evaluation/random.py", "left=psycho.hz2bark(self.f_min) - min(", "left=self._f_bark[0] - min("),
("sample/evaluation/random.py", "right=psycho.hz2bark(self.f_max) - max(", "right=self._f_bark[1] - max("),
],
"the frequency limits are changed after the generator was made",
"frequencies are drawn from the old band",
'''
import numpy as np
from sample.evaluation.random import BeatsGenerator
g = BeatsGenerator(seed=0)
g.f_min, g.f_max = 3000., 5000.
for _ in range(50):
  f = np.array(g.freqs())
  assert f.min() > 1500, f
''')

bug("p12-backwards", "P12", [("sample/beatsdrop/__init__.py",
"    if isinstance(output, str):\n      return self.compute(t, output=[output])[0]\n",
"""    if isinstance(output, str):
      return self.compute(t, output=[output])[0]
    if np.ndim(t) == 1 and np.size(t) > 1 and t[0] > t[-1]:
      # Integrate forwards
      return [
          v[::-1] if np.ndim(v) else v
          for v in self.compute(t[::-1], output)
      ]
""")],
"a time axis which decreases (as in reversed analyses), with beats of different amplitudes",
"the phase is integrated from the other end of the time axis, so it does not start from the phase of the sum",
'''
import numpy as np
from sample.beatsdrop import ModalBeat
b = ModalBeat(1., .5, 10., 11., 1., 2., .1, .2)
t = np.linspace(1, 0, 101)
pm = b.pm(t)
z = np.exp(-2 * t) * np.exp(1j * (2 * np.pi * 10 * t + .1)) + .5 * np.exp(-t) * np.exp(1j * (2 * np.pi * 11 * t + .2))
assert abs(np.exp(1j * pm[0]) - z[0] / abs(z[0])) < 1e-9
''')

bug("p15-db-floor-array", "P15", [("sample/utils/dsp.py",
"  if floor is None:\n    return a2db.floorless(a, out=out)\n",
"  if floor is None or not np.any(floor):\n    return a2db.floorless(a, out=out)\n")],
"a floor of 0 dB (with `floor_db`)",
"a floor of 0 dB is not applied",
'''
from sample.utils.dsp import a2db
assert a2db(.1, floor=0, floor_db=True) == 0
''')

bug("p23-log-bins", "P23", [("sample/psycho.py",
"    flim = freq_transform[1](np.linspace(freq_transform[0](flim[0]),\n                                         freq_transform[0](flim[-1]),\n                                         n_filters + 2))\n",
"    lo, hi = map(freq_transform[0], (flim[0], flim[-1]))\n    flim = freq_transform[1](np.arange(lo, hi, (hi - lo) / (n_filters + 1)))\n    flim = np.append(flim, freq_transform[1](hi))\n")],
"limits for which the step of the scale is rounded down",
"one more corner than needed is computed, and the centre frequencies are not those of the filters",
'''
import numpy as np
from sample import psycho
f = np.linspace(0, 4000, 257)
for n in range(1, 60):
  m, c = psycho.mel_triangular_filterbank(f, n_filters=n, flim=(100, 3000))
  assert len(c) == n, (n, len(c))
''')

bug("p19-odd-nfft", "P19", [("sample/utils/dsp.py",
"  n = nfft // 2 + 1\n  ls = np.zeros(n)\n",
"  n = (nfft + 1) // 2 + 1\n  ls = np.zeros(n)\n")],
"an odd FFT size",
"a bin above the Nyquist frequency is computed",
'''
import numpy as np
from sample.utils.dsp import lombscargle_as_fft
t = np.arange(64.)
ls, f = lombscargle_as_fft(t, np.cos(t), nfft=33, fs=1)
assert len(f) == 17 and f[-1] <= .5
''')

bug("p20-mel-array", "P20", [("sample/psycho.py", "XX", "XX")], "", "", "")
BUGS.pop()

bug("p27-keep-on-none", "P27", [("sample/utils/learn.py",
"      v = self._default_fn(parent)\n",
"      v = getattr(parent, self._attr_name, None)\n      if v is None:\n        v = self._default_fn(parent)\n")],
"a member that was given a value is set to None afterwards",
"setting a member to None keeps its current value, instead of the default one",
"""
import numpy as np
import sample
m = sample.SAMPLE(sinusoidal__n=512)
m.set_params(sinusoidal=None)
assert m.sinusoidal.n == 2048, m.sinusoidal.n
""")
