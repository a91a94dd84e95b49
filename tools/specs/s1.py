BUGS = []
def bug(id, property, edits, needs, what, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

bug("p01-time-origin-fft", "P01", [("sample/sample.py",
"      time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs",
"      time_axis += 0.5 * self.sinusoidal.n / self.sinusoidal.fs")],
"an unpadded analysis with an FFT much longer than its window",
"the frames are centred on half the FFT, not on half the window, so amplitudes are overestimated",
'''
import numpy as np
from sample import SAMPLE
fs = 44100
t = np.arange(fs) / fs
x = 0.5 * np.exp(-2 * t / 0.3) * np.cos(2 * np.pi * 1000 * t)
m = SAMPLE(sinusoidal__w=np.hanning(1024), sinusoidal__n=8192,
           sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=256).fit(x)
i = np.argmax(m.energies_)
assert abs(m.amps_[i] / 0.5 - 1) < 0.1, m.amps_
''')

bug("p02-floor-db", "P02", [("sample/sms/dsp.py",
"  ax = np.maximum(ax, np.finfo(float).eps, out=ax)  # avoid zeros in log\n  mx = dsp_utils.a2db.floorless(ax)",
"  # avoid zeros in log\n  mx = dsp_utils.a2db(ax, floor=-160, floor_db=True)")],
"a very quiet recording, analysed with accordingly low thresholds",
"spectra are floored at -160 dB, so partials of a sound scaled down by a power of two are lost",
'''
import numpy as np
from sample import SAMPLE
fs = 22050
t = np.arange(fs) / fs
x = 0.5 * np.exp(-2 * t / 0.5) * np.cos(2 * np.pi * 1000 * t)
def fit(x, db):
  return SAMPLE(sinusoidal__w=np.hanning(1025), sinusoidal__n=2048,
                sinusoidal__t=-90 + db, sinusoidal__tracker__fs=fs,
                sinusoidal__tracker__h=256,
                sinusoidal__tracker__peak_threshold=-90 + db).fit(x)
g = 2.0**-22
a = fit(x, 0)
b = fit(x * g, 20 * np.log10(g))
assert a.freqs_.shape == b.freqs_.shape, (a.freqs_, b.freqs_)
assert np.allclose(a.decays_, b.decays_, rtol=1e-6), (a.decays_, b.decays_)
assert np.allclose(a.amps_ * g, b.amps_, rtol=1e-6)
''')

bug("p03-reset-only-when-on", "P03", [("sample/utils/learn.py",
'''    """Reset memory"""
    if hasattr(self, "cache_"):''',
'''    """Reset memory"""
    if self.save and hasattr(self, "cache_"):''')],
"a fit with storage on, then the storage turned off, then a second fit",
"the storage still holds the spectra of the first fit after the second one",
'''
import numpy as np
from sample.sms.mm import ModalModel
x = np.random.default_rng(0).normal(size=6000)
m = ModalModel(intermediate__save=True, w=np.hanning(512), n=512)
m.fit(x)
m.fit(x[:4000], intermediate__save=False)
assert not m.intermediate.get_state(), list(m.intermediate.get_state())
''')

bug("p04-results-as-completed", "P04", [("sample/_training.py",
'''  not_ready = results.copy()
  while not_ready:
    fit_args.progress_update(len(results) - len(not_ready))
    if refresh_time:
      not_ready[0].wait(refresh_time)
    not_ready = [r for r in not_ready if not r.ready()]
  return (r.get() for r in results)
''',
'''  not_ready = results
  ready = []
  while not_ready:
    fit_args.progress_update(len(ready))
    if refresh_time:
      not_ready[0].wait(refresh_time)
    waiting = []
    for r in not_ready:
      (ready if r.ready() else waiting).append(r)
    not_ready = waiting
  return (r.get() for r in ready)
''')],
"parallel fit where a later track finishes before an earlier one (between two polls)",
"results are collected in completion order, so modes come out in a different order than in the serial fit",
'''
import multiprocessing as mp
import time
import numpy as np
from sample import SAMPLE

class Slow:
  """Takes longer for lower tracks"""
  def __call__(self, f):
    m = np.mean(f)
    if m < 1000:
      time.sleep(1)
    return m

fs = 22050
t = np.arange(fs) / fs
x = sum(0.3 * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t)
        for f, d in ((500, 0.05), (2000, 0.2), (4000, 0.3)))
kw = dict(sinusoidal__w=np.hanning(1025), sinusoidal__n=2048,
          sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=256,
          sinusoidal__t=-70, sinusoidal__tracker__peak_threshold=-40)
if __name__ == "__main__":
  a = SAMPLE(**kw).fit(x).freqs_
  b = SAMPLE(freq_reduce=Slow(), **kw).fit(x, n_jobs=3).freqs_
  assert a.size >= 3 and np.array_equal(a, b), (a, b)
''')

bug("p05-zero-modes", "P05", [("sample/sample.py",
'''    if n_modes is None:
      if self.max_n_modes is None:
        n_modes = self.freqs_.size
      else:
        n_modes = self.max_n_modes
''',
'''    n_modes = n_modes or self.max_n_modes or self.freqs_.size
''')],
"asking for zero modes",
"predict(t, n_modes=0) resynthesizes all modes instead of silence",
'''
import numpy as np
from sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200.], [1., 2.], [0.5, 0.25]])
t = np.arange(100) / 1000
assert not np.any(m.predict(t, n_modes=0))
assert np.any(m.predict(t))
''')

bug("p06-energy-cache", "P06", [("sample/sample.py",
'''    """Learned modal energies"""
    return modal_energy(self.amps_, self.decays_)
''',
'''    """Learned modal energies"""
    key, energies = getattr(self, "_energies", (None, None))
    if key is not self.param_matrix_:
      energies = modal_energy(self.amps_, self.decays_)
      self._energies = self.param_matrix_, energies
    return energies
''')],
"reading the energies, then editing the amplitudes in place, then exporting",
"energies are cached per matrix, so editing the parameters in place does not change the mode order",
'''
import numpy as np
from sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200.], [1., 2.], [0.5, 0.25]])
assert m.sdt_params_()["freqs"] == [100., 200.]
m.amps_ = np.array([0.1, 0.9])
assert m.sdt_params_()["freqs"] == [200., 100.]
''')

bug("p07-odd-window-phase", "P07", [("sample/sms/dsp.py",
"  hw = w.size // 2\n", "  hw = (w.size + 1) // 2\n")],
"a window of odd size, and looking at the phase",
"the frame is rotated by one sample too many, so the phase spectrum has a linear error",
'''
import numpy as np
from sample.sms import dsp
n = 64
w = np.hanning(33)
w /= w.sum()
# A cosine with phase zero in the middle of the window
x = np.cos(2 * np.pi * 8 * (np.arange(33) - 16) / n)
mx, px = dsp.dft(x, w, n)
assert abs(np.angle(np.exp(1j * px[8]))) < 1e-6, px[8]
''')

bug("p08-room-before-release", "P08", [("sample/sms/sm.py",
'''    # Deactivate non-continued tracks
    for t_i in filter(''',
'''    # Number of tracks that can be activated
    room = max(0, self.max_n_sines - self.n_active_tracks)

    # Deactivate non-continued tracks
    for t_i in filter('''),
("sample/sms/sm.py",
'''    for p_i in filter(free_peak.__getitem__, range(pmag.size)):
      if self.n_active_tracks >= self.max_n_sines:
        break
''',
'''    for p_i in itertools.islice(
        filter(free_peak.__getitem__, range(pmag.size)), room):
''')],
"a frame, when the tracker is at its maximum number of tracks, in which a track ends and another begins",
"the slot of a track that ends is not available to new tracks until the next frame",
'''
import numpy as np
from sample.sms.sm import SineTracker
t = SineTracker(max_n_sines=1, min_sine_dur=0).reset()
def frame(f):
  t(np.array([f]), np.array([0.]), np.array([0.]))
for f in (100., 100., 5000., 5000.):
  frame(f)
tr = list(t.all_tracks_)
assert [int(u["start_frame"]) for u in tr] == [0, 2], tr
assert [u["freq"].size for u in tr] == [2, 2], tr
''')

bug("p09-merged-onset", "P09", [("sample/sms/mm.py",
'''        o = self._frame - (o + t["mag"].size)
''',
'''        o = self._frame - (o + np.count_nonzero(np.isfinite(t["mag"])))
''')],
"reversed analysis with a strip time, and a track that was merged across a gap",
"the gap is not counted in the length of a merged track, so its onset is taken to be later than it is and it is stripped",
'''
import numpy as np
from sample.sms.mm import ModalTracker
t = ModalTracker(fs=1000, h=10, reverse=True, min_sine_dur=0.02, strip_t=0.02).reset()
none = np.array([])
def frame(*m):
  t(np.full(len(m), 100.), np.array(m, dtype=float), np.zeros(len(m)))
mag = iter(np.linspace(-40, 0, 40))
for i in range(10):
  frame(next(mag))
for i in range(6):
  frame()
for i in range(10):
  frame(next(mag))
tr = list(t.all_tracks_)
# (onsets are decided on the tracks that have been merged when deactivated)
frame()
tr = list(t.all_tracks_)
assert len(tr) == 1 and tr[0]["mag"].size == 26, tr
''')

bug("p10-pad-single", "P10", [("sample/sms/sm.py",
"    y = np.zeros(x.size + a + b)\n",
"    y = np.zeros(x.size + a + b, dtype=np.float32)\n")],
"padded analysis, looking at more than 24 bits",
"the padded input is a single-precision copy: what is analysed is not the input (signals below 1e-38 vanish)",
'''
import numpy as np
from sample.sms.sm import SinusoidalModel
m = SinusoidalModel(w=np.ones(8), n=8, tracker__h=4, padded=True)
x = np.random.default_rng(0).normal(size=32)
f = np.array(m.time_frames(x))
y = np.concatenate([np.zeros(4), x, np.zeros(4)])
assert np.array_equal(f, [y[i:i + 8] for i in range(0, y.size - 7, 4)])
''')

bug("p11-bounds-from-init", "P11", [("sample/hinge.py",
'''                                          bounds=self.bounds(
                                              x, y, lin_k, lin_q),
''',
'''                                          bounds=self.bounds(
                                              x, y, *self.coeffs_[1:]),
''')],
"a custom initializer of the coefficients whose slope or intercept differs from the linear estimate",
"the bounds are computed from the starting point rather than from the linear regression",
'''
import numpy as np
from sample.hinge import HingeRegression
seen = []
def bounds(x, y, k, q):
  seen.append((float(k), float(q)))
  return ((-10, -10, -10), (20, 10, 10))
x = np.linspace(0, 1, 20)
y = 2 - 3 * x
HingeRegression(coeffs_init=lambda x, y, k, q: (0.5, k / 2, q + 1),
                bounds=bounds).fit(x.reshape(-1, 1), y)
assert np.allclose(seen, [(-3, 2)]), seen
''')

bug("p12-eps-fm", "P12", [("sample/beatsdrop/__init__.py",
'''    self._graph["fm_from_am"] = np2pg.true_divide.op(g, self._graph["alpha2"])

    f = np2pg.add.op(f, g)
    f = np2pg.true_divide.op(f, self._graph["alpha2"])
''',
'''    # Avoid dividing by zero
    alpha2 = np2pg.add.op(self._graph["alpha2"], np.finfo(float).eps)
    self._graph["fm_from_am"] = np2pg.true_divide.op(g, alpha2)
    f = np2pg.add.op(f, g)
    f = np2pg.true_divide.op(f, alpha2)
''')],
"partials of small amplitude (or late in their decay)",
"the frequency modulation is pulled towards the mean of the two frequencies for small amplitudes, and the signal with it",
'''
import numpy as np
from sample.beatsdrop import Beat
t = np.arange(2000) / 1000
ref = Beat(a0=1.0, a1=0.5, f0=10, f1=12).fm(t)
fm = Beat(a0=1e-7, a1=0.5e-7, f0=10, f1=12).fm(t)
assert np.allclose(ref, fm, rtol=1e-6), np.max(np.abs(ref - fm))
''')

bug("p13-stale-beat", "P13", [("sample/beatsdrop/regression.py",
'''      self.params_ = min(hypoteses, key=_ssr)
      self.beat_ = beatsdrop.ModalBeat(*self.params_)
    return self
''',
'''      self.params_ = min(hypoteses, key=_ssr)
    return self
''')],
"a fit where the disambiguation swaps the frequencies",
"the predicted beat is the one before disambiguation, not the one of the reported parameters",
'''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import DualBeatRegression
t = np.arange(200) / 100
p = (1.0, 0.4, 102.0, 100.0, 0.8, 0.8, 0.0, 0.0)
b = ModalBeat(*p)
a, f = b.compute(t, ("am", "fm"))
q = (1.0, 0.4, 100.0, 102.0, 0.8, 0.8, 0.0, 0.0)
r = DualBeatRegression(params_init=lambda *_: q,
                       bounds=lambda t, a, f, p, m: ([v - 1e-3 for v in p], [v + 1e-3 for v in p]))
r.fit(t, 20 * np.log10(a), f / (2 * np.pi))
assert r.params_[2] > r.params_[3], r.params_
assert np.allclose(r.predict(t, "fm")[0], ModalBeat(*r.params_).fm(t))
''')

bug("p14-decision-order", "P14", [("sample/beatsdrop/decision.py",
'''                                                  params=params),
                                 index=i)
''',
'''                                                  params=params))
''')],
"parallel fit with stored decisions, where a later track is decided before an earlier one",
"decisions are stored in the order they are taken, not per track",
'''
import time
import numpy as np
from sample.beatsdrop.decision import BeatDecisor
from sample.beatsdrop.sample import SAMPLEBeatsDROP

class Decisor(BeatDecisor):
  def decide_beat(self, i, t, track, beatsdrop, params):
    if i == 0:
      time.sleep(2)
    return i != 0

class NoFit:
  def get_params(self, deep=True): return {}
  def set_params(self, **kw): return self
  def fit(self, **kw): self.params_ = (0.1, 0.1, 100., 101., 1., 1., 0., 0.); return self

fs = 22050
t = np.arange(fs) / fs
x = sum(0.3 * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t)
        for f, d in ((500, 0.1), (2000, 0.2), (4000, 0.3)))
if __name__ == "__main__":
  m = SAMPLEBeatsDROP(sinusoidal__w=np.hanning(1025), sinusoidal__n=2048,
          sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=256,
          sinusoidal__t=-70, sinusoidal__tracker__peak_threshold=-40,
          beatsdrop=NoFit(), beat_decisor=Decisor(), beat_decisor__intermediate__save=True)
  m.fit(x, n_jobs=3)
  d = m.beat_decisor.intermediate["decision"]
  assert len(d) > 2 and list(d) == [i != 0 for i in range(len(d))], d
''')

bug("p15-zero-db-floor", "P15", [("sample/utils/dsp.py",
"  if floor is None:\n    return a2db.floorless(a, out=out)\n  if floor_db:",
"  if not np.any(floor):\n    return a2db.floorless(a, out=out)\n  if floor_db:")],
"a floor of exactly 0 dB",
"a floor of 0 dB is taken for no floor at all",
'''
import numpy as np
from sample.utils.dsp import a2db
assert np.array_equal(a2db(np.array([0.1, 1., 10.]), floor=0, floor_db=True), [0, 0, 20])
''')

bug("p16-inplace-bark", "P16", [("sample/psycho.py",
'''  tmp = np.empty_like(out)
  np.add(1960.0, f, out=tmp)
  # (26.81 * f / (1960.0 + f)) - 0.53
  np.multiply(26.81, f, out=out)
  np.true_divide(out, tmp, out=out)
''',
'''  tmp = np.empty_like(out)
  # (26.81 * f / (1960.0 + f)) - 0.53
  np.multiply(26.81, f, out=out)
  np.add(1960.0, f, out=tmp)
  np.true_divide(out, tmp, out=out)
''')],
"overwriting the input array with the result",
"hz2bark(f, out=f) reads f after having overwritten it",
'''
import numpy as np
from sample.psycho import hz2bark
f = np.array([100., 1000., 5000.])
r = hz2bark(f)
assert np.array_equal(hz2bark(f, out=f), r)
''')
