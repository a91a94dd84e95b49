BUGS = []
def bug(id, property, edits, needs, what, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

bug("p36-dropout-time", "P36", [("sample/sample.py",
"    time_axis = np.arange(t[\"mag\"].size, dtype=float)[notnans]\n",
"    time_axis = np.arange(np.count_nonzero(notnans), dtype=float)\n")],
"a track which is interrupted and merged with its continuation",
"frames after the gap of a merged track are taken to be earlier than they are, so the decay is underestimated",
'''
import numpy as np
import sample
from sklearn import base

class Line(base.BaseEstimator):
  def fit(self, x, y):
    self.k_, self.q_ = np.polyfit(np.reshape(x, -1), y, 1)
    return self

fs = 8000
t = np.arange(fs) / fs
x = np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .8)
x[2000:4000] = 0
m = sample.SAMPLE(sinusoidal__n=512, sinusoidal__w=np.hanning(256),
                  sinusoidal__tracker__h=64, sinusoidal__tracker__fs=fs,
                  sinusoidal__t=-60, sinusoidal__tracker__peak_threshold=-60,
                  regressor=Line()).fit(x)
gap = 0
for p, t in zip(m.param_matrix_.T, m.sinusoidal.tracks_):
  ok = ~np.isnan(t["mag"])
  gap += not ok.all()
  k = np.polyfit(np.flatnonzero(ok) * 64 / fs, t["mag"][ok], 1)[0]
  assert abs(p[1] / (-40 * np.log10(np.e) / k) - 1) < 1e-6, (p, k)
assert gap
''')

bug("p11-tiny-slope", "P11", [("sample/hinge.py",
"    if k == 0:\n", "    if np.isclose(k, 0):\n")],
"a slope smaller than 1e-8 in absolute value, as in a long time unit",
"slopes below 1e-8 are given the bounds of a null slope, so they are not within [k, 8k]",
'''
import numpy as np
from sample.hinge import HingeRegression, hinge_function
x = np.linspace(0, 1e10, 200)
y = hinge_function(x, 6e9, -5e-9, 3.)
h = HingeRegression()
h.fit(x.reshape(-1, 1), y)
lo, hi = h.bounds(x.reshape(-1, 1), y, -4e-9, 2.)
assert lo[1] >= -4e-8 and hi[1] <= 0, (lo, hi)
''')

bug("p03-shared-beat", "P03", [("sample/beatsdrop/sample.py",
"    b = base.clone(self.beatsdrop)\n",
"    b = self.beatsdrop\n    if hasattr(b, \"params_\"):\n      b = base.clone(b)\n")],
"a beat regressor given to two models, or looked at after a fit",
"the first track is fitted by the regressor given by the user, which is modified",
'''
import numpy as np
from sklearn import base
from sample.beatsdrop.sample import SAMPLEBeatsDROP

class Beat(base.BaseEstimator):
  def __init__(self, fs=1):
    self.fs = fs
  def fit(self, t, a, f):
    self.params_ = (.5, .5, 100., 101., 1., 1., 0., 0.)
    return self

fs = 8000
t = np.arange(fs // 2) / fs
x = np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .3)
b = Beat()
m = SAMPLEBeatsDROP(beatsdrop=b, sinusoidal__n=512, sinusoidal__w=np.hanning(256),
                    sinusoidal__tracker__h=64, sinusoidal__tracker__fs=fs).fit(x)
assert m.param_matrix_.shape[1] > 0
assert b.fs == 1 and not hasattr(b, "params_"), vars(b)
''')

bug("p05-analytic-phases", "P05", [("sample/sample.py",
"  if phases is not None:\n    if isinstance(phases, str):",
"  if phases is not None and not (analytic and np.ndim(x) == 0):\n    if isinstance(phases, str):")],
"an analytic resynthesis with phases at one single time",
"phases are ignored in the analytic signal at a scalar time",
'''
import numpy as np
from sample.sample import additive_synth
y = additive_synth(.25, [1., 2.], [1., 1.], [1., .5], phases=[.3, .4], analytic=True)
z = additive_synth(np.array([.25]), [1., 2.], [1., 1.], [1., .5], phases=[.3, .4], analytic=True)
assert np.allclose(y, z[0]), (y, z)
''')

bug("p06-zero-active", "P06", [("sample/sample.py",
"    active_modes = n_modes if self.max_n_modes is None else min(\n        self.max_n_modes, n_modes)\n",
"    active_modes = min(self.max_n_modes or n_modes, n_modes)\n")],
"a model whose maximum number of modes is 0",
"no active modes are exported as every mode being active",
'''
import numpy as np
import sample
m = sample.SAMPLE(max_n_modes=0)
m.param_matrix_ = np.array([[100., 200.], [1., 2.], [.1, .2]])
assert m.sdt_params_()["activeModes"] == 0
''')

bug("p07-threshold-inclusive", "P07", [("sample/sms/dsp.py",
"    conditions.append(np.greater(x[1:-1], t))  # above threshold\n",
"    conditions.append(np.greater_equal(x[1:-1], t))  # above threshold\n")],
"a peak exactly at the threshold",
"peaks at the threshold are detected",
'''
import numpy as np
from sample.sms.dsp import peak_detect
assert list(peak_detect(np.array([-90., -60., -90., -50., -90.]), -60.)) == [3]
''')

bug("p08-threshold-of-track", "P08", [("sample/sms/sm.py",
"self.df(pfreq[p_i])", "self.df(self._active_tracks[t_i][\"freq\"][-1])")],
"a slope of the frequency deviation, and a peak near the limit",
"the deviation allowed is that of the track, not of the peak",
'''
import numpy as np
from sample.sms.sm import SineTracker
def tracks(a, b):
  t = SineTracker(fs=1000, h=10, min_sine_dur=0, freq_dev_offset=0,
                  freq_dev_slope=0.1).reset()
  for f in (a, a, b, b):
    t(np.array([f]), np.array([-20.]), np.array([0.]))
  return len(list(t.all_tracks_))
assert tracks(100., 110.5) == 1
assert tracks(110.5, 100.) == 2
''')

bug("p13-descending-twice", "P13", [("sample/beatsdrop/regression.py",
"  if descending ^ is_descending:\n",
"  if descending or is_descending:\n")],
"parameters sorted in descending order which already are",
"sorting sorted parameters in descending order reverses them",
'''
from sample.beatsdrop.regression import sort_params
p = (1., .1, 5., 6., 1., 1., .2, .3)
assert tuple(sort_params(p, descending=True)) == p
assert tuple(sort_params(sort_params(p), descending=True)) == p
''')

bug("p14-signed-test", "P14", [("sample/beatsdrop/decision.py",
"np.abs((f0 - f1, a0, a1))", "np.array((f0 - f1, a0, a1))")],
"a regression whose first frequency is the lowest",
"a beat whose first partial is the lowest is decided not to be a beat",
'''
import numpy as np
from types import SimpleNamespace as N
from sample.beatsdrop.decision import AlmostNotABeatDecisor
d = AlmostNotABeatDecisor()
for f in ((100., 101.), (101., 100.)):
  assert d.decide_beat(0, None, None, N(params_=(.1, .2, *f, 1., 1., 0., 0.)), (100., 1., .1))
''')

bug("p15-decreasing", "P15", [("sample/utils/dsp.py",
"  if f_lo > f_hi:\n    f_lo, f_hi = f_hi, f_lo\n",
"  if f_lo > 0:\n    f_lo, f_hi = f_hi, f_lo\n")],
"a decreasing function whose zero is the lower boundary",
"the search goes to the wrong side",
'''
from sample.utils.dsp import dychotomic_zero_crossing as z
a = z(lambda v: -v, 0., 1., 16)
assert abs(a) < 1e-3, a
''')

bug("p17-kernel-order", "P17", [("sample/utils/dsp.py",
"  for p in (np.real, np.imag):\n    strided_convolution(x=x,",
"  for p in (np.real, np.imag) if np.iscomplexobj(kernel) else (np.real,):\n    strided_convolution(x=x,")],
"a real kernel and an output array which was already used",
"the imaginary part of the output array is not written when the kernel is real",
'''
import numpy as np
from sample.utils.dsp import strided_convolution_complex_kernel as f
x, k = np.arange(20.), np.ones(4)
out = np.full(17, 1 + 1j)
f(x, k, out=out)
assert np.all(out.imag == 0), out
''')

bug("p19-hpf-mean", "P19", [("sample/utils/dsp.py",
"  if i < 1:\n    ls[0]", "  if hpf is None:\n    ls[0]")],
"a high-pass frequency of 0",
"the mean is removed when the high-pass frequency is 0",
'''
import numpy as np
from sample.utils.dsp import lombscargle_as_fft
t = np.arange(32) / 32.
x = 2 + np.cos(2 * np.pi * 4 * t)
a, _ = lombscargle_as_fft(t, x, 32, 32)
b, _ = lombscargle_as_fft(t, x, 32, 32, hpf=0)
assert abs(a[0] - 4) < 1e-9 and abs(b[0] - 4) < 1e-9, (a, b)
''')

bug("p20-high-frequencies", "P20", [("sample/psycho.py",
"  # 1960.0 + f\n  tmp = np.empty_like(out)\n  np.add(1960.0, f, out=tmp)\n",
"  # 1960.0 + f\n  f = np.minimum(f, 48000)\n  tmp = np.empty_like(out)\n  np.add(1960.0, f, out=tmp)\n")],
"frequencies above 48 kHz",
"frequencies above 48 kHz are given the same value in Bark",
'''
from sample.psycho import hz2bark, bark2hz
assert abs(bark2hz(hz2bark(60000.)) / 60000 - 1) < 1e-6
''')

bug("p26-clip-sign", "P26", [("sample/optimize.py",
"      peak = np.max(np.abs(x))\n", "      peak = np.abs(np.max(x))\n")],
"an audio whose peak is negative",
"the resynthesis is clipped to the positive peak of the audio",
'''
import numpy as np
from sample.optimize import SAMPLEOptimizer
import sample
fs = 8000
t = np.arange(4000) / fs
x = np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .3)
x = x.clip(-1, .25)
seen = []
def loss(a, b):
  seen.append(np.abs(b).max())
  return 0.
m = sample.SAMPLE(sinusoidal__n=512, sinusoidal__w=np.hanning(256), sinusoidal__tracker__h=64)
SAMPLEOptimizer(model=m, loss_fn=loss, remap=None).loss(x, fs)(())
assert seen[0] > .3, seen
''')

bug("p27-default-falsy", "P27", [("sample/utils/learn.py",
"  def _default_fdef(parent, v) -> bool:  # pylint: disable=W0613\n    \"\"\"Default fdef function\"\"\"\n    return v is None\n",
"  def _default_fdef(parent, v) -> bool:  # pylint: disable=W0613\n    \"\"\"Default fdef function\"\"\"\n    return v is None or v is NotImplemented or (isinstance(v, dict) and not v)\n")],
"an empty dictionary as a member",
"an empty dictionary is replaced by the default",
'''
from sample.utils.learn import default_property
class A:
  def __init__(self, m=None):
    self.m = m
  @default_property
  def m(self):
    return {"a": 1}
d = {}
assert A(d).m is d
''')

bug("p33-stale-resynth", "P33", [("sample/widgets/analysis.py",
"        self.audio_resynth_x = None\n        self.update_plot()\n",
"        if getattr(self.sample_object, \"freqs_\", np.empty(0)).size:\n          self.audio_resynth_x = None\n        self.update_plot()\n")],
"an analysis which finds no modes, after one which does",
"when no modes are found, the resynthesis of the previous analysis is played and exported",
'''
import sys, threading
from unittest import mock
import numpy as np
for k in ("tkinter", "tkinter.ttk", "tkinter.font", "tkinter.messagebox", "tkinter.filedialog"):
  try:
    __import__(k)
  except ImportError:
    sys.modules[k] = mock.MagicMock()
from types import SimpleNamespace as N
from sample.widgets.analysis import AnalysisTab as T
from sample.widgets import sample as ws
fs = 8000
t = np.arange(4000) / fs
class Bar(dict):
  def __getattr__(self, k):
    return lambda *a, **b: None
  def __setitem__(self, k, v):
    pass
tab = N(audio_loaded=True, _analisis_lock=threading.Lock(), audio_sr=fs,
        audio_trim_start=0, audio_trim_stop=t.size, progressbar=Bar(),
        sample_object_kwargs=dict(sinusoidal__n=512, sinusoidal__w=np.hanning(256),
                                  sinusoidal__tracker__h=64),
        audio_resynth_x=None, sample_object=None, update_plot=lambda: None)
for a in (.5, 0.):
  tab.audio_x = a * np.cos(2 * np.pi * 500 * t) * np.exp(-2 * t / .3)
  with mock.patch("sample.widgets.analysis.messagebox") as m:
    T.analysis_cbk(tab)
    assert not m.showerror.called, m.mock_calls
  y = T._get_audio(tab, True)
  assert bool(np.any(y)) == (a > 0), (a, np.abs(y).max())
''')


bug("p34-checkpoint-ten", "P34", [("scripts/beatsdrop/evaluation.py",
"        args.last_file = args.ckpt_path(args.last_checkpoint)\n      elif",
"        args.last_file = max(args.checkpoints)\n      elif")],
"more than ten checkpoints before the interruption",
"the last checkpoint in alphabetical order is loaded, so results after the tenth are lost",
'''
import importlib.util, os, sys, tempfile, warnings
from unittest import mock
import functools
warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("ev", "scripts/beatsdrop/evaluation.py")
m = importlib.util.module_from_spec(spec)
sys.modules["ev"] = m
spec.loader.exec_module(m)

class Pool:
  def __init__(self, *a, **k): pass
  def __enter__(self): return self
  def __exit__(self, *a): return False
  def imap_unordered(self, f, it): return map(f, it)

class Stop(BaseException): pass
done = []
def test(seed, **kwargs):
  if len(done) == 12:
    raise Stop
  done.append(seed)
  return m.BeatsDROPFFTResult(**{k: seed for k in m.BeatsDROPFFTResult._fields})

with tempfile.TemporaryDirectory() as d, mock.patch("multiprocessing.Pool", Pool):
  a = m.ArgParser().custom_parse_args(["--test-fft", "4", "-n", "20", "-O", d + "/o", "--checkpoint", "1"])
  a.test_func = test
  m.load_results(m.prepare_folders(a))
  try:
    m.run_tests(a)
  except Stop:
    pass
  a = m.ArgParser().custom_parse_args(["--test-fft", "4", "-n", "20", "-O", d + "/o", "--checkpoint", "1"])
  m.load_results(m.prepare_folders(a))
  assert list(a.seeds) == list(range(12, 20)), list(a.seeds)
''')
