BUGS = []
def bug(id, property, edits, needs, what, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

bug("p03-stale-window", "P03", [("sample/sms/sm.py",
"    self.w_ = self._normalized_window\n",
"    if np.size(getattr(self, \"w_\", ())) != self.w.size:\n      self.w_ = self._normalized_window\n")],
"two fits of one model with two windows of the same length",
"the effective window is kept from the first fit if the size did not change",
'''
import numpy as np
from sample.sms.mm import ModalModel
x = np.random.default_rng(0).normal(size=6000)
def spectra(m):
  return m.intermediate["stft"][0][0]
m = ModalModel(intermediate__save=True, w=np.hanning(512), n=512)
m.fit(x)
m.set_params(w=np.blackman(512))
m.fit(x)
n = ModalModel(intermediate__save=True, w=np.blackman(512), n=512).fit(x)
assert np.array_equal(spectra(m), spectra(n))
''')

bug("p08-new-by-magnitude", "P08", [("sample/sms/sm.py",
"    for p_i in filter(free_peak.__getitem__, range(pmag.size)):",
"    for p_i in filter(free_peak.__getitem__, peak_order):")],
"more free peaks than the free tracks, the lowest of them not being the loudest",
"new tracks are activated for the loudest free peaks, not in order of frequency",
'''
import numpy as np
from sample.sms.sm import SineTracker
t = SineTracker(fs=1000, h=10, max_n_sines=2, min_sine_dur=0)
t.reset()
f = np.array([100., 200., 300.])
for _ in range(4):
  t(f, np.array([-30., -20., -10.]), np.zeros(3))
got = sorted(u["freq"][0] for u in t.all_tracks_)
assert got == [100., 200.], got
''')

bug("p09-merge-threshold", "P09", [("sample/sms/mm.py",
"      if u is not None and df < self.df(t[\"freq\"][0]):",
"      if u is not None and df < self.df(u[\"freq\"][-1]):")],
"a track resuming after a gap, at a distance between the deviations allowed at its own frequency and at the older one",
"the merge threshold is the one at the frequency of the older track",
'''
import numpy as np
from sample.sms.mm import ModalTracker
def tracks(a, b):
  t = ModalTracker(fs=1000, h=10, min_sine_dur=0, freq_dev_offset=0,
                   freq_dev_slope=0.1, frequency_bounds=(None, None),
                   merge_strategy="single")
  t.reset()
  e = np.array([])
  for f in (a, a, a, None, None, b, b, b, None):
    if f is None:
      t(e, e, e)
    else:
      t(np.array([f]), np.array([-20.]), np.array([0.]))
  return len(list(t.all_tracks_))
# 10.5 Hz apart: within 10% of 110.5, not of 100
assert tracks(100., 110.5) == 1
assert tracks(110.5, 100.) == 2
''')

bug("p17-kernel-dtype", "P17", [("sample/utils/dsp.py",
"      dtype = np.result_type(x, kernel)\n    out = np.zeros(n_windows",
"      dtype = kernel.dtype\n    out = np.zeros(n_windows")],
"a double precision signal and a single precision kernel",
"the output has the type of the kernel, so it loses precision (or fails)",
'''
import numpy as np
from sample.utils.dsp import strided_convolution_complex_kernel as f
rng = np.random.default_rng(0)
x = rng.normal(size=200)
k = (rng.normal(size=16) + 1j * rng.normal(size=16)).astype(np.complex64)
y = f(x, k, stride=3)
z = np.convolve(x, k.astype(complex), mode="valid")[::3]
assert np.allclose(y, z, rtol=1e-10, atol=1e-10), np.abs(y - z).max()
''')

bug("p18-plateau", "P18", [("sample/utils/dsp.py",
"  np.greater_equal(x_n[1:], tmp[:-1], out=ons[1:])",
"  np.greater(x_n[1:], tmp[:-1], out=ons[1:])")],
"a value that equals the envelope, e.g. two equal frames at the top of a peak",
"the second of two equal frames at the top of a peak is not an onset",
'''
import numpy as np
from sample.utils.dsp import onset_selection
x = np.zeros(64)
x[32] = x[33] = 1
o = onset_selection(x, w=3, m=3, alpha=0, delta=0.1)
assert list(np.flatnonzero(o)) == [32, 33], np.flatnonzero(o)
''')

bug("p19-nfft-default", "P19", [("sample/utils/dsp.py",
"    n = np.ceil(np.max(t) * fs).astype(int)",
"    n = np.ceil(np.ptp(t) * fs).astype(int)")],
"sample times that do not start from zero",
"the default size of the autocorrelogram is the span of the times, not the last time",
'''
import numpy as np
from sample.utils.dsp import lombscargle_autocorrelogram as f
t = 0.5 + np.arange(50) / 100
x = np.cos(2 * np.pi * 10 * t)
a = f(t=t, x=x, fs=100)
b = f(t=t, x=x, fs=100, n=int(np.ceil(t.max() * 100)))
assert np.shape(a) == np.shape(b), (np.shape(a), np.shape(b))
''')

bug("p21-open-onset", "P21", [("sample/psycho.py",
"    np.greater_equal(t_, 0, out=out)",
"    np.greater(t_, 0, out=out)")],
"a first-order filter, evaluated exactly at its beginning",
"the envelope of a first-order filter is null at its first instant, where it has its peak",
'''
import numpy as np
from sample.psycho import GammatoneFilter
g = GammatoneFilter(f=1000., n=1, bandwidth=100., t_c=0.5)
e = g.envelope(np.array([-0.75, -0.5, -0.25]))
assert e[0] == 0 and e[1] == 1, e
''')

bug("p22-complex-input", "P22", [("sample/psycho.py",
"""        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=np.result_type(x, *self.irs))""",
"""        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=self.irs[0].dtype)""")],
"a complex input, e.g. the analytic signal of the input (analytic='input')",
"the imaginary part of the cochleagram is lost",
"""
import numpy as np
from sample.psycho import GammatoneFilterbank
fs = 8000
x = np.random.default_rng(0).normal(size=900)
b = GammatoneFilterbank(freqs=(300., 800.))
y = b.convolve(x, fs=fs, analytic="input")
z = b.convolve(x, fs=fs, postprocessing=None)
assert np.iscomplexobj(y) and np.allclose(y.real, z, atol=1e-9 * np.abs(z).max())
""")

bug("p23-inplace-power", "P23", [("sample/psycho.py",
"    stft = np.abs(stft)\n",
"    stft = np.abs(stft) if np.iscomplexobj(stft) else np.asarray(stft)\n")],
"a spectrogram that is already a (real) magnitude, and a power other than one",
"the magnitudes given by the caller are overwritten by their power",
'''
import numpy as np
from sample.psycho import stft2mel
f = np.linspace(0, 8000, 65)
m = np.abs(np.random.default_rng(0).normal(size=(65, 7)))
n = m.copy()
a, _ = stft2mel(m, f, n_filters=8)
b, _ = stft2mel(m, f, n_filters=8)
assert np.array_equal(m, n) and np.array_equal(a, b)
''')

bug("p24-window-size", "P24", [("sample/evaluation/metrics.py",
"  noverlap = int(olap * np.size(w))",
"  noverlap = int(olap * n)")],
"a loss with a window shorter than the FFT",
"the overlap is a fraction of the FFT size, not of the window",
'''
import numpy as np
from sample.evaluation.metrics import lin_log_spectral_loss as f
rng = np.random.default_rng(0)
x, y = rng.normal(size=(2, 2000))
w = np.hanning(128)
a = f(x, y, n=512, w=w, olap=0.2)
from scipy import signal
X, Y = (np.abs(signal.stft(i, window=w, nperseg=128, nfft=512,
                           noverlap=25)[2]) for i in (x, y))
db = lambda m: np.maximum(20 * np.log10(np.maximum(m, 1e-300)), -60)
z = np.abs(X - Y).sum() + np.abs(db(X) - db(Y)).sum() / 60
assert np.isclose(a, z, rtol=1e-6), (a, z)
''')

bug("p25-onlybeat-level", "P25", [("sample/evaluation/random.py",
"""    if self.onlybeat:
      a[-1] = 0
    np.multiply(a, self.sine_amp / np.sum(a), out=a)
""",
"""    np.multiply(a, self.sine_amp / np.sum(a), out=a)
    if self.onlybeat:
      a[-1] = 0
""")],
"a generator of beats without the third partial",
"the two remaining amplitudes do not sum to the level of the sinusoidal part",
'''
import numpy as np
from sample.evaluation.random import BeatsGenerator
g = BeatsGenerator(seed=3, onlybeat=True, snr=30)
for _ in range(8):
  a = np.asarray(g.amps())
  assert a[2] == 0 and np.isclose(a.sum(), g.sine_amp), (a, g.sine_amp)
''')

bug("p26-shared-model", "P26", [("sample/optimize.py",
"""      model = base.clone(self.model)
      model.set_params(**self._kwargs(
          *args,""",
"""      model = self.model
      model.set_params(**self._kwargs(
          *args,""")],
"two evaluations of the loss, or a loss evaluated before the search ends",
"the loss sets the parameters of the optimizer's own model, which leak into the following evaluations and into the result",
'''
import numpy as np
from sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
fs = 8000
t = np.arange(4000) / fs
x = 0.5 * np.exp(-8 * t) * np.cos(2 * np.pi * 700 * t)
o = SAMPLEOptimizer(SAMPLE(max_n_modes=8), remap=None, max_n_modes=(1, 16))
f = o.loss(x, fs)
f((3,), sinusoidal__tracker__h=64)
p = o.model.get_params()
assert p["max_n_modes"] == 8 and p["sinusoidal__tracker__h"] == 500, p
''')

bug("p27-shallow-state", "P27", [("sample/utils/learn.py",
"    return copy.deepcopy(s) if deepcopy else s",
"    return copy.copy(s) if deepcopy else s")],
"something appended after a copy of the state was taken",
"the copy of the state shares its lists with the storage",
'''
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
s.append("a", 1)
c = s.get_state()
s.append("a", 2)
assert c == {"a": [1]}, c
''')

bug("p28-prefix-replace", "P28", [("sample/utils/__init__.py",
'            k: f"{new_key}{k[len(old_key):]}"\n',
'            k: k.replace(old_key, new_key)\n')],
"a deprecated prefix that occurs again later in the name of an argument",
"all occurrences of the prefix are replaced, so the argument gets a wrong name",
"""
import warnings
warnings.simplefilter("ignore")
from sample.utils import deprecated_argument
@deprecated_argument("n_", "num_", prefix=True)
def f(**kwargs):
  return kwargs
r = f(n_in_bins=1, n_jobs=2)
assert r == {"num_in_bins": 1, "num_jobs": 2}, r
r = f(n_min_n_max=1)
assert r == {"num_min_n_max": 1}, r
""")

bug("p29-one-sided-clip", "P29", [("sample/widgets/settings.py",
"""    if right is not None:
      x = min(right, x)
""",
"""    elif right is not None:
      x = min(right, x)
""")],
"a text above the upper limit of a setting that also has a lower limit",
"the upper limit of settings that also have a lower one is ignored",
"""
from sample.widgets.settings import float_clip
f = float_clip(left=2, right=50, default=12)
assert (f("1"), f("7"), f("60"), f("inf"), f("x")) == (2, 7, 50, 50, 12)
""")

bug("p30-prefix-docs", "P30", [("sample/ipython.py",
'      rk = re.compile("^" + k + r"\\W")',
'      rk = re.compile("^" + k)')],
"a parameter whose name is a prefix of the name of another one",
"the description of a parameter also shows those of the parameters that begin with its name",
"""
from sample.ipython import CollapsibleModelParams
class M:
  def get_params(self, deep=True):
    return {"n": 1, "n_jobs": 2}
M.__doc__ = '''Model

  Args:
    n (int): first description
    n_jobs (int): second description'''
h = CollapsibleModelParams(M()).data
assert h.count("first description") == 1, h.count("first description")
assert h.count("second description") == 1, h.count("second description")
""")

bug("p31-command-spaces", "P31", [("scripts/utils/yapf_nbformat.py",
"  cmd = s[len(indent):]\n",
"  cmd = s.strip()\n")],
"a notebook command that ends with spaces",
"trailing spaces of shell commands and magics are removed (they may be escaped)",
"""
import json, os, sys, tempfile
import nbformat
sys.argv = ["x"]
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "utils"))
import yapf_nbformat
src = "!printf %s a\\\\ \\nx = 1"
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, "a.ipynb")
  nb = nbformat.v4.new_notebook(cells=[nbformat.v4.new_code_cell(src)])
  nbformat.write(nb, p)
  yapf_nbformat.format_nb(p, style="yapf")
  out = nbformat.read(p, as_version=4).cells[0]["source"]
assert out == src, repr(out)
""")

bug("p32-first-rate", "P32", [("sample/plots.py",
"    fs = max((m.sinusoidal.fs for m in models.values()), default=44100)",
"    fs = next((m.sinusoidal.fs for m in models.values()), 44100)")],
"models with different sample rates, the first of which is not the highest",
"the sample rate is the one of the first model, not the highest",
"""
import numpy as np
from matplotlib import pyplot as plt
from sample import SAMPLE
from sample.plots import resynthesis
t = np.arange(4000) / 8000
x = np.exp(-6 * t) * np.cos(2 * np.pi * 500 * t)
def fit(fs):
  return SAMPLE(sinusoidal__w=np.hanning(512), sinusoidal__n=512,
                sinusoidal__tracker__h=64).fit(x, sinusoidal__tracker__fs=fs)
_, axs = resynthesis(x, {"a": fit(4000), "b": fit(8000)}, fig=plt.figure())
e = axs[0].lines[0].get_xdata()[-1]
assert abs(e - (x.size - 1) / 8000) < 1e-9, e
""")

bug("p34-checkpoint-order", "P34", [("scripts/beatsdrop/evaluation.py",
"""            map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))""",
"""            map(lambda s: s.rsplit("-", 1)[-1], args.checkpoints))
        args.last_checkpoint = int(args.last_checkpoint)""")],
"a run interrupted after more than ten checkpoints",
"the checkpoint to resume from is chosen in alphabetical order, so results after the tenth checkpoint are lost",
"""
import os, sys, tempfile
sys.argv = ["x"]
import multiprocessing as mp
import pandas as pd
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "beatsdrop"))
import evaluation as e
with tempfile.TemporaryDirectory() as d:
  o = os.path.join(d, "out")
  fields = e.BeatsDROPFFTResult._fields
  for i in range(12):
    r = pd.DataFrame({k: [0.0 if k != "seed" else j for j in range(i + 1)]
                      for k in fields})
    r.to_csv(f"{o}.ckpt-{i}")
  args = e.ArgParser().custom_parse_args(
      ["-n", "20", "--test-fft", "12", "--output", o])
  args = e.load_results(e.prepare_folders(args))
  assert args.seeds == list(range(12, 20)), args.seeds
""")

bug("p35-negative-peak", "P35", [("scripts/beatsdrop/example.py",
"  y_p = np.abs(y).max()\n",
"  y_p = y.max()\n")],
"a resynthesis that clips on the negative side only",
"negative peaks are not limited",
"""
import argparse, os, sys, tempfile
sys.argv = ["x"]
import numpy as np
from scipy.io import wavfile
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "beatsdrop"))
import example
class M:
  def predict(self, t, **kwargs):
    y = np.zeros(t.size)
    y[3] = -2
    y[5] = 0.5
    return y
with tempfile.TemporaryDirectory() as d:
  a = argparse.Namespace(model=M(), x=np.zeros(10), fs=8000, clip=False,
                         output=os.path.join(d, "o.wav"),
                         input=os.path.join(d, "i.wav"))
  example.resynth_audio(a)
  _, y = wavfile.read(a.output)
assert np.abs(y).max() <= 1, y
""")
