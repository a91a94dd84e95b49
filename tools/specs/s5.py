BUGS = []
def bug(id, property, edits, needs, what, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

bug("p38-flux-inplace", "P38", [("sample/utils/dsp.py",
"  a = np.abs(x)\n  delta = np.diff(a, axis=-1)\n",
"  a = np.abs(x) if np.iscomplexobj(x) else np.abs(x, out=x)\n  delta = np.diff(a, axis=-1)\n")],
"a real time-frequency matrix with negative values, looked at again after the call",
"the rectification of a real matrix overwrites the matrix of the caller",
'''
import numpy as np
from sample.utils.dsp import spectral_flux_from_tf
x = np.array([[1., -2, 3, -4], [0., 1, -1, 2]])
y = x.copy()
spectral_flux_from_tf(x)
assert np.array_equal(x, y)
''')

bug("p38-windows-itemsize", "P38", [("sample/utils/dsp.py",
"  cell_stride, = a_lin.strides\n",
"  cell_stride = a_lin.itemsize\n")],
"a view with steps (such as one channel of a stereo recording)",
"windows of strided views are read from the memory between the samples",
'''
import numpy as np
from sample.utils.dsp import overlapping_windows
a = np.arange(20.).reshape(10, 2)
assert np.array_equal(overlapping_windows(a[:, 0], 5, 5),
                      overlapping_windows(a[:, 0].copy(), 5, 5))
''')

bug("p38-optimizer-warnings", "P38", [("sample/optimize.py",
'''    with warnings.catch_warnings():
      if ignore_warnings:
        warnings.simplefilter("ignore", Warning)
      res = skopt.gp_minimize(self.loss(x, fs), self.dimensions.values(),
                              **kwargs)
''',
'''    filters = warnings.filters[:]
    if ignore_warnings:
      warnings.simplefilter("ignore", Warning)
    res = skopt.gp_minimize(self.loss(x, fs), self.dimensions.values(),
                            **kwargs)
    warnings.filters[:] = filters
''')],
"a search which fails (in the loss or in a callback) with warnings ignored",
"all warnings of the process stay ignored after a failed search",
'''
import warnings
import numpy as np
from sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
def loss(x, y):
  raise RuntimeError("no loss")
s = SAMPLEOptimizer(SAMPLE(sinusoidal__n=256, sinusoidal__w=np.hanning(256), sinusoidal__tracker__h=128), loss_fn=loss,
                    remap=None, sinusoidal__t=(-90, -60))
f = list(warnings.filters)
try:
  s.gp_minimize(np.cos(np.arange(2000) * .3), n_calls=2, n_initial_points=2)
except RuntimeError:
  pass
assert warnings.filters == f
''')

bug("p38-phases-wrap", "P38", [("sample/sample.py",
"    np.add(osc, row(phases), out=osc)\n",
"    # Keep precision for large phases\n    phases = np.asarray(phases, dtype=float)\n    np.fmod(phases, 2 * np.pi, out=phases)\n    np.add(osc, row(phases), out=osc)\n")],
"an array of phases out of one period, used again after the synthesis",
"the phases of the caller are wrapped in place",
'''
import numpy as np
from sample.sample import additive_synth
p = np.array([9., -7.])
additive_synth(np.arange(9) / 9, [1., 2.], [1., 1.], [1., 1.], phases=p)
assert np.array_equal(p, [9., -7.])
''')

bug("p38-random-global", "P38", [("sample/sample.py",
"    rng = np.random.default_rng(seed=seed)\n",
"    if seed is None:\n      return np.random.uniform(0, 2 * np.pi, n)\n    rng = np.random.default_rng(seed=seed)\n")],
"a resynthesis with random phases and no seed, between draws from the global generator",
"unseeded phases are drawn from (and advance) the global generator",
'''
import numpy as np
from sample.sample import additive_synth
np.random.seed(3)
a = np.random.uniform(size=4)
np.random.seed(3)
b = np.random.uniform(size=2)
additive_synth(np.arange(9) / 9, [1., 2.], [1., 1.], [1., 1.], phases="random")
assert np.array_equal(a, np.append(b, np.random.uniform(size=2)))
''')

bug("p38-mel-magnitudes", "P38", [("sample/psycho.py",
"    stft = np.abs(stft)\n    if power != 1:\n",
"    if np.iscomplexobj(stft):\n      stft = np.abs(stft)\n    if power != 1:\n")],
"a real magnitude spectrogram, looked at again after the call",
"the magnitudes of the caller are squared in place",
'''
import numpy as np
from sample.psycho import stft2mel
x = np.abs(np.random.default_rng(0).normal(size=(17, 3)))
y = x.copy()
stft2mel(x, np.linspace(0, 4000, 17), n_filters=3)
assert np.array_equal(x, y)
''')

bug("p38-bank-buffer", "P38", [("sample/psycho.py",
'''        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=np.result_type(x, *self.irs))
        for i, (ir, off) in enumerate(zip(self.irs, self.offsets)):
''',
'''        shape = (len(self), x.size + self._ir_size - 1)
        dtype = np.result_type(x, *self.irs)
        out = vars(self).get("_out")
        if out is None or out.shape != shape or out.dtype != dtype:
          self._out = out = np.zeros(shape, dtype=dtype)
        for i, (ir, off) in enumerate(zip(self.irs, self.offsets)):
''')],
"two sounds of the same length filtered by the same bank, the first output used after the second",
"the output is a buffer of the bank, which the next convolution overwrites",
'''
import numpy as np
from sample.psycho import GammatoneFilterbank
b = GammatoneFilterbank(freqs=[200., 600.]).precompute(8000)
x = np.random.default_rng(0).normal(size=(2, 300))
y = b.convolve(x[0])
z = y.copy()
b.convolve(x[1])
assert np.array_equal(y, z)
''')

bug("p38-default-kws", "P38", [("sample/utils/__init__.py",
"  d = {} if d is None else d.copy()\n",
"  d = {} if d is None else d\n")],
"a dictionary of keyword arguments used for several calls with different defaults",
"the defaults are written in the dictionary of the caller",
'''
from sample.utils import default_kws
d = {"a": 1}
default_kws(d, b=2)
assert d == {"a": 1} and default_kws(d, b=3)["b"] == 3
''')

bug("p38-dft-window", "P38", [("sample/sms/dsp.py",
"  xw = x * w\n",
"  xw = x * w if x.dtype != w.dtype or x.flags.writeable is False else np.multiply(x, w, out=x)\n")],
"a frame in a writeable array, transformed twice",
"the frame of the caller is windowed in place",
'''
import numpy as np
from sample.sms.dsp import dft
x = np.random.default_rng(0).normal(size=64)
w = np.hanning(64)
a = dft(x, w, 128)[0]
assert np.array_equal(a, dft(x, w, 128)[0])
''')

bug("p37-hinge-closure", "P37", [("sample/hinge.py",
'''    self.result_ = optimize.least_squares(fun=self._residual(x, y),
''',
'''    self.residual_ = self._residual(x, y)
    self.result_ = optimize.least_squares(fun=self.residual_,
''')],
"pickling a fitted regression",
"a fitted regression holds a local function, and cannot be pickled",
'''
import pickle
import numpy as np
from sample.hinge import HingeRegression
t = np.arange(40).reshape(-1, 1) / 40
m = HingeRegression().fit(t, -30 * np.minimum(t[:, 0], .7))
assert np.array_equal(pickle.loads(pickle.dumps(m)).coeffs_, m.coeffs_)
''')

bug("p37-generator-method", "P37", [("sample/evaluation/random.py",
"    self.rng = np.random.default_rng(seed=seed) if rng is None else rng\n",
"    self.rng = np.random.default_rng(seed=seed) if rng is None else rng\n    self._normal = self.rng.normal\n"),
("sample/evaluation/random.py",
"    return self.rng.normal(scale=self.noise_amp, size=nsamples)\n",
"    return self._normal(scale=self.noise_amp, size=nsamples)\n")],
"a deep copy of a generator, used alternately with the original",
"copies share the generator of the noise with the original",
'''
import copy
import numpy as np
from sample.evaluation.random import BeatsGenerator
g = BeatsGenerator(seed=3)
h = copy.deepcopy(g)
a = g.audio(dur=.1, fs=4000)[0]
assert np.array_equal(a, h.audio(dur=.1, fs=4000)[0])
''')

bug("p37-storage-state", "P37", [("sample/utils/learn.py",
'''  def __init__(self, save: bool = False):
    self.save = save

  def __getitem__(self, key):
''',
'''  def __init__(self, save: bool = False):
    self.save = save

  def __getstate__(self):
    # Keep messages between processes small
    return {k: v for k, v in vars(self).items() if k == "save"}

  def __getitem__(self, key):
''')],
"copying or saving a fitted model which stores its intermediate results",
"copies lose the stored intermediate results",
'''
import copy
import numpy as np
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
s.append("a", 1)
assert copy.deepcopy(s).get_state() == {"a": [1]}
''')

bug("p37-beat-memo", "P37", [("sample/psycho.py",
'''      self.irs = tuple(irs)
''',
'''      self.irs = tuple(irs)
      self._dtype = functools.lru_cache(maxsize=None)(
          lambda d: np.result_type(d, *self.irs))
'''),
("sample/psycho.py",
'''        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=np.result_type(x, *self.irs))
''',
'''        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=self._dtype(x.dtype))
''')],
"pickling a precomputed bank, as for a pool of processes",
"precomputed banks hold a local function, and cannot be pickled",
'''
import pickle
from sample.psycho import GammatoneFilterbank
b = GammatoneFilterbank(freqs=[200., 600.]).precompute(8000)
assert len(pickle.loads(pickle.dumps(b))) == 2
''')
