s=open('/tmp/specs/s2.py').read()
i=s.index('bug("p22-strided-tail"'); j=s.index('bug("p23-')
T="'''"
s=s[:i]+'''bug("p22-complex-input", "P22", [("sample/psycho.py",
"""        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=np.result_type(x, *self.irs))""",
"""        out = np.zeros((len(self), x.size + self._ir_size - 1),
                       dtype=self.irs[0].dtype)""")],
"a complex input, e.g. the analytic signal of the input (analytic='input')",
"the imaginary part of the cochleagram is lost",
"""
import numpy as np
from sample.psycho import GammatoneFilterbank
fs = 8000
x = np.random.default_rng(0).normal(size=900)
b = GammatoneFilterbank(freqs=(300., 800.))
y = b.convolve(x, fs=fs, analytic="input")
z = b.convolve(x, fs=fs, postprocessing=None)
assert np.iscomplexobj(y) and np.allclose(y.real, z, atol=1e-9 * np.abs(z).max())
""")

'''+s[j:]
s=s.replace('b = f(x, y, n=512, w=w, noverlap=None) if False else None\n','')
open('/tmp/specs/s2.py','w').write(s)
