From 963afcb95879097055692854b38b4b13574a3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/64] fix: export of SDT parameters for a model without modes

SAMPLE.sdt_params_ divided by the number of modes, raising ZeroDivisionError
when no mode had been found.
---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 9125851..6ffb8a9 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -275,7 +275,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(n_modes, 1)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From e9c0dd27a19258543527c67522abf31e02f5a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 02/64] fix: number of windows for inputs shorter than a window

n_windows was negative for inputs shorter than the window by more than a hop,
so that overlapping_windows (and the analysis of short audio) raised
'negative dimensions are not allowed' depending on the hop.
---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..ab909e1 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -381,7 +381,7 @@ def n_windows(input_size: int, wsize: int, hop: Optional[int] = None) -> int:
     int: Number of windows"""
   if hop is None:
     hop = wsize
-  return 1 + (input_size - wsize) // hop
+  return max(0, 1 + (input_size - wsize) // hop)
 
 
 def overlapping_windows(a: np.ndarray,
-- 
2.43.0


From 1e5d5a38991bf39d57fa151d7709e7ea3cecc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 03/64] fix: do not silently ignore parameters of SAMPLE.fit

Deprecated (or misspelled) parameter names were neither set nor rejected
---
 sample/sample.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 6ffb8a9..5c7fd02 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -168,13 +168,14 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
     Returns:
       SAMPLE: self"""
-    sample_kwargs = {}
-    ctx_kwargs = {}
-    for k, v in kwargs.items():
-      (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
-    self.set_params(**sample_kwargs)
+    ctx_kwargs = {
+        k: kwargs.pop(k)
+        for k in ("n_jobs", "mp_manager", "pool", "_fit_args")
+        if k in kwargs
+    }
+    self.set_params(**kwargs)
 
-    with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
+    with sample._training.sample_training_context(self, **ctx_kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
       fit_args.progress_start(len(self.sinusoidal.time_frames(x)))
       tracks = self.sinusoidal.fit(x, y, _fit_args=fit_args).tracks_
-- 
2.43.0


From 25d85142cea08bb12768a9637fc7ca72596e69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 04/64] fix: reset the storage that the sinusoidal model is fit
 with

A storage given as an argument of fit kept the data of earlier fits
---
 sample/sms/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..b332441 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -313,8 +313,8 @@ class SinusoidalModel(base.TransformerMixin, base.BaseEstimator):
     # Avoid _fit_args appearing in signatures, since it's considered
     # an implementation detail
     fit_args = kwargs.pop("_fit_args", None)
-    self.intermediate.reset()
     self.set_params(**kwargs)
+    self.intermediate.reset()
     self.tracker.reset()
     self.w_ = self._normalized_window
     if getattr(self.tracker, "reverse", False):
-- 
2.43.0


From d9ddba5f9c080fdf35f2b7075cd49a40a75dcc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 05/64] fix: reset the storage of the beat decisor when fitting
 again

A refit kept the decisions of the tracks of the previous fit
---
 sample/beatsdrop/sample.py | 6 ++++++
 sample/sample.py           | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..a7ae681 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -84,6 +84,12 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   _PARAM_MATRIX_NROWS: int = 4
 
+  def _reset_intermediate(self):
+    super()._reset_intermediate()
+    intermediate = getattr(self.beat_decisor, "intermediate", None)
+    if intermediate is not None:
+      intermediate.reset()
+
   def _fit_track(self, i: int, t: np.ndarray,
                  track: dict) -> Sequence[Tuple[float, float, float, float]]:
     """Fit parameters for one track.
diff --git a/sample/sample.py b/sample/sample.py
index 5c7fd02..ead64d6 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -155,6 +155,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
   _PARAM_MATRIX_NROWS: int = 3
 
+  def _reset_intermediate(self):
+    """Delete the intermediate data of previous fits. The storage of the
+    sinusoidal model is reset by the sinusoidal model itself"""
+
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
                                toggle=("ignore_warnings", True))
@@ -174,6 +178,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         if k in kwargs
     }
     self.set_params(**kwargs)
+    self._reset_intermediate()
 
     with sample._training.sample_training_context(self, **ctx_kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
-- 
2.43.0


From e1b8365cb9f7f07af08ce4f0219ca920aeab6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 06/64] fix: serialize the appends of worker processes to a
 managed storage

The manager process serves every worker from its own thread, so concurrent
appends could lose data, pad the list too much, or raise
---
 sample/_training.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..de8c971 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -5,6 +5,7 @@ import functools
 import itertools
 import multiprocessing
 import multiprocessing.managers
+import threading
 from typing import Generator, Callable, Iterable, Optional
 
 import sample.utils
@@ -14,13 +15,28 @@ mp = multiprocessing
 utils = sample.utils
 
 
+class _LockedOptionalStorage(utils.learn.OptionalStorage):
+  """Storage that lives in a manager process, which serves every worker
+  process from a thread of its own"""
+
+  def __init__(self, save: bool = False):
+    super().__init__(save=save)
+    self._lock = threading.Lock()
+
+  def append(self, key, value, index: Optional[int] = None):
+    with self._lock:
+      return super().append(key, value, index=index)
+
+  __call__ = append
+
+
 class _OptionalStorageManager(mp.managers.SyncManager):
   """Multiprocessing manager for :class:`sample.utils.learn.OptionalStorage`"""
 
 
 _OptionalStorageManager.register(
     "OptionalStorage",
-    utils.learn.OptionalStorage,
+    _LockedOptionalStorage,
     exposed=(
         *mp.managers.public_methods(utils.learn.OptionalStorage),
         "__getitem__",
-- 
2.43.0


From 82d7712db484219e17026cd54994dc883b5fb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 07/64] fix: phase of beats on time axes that do not start at
 zero

The phase at time zero was used as the phase at the first time
---
 sample/beatsdrop/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..5b77db4 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -45,6 +45,11 @@ def _float_or_call(
   return foc
 
 
+def _first(x: np.ndarray) -> np.ndarray:
+  """First element of an array, along the last axis, keeping the axis"""
+  return x[..., :1]
+
+
 class Beat:
   """Model for beating partials
 
@@ -150,12 +155,15 @@ class Beat:
     f = np2pg.add.op(f, self._graph["w_oln"])
     self._graph["fm"] = f
 
-    # Initial phase
-    y0 = np2pg.multiply.op(self.compute(0, "a_hat"),
-                           np2pg.sin.op(self._graph["p_hat"]))
-    x0 = np2pg.multiply.op(self.compute(0, "a_oln"),
-                           np2pg.cos.op(self._graph["p_hat"]))
-    p0 = np2pg.add.op(self._graph["p_oln"], np2pg.arctan2.op(y0, x0))
+    # Phase at the beginning of the time axis
+    phase = np2pg.multiply.op(self._graph["w_hat"], self._graph["t"])
+    phase = np2pg.add.op(phase, self._graph["p_hat"])
+    y0 = np2pg.multiply.op(self._graph["a_hat"], np2pg.sin.op(phase))
+    x0 = np2pg.multiply.op(self._graph["a_oln"], np2pg.cos.op(phase))
+    p0 = np2pg.multiply.op(self._graph["w_oln"], self._graph["t"])
+    p0 = np2pg.add.op(p0, self._graph["p_oln"])
+    p0 = np2pg.add.op(p0, np2pg.arctan2.op(y0, x0))
+    p0 = pg.op(utils.NamedObject(_first, "first")).op(p0)
     # Instantenous Phase
     p = pg.op(integrate.cumulative_trapezoid).op(f, self._graph["t"], initial=0)
     p = np2pg.add.op(p, p0)
-- 
2.43.0


From 7e39637e35d41b1334568bb17153931e06b185b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 08/64] fix: copy and pickle beats and gammatone filterbanks

Looking up attributes before the object is initialized never ended
---
 sample/beatsdrop/__init__.py |  2 +-
 sample/psycho.py             | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 5b77db4..d5ed29d 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -188,7 +188,7 @@ class Beat:
                        {self._graph["t"]: t})
 
   def __getattr__(self, key: str):
-    if key in self._graph:
+    if key in vars(self).get("_graph", ()):
       return functools.partial(self.compute, output=key)
     else:
       raise AttributeError(
diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..956712d 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -753,11 +753,14 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
-    return super().__getattr__(key)
+    # Filters may not be there, yet, when copying
+    if "_filters" in vars(self) and not key.startswith("__"):
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
+    raise AttributeError(
+        f"'{type(self).__name__}' object has no attribute '{key}'")
 
   class PrecomputedIRBank:
     """Precomputed IR bank for a :class:`GammatoneFilterbank`
-- 
2.43.0


From bc29a82af53d98bba2a925b6f0c15036dc12e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 09/64] fix: accept the documented column vectors of time in
 BeatRegression.fit

---
 sample/beatsdrop/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index d74f22e..356d958 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -280,6 +280,7 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
       BeatRegression: self"""
     if self.linear_regressor is None:
       self.linear_regressor = linear_model.LinearRegression()
+    t = np.reshape(t, newshape=(-1,))
     self.res_fn_ = self._residual_fn(t, a, f)
     self.initial_params_ = self.params_init(t, a, f, self.res_fn_, self)
     self.bounds_ = self.bounds(t, a, f, self.initial_params_, self)
-- 
2.43.0


From a2fbbb585561256956ecd2b9bb099a63d78d2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 10/64] fix: nested and empty lists as inputs of numpy-like
 functions

---
 sample/utils/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..3bb1525 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -125,6 +125,8 @@ def _result_type(*args):
   """Custom wrapper for :func:`numpy.result_type`"""
   ts = []
   for a in args:
+    if isinstance(a, (list, tuple)):
+      a = np.asarray(a)
     try:
       t = [np.result_type(a)]
     except TypeError:
-- 
2.43.0


From ee8daf8578372c9f2a67e06ab660b7836019db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 11/64] fix: f2bin of scalars and of the frequencies of bins

---
 sample/utils/dsp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ab909e1..f0d02ae 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -242,8 +242,10 @@ def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
   Returns:
     array: Bin indices"""
   out = np.multiply(f, nfft / fs)
-  out = np.ceil(out, out=out)
-  return out.astype(int)
+  # Do not let rounding errors move a bin's own frequency to the next bin
+  b = np.rint(out)
+  b = np.where(np.isclose(out, b, rtol=1e-12, atol=0), b, np.ceil(out))
+  return b.astype(int)[()]
 
 
 @utils.numpy_out(dtype=float)
-- 
2.43.0


From d729cec1adb813c011a72f99108793bb1f579251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 12/64] fix: normalize integer arrays

---
 sample/utils/dsp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index f0d02ae..ab26390 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -10,7 +10,7 @@ from sample import utils
 
 
 @utils.function_with_variants(key="mode", default="peak", this="peak")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def normalize(
     x: np.ndarray,
     mode: str = "peak",  # pylint: disable=W0613
@@ -28,7 +28,7 @@ def normalize(
 
 
 @utils.function_variant(normalize, "rms")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def _normalize_rms(x: np.ndarray,
                    out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have zero mean and unitary variance
@@ -44,7 +44,7 @@ def _normalize_rms(x: np.ndarray,
 
 
 @utils.function_variant(normalize, "range")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def _normalize_range(x: np.ndarray,
                      out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have values betwen zero and one
-- 
2.43.0


From 3ca5f8eb78eebcb97c44b1c942b755a7f84cc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 13/64] fix: a_weighting in decibels into a given array

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 956712d..919209e 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,8 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    out = dsp_utils.a2db(a_weighting(f, db=False, out=out), out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2)
   # f^2 + 107.7^2
-- 
2.43.0


From 72a223abd24254a4cc2abd84d78db4a3c50e256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:51 +0000
Subject: [PATCH 14/64] fix: envelope of gammatone filters at integer times and
 far before the onset

---
 sample/psycho.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 919209e..9b70a4f 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -597,12 +597,15 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
+    dtype = np.result_type(np.asarray(t), float)
+    tmp = np.empty_like(t, dtype=dtype)
     # t + t_c
-    t_ = np.empty_like(t)
+    t_ = np.empty_like(t, dtype=dtype)
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
+    # Null before -t_c. Avoid overflows in the exponential
+    np.maximum(t_, 0, out=t_)
     # u(t + t_c) * (t + t_c)^(n-1)
     np.power(t_, n - 1, out=tmp)
     np.multiply(tmp, out, out=out)
-- 
2.43.0


From 8e9da38c47591341046530fee79bd14b9a66e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 15/64] fix: gammatone wave function overwriting its own time
 axis

---
 sample/psycho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/psycho.py b/sample/psycho.py
index 9b70a4f..359afb3 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -650,6 +650,8 @@ class GammatoneFilter:
 
     Returns:
       array: The wave function evaluated at :data:`t`"""
+    if out is t:
+      t = np.copy(t)
     out = self.envelope(t,
                         out=out,
                         **({
-- 
2.43.0


From dec0adda68a5a89a0b6480694c17f0f5fe4cb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 16/64] fix: gammatone wave function and impulse response at a
 single time

---
 sample/psycho.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/psycho.py b/sample/psycho.py
index 359afb3..24c1dac 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -666,6 +666,8 @@ class GammatoneFilter:
       np.exp(tmp, out=tmp)
     else:
       np.cos(tmp, out=tmp)
+    if not isinstance(out, np.ndarray):
+      return np.multiply(out, tmp)
     np.multiply(out, tmp, out=out)
     return out
 
@@ -701,6 +703,8 @@ class GammatoneFilter:
       a = (1 if a is None else a) / np.sqrt(
           np.real(np.dot(out, np.conjugate(out))))
     if a is not None:
+      if not isinstance(out, np.ndarray):
+        return np.multiply(a, out)
       np.multiply(a, out, out=out)
     return out
 
-- 
2.43.0


From 13dcfb43d948cebefbef4c5580d2ebfc31e05cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 17/64] fix: t60 of first-order gammatone filters

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 24c1dac..8376519 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -531,7 +531,8 @@ class GammatoneFilter:
     p = dsp_utils.db2a(floor) * self.envelope(hi)
     e = None
     if initial_range is None:
-      initial_range = 2 * (hi + self.t_c)
+      # First-order filters have no delay
+      initial_range = 2 * self.raw_group_delay or 1 / self.bandwidth
 
     def _foo(t):
       return self.envelope(t) - p
-- 
2.43.0


From 0cad634bca120b6d0c6a4ac0a7b6b0709bc6f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 18/64] fix: last samples of strided cochleagrams

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 8376519..a225df3 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -862,7 +862,8 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = np.minimum(x_pad.size - x_begins,
+                             x.size + 2 * (ir_sizes - 1) + offsets_x)
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From 3abe1500646e2a2d180f4f18e39e9a9269312fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 19/64] fix: coefficient of the quadratic equivalent
 rectangular bandwidth

---
 sample/psycho.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a225df3..d24938c 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -237,10 +237,10 @@ def erb(
 
   Returns:
     array: Equivalent recrangular bandwidths at the given frequencies"""
-  # 0.009339 * f
+  # 0.09339 * f
   tmp = np.empty_like(out)
-  np.multiply(0.009339, f, out=tmp)
-  # 6.23e-6 * f^2 + 0.009339 * f + 28.52
+  np.multiply(0.09339, f, out=tmp)
+  # 6.23e-6 * f^2 + 0.09339 * f + 28.52
   np.square(f, out=out)
   np.multiply(6.23e-6, out, out=out)
   np.add(out, tmp, out=out)
-- 
2.43.0


From f7df680ddae93af701461431f2e645a953ba5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:54 +0000
Subject: [PATCH 20/64] fix: lp_distance between integer, mixed or complex
 arrays

---
 sample/evaluation/metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/evaluation/metrics.py b/sample/evaluation/metrics.py
index 3c58580..bebdf01 100644
--- a/sample/evaluation/metrics.py
+++ b/sample/evaluation/metrics.py
@@ -21,11 +21,11 @@ def lp_distance(x, y, p: float = 1):
 
   Returns:
     float: The distance"""
-  tmp = np.empty_like(x)
-  np.subtract(x, y, out=tmp)
-  np.abs(tmp, out=tmp)
+  x, y = np.asarray(x), np.asarray(y)
+  # Integer arrays could overflow, and can't store non-integer results
+  tmp = np.abs(np.subtract(x, y, dtype=np.result_type(x, y, float)))
   if p != 1:
-    np.power(tmp, p, out=tmp)
+    tmp = np.power(tmp, p)
   d = np.sum(tmp)
   if p != 1:
     d = np.power(d, 1 / p)
-- 
2.43.0


From 5557a2307b839a85c192b66ebd94920d7111c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 21/64] fix: parameters to optimize were ignored without a
 remapper

---
 sample/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..27f6dc7 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -139,8 +139,9 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
+    kwargs = dict(**dict(zip(self.dimensions, args)), **kwargs)
     if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
+      kwargs = self.remap(**kwargs)
     return kwargs
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
-- 
2.43.0


From 223ef71760688627ec16125aeac2770e36ec505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 22/64] fix: deprecated constructor argument of SAMPLEOptimizer

---
 sample/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 27f6dc7..828b630 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -94,8 +94,8 @@ class SAMPLEOptimizer:
       "sample_fn",
       convert=lambda _, **kwargs:
       ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+       (**kwargs.get("remap", sample_kwargs_remapper)
+        (**utils.default_kws(kwargs.get("sample_kw", None))))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
-- 
2.43.0


From 30e3ab090f3e2a5bd2c46af5265d7321701dff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 23/64] fix: resynthesis with no phases or with a sequence of
 phases

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index ead64d6..c2a34ec 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -313,8 +313,9 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       else:
         n_modes = self.max_n_modes
     m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
-    if "phases" in kwargs and not isinstance(kwargs["phases"], str):
-      kwargs["phases"] = kwargs["phases"][m_ord]
+    phases = kwargs.get("phases", None)
+    if phases is not None and not isinstance(phases, str):
+      kwargs["phases"] = np.asarray(phases)[m_ord]
     return additive_synth(x, self.freqs_[m_ord], self.decays_[m_ord],
                           self.amps_[m_ord], **kwargs)
 
-- 
2.43.0


From d869b8a7604af4cb0a8647d00599e1853413d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 24/64] fix: deprecated tracker class argument of sinusoidal
 models

---
 sample/sms/sm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index b332441..72ffcf3 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -204,7 +204,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("min_sine_dur", "tracker__min_sine_dur")
   @utils.deprecated_argument(
       "safe_sine_len",
-      convert=lambda _, **kwargs:
+      convert=lambda *_, **kwargs:
       ("tracker__min_sine_dur",
        max(-1 if kwargs["safe_sine_len"] is None else kwargs["safe_sine_len"],
            kwargs.get("tracker__min_sine_dur", 1))),
@@ -213,8 +213,8 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
-                             ("tracker", sine_tracker_cls()))
+                             convert=lambda *_, **kwargs:
+                             ("tracker", kwargs["sine_tracker_cls"]()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
   @utils.deprecated_argument("h", "tracker__h")
-- 
2.43.0


From 1d184e162abb370328e8428beaa8d65c195f6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 25/64] fix: GUI settings parse NaN and infinite text as
 invalid numbers

---
 sample/widgets/settings.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..92b89f2 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -1,6 +1,7 @@
 """Settings tab"""
 import functools
 import inspect
+import math
 from tkinter import messagebox
 from typing import Any, Callable, Dict, Optional, Sequence, Tuple, Type, Union
 
@@ -39,7 +40,24 @@ def try_func(func: Callable,
   return func_
 
 
-try_float = try_func(float, ValueError, 0.)
+def number(x: str) -> float:
+  """Parse a number from a string
+
+  Args:
+    x (str): Input number encoded as string
+
+  Returns:
+    float: The number
+
+  Raises:
+    ValueError: If the string does not encode a number"""
+  x = float(x)
+  if math.isnan(x):
+    raise ValueError("Not a number")
+  return x
+
+
+try_float = try_func(number, ValueError, 0.)
 
 
 def custom_bool(x: str) -> bool:
@@ -66,10 +84,10 @@ def strip_time_parse(x: str) -> Optional[float]:
     float or None: If the string encodes a positive float, then that
     float is returned, else :data:`None`"""
   try:
-    x = float(x)
+    x = number(x)
   except ValueError:
     return None
-  if x <= 0:
+  if x <= 0 or math.isinf(x):
     return None
   return x
 
@@ -101,7 +119,7 @@ def float_clip(left: Optional[float] = None,
                   right: Optional[float] = right,
                   default: float = default):
     try:
-      x = float(x)
+      x = number(x)
     except ValueError:
       return default
     if left is not None:
@@ -123,10 +141,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(number(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From f48972d07258f0498de89ed8e1732571f45724ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 26/64] fix: GUI settings do not hang on a window too large for
 any window type

---
 sample/widgets/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 92b89f2..6e8b95f 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -201,8 +201,10 @@ def postprocess_windows(sinusoidal__n: int, wsize: int,
     except ValueError:
       if wsize < 1:
         wsize = 4096
-      else:
+      elif wtype != "blackman":
         wtype = "blackman"
+      else:
+        raise
       continue
     else:
       break
-- 
2.43.0


From ce75f331cd24135fee0b91e9c9eba34786820606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 27/64] fix: DFT with a window of one sample

---
 sample/sms/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/dsp.py b/sample/sms/dsp.py
index 7e28d9a..df511d7 100644
--- a/sample/sms/dsp.py
+++ b/sample/sms/dsp.py
@@ -29,7 +29,7 @@ def dft(
   xw = x * w
   x_z = np.zeros(n)
   x_z[:w.size - hw] = xw[hw:]
-  x_z[-hw:] = xw[:hw]
+  x_z[n - hw:] = xw[:hw]
 
   x_fft = fft.rfft(x_z)
   ax = np.abs(x_fft)
-- 
2.43.0


From 2a662015b407f9bc1f870ccfd0aea79c7af4b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 28/64] fix: GUI loads WAV files of unsigned and floating point
 samples

---
 sample/widgets/audioload.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..67267c6 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -166,7 +166,12 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
+        if np.issubdtype(x.dtype, np.unsignedinteger):
+          # Unsigned samples are offset by half of the range
+          half = np.iinfo(x.dtype).max // 2 + 1
+          x = (x.astype(float) - half) / half
+        elif np.issubdtype(x.dtype, np.integer):
+          x = x / -np.iinfo(x.dtype).min
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From 7d0c35f93c42a909fab9e4d30d9aeda483a92261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 29/64] fix: GUI shows an error when loading audio without
 samples

---
 sample/widgets/audioload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 67267c6..89d2ab4 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -160,6 +160,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         self.filedialog_dir_save = self.filedialog_dir
       try:
         sr, x = wavfile.read(filename)
+        if not np.size(x):
+          raise ValueError(f"No audio samples in file: {filename}")
       except Exception as e:  # pylint: disable=W0703
         logging.error("Error loading audio: [%s] %s", type(e).__name__, e)
         messagebox.showerror(
-- 
2.43.0


From 274f7ed4cb17315fc713f91cefde403ce0d56e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 30/64] fix: GUI keeps all the audio when no onset is detected

---
 sample/widgets/audioload.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 89d2ab4..cee9a42 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -186,7 +186,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     """Automatically trim audio via onset detection"""
     onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
     logging.debug("Onsets: %s", onsets)
-    onsets = np.array([*onsets, self.audio_x.size])
+    # If no onset is detected, then keep all the audio
+    onsets = np.array([*(onsets if onsets.size else (0,)), self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
     self.audio_trim_start = onsets[onset_max_i]
-- 
2.43.0


From 06e196a7126e875d482daac2d19dabdff0cba18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 31/64] fix: GUI trim times are rounded to the nearest sample,
 whatever their value

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index cee9a42..91f588b 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -66,6 +66,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       def trim_entry_cbk_(*args, **kwargs):  # pylint: disable=W0613
         try:
           tval = float(tvar.get())
+          if np.isnan(tval):
+            raise ValueError("not a number")
         except Exception as e:  # pylint: disable=W0703
           logging.warning("Error parsing trim %s value: %s",
                           "start" if start else "stop", e)
@@ -214,7 +216,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = int(
+            np.rint(np.clip(value * self.audio_sr, 0, self.audio_x.size)))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 461e30399c4bbff75f3c899b3615b3cd101f5651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 32/64] fix: GUI ignores mouse events outside of the audio plot

---
 sample/widgets/audioload.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 91f588b..c5b3212 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -235,6 +235,9 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
+      elif event.xdata is None:
+        logging.debug("Press aborted: outside of the axes")
+        self._trim_side = None
       elif self.audio_loaded and self._trim_side is None:
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
@@ -247,6 +250,9 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Release aborted: toolbar on")
         self._trim_side = None
+      elif event.xdata is None:
+        logging.debug("Release aborted: outside of the axes")
+        self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
         self.set_trim(
             event.xdata,
-- 
2.43.0


From 07ef7550d7c576c91d3a7dccb7d3e2239a3af040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 33/64] fix: GUI does not export the resynthesis of previous
 audio

---
 sample/widgets/audioload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index c5b3212..6c9bb97 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -180,6 +180,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
           x = np.mean(x, axis=-1)
         self.audio_x = x
         self.audio_sr = sr
+        self.audio_resynth_x = None
         self.auto_trim()
         self._plt_lims_valid = False
         self.update_plot()
@@ -218,6 +219,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if not samples:
         value = int(
             np.rint(np.clip(value * self.audio_sr, 0, self.audio_x.size)))
+      # The resynthesis is for the previous region
+      self.audio_resynth_x = None
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 552ff77e1a7b0fe1690c2410f05c7b1245766164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 34/64] fix: GUI analysis of audio shorter than a window

---
 sample/widgets/analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..0ba91b4 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -131,10 +131,12 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
+    # No frame is saved if the audio is too short
+    frames = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    stft = np.reshape([mx for mx, _ in frames], (len(frames), m.n // 2 + 1)).T
     if m.tracker.reverse:
       stft = np.fliplr(stft)
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    tmax = len(frames) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
-- 
2.43.0


From 155fb482e26cd8f28e52b44f1b9256330295623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 35/64] fix: synthesis at one time of an array gives an array

---
 sample/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index c2a34ec..5989d28 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -382,4 +382,5 @@ def additive_synth(x,
   dec = col(x) @ (-2 / row(decays))
   np.exp(dec, out=dec)
   amp = col(amps)
-  return np.squeeze((dec * osc) @ amp)
+  # One sample per time: only a scalar time gives a scalar
+  return np.reshape((dec * osc) @ amp, newshape=-1 if np.ndim(x) else ())
-- 
2.43.0


From 833f5b386adf34d1281264457ed627c22d006f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 36/64] fix: track plots of analyses without tracks or frames

---
 sample/plots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..877bd50 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -48,10 +48,12 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   reverse = getattr(m.tracker, "reverse", False)
   if reverse:
     if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+      tmax = len(m.intermediate.get_state(deepcopy=False).get(
+          "stft", ())) * m.h / m.fs
     else:
-      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                 for track in m.tracks_)
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
     if reverse:
-- 
2.43.0


From 6b892e8c26ba8bc2c13ccf03bc7b85d293725370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 37/64] fix: beat comparison plot of one model or on a list of
 axes

---
 sample/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/plots.py b/sample/plots.py
index 877bd50..f265dbe 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -291,11 +291,12 @@ def beatsdrop_comparison(
     shape = 3, len(beatsdrops)
     if transpose:
       shape = reversed(shape)
-    axs = fig.subplots(*shape, sharex=True)
+    axs = fig.subplots(*shape, sharex=True, squeeze=False)
     if transpose:
       axs = axs.T
   else:
     transpose = False
+    axs = np.asarray(axs)
     if fig is None:
       fig = axs[0][0].get_figure()
 
-- 
2.43.0


From ca2764ab17d8b5f7d93317ef55c5d2922cfbbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 38/64] fix: 3D track plot reverses the time of reversed
 analyses

---
 sample/plots.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index f265dbe..91bfec6 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -29,6 +29,29 @@ def _is_beat(m: SAMPLE, track_i: int):
       "decision"][track_i]
 
 
+def _track_times(m: sm.SinusoidalModel):
+  """Time axes of the tracks detected by the model
+
+  Args:
+    m (sample.sms.sm.SinusoidalModel): Trained sinusoidal model
+
+  Yields:
+    array: The time axis of each track, in seconds"""
+  tmax = 0
+  reverse = getattr(m.tracker, "reverse", False)
+  if reverse:
+    if m.intermediate.save:
+      tmax = len(m.intermediate.get_state(deepcopy=False).get(
+          "stft", ())) * m.h / m.fs
+    else:
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
+  for track in m.tracks_:
+    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+    yield tmax - t_x if reverse else t_x
+
+
 def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   """Plot sinusoidal tracks detected by the model on two axes,
   one for frequency and one for magnitude
@@ -44,20 +67,7 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     _, ax = plt.subplots(1, 2, sharex=True)
-  tmax = 0
-  reverse = getattr(m.tracker, "reverse", False)
-  if reverse:
-    if m.intermediate.save:
-      tmax = len(m.intermediate.get_state(deepcopy=False).get(
-          "stft", ())) * m.h / m.fs
-    else:
-      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                  for track in m.tracks_),
-                 default=0)
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
-    if reverse:
-      t_x = tmax - t_x
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _track_times(m))):
     b = _is_beat(s, i)
     ax[0].plot(t_x, track["freq"], "--" if b else "-", **kwargs)
     ax[1].plot(t_x, track["mag"], "--" if b else "-", **kwargs)
@@ -88,8 +98,7 @@ def sine_tracking_3d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     ax = plt.axes(projection="3d")
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _track_times(m))):
     ax.plot(t_x, track["freq"], track["mag"], "--" if _is_beat(s, i) else "-")
 
   ax.set_xlabel("time (s)")
-- 
2.43.0


From 1ae545b0f8546c699802f57e1806ca0aa49d6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 39/64] fix: resynthesis plot of the default transform without
 decibel

---
 sample/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/plots.py b/sample/plots.py
index 91bfec6..e13b516 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -249,6 +249,8 @@ def resynthesis(x: np.ndarray,
     flim, x_tf = tf_fun(x_m, fs=fs)
     if db_floor is not None:
       x_tf = dsp_utils.complex2db(x_tf, floor=db_floor, floor_db=True)
+    elif np.iscomplexobj(x_tf):
+      x_tf = np.abs(x_tf)
     tf_plot(x_tf, tlim=t[[0, -1]], flim=flim, ax=axs[i + 1], **tf_kws_)
     axs[i + 1].set_title(k)
     if foreach is not None:
-- 
2.43.0


From 6c01cab7751e8bca864595704e51234ddee94c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 40/64] fix: changelog of development versions was not found

---
 scripts/utils/extract_changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils/extract_changelog.py b/scripts/utils/extract_changelog.py
index f416cde..d08e814 100644
--- a/scripts/utils/extract_changelog.py
+++ b/scripts/utils/extract_changelog.py
@@ -52,7 +52,7 @@ def main(*argv):
   args, _ = ArgParser(description=__doc__).parse_known_args(argv)
   filename = "".join(
       itertools.takewhile(lambda c: c == "_" or c.isdigit(),
-                          args.version.replace(".", "_")))
+                          args.version.replace(".", "_"))).rstrip("_")
   filepath = os.path.join(args.dir, f"v{filename}.md")
   with open(filepath, mode="r", encoding="utf-8") as fin:
     with open_if_any(args.output, mode="w") as fout:
-- 
2.43.0


From 91dfb59fbc846e742327e06a3cb8014ffa12936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 41/64] fix: notebook formatter loses commands with styles that
 move comments

---
 scripts/utils/yapf_nbformat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 4bbbc07..1bc6675 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -18,7 +18,7 @@ _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
 _command_escape_comment = "  # escaped-for-yapf"
-_command_escape_pattern = re.compile(r"\s*pass  # (!|%).*" +
+_command_escape_pattern = re.compile(r"(\s*)pass\s*# ((?:!|%).*)" +
                                      _command_escape_comment)
 
 
@@ -100,11 +100,10 @@ def _unwrap_command_line(s: str) -> str:
 
   Returns:
     str: Line to comment"""
-  if not _command_escape_pattern.fullmatch(s):
+  match = _command_escape_pattern.fullmatch(s)
+  if not match:
     return s
-  indent = "".join(itertools.takewhile(lambda c: c.isspace(), s))
-  cmd = s[(len(indent) + 8):-len(_command_escape_comment)]
-  return indent + cmd
+  return "".join(match.groups())
 
 
 def format_nb(filepath: str,
-- 
2.43.0


From 2aad0369769621f77139dec2708e665a969e7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 42/64] fix: notebook formatter formats the body of cell magics
 of other languages

---
 scripts/utils/yapf_nbformat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 1bc6675..f16ccbe 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -17,6 +17,8 @@ logger = logging.getLogger("YAPF-Notebook")
 _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
+_cell_magic_pattern = re.compile(
+    r"\s*%%(?!(?:capture|prun|time|timeit)\b)\w.*", flags=re.DOTALL)
 _command_escape_comment = "  # escaped-for-yapf"
 _command_escape_pattern = re.compile(r"(\s*)pass\s*# ((?:!|%).*)" +
                                      _command_escape_comment)
@@ -134,6 +136,7 @@ def format_nb(filepath: str,
   cells = filter(lambda c: not c[1]["source"].isspace(), cells)
   cells = filter(
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
+  cells = filter(lambda c: not _cell_magic_pattern.match(c[1]["source"]), cells)
   for i, cell in cells:
     src_changed = False
     new_src = "\n".join(map(_wrap_command_line, cell["source"].splitlines()))
-- 
2.43.0


From b6c26a5c8312d10ea8a77181e08bef2fefe41cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 43/64] fix: notebook formatter splits strings at unicode line
 separators

---
 scripts/utils/yapf_nbformat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index f16ccbe..da89827 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -139,7 +139,7 @@ def format_nb(filepath: str,
   cells = filter(lambda c: not _cell_magic_pattern.match(c[1]["source"]), cells)
   for i, cell in cells:
     src_changed = False
-    new_src = "\n".join(map(_wrap_command_line, cell["source"].splitlines()))
+    new_src = "\n".join(map(_wrap_command_line, cell["source"].split("\n")))
     try:
       new_src, _ = yapf_api.FormatCode(new_src, style_config=style)
     except yapf_api.errors.YapfError as e:
@@ -147,7 +147,8 @@ def format_nb(filepath: str,
       if se not in new_src and tag_errors:
         new_src += "\n" + se
         src_changed = True
-    new_src = "\n".join(map(_unwrap_command_line, new_src.splitlines()))
+    new_src = "\n".join(
+        map(_unwrap_command_line, re.sub(r"\n\Z", "", new_src).split("\n")))
     src_changed = src_changed or cell["source"] != new_src
     if src_changed:
       # pylint: disable=W0125
-- 
2.43.0


From 3fe6d62b07e9c11962fa49b7d68a7b1f08dbfe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 44/64] fix: parameter viewer loses the text between two
 documentation commands

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 7e309ad..28faad0 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -41,7 +41,7 @@ class CollapsibleModelParams(ipd.HTML):
     model: Model of which the parameters should be displayed"""
 
   # Regex for sphinx commands
-  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`.+`")
+  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`[^`\n]+`")
   _SINGLE_WS_REGEX = re.compile(r"\s")
 
   @staticmethod
-- 
2.43.0


From 937d4edeb8bb6f7a543a7774295f5fa9a52c248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 45/64] fix: parameter viewer of models with a class as a
 parameter

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 28faad0..a9f047a 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -97,7 +97,7 @@ class CollapsibleModelParams(ipd.HTML):
     docs = CollapsibleModelParams._parse_docs(model.__doc__)
     for k, v in filter(lambda t: len(t[0].split("__", 1)) == 1,
                        model.get_params().items()):
-      is_model = hasattr(v, "get_params")
+      is_model = hasattr(v, "get_params") and not isinstance(v, type)
       if is_model:
         lines.append("<button type=\"button\" class=\"collapsible\">")
       else:
-- 
2.43.0


From c29a19eba79e9d938c0408bf752e8aed6e8f298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 46/64] fix: parameter viewer reads documentation as markup

---
 sample/ipython.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index a9f047a..73a88b8 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -1,6 +1,7 @@
 """Utilities for IPython"""
 import contextlib
 import functools
+import html
 import itertools
 import json
 import os
@@ -104,7 +105,7 @@ class CollapsibleModelParams(ipd.HTML):
         lines.append("<div class=\"noncollapsible\">")
       rk = re.compile("^" + k + r"\W")
       d = list(filter(rk.match, docs))
-      lines.extend(d if d else [k])
+      lines.extend(html.escape(s, quote=False) for s in (d if d else [k]))
       if is_model:
         lines.append("</button>")
         lines.append("<div class=\"content\">")
-- 
2.43.0


From d90f458b2aeefaaf972cd27c9f1cbe6844042801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 47/64] fix: parameter viewer loses documentation after
 indented blank lines

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 73a88b8..abd8954 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -64,7 +64,7 @@ class CollapsibleModelParams(ipd.HTML):
     docs = docs.split("Args:", 1)
     if len(docs) < 2:
       return []
-    docs = filter(lambda s: s, docs[1].split("\n"))
+    docs = filter(str.strip, docs[1].split("\n"))
     docs_ = []
     s = []
     indent = np.inf
-- 
2.43.0


From 787f57f824e567c23b105d0b84d10e80ba85070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 48/64] fix: evaluation script does not save new results of
 resumed runs

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 6fcf8e9..ea1dc8f 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -532,7 +532,7 @@ def save_dataframe(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
-                                    not args.resume):
+                                    not args.resume or args.seeds):
     logger.info("Writing CSV file: '%s'", args.csv_path)
     args.df.to_csv(args.csv_path)
   # Clean checkpoints
-- 
2.43.0


From 8e62f97f789ff5abeae165a9e52d9ebffa1df1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 49/64] fix: evaluation script interrupted while saving
 corrupts the results

---
 scripts/beatsdrop/evaluation.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index ea1dc8f..7a414cb 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -399,6 +399,19 @@ def list2df(results: List[BeatsDROPEvalResult], fieldnames) -> "pd.DataFrame":
   return pd.DataFrame(data=data)
 
 
+def save_csv(df: "pd.DataFrame", path: str, args: argparse.Namespace):
+  """Save a dataframe to a CSV file. If interrupted, the previous contents of
+  the file are not modified
+
+  Args:
+    df (DataFrame): Dataframe
+    path (str): Path of the CSV file
+    args (Namespace): CLI arguments"""
+  tmp_path = f"{args.output}.tmp"
+  df.to_csv(tmp_path)
+  os.replace(tmp_path, path)
+
+
 def prepare_folders(args: argparse.Namespace):
   """Prepare folders for output, WAV and log files
 
@@ -516,7 +529,7 @@ def run_tests(args: argparse.Namespace):
             it.set_description(f"Checkpoint: '{args.last_file}'")
           else:
             logger.info("Writing checkpoint: '%s'", args.last_file)
-          list2df(args.results, args.fieldnames).to_csv(args.last_file)
+          save_csv(list2df(args.results, args.fieldnames), args.last_file, args)
   return args
 
 
@@ -534,7 +547,7 @@ def save_dataframe(args: argparse.Namespace):
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume or args.seeds):
     logger.info("Writing CSV file: '%s'", args.csv_path)
-    args.df.to_csv(args.csv_path)
+    save_csv(args.df, args.csv_path, args)
   # Clean checkpoints
   if args.ckpt_path is not None:
     for fn in glob.glob(args.ckpt_path("*")):
-- 
2.43.0


From 404171133c4585cd757206c80c9388868d22128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 50/64] fix: evaluation script output paths without folder or
 with glob characters

---
 scripts/beatsdrop/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 7a414cb..cceadb5 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -424,7 +424,7 @@ def prepare_folders(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   # Make output file folder
   if args.output is not None:
-    os.makedirs(os.path.dirname(args.output), exist_ok=True)
+    os.makedirs(os.path.dirname(args.output) or os.curdir, exist_ok=True)
   # Make WAV folder
   if args.wav is None:
     args.wav_path = None
@@ -456,10 +456,11 @@ def load_results(args: argparse.Namespace):
   args.checkpoints = []
   if args.output is not None:
     args.csv_path = f"{args.output}.csv"
-    args.ckpt_path = f"{args.output}.ckpt-{{}}".format
+    args.ckpt_path = functools.partial("{}.ckpt-{}".format, args.output)
+    args.ckpt_glob = f"{glob.escape(args.output)}.ckpt-*"
     if args.resume:
       # Find most recent checkpoint
-      for fn in glob.glob(args.ckpt_path("*")):
+      for fn in glob.glob(args.ckpt_glob):
         try:
           pd.read_csv(fn)
         except Exception:  # pylint: disable=W0703
@@ -550,7 +551,7 @@ def save_dataframe(args: argparse.Namespace):
     save_csv(args.df, args.csv_path, args)
   # Clean checkpoints
   if args.ckpt_path is not None:
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in glob.glob(args.ckpt_glob):
       logger.debug("Deleting checkpoint: '%s'", fn)
       os.remove(fn)
   return args
-- 
2.43.0


From 9f489fa94715d0cf09d4e365ff431489ea9b87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 51/64] fix: evaluation script with checkpoints but no output
 path

---
 scripts/beatsdrop/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index cceadb5..3f7deed 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -523,7 +523,8 @@ def run_tests(args: argparse.Namespace):
         if r is not None:
           args.results[r.seed] = r
         # Save checkpoint
-        if args.checkpoint is not None and (i + 1) % args.checkpoint == 0:
+        if args.ckpt_path is not None and args.checkpoint is not None and (
+            i + 1) % args.checkpoint == 0:
           args.last_checkpoint += 1
           args.last_file = args.ckpt_path(args.last_checkpoint)
           if args.tqdm:
-- 
2.43.0


From 3d52cd06c91c0426ac0be6a889a24a1fa73d4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 52/64] fix: benchmark filterbank ignores the sampling
 frequency

---
 scripts/cim22/cochleagram_setup.py.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cim22/cochleagram_setup.py.in b/scripts/cim22/cochleagram_setup.py.in
index ac64c3d..282ff50 100644
--- a/scripts/cim22/cochleagram_setup.py.in
+++ b/scripts/cim22/cochleagram_setup.py.in
@@ -8,5 +8,5 @@ np.random.seed(42)
 x = np.random.randn(np.round(fs * dur).astype(int))
 stride = max(1, np.round(fs * {stride_time}).astype(int))
 
-fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=44100,
+fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=fs,
                                                               analytic=True)
-- 
2.43.0


From 91ecb4fb47e212b4282370213365d24073cc0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 53/64] fix: example script reads unsigned WAV files with
 infinite samples

---
 scripts/beatsdrop/example.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index b06f88f..71f027f 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -134,7 +134,10 @@ def load_audio(args, dtype=np.float64):
   if np.issubdtype(args.x.dtype, np.integer):
     logger.debug("Converting to %s input of type %s", dtype.__name__,
                  args.x.dtype)
-    args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
+    half = (np.iinfo(args.x.dtype).max + 1) // 2 if np.issubdtype(
+        args.x.dtype, np.unsignedinteger) else 0
+    args.x = np.true_divide(np.subtract(args.x, half, dtype=dtype),
+                            half or -np.iinfo(args.x.dtype).min)
   if np.ndim(args.x) > 1:
     logger.debug("Converting to mono from %d channels", args.x.shape[1])
     args.x = np.mean(args.x, axis=-1)
-- 
2.43.0


From f960a739fc02ab65527f0a3878e7c0a86fddb1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 54/64] fix: example script crops to nothing when the end is
 past the audio

---
 scripts/beatsdrop/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index 71f027f..13a124c 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -171,7 +171,7 @@ def crop_audio(args):
     if i1 is None:
       i1 = min(ons[np.greater(ons, i0)], default=args.x.size)
     if i0 is None:
-      i0 = max(ons[np.less(ons, i1)], default=0)
+      i0 = max(ons[:-1][np.less(ons[:-1], i1)], default=0)
   else:
     i0 = int(args.crop_start * args.fs)
     i1 = int(args.crop_end * args.fs)
-- 
2.43.0


From c58f5fbefc05c0fe2ff88fd325e56c155ce2e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 55/64] fix: decision report without progress bar saved
 uninitialized feature importances

---
 scripts/beatsdrop/evaluation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 3f7deed..b38cb67 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -856,13 +856,13 @@ def decision_report(args):
     it = enumerate(itertools.islice(rkf.split(df[features]), n_samples))
     if args.tqdm:
       it = tqdm.tqdm(it, total=n_samples, desc="Decision errors analysis")
-      for i, (train_index, _) in it:
-        for j, t in enumerate(targets):
-          dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
-          idx = 2 * i + j
-          for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
-            importances[k][idx] = v
-          importances["target"][idx] = t
+    for i, (train_index, _) in it:
+      for j, t in enumerate(targets):
+        dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
+        idx = 2 * i + j
+        for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
+          importances[k][idx] = v
+        importances["target"][idx] = t
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-- 
2.43.0


From 99539c6d5d618e6c602fe7467348346a6d735d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 56/64] fix: evaluation reports were about previous results
 after computing new ones

---
 scripts/beatsdrop/evaluation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index b38cb67..dd5639d 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -548,6 +548,10 @@ def save_dataframe(args: argparse.Namespace):
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume or args.seeds):
+    # Analyses of previous results are no longer valid
+    for s in ("rankresult.dat", "errors_feature_importance.csv"):
+      if os.path.exists(f"{args.output}_{s}"):
+        os.remove(f"{args.output}_{s}")
     logger.info("Writing CSV file: '%s'", args.csv_path)
     save_csv(args.df, args.csv_path, args)
   # Clean checkpoints
-- 
2.43.0


From ff9492e289e3ff56bab7b5d5c48de08b823eb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 57/64] fix: a report interrupted while saving its data could
 not be resumed

---
 scripts/beatsdrop/evaluation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index dd5639d..7e62d05 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -732,7 +732,9 @@ def statistical_tests(args: argparse.Namespace):
     args.rank_result = pickle.read_pickled(args.rr_path)
   if args.rr_path is not None and not os.path.exists(args.rr_path):
     logger.info("Saving test results: '%s'", args.rr_path)
-    pickle.save_pickled(args.rank_result, args.rr_path)
+    tmp_path = f"{args.output}.tmp"
+    pickle.save_pickled(args.rank_result, tmp_path)
+    os.replace(tmp_path, args.rr_path)
 
   with print_or_write(
       args.output if args.output is None else f"{args.output}_report.tex"):
@@ -870,7 +872,7 @@ def decision_report(args):
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-      importances.to_csv(importance_fname)
+      save_csv(importances, importance_fname, args)
   else:
     importances = pd.read_csv(importance_fname)
   # ---------------------------------------------------------------------------
-- 
2.43.0


From 58de989aebb65d581ac10211f231800921f00abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:48 +0000
Subject: [PATCH 58/64] fix: confidence intervals of the report were not found

---
 scripts/beatsdrop/evaluation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 7e62d05..b70cb54 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -638,8 +638,11 @@ def print_report(rank_result):
     for m, mk in models:
       median = rank_result.rankdf["median"][f"{k}_{m}_ar"]
       print(f"& {median:.3f}")
-      ci = rank_result.rankdf["CI"][f"{k}_{m}_ar"]
-      print(f"& {ci}")
+      ci = [
+          rank_result.rankdf[f"ci_{b}"][f"{k}_{m}_ar"]
+          for b in ("lower", "upper")
+      ]
+      print(f"& [{ci[0]:.3f}, {ci[1]:.3f}]")
   print(r"\\\bottomrule\\")
   print(r"\end{tabular}")
   print(r"\caption{Summary of test results}")
-- 
2.43.0


From 54f230fcdaf10f4b86eec0a664a910eb9a9fdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 59/64] fix: resuming after an interrupted evaluation without
 --resume used checkpoints of older runs

---
 scripts/beatsdrop/evaluation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index b70cb54..8e18720 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -458,17 +458,19 @@ def load_results(args: argparse.Namespace):
     args.csv_path = f"{args.output}.csv"
     args.ckpt_path = functools.partial("{}.ckpt-{}".format, args.output)
     args.ckpt_glob = f"{glob.escape(args.output)}.ckpt-*"
+    # Find most recent checkpoint
+    for fn in glob.glob(args.ckpt_glob):
+      try:
+        pd.read_csv(fn)
+      except Exception:  # pylint: disable=W0703
+        continue
+      args.checkpoints.append(fn)
+    if len(args.checkpoints) > 0:
+      # Also if not resuming, new checkpoints are the most recent
+      args.last_checkpoint = max(
+          map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
     if args.resume:
-      # Find most recent checkpoint
-      for fn in glob.glob(args.ckpt_glob):
-        try:
-          pd.read_csv(fn)
-        except Exception:  # pylint: disable=W0703
-          continue
-        args.checkpoints.append(fn)
       if len(args.checkpoints) > 0:
-        args.last_checkpoint = max(
-            map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
         args.last_file = args.ckpt_path(args.last_checkpoint)
       elif os.path.exists(args.csv_path):
         args.last_file = args.csv_path
-- 
2.43.0


From d9796c122f11bf627f9cae8714f09c18b2e71153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 60/64] fix: regressors whose coefficients are arrays made the
 fit fail

---
 sample/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 5989d28..296a90b 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -145,8 +145,8 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     r = base.clone(self.regressor).fit(np.reshape(t, (-1, 1)), track["mag"])
 
     f = self.freq_reduce(track["freq"])
-    d = self._D2K_CONST / getattr(r, self.regressor_k)
-    a = utils.dsp.db2a(getattr(r, self.regressor_q))
+    d = self._D2K_CONST / np.squeeze(getattr(r, self.regressor_k))
+    a = utils.dsp.db2a(np.squeeze(getattr(r, self.regressor_q)))
     return ((f, d, a),)
 
   def _track_preprocess_and_fit(self, i: int, x: np.ndarray, t: dict):
-- 
2.43.0


From b0d858b8f7e8cff5e607dee28ba3904e7a8a8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 61/64] fix: a failed analysis raised another error and
 discarded the previous model

---
 sample/widgets/analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 0ba91b4..35ac09f 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -218,15 +218,16 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
         return
       try:
         x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
-        self.sample_object, fit_kwargs = sample.sample_factory(
+        sample_object, fit_kwargs = sample.sample_factory(
             progressbar=self.progressbar,
             sinusoidal__tracker__fs=self.audio_sr,
             **self.sample_object_kwargs)
-        self.sample_object.fit(x, **fit_kwargs)
+        sample_object.fit(x, **fit_kwargs)
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
-      finally:
+      else:
+        self.sample_object = sample_object
         self.audio_resynth_x = None
         self.update_plot()
 
-- 
2.43.0


From 32f776a5f01f28f577af8c85b8af0c378b5a050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:11 +0000
Subject: [PATCH 62/64] fix: a fit that failed while reporting progress left
 broken tasks in the process pool

---
 sample/_training.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sample/_training.py b/sample/_training.py
index de8c971..23c5d06 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -83,11 +83,17 @@ def _progress_starmap(pool: mp.Pool,
   progress in the main thread. Avoids to hit some limitations imposed by tk"""
   results = [pool.apply_async(func, args=args, **kwargs) for args in iterable]
   not_ready = results.copy()
-  while not_ready:
-    fit_args.progress_update(len(results) - len(not_ready))
-    if refresh_time:
-      not_ready[0].wait(refresh_time)
-    not_ready = [r for r in not_ready if not r.ready()]
+  try:
+    while not_ready:
+      fit_args.progress_update(len(results) - len(not_ready))
+      if refresh_time:
+        not_ready[0].wait(refresh_time)
+      not_ready = [r for r in not_ready if not r.ready()]
+  except Exception:
+    # Do not leave tasks in the pool: what they need is about to be released
+    for r in not_ready:
+      r.wait()
+    raise
   return (r.get() for r in results)
 
 
-- 
2.43.0


From d5a4e630b461c1988ffb3e08a5033842911fbeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:02 +0000
Subject: [PATCH 63/64] fix: an interrupted parallel fit hung or raised another
 error while stopping its workers

---
 sample/_training.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sample/_training.py b/sample/_training.py
index 23c5d06..21185dc 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -132,21 +132,21 @@ def sample_training_context(model: "sample.sample.SAMPLE",
                                    _fit_args=fit_args) as fit_args_:
         yield fit_args_
         return
-  if pool is None:
-    with mp.Pool(processes=n_jobs) as p:
-      with sample_training_context(model=model,
-                                   mp_manager=mp_manager,
-                                   pool=p,
-                                   n_jobs=n_jobs,
-                                   _fit_args=fit_args) as fit_args_:
-        yield fit_args_
-        return
   with _wrap_as_managed(mp_manager, model, "beat_decisor__intermediate",
                         "sinusoidal__intermediate"):
-    fit_args_ = copy.copy(fit_args)
-    if pool is not None:
-      fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
-    yield fit_args_
+    if pool is None:
+      # Terminate before the storage, that the queued tasks need, is released
+      with mp.Pool(processes=n_jobs) as p:
+        yield _parallel_fit_args(p, fit_args)
+    else:
+      yield _parallel_fit_args(pool, fit_args)
+
+
+def _parallel_fit_args(pool: mp.Pool, fit_args: FitArgs) -> FitArgs:
+  """Copy of the fit arguments that runs tasks in a process pool"""
+  fit_args_ = copy.copy(fit_args)
+  fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
+  return fit_args_
 
 
 @contextlib.contextmanager
-- 
2.43.0


From cb9723df440e7af9e6360695b5c426b665d1c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:07 +0000
Subject: [PATCH 64/64] fix: fitted beat regressions could not be pickled

---
 sample/beatsdrop/regression.py | 45 +++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index 356d958..ab82d67 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -1,4 +1,5 @@
 """Regression models for beats"""
+import functools
 import inspect
 from typing import Any, Callable, List, Optional, Tuple
 
@@ -139,12 +140,15 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
     u = np.arange(np.ceil(t_max * self.fs).astype(int), dtype=float)
     np.true_divide(u, self.fs, out=u)
     a_lin = utils.dsp.db2a(a)
+    # Not a closure, so that fitted models can be pickled
+    return functools.partial(self._residuals, t, u, a_lin)
 
-    def _residual_fn_(beat_args: BeatModelParams) -> np.ndarray:
-      a_est = np.interp(t, u, beatsdrop.ModalBeat(*beat_args).am(u))
-      return np.reshape(np.subtract(a_lin, a_est), newshape=(-1,))
-
-    return _residual_fn_
+  @staticmethod
+  def _residuals(t: np.ndarray, u: np.ndarray, a_lin: np.ndarray,
+                 beat_args: BeatModelParams) -> np.ndarray:
+    """Residuals of the beat model with the given parameters"""
+    a_est = np.interp(t, u, beatsdrop.ModalBeat(*beat_args).am(u))
+    return np.reshape(np.subtract(a_lin, a_est), newshape=(-1,))
 
   @property
   def k_(self) -> float:
@@ -440,21 +444,22 @@ class DualBeatRegression(BeatRegression):
     # Time axis for model integration
     a_lin = utils.dsp.db2a(a)
     f_abs = np.abs(f)
-
-    def _residual_fn_(beat_args: BeatModelParams) -> np.ndarray:
-      a_est, f_est = beatsdrop.ModalBeat(*beat_args).compute(t, ("am", "fm"))
-      a_loss = self.amp_loss(a_lin, a_est)
-      np.true_divide(f_est, 2 * np.pi, out=f_est)
-      np.abs(f_est, out=f_est)
-      if self.freq_clip is not None:
-        q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
-        max_df = self.freq_clip * (q3 - q1) / 2
-        np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
-      f_loss = self.freq_loss(f_abs, f_est)
-      np.multiply(self.freq_w, f_loss, out=f_loss)
-      return np.reshape([a_loss, f_loss], newshape=(-1,))
-
-    return _residual_fn_
+    return functools.partial(self._dual_residuals, t, a_lin, f_abs)
+
+  def _dual_residuals(self, t: np.ndarray, a_lin: np.ndarray, f_abs: np.ndarray,
+                      beat_args: BeatModelParams) -> np.ndarray:
+    """Residuals of the beat model with the given parameters"""
+    a_est, f_est = beatsdrop.ModalBeat(*beat_args).compute(t, ("am", "fm"))
+    a_loss = self.amp_loss(a_lin, a_est)
+    np.true_divide(f_est, 2 * np.pi, out=f_est)
+    np.abs(f_est, out=f_est)
+    if self.freq_clip is not None:
+      q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
+      max_df = self.freq_clip * (q3 - q1) / 2
+      np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
+    f_loss = self.freq_loss(f_abs, f_est)
+    np.multiply(self.freq_w, f_loss, out=f_loss)
+    return np.reshape([a_loss, f_loss], newshape=(-1,))
 
   def fit(self, t: np.ndarray, a: np.ndarray, f: np.ndarray, **kwargs):
     """Fit beat pattern
-- 
2.43.0

