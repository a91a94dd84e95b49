"""P10: framing covers the input exactly and stores what was analysed"""
import numpy as np
from core import Sub, arr, close, require, same
from gens import bools, fl, opt, seeds, sizes, st

PROPERTY = "P10"
RULE = (
    "A case is an input (length 0-260: silence, ramp, sinusoid, noise), a "
    "window (2-40 samples, even or odd), a hop (1-60), an FFT size (or windows "
    "up to 4096 and inputs of up to 40 hops), padding, "
    "direction and tracker type. Frames are compared with explicit slices of "
    "an explicitly padded/reversed input; spectra, peaks and tracks with the "
    "frame-level functions applied to those slices. "
    "In part of the cases sizes are drawn log-uniformly, up to thousands. "
    "Non-trivial: at least 2 "
    "frames, or an input shorter than the window.")


@st.composite
def cases(draw):
  wsize = draw(st.one_of(st.integers(2, 8), st.integers(2, 40)))
  size = draw(
      st.one_of(st.integers(0, 260), st.integers(60, 260),
                st.integers(120, 260),
                st.integers(-3, 3).map(lambda d: max(0, wsize + d)),
                st.integers(0, wsize)))
  return {
      "size": size,
      "kind": draw(st.sampled_from(["noise", "ramp", "sine", "sine", "zero"])),
      "seed": draw(seeds),
      "wsize": wsize,
      "w": draw(st.sampled_from(["boxcar", "hann", "hamming"])),
      "gain": draw(fl(.1, 5)),
      "n": wsize + draw(st.integers(0, 24)),
      "h": draw(st.one_of(st.integers(1, 12), st.integers(1, 60))),
      "fs": draw(st.sampled_from([100, 8000, 44100])),
      "padded": draw(bools),
      "modal": draw(bools),
      "reverse": draw(bools),
      "t": draw(st.sampled_from([-90., -60., -20., -300.])),
      "min": draw(st.integers(0, 4)),
      "prev": draw(bools),
      "asfloat": draw(bools),
  }


@st.composite
def large(draw):
  """Sizes of real sounds"""
  c = draw(cases())
  w = draw(sizes(2, 4096))
  h = draw(sizes(max(1, w // 16), 2 * w))
  return {**c, "wsize": w, "h": h, "n": w + draw(st.one_of(
      st.just(0), sizes(1, 2 * w))), "size": draw(sizes(1, 40 * h + w)),
          "kind": draw(st.sampled_from(["noise", "sine"]))}


def signal_of(c):
  n = c["size"]
  t = np.arange(n)
  if c["kind"] == "ramp":
    return t + 1.0
  if c["kind"] == "sine":
    return np.cos(2 * np.pi * .13 * t) * np.exp(-t / max(60, c["wsize"]))
  if c["kind"] == "noise":
    return np.random.default_rng(c["seed"]).normal(size=n)
  return np.zeros(n)


def tracks_key(tracks):
  return [
      (int(t["start_frame"]),) + tuple(
          tuple(
              None if v != v else v
              for v in np.asarray(t[k], dtype=float).reshape(-1).tolist())
          for k in ("freq", "mag", "phase"))
      for t in tracks
  ]


def check(c, ctx):
  from scipy import signal
  from sample.sms import dsp, mm, sm
  x = signal_of(c)
  if c["kind"] == "ramp" and not c["asfloat"]:
    x = x.astype(int)
  x0 = x.copy()
  w = signal.get_window(c["w"], c["wsize"], fftbins=False) * c["gain"]
  if abs(w.sum()) < 1e-6:
    ctx.reject()  # a window of null samples only
  if c["modal"]:
    make = lambda **kw: mm.ModalModel(
        w=w.copy(), n=c["n"], t=c["t"], padded=c["padded"], tracker__fs=c["fs"],
        tracker__h=c["h"], tracker__reverse=c["reverse"],
        tracker__min_sine_dur=c["min"] * c["h"] / c["fs"],
        tracker__frequency_bounds=(None, None), tracker__peak_threshold=-500.,
        **kw)
  else:
    make = lambda **kw: sm.SinusoidalModel(
        w=w.copy(), n=c["n"], t=c["t"], padded=c["padded"], tracker__fs=c["fs"],
        tracker__h=c["h"], tracker__min_sine_dur=c["min"] * c["h"] / c["fs"],
        **kw)
  rev = c["modal"] and c["reverse"]
  # Expected frames
  y = x[::-1] if rev else x
  m = c["wsize"]
  pad = 0
  if c["padded"]:
    pad = (m + 1) // 2
    y = np.concatenate([np.zeros(pad), y, np.zeros(m // 2)])
  frames = [y[i:i + m] for i in range(0, y.size - m + 1, c["h"])]

  model = make(intermediate__save=True)
  if c["padded"]:
    p, a = model.pad_input(x)
    require(a == pad, "initial padding is %s, expected %s", a, pad)
    # the first window is centred on the first sample, all samples analysed
    same(p, np.concatenate([np.zeros(pad), x, np.zeros(m // 2)]), "padded input")
  else:
    p, a = model.pad_input(x)
    require(a == 0, "padding without being asked to")
    same(p, x, "unpadded input")
  tf = model.time_frames(x[::-1] if rev else x)
  require(len(tf) == len(frames), "%d frames, expected %d", len(tf),
          len(frames))
  for i, (u, v) in enumerate(zip(tf, frames)):
    same(u, v, "frame %d" % i)

  if c["prev"]:
    # a previous run must leave no trace
    model.fit(np.cos(np.arange(300.)))
  model.fit(x)
  require(np.array_equal(x, x0), "the input was modified")
  state = model.intermediate.get_state()
  require(set(state) == ({"stft", "peaks"} if frames else set()),
          "stored keys are %s for %d frames", sorted(state), len(frames))
  tracker = make().tracker.reset()
  wn = w / w.sum()
  for i, f in enumerate(frames):
    mx, px = dsp.dft(f, wn, c["n"])
    smx, spx = state["stft"][i]
    close(smx, mx, rtol=0, atol=1e-6, what="stored magnitude %d" % i)
    spx = arr(spx, shape=px.shape, what="stored phase")
    loud = mx > max(mx.max() - 100, -200)
    close(np.exp(1j * spx[loud]), np.exp(1j * px[loud]), rtol=0, atol=1e-3,
          what="stored phase %d" % i)
    ploc, pmag, pph = dsp.peak_detect_interp(smx, spx, c["t"])
    for k, (u, v) in enumerate(zip(state["peaks"][i], (ploc, pmag, pph))):
      close(u, v, rtol=1e-9, atol=1e-9, what="stored peaks %d.%d" % (i, k))
    tracker(np.asarray(state["peaks"][i][0]) * c["fs"] / c["n"],
            *state["peaks"][i][1:])
  for k in state:
    require(len(state[k]) == len(frames), "%d %s for %d frames", len(state[k]),
            k, len(frames))
  got = tracks_key(model.tracks_)
  want = tracks_key(tracker.all_tracks_)
  require(len(got) == len(want), "%d tracks, expected %d", len(got), len(want))
  for u, v in zip(got, want):
    require(u[0] == v[0], "start frame %s, expected %s", u[0], v[0])
    for i in (1, 2, 3):
      close(np.array(u[i], dtype=float), np.array(v[i], dtype=float), rtol=1e-9, atol=1e-9, what="track")
  # Without storage: same tracks, nothing kept
  off = make().fit(x)
  require(off.intermediate.get_state() == {}, "storage is off but not empty")
  require(tracks_key(off.tracks_) == got, "tracks depend on the storage")
  ctx.tag("short" if y.size < m else "frames" if frames else "none",
          "padded" if c["padded"] else "unpadded",
          "reverse" if rev else "forward", "tracks" if got else "no tracks")
  ctx.nontrivial(len(frames) > 1 or y.size < m)


SUBS = [
    Sub("large", large, check, quick=120, shards=2),
    Sub("frames", cases, check, quick=1500, shards=4, examples=[
        # regression: inputs much shorter than the window
        {"size": 3, "kind": "noise", "seed": 0, "wsize": 40, "w": "hann",
         "gain": 1.0, "n": 64, "h": 5, "fs": 8000, "padded": False,
         "modal": True, "reverse": False, "t": -90.0, "min": 1, "prev": False,
         "asfloat": True},
    ]),
]
