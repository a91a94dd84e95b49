# Executed by build_meta.py
TRUST = (" Bounded by the generated cases of the seed; trusts numpy/scipy/"
         "scikit-learn and the reference oracle in the check.")

prop("P01", "Analysis recovers the modes of a modal sound",
     "For a sound that is a sum of well-separated, exponentially decaying "
     "sinusoids inside the analysis limits, fitting the model finds exactly "
     "one mode per partial, with its frequency, decay time and amplitude "
     "within the resolution of the analysis, and resynthesizing those modes "
     "gives back the sound's amplitude envelope. This holds for every sample "
     "rate, window, FFT size, hop, and for forward or time-reversed, padded "
     "or unpadded analysis.",
     ["inputs", "configurations"],
     "All sets of 1-4 separated partials (frequency, decay, amplitude, phase) "
     "and all analysis settings whose window resolves them.",
     "The tests fit one fixed three-partial sound with two or three settings "
     "and loose tolerances; an error that depends on the window parity, on "
     "padding, on the reversal or on the sample rate goes unseen.",
     ["sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py",
      "sample/sms/dsp.py", "sample/hinge.py"],
     [("time axis and spectral halving compensation",
       "sample/sample.py SAMPLE._preprocess_track"),
      ("decay and amplitude from the hinge regression",
       "sample/sample.py SAMPLE._fit_track"),
      ("framing and tracking", "sample/sms/sm.py SinusoidalModel.fit")],
     ["SAMPLE.fit", "SAMPLE.freqs_", "SAMPLE.decays_", "SAMPLE.amps_",
      "SAMPLE.predict"],
     "Hypothesis: generated modal sounds against the known parameters "
     "(round-trip)",
     "Round-trip search over generated sounds and settings, with tolerances "
     "derived from the analysis resolution." + TRUST)

prop("P02", "Analysis is equivariant to gain and to the time unit",
     "Scaling the input by a power-of-two gain leaves the estimated "
     "frequencies and decays unchanged and scales the amplitudes by the same "
     "gain, when the detection thresholds are moved by the same number of "
     "decibels; negating it changes nothing. Relabelling the sample rate "
     "by a factor (with the settings in Hertz and seconds moved accordingly) "
     "scales frequencies by it and divides decays by it. The "
     "result depends only on the arguments: fitting twice gives identical "
     "parameters and the input is never modified.",
     ["inputs", "configurations"],
     "All audio inputs (modal, noisy, silent, arbitrary), settings, gains and "
     "rate factors.",
     "Tests never compare two related analyses; scale-dependent constants "
     "(absolute floors, sample rates left at a default) pass every "
     "single-example test.",
     ["sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py",
      "sample/sms/dsp.py"],
     [("dB-linear pipeline", "sample/sms/dsp.py dft, peak_refine"),
      ("rates derived from fs and h", "sample/sms/sm.py SineTracker")],
     ["SAMPLE.fit", "SAMPLE.param_matrix_"],
     "Hypothesis: metamorphic relations between pairs of analyses",
     "Metamorphic search; any input is valid, so noise is used as well." +
     TRUST)

prop("P03", "A fit depends only on its arguments, never on history",
     "For every history of construct, clone, set parameters, fit, predict "
     "and refit operations, a fit gives the same result as a brand new model "
     "with the same parameters fit on the same audio. Parameters passed to "
     "fit override and persist exactly as if they had been set before; "
     "reading back all parameters and building a model from them gives an "
     "equivalent one; separately built or cloned models never share state.",
     ["histories", "configurations", "inputs"],
     "All sequences of estimator operations over several models and sounds.",
     "The tests fit each model once or twice with one configuration; leaks of "
     "state between fits or between instances need particular histories.",
     ["sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py",
      "sample/beatsdrop/sample.py", "sample/beatsdrop/decision.py",
      "sample/utils/learn.py", "sample/hinge.py"],
     [("per-instance defaults", "sample/utils/learn.py default_property"),
      ("reset of tracker and storage", "sample/sms/sm.py SinusoidalModel.fit"),
      ("clone of the regressor", "sample/sample.py SAMPLE._fit_track")],
     ["fit", "get_params", "set_params", "sklearn.base.clone"],
     "Hypothesis: model-based operation sequences against fresh models",
     "Operation sequences on a pool of models; the oracle is a fresh model." +
     TRUST)

prop("P04", "Parallel and progress-tracked fits equal serial fits",
     "Fitting with any number of worker processes, with a caller-provided "
     "pool, and/or with any progress reporter gives the same parameters and "
     "the same stored intermediate data, in the same order, as the plain "
     "serial fit. Progress reports are complete. After the fit, "
     "successful or failed, the model holds its original storage objects and "
     "configuration, a pool of the caller can be closed and joined, and no "
     "worker processes are left.",
     ["schedules", "inputs", "fault_sequences"],
     "All sounds, settings, numbers of workers, and failures of a worker "
     "task or of the analysis.",
     "One test compares one parallel run on one sound; results arriving out "
     "of order, and failures inside the context, are never exercised.",
     ["sample/_training.py", "sample/sample.py", "sample/beatsdrop/sample.py",
      "sample/utils/learn.py"],
     [("training context", "sample/_training.py sample_training_context"),
      ("ordered collection of results",
       "sample/_training.py _progress_starmap"),
      ("storage swapped and restored",
       "sample/_training.py _wrap_as_managed")],
     ["SAMPLE.fit(n_jobs=..., pool=...)", "OptionalStorage.get_state"],
     "Hypothesis: differential parallel vs serial with injected failures",
     "Differential; the schedule of real worker processes is sampled by the "
     "OS, not owned by the harness." + TRUST)

prop("P05", "Resynthesis is the closed-form sum of the selected modes",
     "Resynthesized audio is, at every requested time, the sum over the "
     "selected modes of amplitude times exp(-2t/decay) times the cosine (the "
     "complex exponential, if analytic) of 2 pi f t plus the mode's phase. "
     "Modes are the first ones in the requested order, by default all, or "
     "the most energetic ones up to the configured maximum; phases are zero, "
     "the caller's (matched to the right modes), or random and reproducible "
     "from a seed or generator; other phase options are rejected.",
     ["inputs", "configurations"],
     "All mode sets, time axes, orderings, truncations and phase options.",
     "Tests compare one sound with loose tolerance; wrong phase-mode "
     "matching under truncation or reordering is not visible there.",
     ["sample/sample.py"],
     [("synthesis", "sample/sample.py additive_synth"),
      ("selection", "sample/sample.py SAMPLE.predict")],
     ["SAMPLE.predict", "additive_synth"],
     "Hypothesis: differential against a scalar reference synthesizer",
     "Differential against a scalar-by-scalar reference." + TRUST)

prop("P06", "Mode ordering and SDT export are faithful",
     "Ordering the modes by any feature and direction is a sorting "
     "permutation, and energies are amplitude squared times decay over four. "
     "The exported parameters are plain JSON that parses back to the same "
     "values and lists every mode exactly once with its own frequency, "
     "decay and gain, in the requested order, with consistent counts "
     "(including no modes at all) and the active modes capped as configured. "
     "Editing the estimated parameters is reflected by both.",
     ["inputs"],
     "All mode sets, including empty ones and ties, all orderings and caps.",
     "One test checks the keys of one export.",
     ["sample/sample.py"],
     [("ordering", "sample/sample.py SAMPLE.mode_argsort_"),
      ("export", "sample/sample.py SAMPLE.sdt_params_")],
     ["SAMPLE.mode_argsort_", "SAMPLE.sdt_params_", "SAMPLE.energies_"],
     "Hypothesis: validity predicate and JSON round-trip",
     "Two-sided predicate: ordered, and a permutation of the modes." + TRUST)

prop("P07", "Spectra and spectral peaks are what they claim to be",
     "A frame's spectrum is the magnitude in decibels (never below the "
     "floating-point floor, never infinite) and unwrapped phase of the "
     "zero-phase windowed, zero-padded Fourier transform. The detected peaks are exactly the "
     "bins strictly greater than both neighbours and above the threshold, in "
     "ascending order; refining one moves it by at most half a bin to the "
     "vertex of the parabola through its three bins, with the phase linearly "
     "interpolated there.",
     ["inputs"],
     "All real frames (silent and constant included), windows, FFT sizes of "
     "at least the window size, spectra and thresholds.",
     "No test looks at a single frame; the pipeline tests tolerate "
     "errors of a bin or of a few decibels.",
     ["sample/sms/dsp.py"],
     [("transform", "sample/sms/dsp.py dft"),
      ("peaks", "sample/sms/dsp.py peak_detect, peak_refine")],
     ["dft", "peak_detect", "peak_refine", "peak_detect_interp"],
     "Hypothesis: differential against a naive DFT and parabola fit",
     "Differential against naive definitions." + TRUST)

prop("P08", "Peak tracking follows the greedy continuation rule",
     "Over every history of frames of peaks, tracks grow as the documented "
     "greedy rule prescribes: peaks in decreasing order of magnitude continue "
     "the nearest still-free active track if its last frequency is closer "
     "than the frequency-dependent threshold; tracks not continued end; the "
     "remaining peaks start new tracks, in order, up to the maximum number. "
     "A finished or active track is reported once, with its start frame and "
     "its peaks unaltered, iff it lasts at least the minimum duration, and "
     "no peak belongs to two tracks.",
     ["histories", "configurations"],
     "All sequences of peak lists and all tracker settings.",
     "Tests run the tracker only inside a full analysis of two synthetic "
     "sounds, where frames hold a few stable peaks.",
     ["sample/sms/sm.py"],
     [("continuation", "sample/sms/sm.py SineTracker.__call__"),
      ("acceptance", "sample/sms/sm.py SineTracker.track_ok, all_tracks_")],
     ["SineTracker.__call__", "SineTracker.tracks_",
      "SineTracker.all_tracks_"],
     "Hypothesis: stateful model-based test against a reference tracker",
     "Histories of frames run in lockstep on a reference tracker." + TRUST)

prop("P09", "Modal tracks are filtered, merged and stripped as specified",
     "A track is kept iff it is long enough, its mean frequency is inside "
     "the bounds, its magnitude does not grow in (audio) time, and its "
     "estimated initial magnitude reaches the threshold. A kept track is "
     "merged, with a gap of undefined values of the right length, into the "
     "earlier kept track closest in frequency, if it is closer than the "
     "deviation threshold and ended before; otherwise it is a new one. With "
     "a strip time, exactly the tracks whose onset (in audio time) is "
     "not later than it (rounded up to a frame) are reported.",
     ["histories", "configurations"],
     "All sequences of peak lists, and all tracker settings (bounds, "
     "thresholds, merge strategy, strip time, direction).",
     "Tests check a few tracks of one sound; merging, reversal and stripping "
     "interact only in particular histories.",
     ["sample/sms/mm.py"],
     [("acceptance", "sample/sms/mm.py ModalTracker.track_ok"),
      ("merging", "sample/sms/mm.py ModalTracker.deactivate"),
      ("stripping", "sample/sms/mm.py ModalTracker.all_tracks_")],
     ["ModalTracker.__call__", "ModalTracker.tracks_",
      "ModalTracker.all_tracks_"],
     "Hypothesis: stateful model-based test against a reference tracker",
     "Histories of frames run in lockstep on a reference tracker; cases "
     "within rounding of a threshold are set aside and counted." + TRUST)

prop("P10", "Framing covers the input exactly and stores what was analysed",
     "The analysis of an input of any length looks at exactly the complete "
     "hop-spaced windows of the input (none if it is shorter than a window), "
     "or, when padding, of the input preceded and followed by the zeros that "
     "centre the first window on the first sample and cover the last one; "
     "reversed analysis sees the time-reversed input. When intermediate "
     "storage is on, it holds one spectrum and one peak list per frame, in "
     "order and from the last run only; when it is off it holds nothing, and "
     "the tracks are the same.",
     ["inputs", "configurations"],
     "All input lengths, windows, hops, FFT sizes, padding, directions.",
     "Tests use one input much longer than the window; off-by-one frames "
     "and short inputs are not reached.",
     ["sample/sms/sm.py", "sample/utils/dsp.py"],
     [("padding", "sample/sms/sm.py SinusoidalModel.pad_input"),
      ("windows", "sample/utils/dsp.py overlapping_windows, n_windows")],
     ["SinusoidalModel.time_frames", "SinusoidalModel.fit",
      "OptionalStorage"],
     "Hypothesis: differential against explicit slicing",
     "Differential against explicit slicing and the frame-level API." + TRUST)

prop("P11", "Hinge regression is a bounded least-squares fit",
     "The hinge function is slope times min(x, knee) plus intercept. A fit's "
     "knee, slope and intercept lie within the configured (or documented "
     "default) bounds, are never a worse fit than the starting point, are "
     "recovered when the data is an exact hinge that the bounds allow and "
     "whose knee is in the second half of the data, and shift "
     "exactly with the data's offset; prediction evaluates the fit "
     "hinge at any input, and clones share nothing with the original.",
     ["inputs", "configurations"],
     "All sample sets of two points or more, exact or noisy hinges, bounds "
     "and initializers.",
     "The tests fit one noisy hinge.",
     ["sample/hinge.py"],
     [("fit", "sample/hinge.py HingeRegression.fit"),
      ("bounds", "sample/hinge.py HingeRegression._default_bounds"),
      ("function", "sample/hinge.py hinge_function")],
     ["HingeRegression.fit", "HingeRegression.predict", "hinge_function"],
     "Hypothesis: exact recovery, bounds and metamorphic relations",
     "Recovery of exact hinges plus optimality predicates on noisy data." +
     TRUST)

prop("P12", "Beat models are consistent with the sum of their partials",
     "For any two partials of constant frequency, of constant or decaying "
     "amplitude, the beat's amplitude "
     "modulation is the modulus of the sum of their phasors, its frequency "
     "modulation is the derivative of the sum's phase (in radians), and its "
     "phase modulation and resynthesized signal agree with the sum of the "
     "two partials. Combined queries equal the separate ones, degenerate cases (one silent partial, equal "
     "frequencies) reduce to a single partial, and decay laws convert to time "
     "constants and back.",
     ["inputs"],
     "All amplitudes, frequencies, phases, decays and time axes.",
     "Tests compare one beat with one signal by eye-set tolerance.",
     ["sample/beatsdrop/__init__.py"],
     [("closed forms", "sample/beatsdrop/__init__.py Beat"),
      ("decaying amplitudes", "sample/beatsdrop/__init__.py ModalBeat")],
     ["Beat.compute", "ModalBeat.compute", "ExponentialDecay"],
     "Hypothesis: differential against complex phasor sums",
     "Differential against complex phasors." + TRUST)

prop("P13", "Beat regression stays in bounds and identifies partials",
     "Fitting a beat gives parameters inside the computed bounds that fit no "
     "worse than the initial ones; given exact amplitude and frequency tracks "
     "of a beat and a nearby starting point, prediction reproduces the "
     "amplitude track (and so it does from the default starting point, for "
     "most beats). "
     "Sorting partials by any key permutes frequency, decay, "
     "amplitude and phase together, and repeating it changes nothing (unless the keys tie); the "
     "disambiguating variant never returns a worse explanation of the tracks "
     "than either alternative.",
     ["inputs", "configurations"],
     "All pairs of partials in the beat regime, tracks, noise and options.",
     "Tests fit two fixed beats.",
     ["sample/beatsdrop/regression.py"],
     [("bounds", "sample/beatsdrop/regression.py BeatRegression"),
      ("sorting", "sample/beatsdrop/regression.py sort_params"),
      ("disambiguation", "sample/beatsdrop/regression.py DualBeatRegression")],
     ["BeatRegression.fit", "DualBeatRegression.fit", "sort_params"],
     "Hypothesis: round-trip on synthetic beats and validity predicates",
     "Round-trip on synthetic beats." + TRUST)

prop("P14", "Beat decoupling adds modes only where a beat was decided",
     "With beat decoupling, the estimated modes are, for each track, the "
     "single mode of the plain analysis when no beat is decided, and the two "
     "partials of the fitted beat when it is; if it never is, the result "
     "equals the plain analysis, parameter by parameter. Phases are kept "
     "aligned with modes through cleaning, ordering, truncation and "
     "resynthesis, and intermediate decisions are stored per track.",
     ["inputs", "configurations"],
     "All sounds, decision rules (dummy and data-driven) and settings.",
     "Tests decouple one fixed sound.",
     ["sample/beatsdrop/sample.py", "sample/beatsdrop/decision.py",
      "sample/sample.py"],
     [("per-track fit", "sample/beatsdrop/sample.py"),
      ("decision", "sample/beatsdrop/decision.py")],
     ["SAMPLEBeatsDROP.fit", "BeatDecisor.decide_beat",
      "SAMPLEBeatsDROP.predict"],
     "Hypothesis: differential against the plain analysis with generated "
     "decision rules",
     "Differential with decision rules drawn by the generator." + TRUST)

prop("P15", "Unit conversions and normalizations are exact inverses",
     "Decibel and linear conversions are inverse of each other and monotone, "
     "with floors applied exactly; complex levels are those of the modulus. "
     "Normalization maps any array with some variation to absolute peak one, to zero "
     "mean and unit variance, or to the range zero-one, by an affine map with positive slope. "
     "Frequency-bin conversion maps a bin's frequency back to the bin and never "
     "returns a bin below the given frequency; detrending removes exactly the "
     "linear part, and the zero-crossing search brackets a sign change to "
     "the promised precision.",
     ["inputs"],
     "All finite arrays, scalars, floors, FFT sizes, sample rates and "
     "monotone functions.",
     "Tests check a handful of values for some of them.",
     ["sample/utils/dsp.py"],
     [("conversions", "sample/utils/dsp.py db2a, a2db, complex2db, f2bin, "
       "bin2f"), ("normalize", "sample/utils/dsp.py normalize"),
      ("search", "sample/utils/dsp.py dychotomic_zero_crossing")],
     ["sample.utils.dsp"],
     "Hypothesis: round-trips and algebraic laws",
     "Round-trips and laws." + TRUST)

prop("P16", "Output arrays: in-place, typed and scalar calls agree",
     "Every numeric function with an optional output array gives the same "
     "values whether it allocates the result, writes into a caller's array "
     "(which is then the returned object and holds the result), or overwrites "
     "its first argument; whether it gets a scalar, a list or an array of any "
     "shape, with the shape preserved and scalars for scalars. It never "
     "modifies an input it was not asked to overwrite.",
     ["inputs", "configurations"],
     "All listed conversion, envelope and transform functions times all input "
     "kinds, shapes and aliasing patterns.",
     "Tests call each function in one or two of these ways.",
     ["sample/utils/__init__.py", "sample/utils/dsp.py", "sample/psycho.py",
      "sample/hinge.py", "sample/beatsdrop/__init__.py", "sample/sample.py"],
     [("output handling", "sample/utils/__init__.py numpy_out")],
     ["numpy_out", "functions with an out argument"],
     "Hypothesis: differential between calling conventions",
     "Differential between calling conventions of the same function, anchored "
     "by closed forms." + TRUST)

prop("P17", "Windowing and strided convolution equal their definitions",
     "Overlapping windows are the hop-spaced complete slices of the "
     "input (none for an input shorter than a window), as a view of it that "
     "is read-only unless requested. Strided convolution, with real or "
     "complex signals and kernels, equals every stride-th sample of the "
     "valid part of the full convolution, into a new or a given array.",
     ["inputs"],
     "All sizes, windows, hops, strides, dtypes and memory layouts.",
     "Tests use a few fixed sizes and real kernels.",
     ["sample/utils/dsp.py"],
     [("windows", "sample/utils/dsp.py overlapping_windows"),
      ("convolution", "sample/utils/dsp.py strided_convolution")],
     ["overlapping_windows", "strided_convolution",
      "strided_convolution_complex_kernel"],
     "Hypothesis: differential against slicing and full convolution",
     "Differential against definitions." + TRUST)

prop("P18", "Onset detection implements its published definition",
     "Spectral flux is the sum of positive magnitude increments. Local maxima "
     "are the samples not smaller than any key sample within the radius, never within the "
     "radius of the borders. Onsets are exactly the frames "
     "that are local maxima, exceed the local mean by the threshold and "
     "exceed the recursive envelope of the past; they map to samples "
     "inside the input, and inputs too short for any onset yield none.",
     ["inputs", "configurations"],
     "All detection functions, radii, thresholds, feedback coefficients and "
     "signals.",
     "One test checks that an onset is found in one signal.",
     ["sample/utils/dsp.py"],
     [("selection", "sample/utils/dsp.py onset_selection, local_maxima"),
      ("flux", "sample/utils/dsp.py spectral_flux_from_tf")],
     ["onset_detection", "onset_selection", "local_maxima", "spectral_flux"],
     "Hypothesis: differential against a direct transcription of Dixon 2006",
     "Differential against a scalar transcription of the paper." + TRUST)

prop("P19", "Spectral autocorrelation agrees with direct autocorrelation",
     "The autocorrelogram computed from a Fourier transform or power spectrum "
     "equals the (circular, or linear when zero-padded enough) "
     "autocorrelation of the signal, for one- and two-sided spectra, truncated to the "
     "requested length. The Lomb-Scargle periodogram is evaluated on "
     "exactly the FFT grid, is zero outside the requested band, equals the "
     "direct least-squares one inside, and does not depend on a shift of the time axis.",
     ["inputs"],
     "All signals, lengths, FFT sizes, bands and uneven time axes.",
     "Tests use one signal.",
     ["sample/utils/dsp.py"],
     [("autocorrelogram", "sample/utils/dsp.py fft2autocorrelogram"),
      ("periodogram", "sample/utils/dsp.py lombscargle_as_fft")],
     ["fft2autocorrelogram", "lombscargle_as_fft",
      "lombscargle_autocorrelogram"],
     "Hypothesis: differential against direct sums",
     "Differential against direct sums." + TRUST)

prop("P20", "Psychoacoustic scales are monotone and invertible",
     "Every frequency scale (Bark, mel and ERB-rate, in all their variants) "
     "matches its published formula, is strictly increasing over the audible "
     "range, and composed with its inverse is the identity both ways. The "
     "equivalent rectangular bandwidth is positive and increasing, and A-weighting matches the "
     "standard curve, in linear gain and decibels. Unknown variants "
     "are rejected.",
     ["inputs", "configurations"],
     "All frequencies in the audible range and beyond, all variants.",
     "Tests check inverse pairs on one grid for some variants, and no test "
     "checks the values.",
     ["sample/psycho.py"],
     [("scales", "sample/psycho.py hz2bark, bark2hz, hz2mel, mel2hz, "
       "hz2cams, cams2hz, erb"), ("weighting", "sample/psycho.py a_weighting")],
     ["sample.psycho"],
     "Hypothesis: round-trip, monotonicity and published formulas",
     "Round-trip, monotonicity and reference formulas in pure Python." + TRUST)

prop("P21", "Gammatone filters obey their defining equations",
     "A gammatone filter's envelope, carrier and impulse response are "
     "those of the gammatone formula for its frequency, order, bandwidth, "
     "phase, amplitude and time offset (given as values or functions), and "
     "a sampled response is long enough for the requested decay, scaled as requested and, when analytic, "
     "has the real response as its real part. A filterbank has "
     "the requested filters at ascending frequencies, equally spaced on the "
     "chosen scale, between the limits.",
     ["inputs", "configurations"],
     "All frequencies, orders, bandwidth rules, offsets and normalizations.",
     "Tests check two filters.",
     ["sample/psycho.py"],
     [("filter", "sample/psycho.py GammatoneFilter"),
      ("bank", "sample/psycho.py GammatoneFilterbank")],
     ["GammatoneFilter", "GammatoneFilterbank"],
     "Hypothesis: differential against the gammatone formula",
     "Differential against the formula." + TRUST)

prop("P22", "Cochleagrams do not depend on the convolution method",
     "Filtering a signal through a precomputed filterbank gives, for "
     "every method (overlap-add, FFT, direct, strided), mode and stride, "
     "the convolution of the signal with each filter's response sampled at "
     "the stride; the analytic output has the real output as its real part. "
     "The cochleagram applies the requested post-processing to "
     "exactly that output, is homogeneous in the signal, and rejects "
     "the documented inconsistent arguments.",
     ["inputs", "configurations"],
     "All signals, banks, methods, strides, convolution modes and "
     "post-processings.",
     "Tests compare two methods on one signal, with the analytic option not "
     "reaching the code it names.",
     ["sample/psycho.py", "sample/utils/dsp.py"],
     [("convolution", "sample/psycho.py PrecomputedIRBank.convolve"),
      ("cochleagram", "sample/psycho.py cochleagram")],
     ["GammatoneFilterbank.convolve", "PrecomputedIRBank.convolve",
      "cochleagram"],
     "Hypothesis: differential between methods and against numpy.convolve",
     "Differential between methods and against direct convolution." + TRUST)

prop("P23", "Mel spectra are non-negative linear maps of the spectrum",
     "The mel filterbank has one triangular, non-negative filter per band "
     "with its vertex on the bank's frequency and zeros at its neighbours', "
     "on the requested scale. Converting a transform to mel "
     "applies that matrix to its (power) spectrum: it is linear in power, "
     "independent of the signal's sign, leaves the transform untouched and "
     "labels bands and times correctly.",
     ["inputs", "configurations"],
     "All signals, scales, numbers of filters, FFT sizes and power exponents.",
     "Tests check shapes of one bank.",
     ["sample/psycho.py"],
     [("bank", "sample/psycho.py mel_triangular_filterbank"),
      ("conversion", "sample/psycho.py stft2mel, mel_spectrogram")],
     ["mel_triangular_filterbank", "stft2mel", "mel_spectrogram"],
     "Hypothesis: differential against explicit triangles",
     "Differential against an explicit triangle per band." + TRUST)

prop("P24", "Evaluation losses are proper distances",
     "Every spectral or cochleagram loss is zero for identical signals, "
     "non-negative, finite, symmetric where its formula is, and equal to its "
     "defining formula on the spectra of the two signals. The "
     "multi-scale loss is the sum of the single-scale ones, whether or not "
     "worker processes compute it, and no loss modifies the signals.",
     ["inputs", "configurations"],
     "All pairs of signals of equal length, exponents, scales and settings.",
     "Tests check that the loss of two fixed signals is positive.",
     ["sample/evaluation/metrics.py"],
     [("losses", "sample/evaluation/metrics.py")],
     ["lp_distance", "lin_log_spectral_loss", "MultiScaleSpectralLoss",
      "CochleagramLoss"],
     "Hypothesis: metric axioms and differential against formulas",
     "Metric axioms and reference formulas." + TRUST)

prop("P25", "Random beats respect their ranges and seeds",
     "The random beat generator is reproducible from its seed, and every "
     "sample it ever draws honours the configuration: frequencies, their "
     "difference in Hertz and Bark, decays, amplitudes that sum to the "
     "requested level, length, and the signal-to-noise ratio of the "
     "audio, which is the beat of the drawn partials plus noise.",
     ["inputs", "configurations", "histories"],
     "All seeds, configurations and numbers of draws.",
     "Tests draw a few samples from one configuration.",
     ["sample/evaluation/random.py"],
     [("generator", "sample/evaluation/random.py BeatsGenerator")],
     ["BeatsGenerator"],
     "Hypothesis: range invariants and reproducibility over draw histories",
     "Invariants over histories of draws." + TRUST)

prop("P26", "Hyperparameter search evaluates the parameters it reports",
     "The parameter remapper turns log-size, relative window size and overlap "
     "into a valid FFT size, window and hop for any point of "
     "the search space and passes other parameters on. The loss of a point "
     "is the loss of a fresh model with those (fixed plus remapped) "
     "parameters on the given audio, leaves the search object's model untouched, and the reported best "
     "model has the best point's parameters; continuing a search "
     "keeps earlier evaluations.",
     ["inputs", "configurations", "histories"],
     "All points of search spaces, fixed parameters, losses, and sequences of "
     "search calls.",
     "Tests run one short search.",
     ["sample/optimize.py"],
     [("remapping", "sample/optimize.py sample_kwargs_remapper"),
      ("search", "sample/optimize.py SAMPLEOptimizer")],
     ["sample_kwargs_remapper", "SAMPLEOptimizer.loss",
      "SAMPLEOptimizer.gp_minimize"],
     "Hypothesis: differential against direct evaluation",
     "Differential against direct evaluation of the reported points." + TRUST)

prop("P27", "Optional storage and default members behave as a map of lists",
     "Over every history, the optional storage holds exactly the values "
     "appended while it was on since the last reset, per key and in order or "
     "at the requested indices, always hands back the value it was given, "
     "and its state snapshot is independent of later changes. A member with a "
     "default is built afresh for each object when not given, kept as given "
     "otherwise, and never shared.",
     ["histories"],
     "All sequences of append, indexed append, toggle, read, snapshot and "
     "reset; all default conditions.",
     "One doctest-like example each.",
     ["sample/utils/learn.py"],
     [("storage", "sample/utils/learn.py OptionalStorage"),
      ("defaults", "sample/utils/learn.py default_property")],
     ["OptionalStorage", "default_property"],
     "Hypothesis: stateful model-based test against a dict of lists",
     "Histories run in lockstep on a dict of lists." + TRUST)

prop("P28", "Deprecated names keep working exactly like the new ones",
     "Every deprecated argument name of the public API still works: it gives "
     "the same result as its replacement and issues exactly one deprecation "
     "warning per use, while new names issue none. Functions with variants run the variant "
     "that was asked for and reject unknown ones naming the "
     "options; warning filters apply only inside the call and only when on; "
     "defaults never override given arguments nor change the caller's "
     "dictionary.",
     ["inputs", "configurations"],
     "All deprecated names of the package and generated functions, arguments "
     "and option sets.",
     "Tests check few names; two of the documented ones used to fail.",
     ["sample/utils/__init__.py", "sample/sms/sm.py", "sample/sms/mm.py",
      "sample/sample.py", "sample/optimize.py"],
     [("forwarding", "sample/utils/__init__.py deprecated_argument"),
      ("variants", "sample/utils/__init__.py function_with_variants")],
     ["deprecated_argument", "function_with_variants",
      "warnings_simplefilter", "default_kws"],
     "Hypothesis: differential between old and new spellings",
     "Differential between old and new spellings." + TRUST)

prop("P29", "Any text typed in the GUI settings gives a valid analysis",
     "Whatever text is typed in a settings field, parsing never fails and "
     "yields a value of the field's type and range, and post-processing "
     "any combination of parsed values yields "
     "settings in normal form (processing them again changes nothing) and "
     "parameters the model accepts. User files give back what was "
     "saved, an unknown or missing theme falls back to the default, and the "
     "model built from the settings has exactly those parameters.",
     ["inputs", "histories"],
     "All strings in all fields, and all JSON-able settings.",
     "No test covers the GUI.",
     ["sample/widgets/settings.py", "sample/widgets/userfiles.py",
      "sample/widgets/sample.py"],
     [("parsers", "sample/widgets/settings.py"),
      ("files", "sample/widgets/userfiles.py")],
     ["sample.widgets.settings", "sample.widgets.userfiles"],
     "Hypothesis: text fuzzing of parsers with validity predicates",
     "Text fuzzing; the settings tab itself runs on a Tcl interpreter without "
     "a display." + TRUST)

prop("P30", "Notebook widgets embed exactly the given audio and parameters",
     "The notebook audio player embeds the given samples, channel by channel, and the sample "
     "rate, in a form that parses back to the same values; the labelled player "
     "shows each sound once under its label in order; the parameter "
     "viewer lists every parameter of the model, and of the models nested "
     "in it, with its documentation and no text lost; the timer shows the "
     "time elapsed, in its unit, and never hides errors of the timed code.",
     ["inputs"],
     "All sample arrays, rates, labels, models and docstrings.",
     "Tests check that something is displayed.",
     ["sample/ipython.py", "sample/web_audio.html",
      "sample/collapsible_params.html"],
     [("widgets", "sample/ipython.py")],
     ["WebAudio", "LabelAndPlayForeach", "CollapsibleModelParams",
      "time_this"],
     "Hypothesis: parse-back round-trips",
     "Round-trips through the produced HTML, and through a JavaScript engine "
     "with recording stand-ins of the audio interface." + TRUST)

prop("P31", "Developer scripts are lossless",
     "Converting notebook code for formatting and back gives the same code "
     "for any cell, magics and shell escapes included; the "
     "changelog lists every version once, newest first by version order, and "
     "extracting a version's notes gives that version's notes "
     "only.",
     ["inputs"],
     "All notebook cells and version sets.",
     "No test covers the scripts.",
     ["scripts/utils/yapf_nbformat.py", "scripts/utils/make_changelog.py",
      "scripts/utils/extract_changelog.py"],
     [("wrapping", "scripts/utils/yapf_nbformat.py"),
      ("ordering", "scripts/utils/make_changelog.py")],
     ["scripts/utils"],
     "Hypothesis: round-trips and ordering predicates",
     "Round-trips." + TRUST)

prop("P32", "Plots show the data of the model",
     "Plotting functions draw exactly the data they are given: track plots "
     "contain each track's frequencies and magnitudes at its frame times and "
     "the fitted envelopes, time-frequency images and beat "
     "plots contain the matrices and curves computed by the models, on the given axes. Plotting never "
     "changes the model or data.",
     ["inputs", "configurations"],
     "All fitted models and plot options.",
     "No test looks at the plots' data.",
     ["sample/plots.py"],
     [("plots", "sample/plots.py")],
     ["sample.plots"],
     "Hypothesis: differential between drawn artists and model data",
     "Inspection of matplotlib artists with the Agg backend." + TRUST)

prop("P33", "The GUI analyses the selected region and exports its model",
     "Loading any WAV file gives the normalized mean of its channels; for "
     "every sequence of trims (typed, dragged, automatic) the selected region "
     "stays valid and inside the audio, and the automatic one is the longest "
     "between onsets. The analysis is exactly the model of the settings fitted "
     "on the region, its plots, resynthesis and exported files are that "
     "model's, and an error is shown as a message and leaves the previous "
     "state.",
     ["histories", "inputs", "configurations"],
     "All sequences of GUI operations over all WAV files and settings.",
     "No test covers the GUI.",
     ["sample/widgets/audioload.py", "sample/widgets/analysis.py",
      "sample/widgets/audio.py", "sample/widgets/settings.py"],
     [("region and trims", "sample/widgets/audioload.py"),
      ("analysis and export", "sample/widgets/analysis.py")],
     ["sample.widgets.audioload", "sample.widgets.analysis"],
     "Hypothesis: histories of GUI operations against a model of the state",
     "Stateful search; widgets run on a Tcl interpreter without a display, "
     "dialogs and sound cards are recording stand-ins." + TRUST)

prop("P34", "Experiments resume after interruptions without losing results",
     "For every history of runs of the evaluation and benchmark scripts - with "
     "any checkpoint period, failing tests, and interruptions between tests or "
     "at any byte while a file is being written - resuming ends with the same "
     "results as one uninterrupted run, never computes again a case of the "
     "last complete checkpoint, and leaves no checkpoints behind. The ground "
     "truth and errors of each test are recorded exactly, and every benchmark "
     "runs once, in order, at the chosen sampling frequency.",
     ["histories", "crash_points", "inputs"],
     "All histories of runs, crash points and results.",
     "No test covers the scripts.",
     ["scripts/beatsdrop/evaluation.py", "scripts/cim22/performance.py",
      "scripts/cim22/cochleagram_setup.py.in"],
     [("checkpoints", "scripts/beatsdrop/evaluation.py load_results, "
       "run_tests, save_dataframe"),
      ("resuming", "scripts/cim22/performance.py load_data, run_benchmarks")],
     ["scripts.beatsdrop.evaluation", "scripts.cim22.performance"],
     "Hypothesis: histories of runs with injected crashes against the "
     "results of an uninterrupted run",
     "Stateful search with injected faults; each test of the experiment is a "
     "stand-in." + TRUST)

prop("P35", "The example script resynthesizes the region without clipping",
     "The example script loads any WAV file as normalized mono audio, crops it "
     "at the given times, or at the onsets which surround them, or to "
     "the longest part between onsets, and saves exactly that region; fitting "
     "with its progress bar gives the same model as without; the "
     "resynthesis it saves is that of the model, turned down to the "
     "clipping threshold only if it is louder and clipping is not allowed.",
     ["inputs", "configurations"],
     "All WAV files, regions, modes and options.",
     "No test covers the scripts.",
     ["scripts/beatsdrop/example.py"],
     [("region", "scripts/beatsdrop/example.py load_audio, crop_audio"),
      ("output", "scripts/beatsdrop/example.py resynth_audio")],
     ["scripts.beatsdrop.example"],
     "Hypothesis: differential against a reference of the region and output",
     "Differential search over files and options." + TRUST)

prop("P36", "The modes are the estimates of the reported tracks, in order",
     "For every sound and configuration, the modes of a fitted model are, one "
     "by one and in order, the reduced frequency of each reported track and "
     "the decay and amplitude which its regressor, whichever it is, gives to "
     "the level of the track over the times of the centres of its frames. "
     "Frames missing from a track, as where it was joined after a dropout, "
     "leave the times of the others as they are; only invalid modes are left "
     "out.",
     ["inputs", "configurations"],
     "All sounds (also with dropouts and sudden onsets), sample types and "
     "rates, analysis configurations, regressors and frequency reductions.",
     "Tests fit continuous partials only, with the default regressor.",
     ["sample/sample.py", "sample/sms/mm.py"],
     [("times of the frames", "sample/sample.py SAMPLE._preprocess_track"),
      ("estimates", "sample/sample.py SAMPLE._fit_track, SAMPLE.fit")],
     ["sample.SAMPLE.fit", "sample.SAMPLE.param_matrix_",
      "sample.sms.sm.SinusoidalModel.tracks_"],
     "Hypothesis: differential against the regressor on the reported tracks",
     "Differential search over sounds with dropouts, configurations and "
     "regressors." + TRUST)

prop("P37", "Copies of models and other objects are equivalent and independent",
     "A pickled or deeply copied object of the package (a fitted or unfitted "
     "model, a sinusoidal model, a tracker in the middle of a history, a "
     "regressor, a filterbank, a random generator, a loss, an optimizer) "
     "gives the same results as the original; whatever is then done with one "
     "of them (refitting, changing settings, editing its results in place) "
     "does not change what the other one answers, and doing the same with the "
     "other one gives the same.",
     ["inputs", "histories"],
     "All objects with their settings, all sounds, all protocols of pickle.",
     "Tests never pickle an object, and never use one object after changing "
     "its copy; shared members go unseen until both are used.",
     ["sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py",
      "sample/beatsdrop/regression.py", "sample/utils/learn.py",
      "sample/psycho.py", "sample/evaluation/random.py",
      "sample/evaluation/metrics.py", "sample/optimize.py"],
     [("fitted state", "sample/sample.py SAMPLE.fit"),
      ("state of the tracker", "sample/sms/sm.py SineTracker.reset"),
      ("default members", "sample/utils/learn.py default_property"),
      ("residual function", "sample/beatsdrop/regression.py BeatRegression.fit")],
     ["pickle.dumps", "copy.deepcopy", "SAMPLE.fit", "SineTracker.__call__"],
     "Hypothesis: differential between an object and its copies, used one "
     "after the other",
     "Differential search over objects, ways of copying and uses." + TRUST)

prop("P38", "Calls leave their arguments and the process as they were",
     "Every public call, unless it was given an output array, leaves its "
     "arguments (arrays, lists, dictionaries, models) bitwise as they were, "
     "and returns results of its own, so that overwriting them changes "
     "neither the arguments nor what the next call returns. The same "
     "arguments give the same results, whatever their layout in memory "
     "(read-only, strided, reversed, byte-swapped) and whatever the state of "
     "the global random generators. No call, also when it fails, changes the "
     "state of the process (random generators, floating point errors, print "
     "options, warning filters, environment, plot settings, streams).",
     ["inputs", "histories", "fault_sequences"],
     "All conversions, transforms, filters, losses, generators, regressions, "
     "fits, resyntheses, searches and plots; contiguous or not, writeable or "
     "not; calls which fail in a callback or on their arguments.",
     "Tests pass fresh contiguous arrays and never look at them again; state "
     "kept between calls, or restored only when nothing fails, goes unseen.",
     ["sample/sample.py", "sample/sms/dsp.py", "sample/sms/sm.py",
      "sample/sms/mm.py", "sample/utils/dsp.py", "sample/utils/__init__.py",
      "sample/psycho.py", "sample/hinge.py", "sample/evaluation/metrics.py",
      "sample/evaluation/random.py", "sample/optimize.py", "sample/plots.py",
      "sample/beatsdrop/regression.py"],
     [("in-place steps", "sample/sms/dsp.py dft; sample/utils/dsp.py "
       "strided_convolution, detrend; sample/psycho.py stft2mel"),
      ("keyword dictionaries", "sample/utils/__init__.py default_kws; "
       "sample/optimize.py sample_kwargs_remapper"),
      ("warnings", "sample/utils/__init__.py warnings_simplefilter; "
       "sample/optimize.py SAMPLEOptimizer.gp_minimize; sample/plots.py "
       "beatsdrop_comparison")],
     ["sample.SAMPLE", "sample.utils.dsp", "sample.psycho",
      "sample.evaluation.metrics", "sample.plots"],
     "Hypothesis: invariants over calls, repeated on the same and on "
     "differently laid out arguments",
     "Metamorphic search over calls, arguments, layouts and failures." + TRUST)
