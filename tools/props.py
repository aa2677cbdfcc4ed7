"""The properties, their anchors and how each is decided.  `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=anchors, technique=technique, level=level, level_note=note))


REAL = "bounded exhaustive exploration of the real code against an independent reference model"

prop("C01", "Bits to symbols to bits is lossless",
     "A bit sequence mapped to symbols of any QAM or PSK order and demodulated again gives back the same bits, in every mode, for both "
     "precisions; bits that do not fill a symbol are dropped with a warning and nothing else is lost. The symbols lie on the advertised "
     "unit-power alphabet, one distinct point per bit word, and building a signal from a symbol array recovers its symbols and bits, also "
     "when the symbols carry noise smaller than half the minimum distance.",
     ["inputs", "configurations"], "every order 2..1024 (QAM) and 2..256 (PSK), every word, every bit length, 1-3 modes, both precisions",
     "The tests try a handful of orders with one random sequence each; odd lengths, several modes with different bits and complex64 are "
     "not covered.", ["qampy/signals.py", "qampy/theory.py"],
     [("bit mapping and demodulation", "signals.SignalQAM (modulate, demodulate, from_bit_array)"),
      ("alphabets", "theory.cal_symbols_qam / cal_symbols_psk"), ("symbol arrays", "signals.*.from_symbol_array")],
     REAL, "all words of all orders, all bit lengths up to 5 symbols; nothing is sampled except the extra random patterns")

prop("C02", "The labelling is a Gray labelling and all derived tables agree",
     "In every QAM constellation whose number of bits is even and every PSK constellation two nearest neighbours carry labels that differ in "
     "exactly one bit; in the cross constellations (32, 128, 512 points) they differ in at most two, and in two only at the folded edges. "
     "The table of points per bit value used for soft metrics, the index table and the demodulator all describe the same labelling.",
     ["inputs", "configurations"], "every pair of nearest neighbours of every order 2..1024 (QAM), 2..256 (PSK)",
     "A test can compare single labels; the property is about all neighbour pairs of all orders.",
     ["qampy/theory.py", "qampy/signals.py", "qampy/core/utils.py", "qampy/core/signal_quality.py"],
     [("Gray code", "theory.gray_code_qam, core.utils.bin2gray"), ("soft-metric table", "core.signal_quality.generate_bitmapping_mtx")],
     REAL, "complete enumeration of neighbour pairs")

prop("C03", "Symbol decisions return the nearest alphabet point",
     "A hard decision on any received point gives the alphabet entry with the smallest Euclidean distance, its index and that distance, for "
     "every mode and sample, however far the point is from the constellation and whatever the alphabet is. All decision entry points agree.",
     ["inputs", "configurations"], "lattices over and far outside every constellation, every subset of a 3x3 grid as alphabet, all lengths",
     "Tests decide noisy copies of the constellation; boundary, far and arbitrary-alphabet points are not reached.",
     ["qampy/core/pythran_dsp.py", "qampy/core/signal_quality.py", "qampy/signals.py", "qampy/core/equalisation/pythran_equalisation.py"],
     [("decision loop", "pythran_dsp.make_decision / det_symbol"), ("argmin decision", "pythran_equalisation.det_symbol_argmin"),
      ("quantiser", "signal_quality.make_decision, signals.*.make_decision")],
     REAL, "lattice-complete within the stated bounds; ties are excluded")

prop("C04", "SER, BER and EVM report exactly the errors that happened",
     "For a received signal that equals the transmitted one except for chosen symbol replacements or displacements, the symbol error rate, the "
     "bit error rate and the error vector magnitude per mode equal the counted symbol errors, the counted differing bits and the RMS "
     "displacement; this holds also when the received signal is cyclically shifted, rotated by a multiple of 90 degrees, cut or repeated, "
     "as long as synchronisation is asked for.",
     ["inputs", "configurations"], "every single symbol substitution, every pair of error positions, every shift and rotation, lengths up to 3 patterns",
     "The tests check a few error counts at fixed positions with fixed seeds.",
     ["qampy/signals.py", "qampy/core/ber_functions.py", "qampy/core/signal_quality.py"],
     [("error counting", "signals.SignalBase.cal_ser / cal_ber / cal_evm"), ("alignment", "signals.SignalBase._sync_and_adjust")],
     REAL, "errors are injected exhaustively and counted independently")

prop("C05", "Synchronisation finds the shift; length adjustment extends or truncates",
     "Synchronising two sequences that are cyclic shifts of each other (possibly rotated by a multiple of 90 degrees, with few errors, and of "
     "different lengths) aligns them exactly: the returned pair agrees symbol by symbol, and the reported offset is that shift. Length "
     "adjustment returns sequences of equal length which are the periodic extension or the truncation of the given ones, and the search for "
     "a pattern in data reports a position where it is present or says that there is none.",
     ["inputs", "configurations"], "all short sequences, all shifts, all rotations, both sides, length ratios 0.5..2.5",
     "Tests use one random shift per case, so an off-by-one at wrap-around, at zero or at the end is invisible.",
     ["qampy/core/ber_functions.py", "qampy/signals.py"],
     [("shift search", "ber_functions.find_sequence_offset(_complex), sync_rx2tx, sync_tx2rx, sync_and_adjust"),
      ("length adjustment", "ber_functions.adjust_data_length")],
     REAL, "every shift and rotation of the enumerated patterns; ambiguous correlations are excluded and counted")

prop("C06", "PRBS generators produce the sequences of their polynomials",
     "Each pseudo-random bit generator yields for every non-zero start state and every length the sequence of the standard ITU polynomial of its "
     "order, with period 2^order-1, in the same way in all implementations. A multi-mode bit object uses the given seed and order for each "
     "mode, never the all-zero state, and the recorded seeds and orders reproduce its bits.",
     ["inputs", "configurations"], "every start state of order 7, the full cycles of orders 15 and 23, all lengths 0..80, all seed/order forms",
     "The tests compare one sequence per order from one seed.",
     ["qampy/core/prbs.py", "qampy/core/pythran_dsp.py", "qampy/signals.py"],
     [("registers", "pythran_dsp.prbs_ext / prbs_int, core.prbs.make_prbs_*"), ("bit objects", "signals.PRBSBits")],
     REAL, "complete state cycles up to order 23; order 31 bounded")

prop("C12", "Applying taps is the documented multi-mode filter and decimation",
     "Applying equaliser taps to a signal gives for every selected mode the sum over all input modes and taps of sample times weight, "
     "evaluated once per output symbol at the oversampling distance, with as many outputs as fit into the signal; it is linear in both "
     "operands, independent for each mode, agrees for complex and real-valued taps and for all implementations, and returns a signal object "
     "at one sample per symbol (or the requested rate) with the attributes of the input.",
     ["inputs", "configurations"], "unit impulses at every sample and tap, all lengths to 16, 1-3 modes, oversampling 1-4, every ordered choice of modes, four dtypes",
     "Tests apply one set of taps of one shape to one random signal.",
     ["qampy/core/equalisation/equalisation.py", "qampy/core/equalisation/pythran_equalisation.py", "qampy/equalisation.py"],
     [("filter", "pythran_equalisation.apply_filter_to_signal"), ("front ends", "core.equalisation.apply_filter, equalisation.apply_filter")],
     REAL, "the filter is bilinear, so the unit impulses cover a complete basis within the bounds; integer data make comparisons exact")

prop("C13", "Equaliser training follows the update rule of its method, mode by mode",
     "For every method (constant modulus, radius directed, decision directed, data aided; complex or real-valued) each training step changes the "
     "taps by step size times error times the conjugate input window, with the error function documented for that method, for every "
     "selected mode independently of the order and number of the others; the returned error trace contains the error of each step and the "
     "step size is reduced only when it is adaptive. Training never reads beyond the signal, never changes its arguments, and the "
     "two-stage and signal-object forms do the same as their parts.",
     ["inputs", "configurations", "histories"],
     "14 methods, 1-3 modes, oversampling 1-2, taps 1-7, 1-3 iterations, all selections of modes, two precisions, five orders",
     "The tests check that the SER after convergence is zero, which tolerates wrong error functions, wrong modes and wrong step sizes.",
     ["qampy/core/equalisation/equalisation.py", "qampy/core/equalisation/pythran_equalisation.py", "qampy/equalisation.py"],
     [("training loop", "pythran_equalisation.train_equaliser / train_equaliser_realvalued"),
      ("reference symbols and partitions", "core.equalisation.generate_symbols_for_eq, generate_partition_codes_*"),
      ("front ends", "equalisation.equalise_signal, dual_mode_equalisation")],
     REAL, "every configuration of the stated grid, replayed update by update by an independent implementation; the data are seeded")

prop("C14", "Parallel loops give the same result under every schedule",
     "Every function with a parallel loop returns the same result whatever the number of threads and the interleaving of its iterations, "
     "and the result is that of the sequential program.",
     ["schedules", "inputs"], "all interleavings with at most 2 preemptions and every order of the iterations of every parallel loop, small inputs",
     "A test runs one schedule of the operating system; a race shows up rarely and only with the right timing.",
     ["qampy/core/pythran_dsp.py", "qampy/core/equalisation/pythran_equalisation.py"],
     [("parallel loops", "the functions with an 'omp parallel for' pragma in both pythran modules")],
     "stateless exploration of all thread interleavings (preemption bounded) of the parallel loops of the actual sources, bound to the compiled "
     "code by conformance runs with 1-8 threads",
     "the schedules are those of the source executed statement by statement (shared reads and writes are separate steps); sequential consistency is assumed")

prop("C07", "Signal objects keep their attributes through every operation",
     "Copying, slicing, arithmetic, NumPy functions that keep the class, pickling, re-creating from an array, resampling and all processing "
     "functions that return a signal return an object of the same class and precision that carries the transmitted symbols, bits, "
     "alphabet, modulation order, symbol rate, pilots and frame layout of its input, with the sampling rate the operation defines; the "
     "samples of array operations are those of the plain array and the input object is left as it was.",
     ["histories", "configurations"],
     "all sequences of two of 55 operations and of three array operations on 11 kinds of signal, two precisions, 1-2 modes",
     "The tests check a few attributes after single operations; losing an attribute shows only in the operation after it.",
     ["qampy/signals.py", "qampy/helpers.py", "qampy/impairments.py", "qampy/filtering.py", "qampy/phaserec.py", "qampy/equalisation.py",
      "qampy/analog_frontend.py"],
     [("attribute inheritance", "signals.SignalBase (__array_finalize__, __reduce__, __setstate__, recreate_from_np_array, resample)"),
      ("processing front ends", "the functions of the top-level modules")],
     "explicit-state exploration of all operation sequences on the real objects, every state compared with a model of array plus attributes",
     "all sequences up to the stated depth; processing functions are compared in attributes and shape, not in samples")

prop("C08", "Saved signals come back unchanged, damaged files are refused",
     "Saving a signal of any kind with any compression level and loading it, in the same or another process, gives an equal object: class, "
     "precision, samples, rates, all attributes and everything that can be computed from it. The last completed save of a file wins, saving "
     "does not change the signal, and a file cut short at any byte, or damaged so that its checksum fails, raises an error instead of giving a "
     "different signal. Matlab files in every documented layout are read with modes and quadratures where they belong.",
     ["crash_points", "histories", "inputs"],
     "every prefix and every flipped bit of the file of every kind of signal, every compression level, all histories of 3 saves and loads on two files, all key layouts",
     "The tests save and load two kinds of signal once and compare the samples; they never damage a file.",
     ["qampy/core/io.py", "qampy/io.py", "qampy/signals.py"],
     [("save and load", "core.io.save_signal / load_signal, signals.SignalBase.save_to_file"), ("pickle support", "signals.SignalBase.__reduce__ / __setstate__"),
      ("Matlab", "core.io.ndarray_from_matlab, io.create_signal_from_matlab, io.load_symbols_from_matlab_file")],
     "exhaustive crash-point, torn-write and bit-damage exploration of the real files plus all short save/load histories against a model of the file system",
     "all truncations and single-bit damages of every file explored; damage that keeps the Adler-32 checksum valid is excluded")

prop("C09", "Pilot frames are laid out as documented and come apart frame by frame",
     "A signal with pilots holds in every frame the pilot sequence at the start, a phase pilot at every multiple of the insertion ratio after it "
     "(or pilots at the given positions) and the payload everywhere else; the requested frames' payload and pilots are returned in the requested order, "
     "with the symbols that were transmitted in them, as data of the caller; incomplete and non-existing frames do not count. The error rates and EVM "
     "of chosen frames count exactly the payload errors within these frames, and building a frame from given payload and pilots keeps them.",
     ["inputs", "configurations"], "every frame length to 12 with every sequence length and every allowed spacing, 1-3 frames, every selection of frames, "
     "every single symbol error",
     "The tests use one or two layouts with one frame.", ["qampy/signals.py"],
     [("layout", "signals.SignalWithPilots.__new__, _cal_pilot_idx, from_symbol_array"), ("extraction", "SignalWithPilots.get_data, extract_pilots"),
      ("metrics", "SignalWithPilots.cal_ser / cal_ber / cal_evm")],
     REAL, "all layouts within the bounds; own pilots for every frame (repeat_pilots=False) are a known finding")

prop("C10", "Time-domain hybrid QAM keeps its frame structure and both its parts",
     "A hybrid signal of two formats consists of whole frames in which the first symbols belong to the first and the last to the second format, in the "
     "requested fraction; the second format is scaled so that the minimum distances of both are equal and the power ratio says by how much. Both parts "
     "come back without loss from the signal, decide and demodulate to the bits that went in; from given arrays as many whole frames as possible are built, "
     "and the arrays are not changed.",
     ["inputs", "configurations"], "all pairs of orders, all fractions with small denominators, all lengths to 3 frames, all pairs of array lengths to 16",
     "The tests check one pair of orders with a fraction of one half.", ["qampy/signals.py"],
     [("hybrid signal", "signals.TDHQAMSymbols.__new__, from_symbol_arrays, calculate_power_ratio")],
     REAL, "all layouts within the bounds")

prop("C15", "Carrier recovery removes the phase it reports, and it is the right one",
     "The blind phase search gives every sample with a complete window the test angle with the least sum of squared distances to the alphabet, whatever the "
     "scale of the alphabet, unwrapped modulo a quarter turn; the two-stage search refines it within one step; Viterbi-Viterbi gives the phase of the "
     "averaged M-th power and the 16-QAM partitioning that of its rings. Each returns the signal rotated by exactly the reported phase, so that constant "
     "and slowly drifting phases are removed up to the symmetry of the format, without slips, for every mode on its own. The frequency offset is found to "
     "within half a bin and compensation removes it.",
     ["inputs", "configurations"], "all short lengths, windows and numbers of test angles; every phase and frequency on a fine grid; all implementations, both precisions",
     "The tests recover one random phase walk and accept any small error rate.", ["qampy/core/phaserecovery.py", "qampy/core/pythran_dsp.py", "qampy/phaserec.py"],
     [("phase search", "core.phaserecovery.bps, bps_twostage; pythran_dsp.bps, select_angle_index, select_angles"),
      ("M-th power", "core.phaserecovery.viterbiviterbi, phase_partition_16qam"), ("frequency offset", "core.phaserecovery.find_freq_offset, comp_freq_offset")],
     REAL, "phase and frequency grids; ties are resolved in favour of the code")

prop("C16", "Pilot-aided phase and frequency estimates follow their pilots",
     "The pilot phase trace is the moving average of the unwrapped phase differences of the chosen pilots (every n-th, block limit, with or without the "
     "sequence, over the chosen frames), linear between them and constant outside; the output is the processed part of the signal without exactly this "
     "phase, in the same signal class. A constant phase is removed completely, a linear drift between evenly spaced pilots, in every frame and mode. The constant-"
     "offset and the frequency estimate from pilots are exact for constant and linear phases, wherever the phase wraps.",
     ["inputs", "configurations"], "12 frame layouts with all combinations of average, ratio, limits, frames and modes; phase and frequency grids; all signal lengths",
     "The tests use one layout, one frame and a small phase noise.", ["qampy/core/pilotbased_receiver.py", "qampy/phaserec.py"],
     [("phase trace", "core.pilotbased_receiver.pilot_based_cpe_new, pilot_based_cpe; phaserec.pilot_cpe"),
      ("offsets", "phaserec.find_pilot_const_phase, correct_pilot_const_phase; core.pilotbased_receiver.pilot_based_foe")],
     REAL, "all configurations of the grid")

prop("C17", "Frame synchronisation finds the frame; the pilot equaliser recovers its frames",
     "For a pilot signal delayed by any number of symbols (each mode by its own), with its modes in any order and rotated, synchronisation reports success, puts the "
     "modes into the order of the pilots and reports for each where its frame starts, corrected for the equaliser taps. Equalising any chosen frames then gives "
     "these frames at one sample per symbol, every mode filtered from its own start whatever the number of taps, and after phase correction the payload is received "
     "without errors. Signals that are too short, not synchronised or without sequence are refused or reported; the caller's shifts and samples are not changed.",
     ["inputs", "configurations"], "all delays by whole symbols, all orders of up to 3 modes, skews, all selections of frames, taps 1-23",
     "The tests synchronise a few delays and one frame.", ["qampy/signals.py", "qampy/core/pilotbased_receiver.py", "qampy/equalisation.py"],
     [("synchronisation", "signals.SignalWithPilots.sync2frame, core.pilotbased_receiver.frame_sync"),
      ("pilot equaliser", "core.pilotbased_receiver.equalize_pilot_sequence, equalisation.pilot_equaliser(_nframes), _apply_to_pilotsignal"),
      ("shifts", "core.pilotbased_receiver.shift_signal, correct_shifts")],
     REAL, "frames of 1024-4096 symbols; delays by half a symbol are a known finding")

prop("C18", "Simulated impairments do exactly what their parameters say",
     "PMD rotates, delays the two principal axes against each other and rotates back, conserving the energy; dispersion applies the quadratic spectral phase, is "
     "additive in length and undone by the opposite length, and rotation, carrier offset and modal delays act as defined; all for every length, mode count and "
     "precision; added noise is complex white Gaussian of the requested power, phase noise a Wiener process of the requested linewidth, in every mode "
     "independently. Quantisers put every sample on one of their levels (the midrise one on the nearest), the DAC clips, quantises and filters as asked, the modulator "
     "follows its transfer function. simulate_transmission combines exactly the requested impairments, and signals keep class, rates and symbols.",
     ["inputs", "configurations"], "linear impairments on a whole basis of impulses for all lengths to 12; grids over all parameters; all 64 subsets of impairments",
     "The tests check that dtype and shape survive and a few error rates.", ["qampy/core/impairments.py", "qampy/impairments.py"],
     [("linear impairments", "core.impairments.apply_PMD_to_field, add_dispersion, rotate_field, add_carrier_offset, add_modal_delay"),
      ("noise", "core.impairments.add_awgn, change_snr, phase_noise, apply_phase_noise, apply_enob_as_awgn"),
      ("transmitter", "core.impairments.quantize_signal, quantize_signal_New, modulator_response, sim_DAC_response, sim_tx_response"),
      ("combination", "impairments.simulate_transmission")],
     REAL, "noise: the generator is replaced by one whose every draw is enumerated, which determines the (linear) noise completely; moments of 40000 samples only in addition")

prop("C11", "Operations leave their inputs alone and depend only on their arguments",
     "Calling an operation of the library never changes the samples, attributes or settings of the signals and arrays it is given, nor default arguments or constants of the library, unless "
     "that is its documented purpose; results do not share memory with their inputs such that using one corrupts the other. An operation that draws no random numbers gives the same result "
     "whenever it is called with the same arguments, whatever was called before, and accepts read-only inputs and arrays in any memory layout (slices, transposed, reversed) with the same result.",
     ["histories", "inputs"], "every ordered pair of about 175 operations on 14 shared signals (thorough: all triples of 24 of them), each compared with its result in isolation",
     "A test calls one operation on a fresh signal; here the property is about all sequences of operations on shared data.",
     ["qampy/signals.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/filtering.py", "qampy/helpers.py", "qampy/core"],
     [("operations on signals", "qampy.* wrappers"), ("operations on arrays", "qampy.core.*"), ("attribute propagation", "signals.SignalBase.__array_finalize__, _copy_inherits")],
     "exhaustive exploration of operation sequences of the real code to a depth, with the complete shared state compared after every step",
     "depth 2 (thorough 3 on a subset); normalize_and_center, sync2frame and corr_foe work in place by design, functions that draw random numbers are only checked for their inputs")

prop("C19", "Filters and resampling are exactly the linear operations they are named after",
     "Root raised cosine responses in time and frequency are the ones of the definition, also at their singular points. Pulse shaping and resampling by any rational ratio are the convolution "
     "with that pulse without delay (whole basis of impulses), keep the Nyquist property through a matched pair, act mode by mode and keep class, rates and symbols. Bessel and Butterworth "
     "filters are causal, linear low passes with 3 dB loss at the cutoff; Gaussian and exponential filters are zero-phase; pre-filters and moving averages follow their definition.",
     ["inputs", "configurations"], "all lengths to 10, all ratios p/q with p, q <= 5, roll-offs in 1/40 steps, taps 1-42, filter orders 1-6 with 5 cutoffs, 1-3 modes, both precisions",
     "The tests resample one signal and compare powers.", ["qampy/core/filter.py", "qampy/core/resample.py", "qampy/core/special_fcts.py", "qampy/filtering.py", "qampy/signals.py"],
     [("pulse", "core.special_fcts.rrcos_time, rrcos_freq, rcos_time, rcos_freq; core.filter.rrcos_pulseshaping"), ("resampling", "core.resample.rrcos_resample, resample_poly; signals.*.resample"),
      ("filters", "core.filter.filter_signal, pre_filter, pre_filter_wdm, moving_average")],
     REAL, "linear operations are determined by their impulse responses; known finding: cutoff of the gauss and exp filters")

prop("C20", "Centring, normalising, scaling and unit helpers do what they say",
     "Every mode is centred and scaled to unit power by itself (also in place), pilot signals by the power of their pilots only; rescaling maps onto the requested swing, units convert both ways, "
     "edges are cut off exactly, the pilot index maps every sample of every frame at every oversampling; signals keep class, precision and symbols.",
     ["inputs", "configurations"], "every signal of 1 to 5 samples over 6 values, two modes of 2 samples, every set of pilots, every frame layout to 12 symbols",
     "The tests normalise one random signal.", ["qampy/core/utils.py", "qampy/helpers.py", "qampy/core/impairments.py"],
     [("normalising", "helpers.normalise_and_center, core.utils.*"), ("scaling", "helpers.rescale_signal, dB2lin, lin2dB"), ("pilots", "helpers.find_pilot_idx, normalise_and_center_pil")],
     REAL, "complete over the small value sets")

prop("C21", "Soft metrics equal the sums over the alphabet that define them",
     "L-values (exact and max-log) of every received symbol equal the log-ratio of the sums over the alphabet, with the sign that makes hard decisions agree with the bits; GMI and MI are the averages of "
     "these sums, per mode and bit, between minus infinity and the number of bits, for every order, both precisions and SNRs up to 60 dB without overflow; giving the SNR explicitly, per mode or "
     "estimating it agree; pilot signals use their payload.",
     ["inputs", "configurations"], "all orders 2..256, 8 SNRs, a 15x15 grid of received symbols; all symbols with every one of 9 displacements",
     "The tests compare two implementations at one SNR.", ["qampy/core/pythran_dsp.py", "qampy/core/signal_quality.py", "qampy/signals.py", "qampy/theory.py"],
     [("L-values", "core.pythran_dsp.soft_l_value_demapper, soft_l_value_demapper_minmax"), ("metrics", "signals.SignalBase.cal_gmi, cal_mi; core.signal_quality.cal_mi"), ("Monte-Carlo theory", "theory.cal_mi_mc")],
     REAL, "grid-complete; Monte-Carlo variants with fixed noise values only")

prop("C22", "The estimated SNR is mean-symbol power over power around the means",
     "For every received signal the estimate equals, per mode, the power of the conditional means of the transmitted symbols over the power around them, weighted by how often each was sent; symbols of the "
     "alphabet that do not occur do not matter; gain, rotation and offsets act as in the definition, and synchronisation (shift, order of modes, length) does not change it; pilot signals use the chosen frames.",
     ["inputs", "configurations"], "every sequence of 2 to 4 BPSK/QPSK symbols with all displacements out of 5; all orders to 256, 1-3 modes, 17 shifts, all orders of modes",
     "The tests estimate the SNR of a few noisy signals within 1 dB.", ["qampy/signals.py", "qampy/core/signal_quality.py", "qampy/core/pythran_dsp.py"],
     [("estimator", "core.pythran_dsp.estimate_snr, core.signal_quality.estimate_snr"), ("interface", "signals.SignalBase.est_snr, SignalWithPilots.est_snr")],
     REAL, "complete for the short sequences")

prop("C23", "Framing, searching and bit helpers are exact for every input",
     "segment_axis returns exactly the overlapping frames of any array (any axis, stride, ending), rolling_window every window, find_offset every position at which a sequence begins, bit and Gray conversions "
     "are inverse to each other, bit streams interleave losslessly.",
     ["inputs"], "every length to 12 with all frames and overlaps of 1-3 dimensional views; every binary sequence to 4 in all data to 9 values; all bit vectors to 12 bits",
     "The tests use two or three arrays.", ["qampy/core/segmentaxis.py", "qampy/core/utils.py", "qampy/core/ber_functions.py"],
     [("framing", "core.segmentaxis.segment_axis, core.utils.rolling_window"), ("search", "core.utils.find_offset"), ("bits", "core.utils.bin2gray, convert_iqtosinglebitstream")],
     REAL, "complete within the sizes")

prop("C24", "Pre-compensation tables hold the mean error of every pattern",
     "The look-up table assigns every window of symbols exactly one pattern and holds the mean deviation of the selected received symbols for it, real and complex; subtracting it removes every "
     "deviation that is a function of the pattern; clipping limits exactly, modulator compensation inverts the modulator response, DAC compensation the response of its filter.",
     ["inputs", "configurations"], "every sequence to 5 QPSK symbols (3 for larger alphabets), memory 1-3, every subset of used symbols; every pattern of whole alphabets",
     "The tests check one QPSK sequence.", ["qampy/core/pythran_dsp.py", "qampy/core/digital_pre_compensation.py"],
     [("table", "core.digital_pre_compensation.cal_lut, core.pythran_dsp.cal_lut_avg"), ("compensation", "comp_mod_sin, comp_dac_resp, clipper")],
     REAL, "complete for short sequences")

prop("C25", "Theoretical error rates and alphabets match the decisions they predict",
     "The theoretical SER and BER of QAM, PAM and PSK at every SNR equal the sum over all transmitted symbols and all decision regions, both from formulas and from the library's own decisions integrated over a grid of received "
     "points; hybrids mix their parts by rate; shaped and unshaped alphabets have the stated power and probabilities; Monte-Carlo kernels equal the full double sum.",
     ["inputs", "configurations"], "square QAM 4..1024, PSK to 64, SNR -5..40 dB, received points on grids to 641x641, all hybrids of 4 orders",
     "The tests compare single values at single SNRs.", ["qampy/theory.py", "qampy/core/pythran_dsp.py"],
     [("rates", "theory.ser_vs_es_over_n0_qam, ber_vs_es_over_n0_qam, ..."), ("alphabets", "theory.cal_symbols_*, cal_scaling_factor_qam, generate_ps_symbols"), ("kernels", "pythran_dsp.cal_mi_mc, cal_mi_mc_fast")],
     REAL, "PSK SER is claimed as upper bound (union bound)")

prop("C26", "The receiver recovers what was sent under every combination of impairments",
     "QPSK distorted by any subset of modal delay, dispersion, PMD, carrier offset, phase noise, static phase and IQ imbalance, and QAM 16/64 under any subset of the static ones, is recovered without bit errors by "
     "equaliser, frequency and phase recovery with the documented settings, in both precisions; linear impairments that act alike on all modes may be applied in any order.",
     ["configurations", "histories"], "all 128 subsets of 7 impairments with 3 carrier recoveries; all 32 subsets of 5 at several rotations of 3 orders; all 120 orders of 5 impairments",
     "The tests run a handful of single-impairment chains.", ["qampy/equalisation.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/core"],
     [("equaliser", "equalisation.dual_mode_equalisation, equalise_signal"), ("carrier recovery", "phaserec.bps, bps_twostage, viterbiviterbi, find_freq_offset, comp_freq_offset"), ("channel", "impairments.simulate_transmission")],
     REAL, "one seed per run (thorough 3); moderate impairments")

prop("C27", "Dispersion compensation is the all-pass of the stated fibre, whole or in blocks",
     "CDcomp multiplies the spectrum by the parabolic phase of the fibre and nothing else: it is linear, keeps the energy, lengths add up and the opposite length undoes it; block processing with any block size gives exactly the overlap-save "
     "result and equals the whole signal when the block is long enough; a dispersed signal is restored.",
     ["inputs", "configurations"], "every signal of 1 to 5 samples over 4 values, every impulse up to 32 samples, 6 fibres, every block size",
     "The test compensates one signal.", ["qampy/core/equalisation/equalisation.py", "qampy/core/impairments.py"],
     [("compensation", "core.equalisation.CDcomp"), ("fibre", "core.impairments.add_dispersion")],
     REAL, "known finding: CDcomp and add_dispersion have the same sign")

prop("C28", "Front-end compensation orthogonalises the quadratures and delays exactly",
     "After compensation of a signal of any mode its quadratures are orthogonal and equally strong with zero mean, computed from the symbols only where asked for; an imbalance of a balanced signal is removed exactly; delaying by a fraction of a sample "
     "is the exact shift in the spectrum and delays add up; signals keep class and precision.",
     ["inputs", "configurations"], "every signal of 3 and 4 samples over 6 values, two modes over 4 values, all delays of short real signals; phases and gains on a grid",
     "The tests check one imbalance.", ["qampy/core/analog_frontend.py", "qampy/analog_frontend.py"],
     [("quadratures", "core.analog_frontend.comp_IQ_inbalance, orthonormalize_signal"), ("delay", "core.analog_frontend.comp_rf_delay")],
     REAL, "complete for short signals")

prop("C29", "Moment-based SNR and EVM estimates are exact whenever the moments are",
     "For every QAM order the second and fourth moments of a received signal give its signal power and signal to noise ratio whenever the noise has the moments of circular "
     "Gaussian noise, whatever gain, rotation and order of the samples; normalising to this power and then measuring the distance to the nearest point (blind) or to the "
     "symbol that was sent gives the error vector magnitude; the blind QPSK estimate is power over variance of the folded constellation.",
     ["inputs"], "complete products of every constellation with finite noise alphabets, all displacements of a grid",
     "No test covers these estimators.", ["qampy/core/signal_quality.py"],
     [("estimators", "core.signal_quality.cal_snr_qam, cal_s0, norm_to_s0, cal_evm, _cal_evm_blind, cal_snr_blind_qpsk")],
     REAL, "signals with exact moments; statistical error of finite records is outside")
prop("C30", "Distributed workers answer every request exactly once, with its own result",
     "Whatever the order in which a dealer sends requests and collects answers, however its workers' socket operations interleave and whichever answer arrives first, every request gets exactly one answer: the result of the "
     "requested method for its own data, or, as an exception of the dealer, the error it raised; bad requests, unknown methods and errors of any text leave the worker running for the next request; when a worker "
     "dies, only requests given to it stay unanswered; push-pull workers deliver every job's result to the sink. Arrays and containers survive packing with type, shape and every bit.",
     ["schedules", "crash_points", "inputs"], "all interleavings of all socket operations of 1-3 workers and 1-4 requests, all orders of sending and collecting, a worker dying before any operation",
     "No test covers this module, and a test would see one schedule.", ["qampy/core/processing.py"],
     [("workers", "core.processing.RepWorker, PhRecWorker, PPWorker"), ("clients", "core.processing.DataDealer, ResultSink"), ("packing", "core.processing.pack_array, unpack_array, send_array, recv_array")],
     "stateless exploration of all schedules of the real classes over simulated sockets (larger configurations: histories that meet in the same state are merged), replayed over real sockets",
     "complete within the stated numbers of workers and requests; the simulated sockets are bound to zmq by replaying the histories over real in-process sockets")

prop("C31", "The numba equaliser trains by the formulas of its error functions",
     "Every error function of the numba equaliser returns the error its formula defines, with the decision region given by the partition or the nearest symbol; training applies the conjugated taps, "
     "adds the stated gradient step for every symbol and returns all errors, the last taps and the step size, which with step control shrinks unless consecutive errors agree in sign.",
     ["inputs", "histories"], "all sample sequences of a small alphabet to length 5, one and two modes, oversampling 1-3, taps 1-4; error functions on a grid with all region borders",
     "No test covers this module.", ["qampy/core/equalisation/numba_equalisation.py"],
     [("training", "core.equalisation.numba_equalisation.train_eq, adapt_step"), ("errors", "core.equalisation.numba_equalisation.ErrorFct*"), ("partition", "core.equalisation.numba_equalisation.partition_value, partition_signal")],
     REAL, "complete for the stated histories; values within rounding of a decision border are left out and counted")
NA = {}
P.sort(key=lambda p: p["id"])
