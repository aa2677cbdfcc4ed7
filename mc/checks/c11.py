"""C11: operations leave their inputs alone and depend on nothing but their arguments: every sequence of operations on shared inputs."""
import contextlib
import io as _io
import itertools
import os
import shutil
import sys
import tempfile
import types
import numpy as np
import qampy
from qampy import signals, equalisation, phaserec, filtering, impairments, analog_frontend, helpers, theory, io as qio
from qampy.core import (ber_functions, phaserecovery, resample, pilotbased_receiver as pr, digital_pre_compensation as dpc, utils, signal_quality as sq, special_fcts, prbs,
                        filter as cfilter, impairments as cimp, analog_frontend as caf)
from qampy.core.equalisation import equalisation as ceq
from qampy.core.segmentaxis import segment_axis

RULE = ("a state is the contents of all shared inputs (samples, attributes, settings), of all default arguments and of all constants of the library; a trace is one sequence of operations after "
        "which the state was compared with the one before and every result with the result of the operation alone")
BOUNDS = {
    "quick": "about 205 operations on 14 shared signals: all of them alone, twice, and every ordered pair of different operations; 35 operations with parameters that ask for nothing (same rate, no offset, no delay): their results are signals of their own; read-only inputs for all operations that accept them; all operations on inputs in five other memory layouts (every second element of a larger array, column-major, reversed, inside another array, view of every second row)",
    "thorough": "as quick, and all triples of 24 operations that keep or share data",
}
GROUPS = 16


def env(seed):
    s = signals.SignalQAMGrayCoded(16, 256, nmodes=2, seed=seed, fb=10e9)
    s64 = signals.SignalQAMGrayCoded(4, 512, nmodes=2, seed=seed, fb=10e9, dtype=np.complex64)
    p = signals.SignalPSKGrayCoded(4, 256, nmodes=1, seed=seed, fb=10e9)
    r = np.random.RandomState(seed)
    e = {"s": s, "s64": s64, "p": p}
    e["rx"] = s.recreate_from_np_array(np.asarray(s) * np.exp(0.02j) + 0.05 * (r.randn(2, 256) + 1j * r.randn(2, 256)))
    e["os2"] = s.resample(20e9, beta=0.1, renormalise=True)
    e["os2c8"] = s64.resample(20e9, beta=0.1, renormalise=True)
    e["fast"] = signals.SignalQAMGrayCoded(16, 256, nmodes=2, seed=seed, fb=30e9).resample(60e9, beta=0.1, renormalise=True)
    e["real"] = e["os2"].real.copy()
    e["arr"] = np.array(np.asarray(e["rx"]))
    e["arr1"] = e["arr"][0].copy()
    e["pil"] = signals.SignalWithPilots(16, 512, 64, 16, nframes=2, nmodes=2, seed=seed, fb=10e9)
    q = e["pil"]
    e["pilrx"] = q.recreate_from_np_array(np.asarray(q) * np.exp(0.1j) + 0.03 * (r.randn(*q.shape) + 1j * r.randn(*q.shape)))
    q4 = signals.SignalWithPilots(4, 2048, 256, 32, nframes=3, nmodes=2, seed=seed, fb=10e9, Mpilots=4)
    y = q4.resample(20e9, beta=0.1, renormalise=True)
    y = y.recreate_from_np_array(np.roll(np.asarray(y), 601, -1))
    e["psync"] = impairments.change_snr(y, 35)
    e["tdh"] = signals.TDHQAMSymbols((16, 4), 240, fr=1 / 3, nmodes=2, seed=seed, fb=10e9)
    e["sym"] = np.array(np.asarray(s.coded_symbols))
    e["bits"] = np.array(s.bits)
    e["taps"] = 0.1 * (r.randn(2, 2, 11) + 1j * r.randn(2, 2, 11)) + np.eye(2)[:, :, None] * (np.arange(11) == 5)
    e["b1"] = r.rand(300) > 0.5
    e["mask"] = np.arange(256) % 3 != 1
    e["shift"] = np.array([3, 7])
    e["foff"] = np.array([[1e6], [2e6]])
    e["dac"] = {"cutoff": 6e9, "fn": None, "ch": None}
    e["angles"] = np.linspace(-0.7, 0.7, 16).reshape(1, -1)
    e["dir"] = None
    return e


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_io.StringIO()):
        yield


def _synced(e):
    c = e["psync"].copy()
    c.sync2frame(mu=1e-3, Ntaps=17)
    return c


def _inplace(c, sym):
    c.normalize_and_center(symbol_based=sym, synced=sym)
    return c


def _save(e):
    fn = os.path.join(e["dir"], "x.sig")
    e["rx"].save_to_file(fn)
    return qio_load(fn)


def qio_load(fn):
    from qampy.core import io as cio
    return cio.load_signal(fn)


OPS = {
    "ser": lambda e: e["rx"].cal_ser(), "ser_synced": lambda e: e["rx"].cal_ser(synced=True, verbose=True), "ber": lambda e: e["rx"].cal_ber(verbose=True), "ber_other": lambda e: e["s"].cal_ber(e["rx"]),
    "evm": lambda e: e["rx"].cal_evm(), "evm_blind": lambda e: e["rx"].cal_evm(blind=True), "snr": lambda e: e["rx"].est_snr(), "snr_synced": lambda e: e["rx"].est_snr(synced=True, verbose=True),
    "gmi": lambda e: e["rx"].cal_gmi(), "gmi_snr": lambda e: e["rx"].cal_gmi(synced=True, snr=np.array([12.0, 20.0])), "gmi_max": lambda e: e["rx"].cal_gmi(synced=True, llr_minmax=True),
    "mi": lambda e: e["rx"].cal_mi(synced=True), "mi_snr": lambda e: e["rx"].cal_mi(synced=True, snr=10), "decision": lambda e: e["s"].make_decision(e["rx"]), "decision_v": lambda e: e["rx"].make_decision(verbose=True),
    "demod": lambda e: e["s"].demodulate(e["rx"]), "modulate": lambda e: e["s"].modulate(e["bits"]), "symbols": lambda e: (e["rx"].symbols, e["rx"].coded_symbols, e["rx"].bits),
    "recreate": lambda e: e["s"].recreate_from_np_array(e["arr"]), "from_bits": lambda e: signals.SignalQAMGrayCoded.from_bit_array(e["bits"], 16, fb=10e9),
    "from_symbols": lambda e: signals.SignalQAMGrayCoded.from_symbol_array(e["s"], 16, fb=10e9), "from_array": lambda e: signals.SignalQAMGrayCoded.from_symbol_array(np.asarray(e["s"]) * 2, 16),
    "only": lambda e: signals.SymbolOnlySignal.from_symbol_array(e["arr"][:, :20], e["sym"]), "only_rand": lambda e: signals.SymbolOnlySignal(16, 20, e["sym"], nmodes=1)[:, :0],
    "resample": lambda e: e["s"].resample(20e9, beta=0.1, renormalise=True), "resample_down": lambda e: e["os2"].resample(10e9, beta=0.1), "resample_poly": lambda e: e["os2"].resample(15e9),
    "resample_c8": lambda e: e["s64"].resample(20e9, beta=0.1), "core_poly": lambda e: resample.resample_poly(e["arr"], 1, 2, renormalise=True),
    "core_rrc": lambda e: resample.rrcos_resample(e["arr1"], 1, 2, beta=0.1, taps=101, renormalise=True), "core_rrc_f": lambda e: resample.rrcos_resample(e["arr1"], 1, 2, beta=0.1, taps=101, fftconv=False),
    "normalize": lambda e: _inplace(e["rx"].copy(), False), "normalize_sym": lambda e: _inplace(e["rx"].copy(), True), "copy": lambda e: e["rx"].copy(), "save": _save,
    "slice": lambda e: e["rx"][:, ::2] * 1j, "arith": lambda e: (e["rx"] * 2 + e["s"] - 1j) / 3, "real": lambda e: (e["rx"].real, e["rx"].imag, abs(e["rx"])), "astype": lambda e: e["rx"].astype(np.complex64),
    "psk_ser": lambda e: e["p"].cal_ser(), "psk_gmi": lambda e: e["p"].cal_gmi(synced=True, snr=10),
    # pilots
    "data": lambda e: e["pilrx"].get_data(), "data1": lambda e: e["pilrx"].get_data([1]), "extract": lambda e: e["pilrx"].extract_pilots(), "pil_ser": lambda e: e["pilrx"].cal_ser(), "pil_ber": lambda e: e["pilrx"].cal_ber(frames=[1]),
    "pil_evm": lambda e: e["pilrx"].cal_evm(), "pil_snr": lambda e: e["pilrx"].est_snr(use_pilots=True), "pil_gmi": lambda e: e["pilrx"].cal_gmi(use_pilot_snr=True), "pil_seq": lambda e: (e["pil"].pilot_seq, e["pil"].ph_pilots, e["pil"].pilots),
    "pil_from": lambda e: signals.SignalWithPilots.from_symbol_array(e["s64"], 512, 64, 16, nframes=1), "pil_resample": lambda e: e["pil"].resample(20e9, beta=0.1),
    "pil_cpe": lambda e: phaserec.pilot_cpe(e["pilrx"], N=3), "pil_cpe2": lambda e: phaserec.pilot_cpe(e["pilrx"], N=3, pilot_rat=2, nframes=2, use_seq=True), "pil_sync": _synced,
    "pil_foe": lambda e: pr.pilot_based_foe(np.asarray(e["pilrx"].pilot_seq) * np.exp(0.01j * np.arange(64)), np.asarray(e["pil"].pilot_seq)), "pil_const": lambda e: phaserec.find_pilot_const_phase(np.asarray(e["pilrx"])[:, :64], np.asarray(e["pil"].pilot_seq)),
    "pil_correct": lambda e: phaserec.correct_pilot_const_phase(e["arr"], e["foff"] * 1e-7), "shift": lambda e: pr.shift_signal(e["arr"], e["shift"]), "shifts": lambda e: pr.correct_shifts(e["shift"], (17, 45), 2),
    "index": lambda e: helpers.find_pilot_idx(2, 64, 2, 16, 8), "core_cpe": lambda e: pr.pilot_based_cpe(np.asarray(e["pilrx"])[:, 64:512], np.asarray(e["pil"].ph_pilots), 16, num_average=3),
    # time-domain hybrid
    "tdh": lambda e: (e["tdh"].symbols_M1, e["tdh"].symbols_M2), "tdh_from": lambda e: signals.TDHQAMSymbols.from_symbol_arrays(e["s"][:, :160], e["p"].recreate_from_np_array(np.tile(np.asarray(e["p"])[:, :80], (2, 1))), 1 / 3),
    "tdh_ratio": lambda e: signals.TDHQAMSymbols.calculate_power_ratio(np.asarray(e["s"].coded_symbols), np.asarray(e["p"].coded_symbols)),
    # equalisation
    "eq": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=11, method="mcma"), "eq_taps": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, wxy=e["taps"], method="cma", apply=True),
    "eq_adapt": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=11, method="mcma", adaptive_stepsize=True, Niter=2), "eq_sbd": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, wxy=e["taps"], method="sbd", TrSyms=100),
    "eq_data": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=11, method="sbd_data", symbols=e["s"]), "eq_syms": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, wxy=e["taps"], method="mddma", symbols=e["sym"], modes=[1]),
    "eq_c8": lambda e: equalisation.equalise_signal(e["os2c8"], 1e-3, Ntaps=11, method="rde"), "eq_mrde": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="mrde"), "eq_sca": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="sgncma"),
    "eq_cma_real": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="cma_real"), "eq_sgn_real": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="sgncma_real"),
    "eq_dd": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="dd"), "eq_data_real": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="dd_data_real", symbols=e["s"]), "eq_cma2": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="cma2"), "eq_real": lambda e: equalisation.equalise_signal(e["os2"], 1e-3, Ntaps=7, method="dd_real", symbols=e["s"]),
    "dual": lambda e: equalisation.dual_mode_equalisation(e["os2"], (1e-3, 1e-3), 11, methods=("mcma", "sbd")), "dual_taps": lambda e: ceq.dual_mode_equalisation(np.asarray(e["os2"]), 2, (1e-3, 1e-3), 16, wxy=e["taps"], methods=("cma", "mddma"), adaptive_stepsize=(True, False)),
    "apply": lambda e: equalisation.apply_filter(e["os2"], e["taps"]), "apply_py": lambda e: equalisation.apply_filter(e["os2"], e["taps"], method="py"), "core_apply": lambda e: ceq.apply_filter(np.asarray(e["os2"]), 2, e["taps"], modes=np.array([1])),
    "orthotaps": lambda e: ceq.orthogonalizetaps(e["taps"]), "partition": lambda e: ceq.generate_partition_codes_complex(16), "radius": lambda e: ceq.generate_partition_codes_radius(64), "cd": lambda e: ceq.CDcomp(e["arr1"], 20e9, 0, 1e4, 17e-6, 1550e-9),
    "cd_block": lambda e: ceq.CDcomp(e["arr1"], 20e9, 64, 1e4, 17e-6, 1550e-9), "eq_pilot": lambda e: equalisation.pilot_equaliser(_synced(e), (1e-3, 1e-3), 17, Niter=5, adaptive_stepsize=False),
    # carrier recovery
    "bps": lambda e: phaserec.bps(e["rx"], 16, 11), "bps2": lambda e: phaserec.bps_twostage(e["rx"], 8, 11, B=4), "bps_c8": lambda e: phaserec.bps(e["s64"], 16, 11), "bps_py": lambda e: phaserecovery.bps(e["arr1"], 8, e["sym"], 11, method="py"),
    "viterbi": lambda e: phaserec.viterbiviterbi(e["p"], 11), "core_viterbi": lambda e: phaserecovery.viterbiviterbi(e["arr"], 11, 4), "partition16": lambda e: phaserecovery.partition_16qam(e["arr1"]), "phase16": lambda e: phaserecovery.phase_partition_16qam(e["arr1"], 11),
    "find_fo": lambda e: phaserec.find_freq_offset(e["rx"], fft_size=1024), "find_fo2": lambda e: phaserecovery.find_freq_offset(e["arr"], os=1, average_over_modes=True, fft_size=512), "comp_fo": lambda e: phaserec.comp_freq_offset(e["os2"], np.array([1e6, 2e6])),
    "core_comp_fo": lambda e: phaserecovery.comp_freq_offset(e["arr"], np.array([1e-3, 2e-3]), os=2), "select": lambda e: phaserecovery.bps(e["arr"], 16, e["sym"], 9),
    # filters
    "prefilter": lambda e: filtering.pre_filter(e["os2"], 6e9), "core_prefilter": lambda e: cfilter.pre_filter(e["arr"], 0.5), "wdm": lambda e: cfilter.pre_filter_wdm(e["arr1"], 0.5, 2, 0.1), "bessel": lambda e: filtering.filter_signal(e["os2"], 5e9),
    "butter": lambda e: filtering.filter_signal(e["os2"], 5e9, ftype="butter", order=3), "analog": lambda e: filtering.filter_signal(e["os2"], 5e9, ftype="bessel", analog=True), "gauss": lambda e: filtering.filter_signal(e["os2"], 5e9, ftype="gauss"),
    "exp": lambda e: filtering.filter_signal(e["os2"], 5e9, ftype="exp"), "rrc": lambda e: filtering.rrcos_pulseshaping(e["os2"], 0.1), "core_rrcp": lambda e: cfilter.rrcos_pulseshaping(e["arr"], 2.0, 1.0, 0.2, taps=31), "movavg": lambda e: cfilter.moving_average(e["arr"].real.copy(), 5),
    # impairments
    "pmd": lambda e: impairments.apply_PMD(e["os2"], 0.4, 30e-12), "rotate": lambda e: cimp.rotate_field(e["arr"], 0.3), "hpmd": lambda e: cimp.H_PMD(0.3, 1e-11, np.linspace(-1, 1, 9)), "offset": lambda e: impairments.add_carrier_offset(e["os2"], 1e6),
    "offsets": lambda e: impairments.add_carrier_offset(e["os2"], e["foff"]), "dispersion": lambda e: impairments.add_dispersion(e["os2"], 17e-6, 1e4), "delay": lambda e: cimp.add_modal_delay(e["os2"], e["shift"]), "mod": lambda e: impairments.sim_mod_response(e["os2"] * 0.1),
    "quant": lambda e: cimp.quantize_signal(e["rx"], 4), "quant2": lambda e: cimp.quantize_signal_New(e["rx"], 4), "quant_raw": lambda e: cimp.quantize_signal_New(e["arr"], 3, rescale_in=False, rescale_out=False), "amp": lambda e: cimp.ideal_amplifier_response(e["rx"], 2.0),
    "er": lambda e: cimp.er_to_g(20), "dacfilter": lambda e: cimp.apply_DAC_filter(e["os2"], 20e9, cutoff=6e9),
    "phasenoise": lambda e: impairments.apply_phase_noise(e["os2"], 1e5), "noise": lambda e: impairments.change_snr(e["os2"], 20), "awgn": lambda e: cimp.add_awgn(e["arr"], 0.1), "transmission": lambda e: impairments.simulate_transmission(e["os2"], snr=20, freq_off=1e6, lwdth=1e4, dgd=1e-11, modal_delay=e["shift"]),
    "tx": lambda e: impairments.sim_tx_response(e["os2"], enob=6, dac_params=e["dac"]), "dac": lambda e: impairments.sim_DAC_response(e["os2"], enob=5, cutoff=6e9), "enob": lambda e: cimp.apply_enob_as_awgn(e["rx"], 5), "tx_default": lambda e: impairments.sim_tx_response(e["fast"], quant_bits=6),
    # helpers
    "norm": lambda e: helpers.normalise_and_center(e["arr"]), "norm1": lambda e: helpers.normalise_and_center(e["arr1"]), "norm_pil": lambda e: helpers.normalise_and_center_pil(e["arr"], e["mask"]), "edges": lambda e: helpers.dump_edges(e["rx"], 3).copy(),
    "mid": lambda e: helpers.set_mid_point(e["arr1"], 1), "rescale": lambda e: helpers.rescale_signal(e["arr"], np.array([1.0, 2.0])), "midscale": lambda e: helpers.set_mid_and_resale(e["arr1"], 1, 2), "center": lambda e: helpers.get_center_shift_fac(e["arr"]), "cabs": lambda e: helpers.cabssquared(e["arr"]),
    "iq": lambda e: analog_frontend.comp_IQ_inbalance(e["arr1"]), "gram": lambda e: analog_frontend.orthonormalize_signal(e["rx"]), "rfdelay": lambda e: analog_frontend.comp_rf_delay(e["real"], 1e-11),
    "clip": lambda e: dpc.clipper(e["arr"], 0.5), "lut": lambda e: dpc.cal_lut(np.array(e["s"])[0], e["arr"][0], e["sym"], 2), "lut_mask": lambda e: dpc.cal_lut(np.array(e["s"])[1], e["arr"][1], e["sym"], 3, e["mask"]), "arcsin": lambda e: dpc.comp_mod_sin(e["arr"] * 0.1),
    "dacresp": lambda e: dpc.comp_dac_resp(10e9, 64, 0.1, prms_dac=(8e9, 2, "sos", 6)), "window": lambda e: utils.rolling_window(e["arr1"], 5, True).copy(), "segments": lambda e: segment_axis(e["arr1"], 7, 3, end="pad").copy(),
    "offset_find": lambda e: utils.find_offset(e["b1"][50:80], e["b1"]), "stream": lambda e: utils.convert_iqtosinglebitstream(e["b1"], e["b1"][::-1], 3), "seq_offset": lambda e: ber_functions.find_sequence_offset_complex(e["arr"][0], np.roll(e["arr"][0], 9)),
    "adjust": lambda e: ber_functions.sync_and_adjust(np.asarray(e["s"])[0], np.roll(np.asarray(e["rx"])[0], 5)), "ber_sync": lambda e: ber_functions.cal_ber_syncd(e["b1"].copy(), e["b1"]), "ber_nosync": lambda e: ber_functions.cal_ber_nosyncd(np.roll(e["b1"], 3), e["b1"]),
    "prbs": lambda e: prbs.make_prbs_extXOR(7, 200), "prbs_int": lambda e: prbs.make_prbs_intXOR(15, 200), "bertqpsk": lambda e: signals.QPSKfromBERT(64, nmodes=1), "prbsbits": lambda e: signals.PRBSBits(100, nmodes=2),
    "rcos": lambda e: special_fcts.rrcos_time(np.linspace(-5, 5, 41), 0.2, 1.0), "rcosf": lambda e: special_fcts.rrcos_freq(np.linspace(-1, 1, 41), 0.2, 1.0), "alphabet": lambda e: theory.cal_symbols_qam(32), "gray": lambda e: theory.gray_code_qam(64), "scale": lambda e: theory.cal_scaling_factor_qam(128),
    "shaping": lambda e: theory.cal_ps_probablts(e["sym"], 0.5), "mi_mc": lambda e: theory.sim_mi_mc(e["sym"], 10, 20), "gmi_mc": lambda e: theory.cal_gmi(4, 10, N=20), "ber_theory": lambda e: theory.ber_vs_es_over_n0_qam(np.array([1.0, 10.0]), 16),
    "signal_seed": lambda e: signals.SignalQAMGrayCoded(64, 50, nmodes=2, seed=7), "pilots_seed": lambda e: signals.SignalWithPilots(16, 128, 16, 8, nmodes=1, seed=7), "resampled": lambda e: signals.ResampledQAM(16, 50, fb=1, fs=2, seed=7),
    # the remaining functions of the libraries
    "window_cut": lambda e: utils.rolling_window(e["arr1"], 5).copy(), "window_2d": lambda e: utils.rolling_window(e["arr"], 4).copy(), "window_bits": lambda e: utils.rolling_window(e["b1"], 3).copy(),
    "segments_cut": lambda e: segment_axis(e["arr1"], 8, 2).copy(), "segments_wrap": lambda e: segment_axis(e["arr1"], 7, 3, end="wrap").copy(), "segments_2d": lambda e: segment_axis(e["arr"], 8, 4, axis=1).copy(),
    "bool2bin": lambda e: utils.bool2bin(e["b1"][:8]), "bin2gray": lambda e: utils.bin2gray(e["shift"]), "db": lambda e: (helpers.dB2lin(e["foff"] * 1e-6), helpers.lin2dB(e["foff"])),
    "ser_theory": lambda e: (theory.ser_vs_es_over_n0_qam(e["foff"], 16), theory.ser_vs_es_over_n0_psk(e["foff"], 8), theory.ser_vs_es_over_n0_4pam(e["foff"]), theory.ber_vs_evm_qam(e["foff"] * -1e-6, 16)),
    "hybrid": lambda e: theory.hybrid_qam_ber_vs_esn0(e["shift"] * 1.0, 0.5, 0.25, 16, 4), "shaped": lambda e: theory.generate_ps_symbols(20, *theory.cal_ps_probablts(e["sym"], 0.5)),
    "find_seq": lambda e: ber_functions.find_sequence_offset(e["b1"], np.roll(e["b1"], 9)), "sync_rx": lambda e: ber_functions.sync_rx2tx(e["b1"], np.roll(e["b1"], 7), 40), "sync_tx": lambda e: ber_functions.sync_tx2rx(e["b1"], np.roll(e["b1"], 7), 40),
    "adjust_rx": lambda e: ber_functions.sync_and_adjust(np.asarray(e["s"])[0], np.roll(np.asarray(e["rx"])[0], 5), adjust="rx"), "length": lambda e: [x.copy() for x in ber_functions.adjust_data_length(e["b1"], e["b1"][:90])],
    "norm_s0": lambda e: sq.norm_to_s0(e["arr"][0], 16), "core_snr": lambda e: sq.cal_snr_qam(e["arr1"], 16), "s0": lambda e: sq.cal_s0(e["arr1"], 16), "snr_qpsk": lambda e: sq.cal_snr_blind_qpsk(np.asarray(e["p"])[0] * 1.1),
    "core_evm": lambda e: (sq.cal_evm(e["arr1"], 16), sq.cal_evm(e["arr1"], 16, known=np.asarray(e["s"])[0])), "core_decision": lambda e: sq.make_decision(e["arr1"], e["sym"]),
    "core_mi": lambda e: sq.cal_mi(e["arr1"], np.asarray(e["s"])[0], e["sym"], 0.01), "core_mi_slow": lambda e: sq.cal_mi(e["arr1"][:40], np.asarray(e["s"])[0, :40], e["sym"], 0.01, fast=False),
    
    "field_pmd": lambda e: cimp.apply_PMD_to_field(e["arr"], 0.4, 1e-11, 2e10), "core_pn": lambda e: cimp.phase_noise((2, 50), 1e5, 1e9), "mod_core": lambda e: cimp.modulator_response(e["arr"] * 0.1, 1, 0.9, 0.1, 0.4),
    "shapes": lambda e: (special_fcts.ttanh(e["arr"].real, 1, 0, 2), special_fcts.gauss(e["arr"].real, 1, 0, 2), special_fcts.supergauss(e["arr"].real, 1, 0, 2, 3), special_fcts.sech(e["arr"].real, 1, 0, 2), special_fcts.q_function(e["arr"].real)),
    "shapes_rcos": lambda e: (special_fcts.rcos_time(e["arr1"].real, 0.2, 1.0), special_fcts.rcos_freq(e["arr1"].real, 0.2, 1.0)), "eq_symbols": lambda e: [ceq.generate_symbols_for_eq(m, 16, np.complex128) for m in ("cma", "mcma", "rde", "mrde", "sbd", "mddma", "sgncma")],
    "analog_signal": lambda e: filtering.filter_signal_analog(e["os2"], 5e9, ftype="butter", order=3), "movavg_c": lambda e: cfilter.moving_average(e["arr"], 4), "alphabets": lambda e: (theory.cal_symbols_psk(8), theory.cal_symbols_square_qam(16), theory.cal_symbols_cross_qam(32)),
    "bitmap": lambda e: sq.generate_bitmapping_mtx(e["s"].coded_symbols, e["s"].demodulate(e["s"].coded_symbols[None]).reshape(16, 4), 16),
}
NEUTRAL = {
    "resample_same": lambda e: e["s"].resample(10e9, beta=0.1), "resample_same_pil": lambda e: e["pil"].resample(10e9, beta=0.1), "offset_0": lambda e: impairments.add_carrier_offset(e["os2"], 0.0),
    "pmd_0": lambda e: impairments.apply_PMD(e["os2"], 0.0, 0.0), "dispersion_0": lambda e: impairments.add_dispersion(e["os2"], 17e-6, 0.0), "delay_0": lambda e: cimp.add_modal_delay(e["os2"], [0, 0]),
    "phasenoise_0": lambda e: impairments.apply_phase_noise(e["os2"], 0.0), "tx_0": lambda e: impairments.sim_tx_response(e["fast"]) ,
    "shift_0": lambda e: pr.shift_signal(e["arr"], np.array([0, 0])), "comp_fo_0": lambda e: phaserec.comp_freq_offset(e["os2"], np.array([0.0, 0.0])), "rfdelay_0": lambda e: analog_frontend.comp_rf_delay(e["real"], 0.0),
    "rotate_0": lambda e: cimp.rotate_field(e["arr"], 0.0), "movavg_1": lambda e: cfilter.moving_average(e["arr"].real.copy(), 1), "clip_none": lambda e: dpc.clipper(e["arr"], 100.0), "quant_16": lambda e: cimp.quantize_signal_New(e["arr"], 16, rescale_in=False, rescale_out=False),
    "const_0": lambda e: phaserec.correct_pilot_const_phase(e["arr"], np.zeros((2,1))), "core_offset_0": lambda e: cimp.add_carrier_offset(e["arr"], 0.0, 1.0), "comp_core_0": lambda e: phaserecovery.comp_freq_offset(e["arr"], np.zeros(2)),
    "amp_none": lambda e: cimp.ideal_amplifier_response(e["rx"], 1.0), "data_all": lambda e: e["pilrx"].get_data([0, 1]), "cd_0": lambda e: ceq.CDcomp(e["arr1"], 20e9, 0, 0, 17e-6, 1550e-9)[0], "norm_already": lambda e: helpers.normalise_and_center(helpers.normalise_and_center(e["arr"])),
    "ortho": lambda e: ceq.orthogonalizetaps(e["taps"]), "dac_none": lambda e: impairments.sim_DAC_response(e["os2"]), "pre_0": lambda e: cfilter.pre_filter(e["arr"], 2.0), "apply_id": lambda e: ceq.apply_filter(np.asarray(e["s"]), 1, np.eye(2)[:, :, None] * (1 + 0j)),
    "awgn_0": lambda e: cimp.add_awgn(e["arr"], 0.0), "convert": lambda e: signals.SignalQAMGrayCoded.from_symbol_array(e["s"], 16), "pil_from1": lambda e: signals.SignalWithPilots.from_symbol_array(e["s"][:, :210], 256, 32, 16, nframes=1),
    "normalise": lambda e: e["rx"].make_decision(e["s"]), "polym": lambda e: resample.resample_poly(e["arr"], 1, 1), "coresame": lambda e: resample.rrcos_resample(e["arr1"], 1, 1, beta=.1),
}
FREE = {"gmi_mc", "pil_from"} # draws its own random numbers
KEEP = ["recreate", "from_symbols", "resample", "normalize", "copy", "slice", "data", "extract", "pil_from", "pil_cpe", "pil_sync", "tdh", "eq_taps", "eq_syms", "dual_taps", "apply", "bps", "comp_fo", "prefilter", "pmd", "delay", "tx", "quant2", "symbols"]


def dump(x, seen=()):
    """everything that can be seen of a value"""
    if isinstance(x, np.ndarray):
        if id(x) in seen:
            return "itself"
        seen = seen + (id(x),)
        d = getattr(x, "__dict__", None)
        a = np.asarray(x)
        return (type(x).__name__, a.shape, str(a.dtype), a.tobytes(), None if d is None else tuple((k, dump(v, seen)) for k, v in sorted(d.items())))
    if isinstance(x, dict):
        return tuple((k, dump(v, seen)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(dump(v, seen) for v in x)
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, types.GeneratorType)):
        return getattr(x, "__name__", "?")
    if isinstance(x, np.random.RandomState):
        return dump(x.get_state())
    r = repr(x)
    return type(x).__name__ if " at 0x" in r else r


def same(x, y):
    """equal up to the last digits: the order of summation depends on where an array lies in memory"""
    if type(x) is not type(y):
        return False
    if isinstance(x, tuple):
        if len(x) == 5 and isinstance(x[3], bytes) and isinstance(y[3] if len(y) == 5 else None, bytes):
            if x[:3] != y[:3] or not same(x[4], y[4]):
                return False
            if x[3] == y[3]:
                return True
            a, b = np.frombuffer(x[3], x[2]), np.frombuffer(y[3], y[2])
            if a.dtype.kind not in "fc":
                return False
            eps = 1e-10 if np.finfo(a.dtype).eps < 1e-12 else 1e-4
            n = np.isfinite(a)
            return bool(np.array_equal(n, np.isfinite(b)) and np.all(np.abs(a[n] - b[n]) <= eps * (1 + np.abs(a[n]))))
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if x != y and isinstance(x, str):
        try:
            return bool(abs(complex(x) - complex(y)) <= 1e-9 * (1 + abs(complex(x))))
        except ValueError:
            return False
    return x == y


def library():
    """default arguments and constants of every module"""
    out = {}
    for name, m in sorted(sys.modules.items()):
        if m is None or not (name == "qampy" or name.startswith("qampy.")):
            continue
        for k, v in sorted(vars(m).items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name:
                out[name, k] = dump((v.__defaults__, v.__kwdefaults__))
            elif isinstance(v, type) and v.__module__ == name:
                for k2, f in sorted(vars(v).items()):
                    f = getattr(f, "__func__", f)
                    if isinstance(f, types.FunctionType):
                        out[name, k, k2] = dump((f.__defaults__, f.__kwdefaults__))
                    elif not k2.startswith("__") and isinstance(f, (list, dict, tuple, np.ndarray, int, float, str)):
                        out[name, k, k2] = dump(f)
            elif isinstance(v, (np.ndarray, list, dict, tuple, int, float, str)) and not k.startswith("__"):
                out[name, k] = dump(v)
    return out


def shards(tier, seed):
    out = [["alone", g, seed] for g in range(GROUPS)] + [["pairs", g, seed] for g in range(GROUPS)] + [["frozen", g, seed] for g in range(4)]
    out += [["neutral", seed]]
    out += [["layout", kind, seed] for kind in ("strided", "columns", "reversed", "unaligned", "rows")]
    if tier != "quick":
        out += [["triples", i, seed] for i in range(len(KEEP))]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def execute(t, e, name):
    np.random.seed(12345)
    with quiet():
        return t.attempt("op:%s" % name, OPS[name], e)


@contextlib.contextmanager
def scratch(e):
    d = tempfile.mkdtemp(prefix="c11_")
    e["dir"] = d
    try:
        yield
    finally:
        e["dir"] = None
        shutil.rmtree(d)


def inputs(e):
    return {k: dump(v) for k, v in e.items() if k != "dir"}


def compare(t, key, before, after, what):
    bad = [k for k in before if before[k] != after.get(k)]
    t.ok(not bad, key, what, changed=[str(b) for b in bad])
    return not bad


def do_alone(t, g, seed):
    e = env(seed)
    lib = library()
    st = inputs(e)
    with scratch(e):
        for name in sorted(OPS)[g::GROUPS]:
            ok, a = execute(t, e, name)
            if not ok:
                continue
            first = dump(a)
            if not compare(t, "inputs:%s" % name, st, inputs(e), "the inputs are as before"):
                e = env(seed)
                st = inputs(e)
                e["dir"] = tempfile.gettempdir()
                continue
            # the result is not part of the inputs: changing it changes nothing else
            ok, b = execute(t, e, name)
            if ok:
                t.ok(name in FREE or same(dump(b), first), "again:%s" % name, "the same result when it is called again")
            t.ok(dump(a) == first, "kept:%s" % name, "the first result stays as it was when the operation is called again")
            for k in range(len(a) if isinstance(a, tuple) else 1):
                x = a[k] if isinstance(a, tuple) else a
                if isinstance(x, np.ndarray) and name not in VIEWS and x.size:
                    t.ok(not any(np.shares_memory(x, v) for v in e.values() if isinstance(v, np.ndarray)), "fresh:%s" % name, "the result does not share the samples of its inputs")
            t.trace({"op": name})
            t.state(name, first)
        compare(t, "library:%d" % g, lib, library(), "default arguments and constants of the library are as before")


# operations that give access to parts of a signal, or views by their nature
VIEWS = {"real", "recreate", "symbols", "pil_seq", "tdh", "window", "segments", "edges", "slice", "adjust", "seq_offset", "shifts", "ser", "ser_synced", "ber", "ber_other", "only", "only_rand"}


def do_pairs(t, g, seed):
    """every ordered pair; the result of the second is the one it has alone"""
    e = env(seed)
    names = sorted(OPS)
    with scratch(e):
        base = {}
        for n in names:
            np.random.seed(12345)
            try:
                with quiet():
                    base[n] = dump(OPS[n](e))
            except Exception:
                pass
        names = [n for n in names if n in base]
        st = inputs(e)
        lib = library()
        heavy = {"eq_pilot", "pil_sync"}
        for first in names[g::GROUPS]:
            for second in names:
                if second in heavy and first in heavy or (second in heavy and hash_(first) % 8):
                    continue
                ok, a = execute(t, e, first) if second == names[0] or first not in heavy else (True, None)
                ok2, b = execute(t, e, second)
                if ok2:
                    t.ok(second in FREE or same(dump(b), base[second]), "after:%s:%s" % (first, second), "the result does not depend on what was called before")
                t.trace()
                t.state(first, second)
            if not compare(t, "inputs:%s" % first, st, inputs(e), "the inputs are as before"):
                return
        compare(t, "library:pairs", lib, library(), "default arguments and constants of the library are as before")


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def do_triples(t, i, seed):
    e = env(seed)
    with scratch(e):
        base = {}
        for n in KEEP:
            ok, r = execute(t, e, n)
            base[n] = dump(r)
        st = inputs(e)
        use = [n for n in KEEP if n != "pil_sync"]
        for b in use:
            for c in use:
                execute(t, e, KEEP[i])
                execute(t, e, b)
                ok, r = execute(t, e, c)
                t.ok(ok and same(dump(r), base[c]), "after:%s:%s:%s" % (KEEP[i], b, c), "the result does not depend on what was called before")
                t.trace()
        compare(t, "inputs:triples:%s" % KEEP[i], st, inputs(e), "the inputs are as before")


def do_frozen(t, g, seed):
    """an operation that accepts read-only inputs gives the same result for them"""
    e = env(seed)
    with scratch(e):
        names = sorted(OPS)[g::4]
        base = {}
        for n in names:
            np.random.seed(12345)
            try:
                with quiet():
                    base[n] = dump(OPS[n](e))
            except Exception:
                pass
        for v in e.values():
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
        for n in base:
            np.random.seed(12345)
            try:
                with quiet():
                    r = OPS[n](e)
            except Exception as err:
                t.ok("read-only" not in str(err) and "not writeable" not in str(err), "frozen:%s" % n, "no operation writes into its inputs", error=str(err)[:200])
                continue
            t.ok(n in FREE or same(dump(r), base[n]), "frozen:%s" % n, "the same result for read-only inputs")
            t.trace()


def laid_out(v, kind):
    """the same values somewhere else in memory"""
    a = np.asarray(v)
    if kind == "strided":
        w = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7).astype(a.dtype)[..., ::2]
    elif kind == "columns":
        w = np.empty(a.shape, a.dtype, order="F")
    elif kind == "reversed":
        w = np.empty(a.shape, a.dtype)[..., ::-1]
    elif kind == "unaligned":
        w = np.full(a.size + 3, 5).astype(a.dtype)[1:1 + a.size].reshape(a.shape)
    else:
        w = np.full((2 * a.shape[0],) + a.shape[1:], 3).astype(a.dtype)[1::2]
    w[...] = a
    if type(v) is not np.ndarray:
        w = w.view(type(v))
        w.__dict__.update(v.__dict__)
    return w


def do_layout(t, kind, seed):
    """the result depends on the values of an array, not on where and how they lie in memory"""
    e = env(seed)
    with scratch(e):
        base = {}
        for n in sorted(OPS):
            np.random.seed(12345)
            try:
                with quiet():
                    base[n] = dump(OPS[n](e))
            except Exception:
                pass
        for k, v in list(e.items()):
            if isinstance(v, np.ndarray) and v.ndim:
                e[k] = laid_out(v, kind)
        st = inputs(e)
        for n in base:
            ok, r = execute(t, e, n)
            if ok:
                t.ok(n in FREE or same(dump(r), base[n]), "layout:%s:%s" % (kind, n), "the same result for the same values in another memory layout")
            t.trace()
            t.state(kind, n)
        compare(t, "inputs:%s" % kind, st, inputs(e), "the inputs are as before")


def do_neutral(t, seed):
    """also with nothing to do the result is a signal of its own"""
    e = env(seed)
    st = inputs(e)
    for n in sorted(NEUTRAL):
        np.random.seed(12345)
        with quiet():
            ok, r = t.attempt("neutral:" + n, NEUTRAL[n], e)
        if not ok:
            continue
        for x in r if isinstance(r, tuple) else (r,):
            if isinstance(x, np.ndarray) and x.size:
                t.ok(not any(np.shares_memory(x, v) for v in e.values() if isinstance(v, np.ndarray)), "fresh:" + n, "the result does not share the samples of its inputs")
        compare(t, "inputs:" + n, st, inputs(e), "the inputs are as before")
        t.trace()
        t.state(n, dump(r))
