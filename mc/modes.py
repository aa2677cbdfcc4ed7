"""Mode by mode: what an operation does to one mode depends neither on the number nor on the order of the others.

The shards ["modewise", property, tier, seed] run every operation of a property that acts mode by mode on ordered selections of five different
modes (all of up to two, with repetition, all of three different ones, rotations and reversals of up to seven) and compare every mode of the result
with the result for that mode alone.
"""
import itertools
import warnings
import numpy as np
from mc.core import close

NM = 5


def selections(tier):
    out = [(i,) for i in range(NM)] + list(itertools.product(range(NM), repeat=2)) + list(itertools.permutations(range(NM), 3))
    base = list(range(NM))
    for k in range(NM):
        p = base[k:] + base[:k]
        out += [tuple(p), tuple(p[::-1]), tuple(p[:4]), tuple(p + p[:2])]
    if tier != "quick":
        out += list(itertools.permutations(range(NM), 4)) + list(itertools.permutations(range(NM)))
    return list(dict.fromkeys(out))


class Env:
    def __init__(self, seed, M=16, n=160, os=1, dtype=np.complex128):
        from qampy import signals
        r = np.random.default_rng(seed + M + n)
        self.r, self.os = r, os
        s = signals.SignalQAMGrayCoded(M, n, nmodes=NM, seed=[seed + i + 1 for i in range(NM)], fb=10e9, dtype=dtype)
        self.M, self.tx = M, np.array(s)
        al = np.asarray(s.coded_symbols)
        for i in range(NM): # every mode has all symbols: signals made from arrays take the power of the symbols that occur
            self.tx[i, r.permutation(n)[:M]] = al
        self.bits = np.array(s.demodulate(self.tx))
        self.gain = (0.9 + 0.05 * np.arange(NM))[:, None]
        z = r.standard_normal((NM, n * os)) + 1j * r.standard_normal((NM, n * os))
        self.noise = z * (0.03 + 0.03 * np.arange(NM))[:, None]
        self.rx = (np.repeat(self.tx, os, axis=1) * self.gain + self.noise).astype(dtype)
        self.dtype = dtype

    def sig(self, sel, rx=None):
        from qampy import signals
        sel = list(sel)
        s = signals.SignalQAMGrayCoded.from_symbol_array(self.tx[sel], self.M, fb=10e9)
        return s.recreate_from_np_array((self.rx if rx is None else rx)[sel].copy(), fs=10e9 * self.os)

    def arr(self, sel):
        return self.rx[list(sel)].copy()


def pick(v, sel):
    return np.asarray(v)[list(sel)]


def C01(seed):
    from qampy import signals
    for M in (4, 32, 64):
        e = Env(seed, M)
        yield "bits%d" % M, lambda sel, e=e: signals.SignalQAMGrayCoded.from_bit_array(e.bits[list(sel)], e.M)
        yield "bitsof%d" % M, lambda sel, e=e: e.sig(sel).bits
        yield "demodulate%d" % M, lambda sel, e=e: e.sig(sel).demodulate(e.tx[list(sel)])
        yield "modulate%d" % M, lambda sel, e=e: e.sig(sel).modulate(e.bits[list(sel)])
        yield "nearest%d" % M, lambda sel, e=e: signals.SignalQAMGrayCoded.from_symbol_array(e.tx[list(sel)] * (1 + 0.01j), e.M)


def C03(seed):
    for dt in (np.complex128, np.complex64):
        e = Env(seed, 64, dtype=dt)
        for k, w in enumerate(("decision", "distance", "index")):
            yield "%s:%s" % (w, dt.__name__), lambda sel, e=e, k=k: e.sig(sel).make_decision(verbose=True)[k]


def C04(seed):
    e = Env(seed, 16, 400)
    rolled = np.array([np.roll(m, 7 * i + 3) for i, m in enumerate(e.rx)])
    for sync in (True, False):
        x = e.rx if sync else rolled
        yield "ser:%s" % sync, lambda sel, x=x, s=sync: e.sig(sel, x).cal_ser(synced=s)
        yield "ber:%s" % sync, lambda sel, x=x, s=sync: e.sig(sel, x).cal_ber(synced=s)
        yield "evm:%s" % sync, lambda sel, x=x, s=sync: e.sig(sel, x).cal_evm(synced=s)
    yield "evm:blind", lambda sel: e.sig(sel).cal_evm(blind=True)


def C12(seed):
    from qampy.core import equalisation as ceq
    e = Env(seed, 16, 60, 2)
    W = (e.r.standard_normal((NM, NM, 7)) + 1j * e.r.standard_normal((NM, NM, 7)))
    yield "outputs", lambda sel: ceq.apply_filter(e.rx.copy(), 2, W.copy(), modes=np.array(sel))
    yield "taps", lambda sel: ceq.apply_filter(e.rx.copy(), 2, W[list(sel)].copy()) if len(set(sel)) == NM == len(sel) else ceq.apply_filter(e.rx.copy(), 2, W.copy())[list(sel)]
    for os in (1, 2, 3, 4):
        yield "sum:%d" % os, lambda sel, os=os: np.stack([ceq.apply_filter(e.rx[list(p)].copy(), os, W[np.ix_(p, p)].copy())[0] for p in [tuple(sel)]] * len(sel)) - \
            np.stack([np.array([np.einsum("jk,jk", W[np.ix_([sel[0]], list(sel))][0], e.rx[list(sel)][:, os * n:os * n + 7]) for n in range((e.rx.shape[1] - 6) // os)])] * len(sel))
    e1 = Env(seed, 16, 160)

    def norm(sel, how):
        s = e1.sig(sel, e1.rx * (1 + 0.3 * np.arange(NM))[:, None] + 0.1)
        s.normalize_and_center(symbol_based=how, synced=True)
        return np.array(s)
    for how in (False, True):
        yield "norm:%s" % how, lambda sel, how=how: norm(sel, how)
    yield "real", lambda sel: ceq.apply_filter(e.rx.copy(), 2, W.real[:, :, :5].repeat(1, 0).copy() + 0j, modes=np.array(sel))


def C13(seed):
    from qampy.core import equalisation as ceq
    e = Env(seed, 16, 80, 2)
    e4 = Env(seed, 4, 80, 2)
    W = (0.1 * (e.r.standard_normal((NM, NM, 5)) + 1j * e.r.standard_normal((NM, NM, 5)))) + np.eye(NM)[:, :, None] * (np.arange(5) == 2)
    V = 0.1 * e.r.standard_normal((2 * NM, 2 * NM, 5)) + np.eye(2 * NM)[:, :, None] * (np.arange(5) == 2)

    def train(sel, method, k, e, syms=False, adaptive=False):
        sy = e.tx.copy() if syms else None
        if len(set(sel)) < len(sel):
            return None # every mode once
        w, err = ceq.equalise_signal(e.rx.copy(), 2, 1e-3, e.M, wxy=V.copy() if method.endswith("_real") else W.copy(), TrSyms=60, method=method, modes=np.array(sel), symbols=sy, adaptive_stepsize=adaptive)
        both = lambda v, idx: np.stack([np.asarray(v)[list(idx)], np.asarray(v)[[i + len(v) // 2 for i in idx]]], axis=1)
        if method.endswith("_real"):
            return both(err if k else w, sel)
        return np.asarray(err if k else w)[list(sel)]

    for method in ("cma", "cma2", "mcma", "rde", "mrde", "sbd", "mddma", "dd", "sgncma", "cma_real", "dd_real", "sgncma_real"):
        for k in (0, 1):
            yield "%s:%d" % (method, k), lambda sel, m=method, k=k: train(sel, m, k, e4 if m.startswith("sgncma") else e)
    for method in ("sbd_data", "dd_data_real"):
        for k in (0, 1):
            yield "%s:%d" % (method, k), lambda sel, m=method, k=k: train(sel, m, k, e, True)


def C15(seed):
    from qampy import phaserec
    from qampy.core import phaserecovery as cpr
    e, e4 = Env(seed, 16, 200), Env(seed, 4, 256)
    ph = np.exp(1j * np.linspace(0, 0.4, 200)[None] * (1 + np.arange(NM))[:, None])
    x = e.rx * ph
    x4 = e4.rx * np.exp(2j * np.pi * np.arange(256)[None] * (np.arange(NM) - 2)[:, None] / 64)
    f = (np.arange(NM) - 1.5) * 1e8
    for k in (0, 1):
        yield "bps:%d" % k, lambda sel, k=k: phaserec.bps(e.sig(sel, x), 16, 9)[k]
        yield "bps2:%d" % k, lambda sel, k=k: phaserec.bps_twostage(e.sig(sel, x), 8, 9, B=4)[k]
        yield "vv:%d" % k, lambda sel, k=k: phaserec.viterbiviterbi(e4.sig(sel, e4.rx * ph[:, :1]), 9)[k]
    yield "fo", lambda sel: phaserec.find_freq_offset(e4.sig(sel, x4), fft_size=256)
    yield "comp", lambda sel: phaserec.comp_freq_offset(e4.sig(sel, x4), pick(f, sel))
    yield "corefo", lambda sel: cpr.find_freq_offset(x4[list(sel)].copy(), os=1, average_over_modes=False, fft_size=256)


def C16(seed):
    from qampy import phaserec, signals
    from qampy.core import pilotbased_receiver as pr
    e = Env(seed, 16, 320)
    ph = np.exp(1j * np.linspace(0.1, 0.8, 320)[None] * (1 + np.arange(NM))[:, None])
    p = signals.SignalWithPilots(16, 160, 32, 8, nframes=2, nmodes=NM, seed=[seed + i for i in range(NM)], fb=10e9)
    P, T, Q, D = np.array(p) * ph[:, :320], np.array(p.ph_pilots), np.array(p.pilots), np.array(p.symbols)

    def psig(sel):
        q = signals.SignalWithPilots.from_symbol_array(signals.SignalQAMGrayCoded.from_symbol_array(D[list(sel)], 16, fb=10e9), 160, 32, 8, nframes=2, pilots=Q[list(sel)])
        assert np.allclose(np.asarray(q), np.array(p)[list(sel)])
        return q.recreate_from_np_array(P[list(sel)])

    for k in (0, 1):
        for use in (False, True):
            yield "cpe:%d:%s" % (k, use), lambda sel, k=k, u=use: phaserec.pilot_cpe(psig(sel), N=3, nframes=2, use_seq=u)[k]
        yield "core:%d" % k, lambda sel, k=k: pr.pilot_based_cpe(P[list(sel)][:, 32:160].copy(), T[list(sel)].copy(), 8, num_average=3)[k]
    yield "foe", lambda sel: np.ravel(pr.pilot_based_foe(np.array(p.pilot_seq)[list(sel)] * np.exp(0.01j * np.arange(32) * (1 + np.array(sel)[:, None])), np.array(p.pilot_seq)[list(sel)])[1])
    yield "const", lambda sel: phaserec.find_pilot_const_phase(P[list(sel)][:, :32], np.array(p.pilot_seq)[list(sel)])
    yield "correct", lambda sel: phaserec.correct_pilot_const_phase(e.arr(sel), pick(np.arange(NM)[:, None] * 0.3, sel))


def C17(seed):
    from qampy.core import pilotbased_receiver as pr
    e = Env(seed, 16, 320)
    yield "shift", lambda sel: pr.shift_signal(e.arr(sel), pick(np.array([3, 0, 100, 319, 7]), sel))


def C18(seed):
    from qampy import impairments
    from qampy.core import impairments as cimp
    for dt in (np.complex128, np.complex64):
        e = Env(seed, 16, 130, 2, dt)
        d = dt.__name__
        yield "offset:" + d, lambda sel, e=e: impairments.add_carrier_offset(e.sig(sel), 1.1e8)
        yield "offsets:" + d, lambda sel, e=e: impairments.add_carrier_offset(e.sig(sel), pick((1 + np.arange(NM))[:, None] * 1e8, sel))
        yield "dispersion:" + d, lambda sel, e=e: impairments.add_dispersion(e.sig(sel), 17e-6, 1e5)
        yield "delay:" + d, lambda sel, e=e: cimp.add_modal_delay(e.sig(sel), pick([3, 0, -7, 259, 1000], sel))
        yield "modulator:" + d, lambda sel, e=e: impairments.sim_mod_response(e.sig(sel) * 0.2, dcbias=0.9 + 0.8j, gfactr=0.9 + 0.95j, cfactr=0.1 - 0.2j)
        yield "quantise:" + d, lambda sel, e=e: cimp.quantize_signal(e.sig(sel), 4)
        yield "midrise:" + d, lambda sel, e=e: cimp.quantize_signal_New(e.sig(sel), 4, rescale_out=False)
        yield "midrise_raw:" + d, lambda sel, e=e: cimp.quantize_signal_New(e.arr(sel) * 0.5, 3, rescale_in=False, rescale_out=False)
        yield "transmission:" + d, lambda sel, e=e: impairments.simulate_transmission(e.sig(sel), freq_off=1e8, modal_delay=pick([3, 0, -7, 259, 1000], sel), dispersion=1e-3)
        yield "clipped:" + d, lambda sel, e=e: impairments.sim_DAC_response(e.sig(sel), enob=0, clip_rat=1, quant_bits=0, cutoff=6e9)


def C19(seed):
    from qampy import filtering
    from qampy.core import filter as cf
    from qampy.core import resample as cr
    for dt in (np.complex128, np.complex64):
        e, e2 = Env(seed, 16, 120, 1, dt), Env(seed, 16, 60, 2, dt)
        d = dt.__name__
        for f in (15e9, 20e9, 30e9, 5e9):
            yield "resample:%g:%s" % (f, d), lambda sel, e=e, f=f: e.sig(sel).resample(f, beta=0.2)
            yield "poly:%g:%s" % (f, d), lambda sel, e=e, f=f: e.sig(sel).resample(f)
        yield "shaping:" + d, lambda sel, e=e2: filtering.rrcos_pulseshaping(e.sig(sel), 0.2)
        for ty in ("bessel", "butter", "gauss", "exp"):
            yield "%s:%s" % (ty, d), lambda sel, e=e2, ty=ty: filtering.filter_signal(e.sig(sel), 5e9, ftype=ty, order=2)
        yield "analog:" + d, lambda sel, e=e2: filtering.filter_signal(e.sig(sel), 5e9, ftype="bessel", analog=True)
        yield "prefilter:" + d, lambda sel, e=e2: filtering.pre_filter(e.sig(sel), 6e9)
        yield "coreshaping:" + d, lambda sel, e=e2: cf.rrcos_pulseshaping(e.arr(sel), 2.0, 1.0, 0.2, taps=31)
        yield "average:" + d, lambda sel, e=e2: cf.moving_average(e.arr(sel), 5)


def C20(seed):
    from qampy import helpers
    mask = np.arange(160) % 3 != 1
    for dt in (np.complex128, np.complex64):
        e = Env(seed, 16, 160, 1, dt)
        e.rx = e.rx + (0.1 * np.arange(NM)[:, None] - 0.3j).astype(dt)
        d = dt.__name__
        yield "norm:" + d, lambda sel, e=e: helpers.normalise_and_center(e.arr(sel))
        yield "norm_sig:" + d, lambda sel, e=e: helpers.normalise_and_center(e.sig(sel))
        yield "norm_pil:" + d, lambda sel, e=e: helpers.normalise_and_center_pil(e.arr(sel), mask)
        yield "edges:" + d, lambda sel, e=e: helpers.dump_edges(e.sig(sel), 7)
        yield "center:" + d, lambda sel, e=e: helpers.get_center_shift_fac(e.arr(sel))
        yield "rescale:" + d, lambda sel, e=e: helpers.rescale_signal(e.arr(sel), pick([1.0, 2.0, 0.5, 3.0, 0.1], sel))
        yield "rescale1:" + d, lambda sel, e=e: helpers.rescale_signal(e.arr(sel), 2)
        yield "rescale_real:" + d, lambda sel, e=e: helpers.rescale_signal(e.arr(sel).real.copy(), 2)

        def inplace(sel, e=e, **kw):
            s = e.sig(sel)
            s.normalize_and_center(**kw)
            return s
        yield "inplace:" + d, inplace
        yield "inplace_sym:" + d, lambda sel, f=inplace: f(sel, symbol_based=True, synced=True)


def C21(seed):
    for M in (4, 16, 64):
        e = Env(seed, M, 100)
        snr = np.array([5.0, 8, 11, 14, 17])
        for k in (0, 1):
            yield "gmi%d:%d" % (M, k), lambda sel, e=e, k=k: e.sig(sel).cal_gmi(synced=True)[k]
            yield "gmi_snr%d:%d" % (M, k), lambda sel, e=e, k=k: e.sig(sel).cal_gmi(synced=True, snr=pick(snr, sel))[k]
            yield "gmi_max%d:%d" % (M, k), lambda sel, e=e, k=k: e.sig(sel).cal_gmi(synced=True, llr_minmax=True, snr=pick(snr, sel))[k]
        yield "mi%d" % M, lambda sel, e=e: e.sig(sel).cal_mi(synced=True, snr=pick(snr, sel))
        yield "mi_slow%d" % M, lambda sel, e=e: e.sig(sel).cal_mi(synced=True, snr=pick(snr, sel), fast=False)


def C22(seed):
    e = Env(seed, 16, 300)
    rolled = np.array([np.roll(m, 7 * i + 3) for i, m in enumerate(e.rx)])
    for k in (0, 1, 2):
        yield "snr:%d" % k, lambda sel, k=k: e.sig(sel).est_snr(synced=True, verbose=True)[k]
        yield "sync:%d" % k, lambda sel, k=k: e.sig(sel, rolled).est_snr(synced=False, verbose=True)[k]
    yield "given", lambda sel: e.sig((0,) * len(sel)).est_snr(e.arr(sel), synced=True, symbols_tx=e.tx[list(sel)])


def C24(seed):
    from qampy.core import digital_pre_compensation as dpc
    e = Env(seed, 16, 160)
    yield "clip", lambda sel: dpc.clipper(e.arr(sel) * (1 + np.array(sel)[:, None]), 0.8)
    yield "sin", lambda sel: dpc.comp_mod_sin(e.arr(sel) * 0.3, 1.1 + 1.3j)


def C28(seed):
    from qampy import analog_frontend as af
    from qampy.core import analog_frontend as caf
    for os in (1, 2, 3, 4, 5):
        for n in (60, 61):
            e = Env(seed, 16, n, os)
            e.rx = e.rx + 0.2 - 0.1j + 0.3 * e.rx.real * 1j

            def gs(sel, e=e, os=os):
                y = np.asarray(caf.orthonormalize_signal(e.arr(sel), os))
                for m in y:
                    if abs(m[::os].mean()) > 1e-12 or abs(np.mean(np.abs(m[::os])**2) - 1) > 1e-12:
                        return y * np.nan
                return y
            yield "gs:%d:%d" % (os, n), gs
            yield "gs_sig:%d:%d" % (os, n), lambda sel, e=e, f=gs: af.orthonormalize_signal(e.sig(sel)) - f(sel) + np.array(sel)[:, None]
            yield "delay:%d:%d" % (os, n), lambda sel, e=e: af.comp_rf_delay(e.sig(sel).real, 1.3e-11)


KEYS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
TEXT = "; every operation that acts mode by mode on ordered selections of five modes (all pairs and triples, rotations and reversals of up to seven; thorough: all permutations)"


def noise(t, tier, seed):
    """the random impairments of every mode are their own"""
    from qampy import impairments, signals
    from qampy.core import impairments as cimp
    n = 4096
    for nm in range(1, 8):
        s = signals.SignalQAMGrayCoded(4, n, nmodes=nm, seed=[seed] * nm, fb=10e9)
        z = np.asarray(s)
        for name, f in (("awgn", lambda: np.asarray(cimp.add_awgn(z, 0.3)) - z), ("snr", lambda: np.asarray(impairments.change_snr(s, 10)) - z),
                        ("enob", lambda: np.asarray(cimp.apply_enob_as_awgn(z, 4)) - z),
                        ("phase", lambda: np.diff(np.unwrap(np.angle(np.asarray(impairments.apply_phase_noise(s, 1e6)) / z)), axis=1)),
                        ("wiener", lambda: np.diff(cimp.phase_noise((nm, n), 1e6, 1e10), axis=1)),
                        ("transmission", lambda: np.asarray(impairments.simulate_transmission(s, snr=12)) - z),
                        ("transmission_phase", lambda: np.diff(np.unwrap(np.angle(np.asarray(impairments.simulate_transmission(s, lwdth=1e6)) / z)), axis=1))):
            np.random.seed(seed)
            y = t.call(f)
            parts = [y.real, y.imag] if np.iscomplexobj(y) else [y]
            a = np.concatenate(parts)
            a = a - a.mean(1, keepdims=True)
            p = np.mean(a**2, axis=1)
            c = a @ a.T / n / np.sqrt(np.outer(p, p)) - np.eye(len(a))
            key = "noise:%s:%d" % (name, nm)
            t.ok(np.all(np.abs(c) < 7 / np.sqrt(n)), key, "no mode shares the noise of another", got=float(np.abs(c).max()))
            t.ok(np.all(np.abs(p / p.mean() - 1) < 10 / np.sqrt(n)), key + ":power", "equal strength in all modes", got=p)
            lag = np.mean(a[:, 1:] * a[:, :-1], axis=1) / p
            t.ok(np.all(np.abs(lag) < 7 / np.sqrt(n)), key + ":white", "successive samples are independent", got=lag)
            t.state(key)
            t.trace()


def filters(t, tier, seed):
    """every filter order, and windows of the polyphase resampler"""
    from scipy import signal as sc
    from qampy.core import filter as cf
    from qampy.core import resample as cr
    n = 8192
    x = np.zeros((1, n), complex)
    x[0, 0] = 1
    f = np.fft.fftfreq(n) * 40.0
    for ty in ("butter", "bessel"):
        for order in range(1, 13):
            for fc in (5.0, 12.0):
                y = np.fft.fft(np.asarray(t.call(cf.filter_signal, x, 40.0, fc, ftype=ty, order=order))[0])
                if ty == "butter":
                    want = 1 / np.sqrt(1 + (np.tan(np.pi * f / 40) / np.tan(np.pi * fc / 40))**(2 * order))
                    good = close(np.abs(y), want, 1e-6)
                else:
                    good = close(y, sc.freqz_zpk(*sc.bessel(order, fc, "low", norm="mag", output="zpk", fs=40.0), worN=2 * np.pi * np.fft.fftfreq(n))[1], 1e-6)
                t.ok(good, "filter:%s:%d:%g" % (ty, order, fc), "the response of the filter of this order")
                t.trace()
    r = np.random.default_rng(seed)
    for up, down in ((1, 2), (2, 1), (3, 2), (2, 3), (5, 4)):
        for m in (1, 5, 21, 64):
            for k in (30, 31):
                z = r.standard_normal(k) + 1j * r.standard_normal(k)
                w = r.standard_normal(2 * m + 1)
                y = t.call(cr.resample_poly, z, down, up, window=w)
                u = np.zeros(k * up, complex)
                u[::up] = z
                want = np.convolve(u, w * up)[m:m + k * up:down]
                t.ok(close(y, want, 1e-9), "poly:%d:%d:%d:%d" % (up, down, m, k), "zero stuffing, the given window, decimation")
                t.trace()
        t.state(up, down)


def recovery(t, tier, seed):
    """carrier recovery functions without a fast version on long signals"""
    from qampy.core import phaserecovery as pr
    r = np.random.default_rng(seed)
    g = np.array([-3, -1, 1, 3]) / np.sqrt(10)
    al = (g[:, None] + 1j * g[None]).ravel()
    for n in (100, 4096, 16383, 16384, 16385, 40000):
        s = al[r.integers(0, 16, (2, n))]
        z = 0.01 * (r.standard_normal((2, n)) + 1j * r.standard_normal((2, n)))
        for scale in (1.0, 2.5, 0.01):
            x = scale * (s + z) * np.exp(1j * np.array([[0.2], [-0.5]]))
            c1, c2 = t.call(pr.partition_16qam, x[0])
            rad = np.abs(s[0])
            t.ok(np.array_equal(c2, np.abs(rad - 1) < 0.1) and np.array_equal(c1, ~c2), "rings:%d:%g" % (n, scale), "inner and outer ring, and middle ring")
            y, ph = t.call(pr.phase_partition_16qam, x, 50)
            e = np.angle(y / (scale * s)) / (np.pi / 2)
            k = np.round(e.mean(1, keepdims=True))
            t.ok(y.shape == x.shape and close(y, x * np.exp(-1j * ph), 1e-9) and np.sqrt(np.mean((e - k)**2)) < 0.1, "partition:%d:%g" % (n, scale), "the constant phase is removed", got=float(np.sqrt(np.mean((e - k)**2))))
            t.trace()
        x = (s + z)[:, :20000] * np.exp(0.15j)
        for m in range(2):
            y, ph = t.call(pr.bps, x[m], 8, al, 11, method="py")
            y2, ph2 = t.call(pr.bps, x[m], 8, al, 11)
            t.ok(close(ph[11:-11], ph2[11:-11], 1e-9), "python:%d:%d" % (n, m), "both implementations agree")
            t.trace()
            x3 = x[m] + 15 * z[m, :x.shape[1]]
            i1 = np.ravel(pr._bps_idx_py(x3, np.linspace(-np.pi / 4, np.pi / 4, 64, endpoint=False).reshape(1, -1), al, 3))
            i2 = np.ravel(pr._bps_idx_pyt(x3, np.linspace(-np.pi / 4, np.pi / 4, 64, endpoint=False).reshape(1, -1), al, 3))
            t.ok(np.array_equal(i1[3:-3], i2[3:-3]), "indices:%d:%d" % (n, m), "both searches choose the same test angle", got=int(np.sum(i1[3:-3] != i2[3:-3])))
            t.trace()
        t.state(n)


def blocks(t, tier, seed):
    """many pilot blocks"""
    from qampy.core import pilotbased_receiver as pr
    r = np.random.default_rng(seed)
    for nb in (16, 255, 1023, 1024, 1025, 4096, 10001):
        for nm in (1, 2, 3):
            for avg in (1, 3, 5):
                x = np.exp(2j * np.pi * r.random((nm, nb * 8)))
                k = np.arange(nb * 8)
                ph = 0.3 + np.arange(1, nm + 1)[:, None] * (0.002 * k + 0.4 * np.sin(2 * np.pi * k / 5000))
                y, tr = t.call(pr.pilot_based_cpe, x * np.exp(1j * ph), x[:, ::8].copy(), 8, num_average=avg)
                base = ph[:, ::8] + 0
                h = avg // 2
                want = base.copy()
                ma = np.array([np.convolve(b, np.ones(avg) / avg, "valid") for b in base])
                want[:, h:nb - h] = ma
                want[:, nb - h:] = ma[:, -1:]
                full = np.array([np.interp(k, k[::8], w) for w in want])
                e = np.asarray(tr) - full
                e = e - np.round(e[:, :1] / (2 * np.pi)) * 2 * np.pi
                keep = np.ones(nb * 8, bool)
                keep[::8] = False
                t.ok(np.shape(tr) == full.shape and np.abs(e).max() < 1e-8 and close(y, (x * np.exp(1j * (ph - full)))[:, keep], 1e-7), "blocks:%d:%d:%d" % (nb, nm, avg), "the averaged pilot phase, interpolated, for every block")
                t.trace()
        t.state(nb)


def alphabets(t, tier, seed):
    from qampy import theory
    for k in range(1, 14):
        M = 2**k
        p = t.call(theory.cal_symbols_psk, M)
        t.ok(close(p, np.exp(2j * np.pi * np.arange(M) / M + (0.25j * np.pi if M == 4 else 0)), 1e-12), "psk:%d" % M, "M even phases from zero, QPSK turned by an eighth")
        if k > 1:
            q = t.call(theory.cal_symbols_qam, M)
            f = t.call(theory.cal_scaling_factor_qam, M)
            odd = np.all(np.round(q.real) % 2 == 1) and np.all(np.round(q.imag) % 2 == 1)
            t.ok(q.size == M and len(np.unique(np.round(q))) == M and odd and close(q, np.round(q), 1e-9) and abs(np.mean(np.abs(q)**2) / f - 1) < 1e-9, "qam:%d" % M, "M points of the odd grid with the stated power")
            side = np.sort(np.unique(np.round(q.real)))
            top = 2**(k // 2) - 1 if k % 2 == 0 else (3 if k == 3 else 3 * 2**((k - 3) // 2) - 1)
            t.ok(side[-1] == top and side[0] == -top, "qam:%d:side" % M, "square or cross", got=float(side[-1]), want=top)
            g = t.call(theory.gray_code_qam, M)
            t.ok(np.array_equal(np.sort(g), np.arange(M)), "gray:%d" % M, "every label once")
        t.trace()
        t.state(M)
    db = np.linspace(-10, 30, 41)
    lin = 10**(db / 10)
    for name, f, a in [("ser%d" % M, (lambda x, M=M: theory.ser_vs_es_over_n0_qam(x, M)), lin) for M in (4, 16, 64, 256, 1024, 4096)] + [("ber%d" % M, (lambda x, M=M: theory.ber_vs_es_over_n0_qam(x, M)), lin) for M in (4, 16, 256, 4096)] + \
            [("psk%d" % M, (lambda x, M=M: theory.ser_vs_es_over_n0_psk(x, M)), lin) for M in (4, 8, 64)] + [("pam", theory.ser_vs_es_over_n0_4pam, lin), ("evm16", lambda x: theory.ber_vs_evm_qam(x, 16), -db), ("hybrid", lambda x: theory.hybrid_qam_ber_vs_esn0(x, 0.4, 0.3, 16, 4), db)]:
        y = np.asarray(t.call(f, a))
        one = np.array([float(t.call(f, float(v))) for v in a])
        two = np.asarray(t.call(f, a.reshape(1, -1).copy()))
        t.ok(y.shape == a.shape and close(y, one, 1e-12) and two.shape == (1, len(a)) and close(two[0], one, 1e-12), "vector:" + name, "the same for numbers and arrays")
        t.trace()


def indices(t, tier, seed):
    """decisions with indices for every order; symbol-only signals with different points per mode"""
    from qampy import signals
    r = np.random.default_rng(seed)
    for cls in (signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded):
        for k in range(2, 12):
            for dt in (np.complex128, np.complex64):
                M = 2**k
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s = cls(M, 40, nmodes=1, dtype=dt, seed=seed)
                al = np.asarray(s.coded_symbols)
                d = np.min(np.abs(al[0] - al[1:])) * 0.3
                x = np.tile(al, (2, 1)) + np.array([[0], [1]]) * d * np.exp(2j * np.pi * r.random((2, M)))
                full = s.recreate_from_np_array(x.astype(dt))
                o, dd, i = t.call(full.make_decision, verbose=True)
                want = np.argmin(np.abs(x[:, :, None] - al[None, None]), axis=-1)
                ok = np.array_equal(np.asarray(i), want) and np.array_equal(np.asarray(o), al[want])
                b = np.array([[(j >> (k - 1 - n)) & 1 for n in range(k)] for j in range(M)], bool)
                dem = np.asarray(t.call(full.demodulate, full))
                t.ok(ok and np.array_equal(dem, b[want].reshape(2, -1)), "index:%s:%d:%s" % (cls.__name__, M, dt.__name__), "the nearest symbol, its number and its bits")
                t.trace()
        t.state(cls.__name__)
    for nm in range(1, 7):
        pts = np.exp(2j * np.pi * np.arange(4) / 4)[None] * (1 + np.arange(nm))[:, None]
        x = pts[:, r.integers(0, 4, 40)]
        x[:, :4] = pts
        s = t.call(signals.SymbolOnlySignal.from_symbol_array, x)
        t.ok(s.M == 4 * nm and close(s, x, 1e-12) and close(s.make_decision(), x, 1e-12), "symbols:%d" % nm, "the points of all modes make the alphabet")
        t.trace()


def bert(t, tier, seed):
    """error-tester signals: shifts and inversions of both tributaries, any number of modes"""
    from qampy import signals
    for nm in range(1, 5):
        for N in (31, 130):
            for orders in (((15,) * nm, (15,) * nm), ((7,) * nm, (23,) * nm), ((15, 7, 23, 15)[:nm], (7, 15, 15, 23)[:nm])):
                np.random.seed(seed)
                ref = np.asarray(t.call(signals.QPSKfromBERT, N, nmodes=nm, prbsorders=orders).bits)
                for sh in ((0, 0), (3, 0), (0, 3), (-1, -2), (N + 5, -N - 7), (10**6, -10**6)):
                    for inv in itertools.product((False, True), repeat=2):
                        np.random.seed(seed)
                        s = t.call(signals.QPSKfromBERT, N, nmodes=nm, prbsorders=orders, prbsshifts=sh, prbsinvert=inv)
                        want = ref.copy()
                        for k in (0, 1):
                            want[:, k::2] = np.roll(ref[:, k::2], sh[k], axis=1) ^ inv[k]
                        t.ok(np.array_equal(np.asarray(s.bits), want) and np.array_equal(np.asarray(s.demodulate(s)), want), "bert:%d:%d:%s:%s:%s" % (nm, N, orders, sh, inv), "shifted and inverted sequences")
                        t.trace()
        t.state(nm)


def rates(t, tier, seed):
    """rates whose ratio is not exact, or not an integer, through every way of copying"""
    import copy
    import pickle
    from qampy import signals
    for fb, fs in [(0.1, 0.3), (0.7, 2.1), (10.7e9, 32.1e9), (1.1, 3.3), (0.1, 0.6), (24e9, 36e9), (32e9, 80e9), (10e9, 12.5e9), (3.0, 21.0), (1e-3, 7e-3), (49 * 1e9, 49e9 * 9)]:
        for nm in (1, 2):
            s0 = signals.SignalQAMGrayCoded(16, 48, nmodes=nm, fb=fb, seed=seed)
            n = int(48 * fs / fb)
            s = t.call(s0.recreate_from_np_array, np.zeros((nm, n), complex), fs=fs)
            os = int(round(fs / fb, 6))
            for name, c in [("self", s), ("pickle", pickle.loads(pickle.dumps(s))), ("pickle2", pickle.loads(pickle.dumps(s, protocol=2))), ("copy", copy.copy(s)), ("deepcopy", copy.deepcopy(s)), ("method", s.copy()), ("slice", s[:, 3:]), ("sum", s + 1), ("modes", s[:1]), ("again", s.recreate_from_np_array(np.array(s)))]:
                t.ok(c.fs == fs and c.fb == fb and c.os == os and c.M == 16 and np.array_equal(np.asarray(c.symbols), np.asarray(s0)), "rates:%g:%g:%d:%s" % (fb, fs, nm, name), "rates and oversampling", got=[c.fs, c.fb, c.os], want=[fs, fb, os])
                t.trace()
            c = t.call(s.recreate_from_np_array, np.array(s), fb=2 * fb)
            t.ok(c.fb == 2 * fb and abs(c.fs - 2 * fb * os) <= 1e-9 * fs, "rates:%g:%g:%d:fb" % (fb, fs, nm), "a new symbol rate keeps the oversampling")
            c = t.call(s.recreate_from_np_array, np.array(s), fb=2 * fb, fs=5 * fb)
            t.ok(c.fb == 2 * fb and c.fs == 5 * fb, "rates:%g:%g:%d:both" % (fb, fs, nm), "both rates as given")
            t.trace()
        t.state(fb, fs)


def pilots(t, tier, seed):
    """spellings of the pilot positions, one-mode pilots for many modes, frames in any order"""
    from qampy import signals
    L = 48
    r = np.random.default_rng(seed)
    for nm in (1, 2, 3, 5):
        d = signals.SignalQAMGrayCoded(16, 36, nmodes=nm, seed=seed)
        pos = np.sort(r.permutation(L)[:12])
        mask = np.zeros(L, bool)
        mask[pos] = True
        for pn in ((1, nm) if nm > 1 else (1,)):
            q = signals.SignalQAMGrayCoded(4, 12, nmodes=pn, seed=seed + 7)
            for name, idx in [("list", pos.tolist()), ("tuple", np.array(pos)), ("mask", mask), ("negative", pos - L), ("mixed", np.where(np.arange(12) % 2, pos, pos - L)), ("permuted", pos[::-1]), ("small", pos.astype(np.uint8))]:
                p = t.call(signals.SignalWithPilots.from_symbol_array, d, L, 0, None, pilots=q, pilot_idx=idx, nframes=2)
                x = np.asarray(p)
                want = np.tile(np.asarray(q), (nm // pn, 1))
                ok = x.shape == (nm, 2 * L) and all(np.array_equal(x[:, f * L:(f + 1) * L][:, mask], want) and np.array_equal(x[:, f * L:(f + 1) * L][:, ~mask], np.asarray(d)) for f in (0, 1))
                t.ok(ok and np.array_equal(np.asarray(p.pilots), want) and np.array_equal(np.asarray(p.idx_pilots), np.tile(mask, 2)) and np.array_equal(np.asarray(p.get_data(1)), np.asarray(d)), "positions:%d:%d:%s" % (nm, pn, name), "pilots at the given positions")
                t.trace()
        for scale in (1, 2.0, -0.5, 1j):
            p = t.call(signals.SignalWithPilots, 16, 48, 8, 8, nframes=3, pilot_scale=scale, nmodes=nm, seed=seed)
            x = np.asarray(p) + 0.001 * np.arange(144)
            w = p.recreate_from_np_array(x)
            t.ok(p.pilot_scale == scale and np.allclose(np.abs(np.asarray(p.pilots)), abs(scale)), "scale:%d:%s" % (nm, scale), "pilots with the given scale")
            ip, idt = np.nonzero(p._idx_pil)[0], np.nonzero(p._idx_dat)[0]
            for fr in [f for k in (1, 2, 3) for f in itertools.product(range(3), repeat=k)]:
                for form in (list(fr), np.array(fr)) if len(fr) > 1 else (list(fr), fr[0]):
                    a = np.hstack([x[:, ip + f * 48] for f in fr])
                    b = np.hstack([x[:, idt + f * 48] for f in fr])
                    t.ok(np.array_equal(np.asarray(w.extract_pilots(form)), a) and np.array_equal(np.asarray(w.get_data(form)), b), "frames:%d:%s:%s:%s" % (nm, scale, fr, type(form).__name__), "the frames in the order asked for")
                    t.trace()
        t.state(nm)


def S0(x, gam):
    r2, r4 = np.mean(np.abs(x)**2), np.mean(np.abs(x)**4)
    return np.sqrt((2 * r2**2 - r4) / (2 - gam))


def snrs(t, tier, seed):
    """the same SNR for all modes, one per mode, or the estimated one"""
    from qampy import signals, theory
    from qampy.core import signal_quality as sq
    r = np.random.default_rng(seed)
    for k in range(2, 11):
        M = 2**k
        g = signals.SignalQAMGrayCoded(M, M, nmodes=1, seed=seed)
        al = np.asarray(g.coded_symbols)
        d = np.min(np.abs(al[0] - al[1:]))
        x = al[None] + 0.05 * d * np.exp(2j * np.pi * r.random((1, M)))
        s = signals.SignalQAMGrayCoded.from_symbol_array(al[None], M).recreate_from_np_array(x)
        for mm in (False, True):
            b = t.call(s.cal_gmi, synced=True, snr=20 - 20 * np.log10(d), llr_minmax=mm)[1]
            t.ok(np.shape(b) == (1, k) and np.all(np.abs(b - 1) < 1e-6), "clean:%d:%s" % (M, mm), "every bit carries one bit of information", got=b)
            t.trace()
        c = np.asarray(theory.cal_symbols_qam(M), complex)
        c = np.tile(c / np.sqrt(np.mean(np.abs(c)**2)), 400 if M < 64 else 60)
        gam = np.mean(np.abs(c)**4)
        for sig in (0.02, 0.1, 0.3):
            x = 0.7 * (c + sig * (r.standard_normal(c.size) + 1j * r.standard_normal(c.size)))
            r2, r4 = np.mean(np.abs(x)**2), np.mean(np.abs(x)**4)
            S = np.sqrt((2 * r2**2 - r4) / (2 - gam))
            if S < r2 * 0.999:
                got = t.call(sq.cal_snr_qam, x, M), t.call(sq.cal_s0, x, M)
                t.ok(abs(got[0] / (S / (r2 - S)) - 1) < 1e-6 and abs(got[1] / S - 1) < 1e-6, "moments:%d:%g" % (M, sig), "signal and noise from the second and fourth moments", got=got, want=[S / (r2 - S), S])
                ev = np.mean(np.abs(c / np.sqrt(S0(c, gam)) - x / np.sqrt(S))**2) / np.mean(np.abs(c)**2 / S0(c, gam))
                t.ok(abs(t.call(sq.cal_evm, x, M, known=c) / np.sqrt(ev) - 1) < 1e-6, "evm:%d:%g" % (M, sig), "distance from the known symbols, both normalised to their signal power")
                t.trace()
    for M in (4, 16, 32):
        e = Env(seed, M, 300)
        for nm in (1, 2, 3, 5):
            s = e.sig(range(nm))
            est = t.call(s.est_snr, synced=True)
            for snr in (12.3456, -3.21, 20.05, 0.0):
                for name, f in [("gmi", lambda x: s.cal_gmi(synced=True, snr=x)[0]), ("bits", lambda x: s.cal_gmi(synced=True, snr=x)[1]), ("minmax", lambda x: s.cal_gmi(synced=True, snr=x, llr_minmax=True)[0]),
                                ("mi", lambda x: s.cal_mi(synced=True, snr=x)), ("mi2", lambda x: s.cal_mi(synced=True, snr=x, fast=False) if M < 32 else np.zeros(1))]:
                    a = t.call(f, snr)
                    t.ok(all(close(a, t.call(f, v), 1e-9) for v in ([snr] * nm, np.full(nm, snr), np.array([snr]), [snr])), "snr:%d:%d:%g:%s" % (M, nm, snr, name), "one number or one per mode")
                    t.trace()
            db = 10 * np.log10(est)
            t.ok(close(s.cal_gmi(synced=True, snr=db)[1], s.cal_gmi(synced=True)[1], 1e-9) and close(s.cal_mi(synced=True, snr=db), s.cal_mi(synced=True), 1e-9), "snr:%d:%d:estimate" % (M, nm), "the estimated SNR given explicitly")
            t.trace()
        t.state(M)


def frames(t, tier, seed):
    """equalisers applied to frames in any order, with equal and different shifts"""
    from qampy import signals, equalisation
    r = np.random.default_rng(seed)
    L, os = 32, 2
    for nm in (1, 2, 3):
        p = signals.SignalWithPilots(16, L, 8, 4, nframes=1, nmodes=nm, seed=seed, fb=1.0)
        x = r.standard_normal((nm, 5 * L * os)) + 1j * r.standard_normal((nm, 5 * L * os))
        for sh in ([20] * nm, [20, 3, 41][:nm], [0, 50, 7][:nm]):
            for synctaps, ntaps in ((7, 7), (9, 5), (7, 11)):
                s = p.recreate_from_np_array(x.copy(), fs=2.0)
                s.shiftfctrs, s.synctaps = np.array(sh), synctaps
                W = r.standard_normal((nm, nm, ntaps)) + 1j * r.standard_normal((nm, nm, ntaps))
                start = np.array(sh) - (ntaps - synctaps) // 2
                start = start + (L * os if start.min() < 0 else 0)
                nf = 3
                one = [np.array([np.einsum("ijk,jk->i", W, x[:, start[m] + f * L * os + n * os:][:, :ntaps])[m] for n in range(L)]) for f in range(nf) for m in range(nm)]
                one = np.array(one).reshape(nf, nm, L)
                for fr in [f for k in (1, 2, 3) for f in itertools.product(range(nf), repeat=k)]:
                    y = np.atleast_2d(np.asarray(t.call(equalisation.apply_filter, s, W, frames=list(fr))))
                    t.ok(y.shape == (nm, L * len(fr)) and close(y, np.hstack([one[f] for f in fr]), 1e-9), "frames:%d:%s:%d:%d:%s" % (nm, sh, synctaps, ntaps, fr), "the equalised frames in the order asked for")
                    t.trace()
        t.state(nm)


def constant(t, tier, seed):
    """constant phase from pilots with phases that run several times round the circle"""
    from qampy import phaserec
    r = np.random.default_rng(seed)
    for nm in (1, 2, 3):
        for n in (1, 2, 8, 33):
            for step in (0.1, 1.5, 3.0, 3.13):
                d = r.uniform(-step, step, (nm, n))
                d[:, ::3] = step * np.sign(d[:, ::3])
                ph = np.cumsum(d, axis=1)
                ph += r.uniform(-3, 3, (nm, 1)) - ph[:, :1]
                ref = np.exp(2j * np.pi * r.random((nm, n))) * r.uniform(0.5, 2, (nm, n))
                c = np.asarray(t.call(phaserec.find_pilot_const_phase, ref * np.exp(1j * ph), ref))
                t.ok(c.shape == (nm, 1) and close(c[:, 0], ph.mean(1), 1e-9), "constant:%d:%d:%g" % (nm, n, step), "the mean of the unwrapped phase")
                t.trace()
        t.state(nm)


EXTRA = {"C18": noise, "C19": filters, "C15": recovery, "C16": lambda *a: (blocks(*a), constant(*a)), "C25": alphabets, "C03": indices, "C06": bert, "C07": rates, "C09": pilots, "C14": snrs, "C17": frames}


def shards(pid, tier, seed):
    return ([["modewise", pid, tier, seed, k] for k in range(2)] if pid in KEYS else []) + ([["modewise", pid, tier, seed, -1]] if pid in EXTRA else [])


def run(shard, t):
    _, pid, tier, seed, part = shard
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if part < 0:
            return EXTRA[pid](t, tier, seed)
        for i, (name, f) in enumerate(KEYS[pid](seed)):
            if i % 2 != part:
                continue
            alone = {}
            for sel in selections(tier):
                with np.errstate(all="ignore"):
                    y = t.call(f, sel)
                if y is None:
                    continue
                y = np.asarray(y)
                if len(sel) == 1:
                    alone[sel[0]] = y[0]
                tol = 1e-4 if y.dtype in (np.complex64, np.float32) else 1e-8
                t.ok(len(y) == len(sel) and all(same(a, alone[m], tol) for a, m in zip(y, sel)), "modes:%s:%s" % (name, "".join(map(str, sel))), "every mode as if it were alone")
                t.trace()
            t.state(name, alone[0])


def same(a, b, tol):
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind not in "fc":
        return np.array_equal(a, b)
    return bool(np.all(np.isfinite(a)) and close(a, b, tol))
