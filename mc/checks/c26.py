"""C26: the receiver recovers what was sent: every combination of impairments, every order of linear ones."""
import itertools
import numpy as np
from qampy import signals, impairments, equalisation, phaserec, helpers, analog_frontend, filtering
from qampy.core.equalisation.equalisation import CDcomp
from mc.core import close

RULE = "a trace is one combination of impairments and receiver whose recovered symbols and bits were all compared with the transmitted ones, or one order of applying linear impairments"
BOUNDS = {
    "quick": "all 128 subsets of 7 impairments (modal delay, dispersion, PMD, carrier offset, phase noise, static phase, IQ imbalance) of QPSK with 3 carrier recoveries in both precisions; "
             "all 32 subsets of 5 impairments at 4 rotations of QAM 4, 16, 64 with 2 pairs of equalisers; all 120 orders of 5 linear impairments",
    "thorough": "8 rotations, 3 seeds",
}
IMP = ("delay", "disp", "pmd", "fo", "pn", "phase", "iq")
STATIC = ("delay", "disp", "pmd", "phase", "iq")
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    q = tier == "quick"
    seeds = [seed] if q else [seed, seed + 1, seed + 2]
    out = [["carrier", rec, dt, k, s] for rec in ("bps", "two", "vv") for dt in DT for k in range(8) for s in seeds]
    out += [["static", M, list(m), i, dt, s] for M, m in ((4, ("mcma", "sbd")), (16, ("mcma", "sbd")), (16, ("mcma", "mddma")), (64, ("mcma", "mddma"))) for i in range(4 if q else 8) for dt in DT for s in seeds
            if dt == "c16" or M == 16]
    return out + [["orders", M, seed] for M in (4, 16)]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def transmit(M, sub, seed, theta, dt, N=2**13):
    s = signals.SignalQAMGrayCoded(M, N, nmodes=2, fb=20e9, seed=seed, dtype=DT[dt]).resample(40e9, beta=0.1, renormalise=True)
    np.random.seed(seed)
    y = s
    if "delay" in sub:
        y = impairments.simulate_transmission(y, modal_delay=[5, 23] if M == 4 else [4, 22])
    if "disp" in sub:
        y = impairments.add_dispersion(y, 17e-6, 30e3)
    if "pmd" in sub:
        y = impairments.apply_PMD(y, theta, 20e-12)
    if "fo" in sub:
        y = impairments.add_carrier_offset(y, 30e6)
    if "pn" in sub:
        y = impairments.apply_phase_noise(y, 20e3)
    if "phase" in sub:
        y = y * np.exp(2.1j)
    y = impairments.change_snr(y, 33)
    if "iq" in sub:
        a = np.asarray(y)
        y = y.recreate_from_np_array((a.real * 1.2 + 1j * (a.imag * 0.9 + 0.1 * a.real) + 0.05).astype(a.dtype))
        y = analog_frontend.orthonormalize_signal(y)
    if "disp" in sub:
        y = y.recreate_from_np_array(np.array([CDcomp(np.asarray(m), y.fs, 0, -30e3, 17e-6, 1550e-9)[0] for m in y]).astype(y.dtype))
    return y


def judge(t, key, X, M, dt, low):
    """all symbols and bits are right"""
    ok, ser = t.attempt(key, X.cal_ser)
    if not ok:
        return
    ok, ber = t.attempt(key, X.cal_ber)
    ok2, snr = t.attempt(key, X.est_snr)
    t.ok(np.all(ser == 0), key + ":ser", "every symbol is received", got=ser)
    t.ok(ok and np.all(ber == 0), key + ":ber", "every bit is received", got=ber)
    t.ok(ok2 and np.all(10 * np.log10(snr) > low), key + ":snr", "the signal is as clean as the channel allows", got=10 * np.log10(snr) if ok2 else None)
    t.ok(type(X) is signals.SignalQAMGrayCoded and X.M == M and X.fs == X.fb == 20e9 and X.os == 1 and X.dtype == DT[dt], key + ":attributes", "the result is a signal with one sample per symbol",
         got=[type(X).__name__, X.fs, X.fb, str(X.dtype)])
    t.trace({"key": key})
    t.state(key)


def do_carrier(t, rec, dt, k, seed):
    for sub in itertools.combinations(IMP, k):
        key = "carrier:%s:%s:%s" % (rec, dt, "+".join(sub))
        y = transmit(4, sub, seed, 0.7, dt)
        ok, r = t.attempt(key, equalisation.equalise_signal, y, 2e-3, Ntaps=11, method="cma", adaptive_stepsize=True, Niter=3, apply=True)
        if not ok:
            continue
        E = helpers.normalise_and_center(r[0])
        if "fo" in sub:
            ok, f = t.attempt(key, phaserec.find_freq_offset, E, fft_size=2**13)
            t.ok(ok and np.all(np.abs(np.asarray(f) - 30e6 / 20e9) < 3e6 / 20e9), key + ":fo", "the carrier offset is found (per symbol)", got=f)
            ok, E = t.attempt(key, phaserec.comp_freq_offset, E, f)
            if not ok:
                continue
        ok, r = t.attempt(key, *{"bps": (phaserec.bps, E, 64, 14), "two": (phaserec.bps_twostage, E, 16, 14), "vv": (phaserec.viterbiviterbi, E, 15)}[rec])
        if ok:
            judge(t, key, r[0][:, 1000:-1000].copy(), 4, dt, 15)


def do_static(t, M, methods, i, dt, seed):
    theta = i * np.pi / 4 + 0.2 if i < 4 else i * np.pi / 4 + 0.5
    for k in range(len(STATIC) + 1):
        for sub in itertools.combinations(STATIC, k):
            key = "static:%d:%s:%d:%s:%s" % (M, "-".join(methods), i, dt, "+".join(sub))
            y = transmit(M, sub, seed, theta, dt)
            ok, r = t.attempt(key, equalisation.dual_mode_equalisation, y, (2e-3, 2e-3), 13, methods=tuple(methods), adaptive_stepsize=(True, True), Niter=(3, 3))
            if ok:
                E = helpers.normalise_and_center(r[0])
                judge(t, key, E[:, 1000:-1000].copy(), M, dt, 17)


def do_orders(t, M, seed):
    """linear impairments that act on all modes alike commute"""
    s = signals.SignalQAMGrayCoded(M, 512, nmodes=2, fb=20e9, seed=seed).resample(40e9, beta=0.1, renormalise=True)
    steps = {
        "disp": lambda y: impairments.add_dispersion(y, 17e-6, 30e3), "pmd": lambda y: impairments.apply_PMD(y, 0.9, 30e-12), "phase": lambda y: y * np.exp(1.3j),
        "filter": lambda y: filtering.pre_filter(y, 0.3), "roll": lambda y: y.recreate_from_np_array(np.roll(np.asarray(y), 37, -1)),
    }
    ref = None
    for order in itertools.permutations(sorted(steps)):
        y = s
        good = True
        for n in order:
            ok, y = t.attempt("orders:%s" % n, steps[n], y)
            good &= ok
        if not good:
            return
        a = np.asarray(y)
        if ref is None:
            ref = a
        t.ok(close(a, ref, 1e-9), "orders:%d:%s" % (M, "+".join(order)), "the order of linear time-invariant impairments does not matter", got=np.abs(a - ref).max())
        t.trace({"order": order})
        t.state(order)
    for th, d in itertools.product(np.linspace(0, 3, 7), (0, 10e-12, -40e-12)):
        y = impairments.apply_PMD(s, th, d)
        ok, z = t.attempt("pmd:back", impairments.apply_PMD, y, th, -d)
        t.ok(ok and close(np.asarray(z), np.asarray(s), 1e-9), "pmd:back:%g:%g" % (th, d), "the opposite group delay undoes it", got=np.abs(np.asarray(z) - np.asarray(s)).max() if ok else None)
        t.trace()
