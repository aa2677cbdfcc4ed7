"""Long executions: every entry point of a property on every length around the powers of two (block-wise code takes another path there).

The shards ["deep", property, tier, seed] are appended to those of the property's module by `shards`; the reference is vectorised NumPy.
"""
import os
import shutil
import tempfile
import warnings
import numpy as np
from mc.core import close

DT = {"c16": np.complex128, "c8": np.complex64}


def lengths(tier, top=17):
    ks = [10, 12, 14, 16] + ([17, 18, 20] if tier != "quick" else [])
    out = [2**k + d for k in ks if k <= top + (3 if tier != "quick" else 0) for d in (-1, 0, 1)]
    return out + [n for n in (10007, 50000, 100003) if n < 2**top] + ([131073] if top >= 17 else [])


def rnd(n, *shape):
    r = np.random.default_rng(n)
    return r, r.standard_normal(shape + (n,)) + 1j * r.standard_normal(shape + (n,))


def qam(M):
    m = int(np.sqrt(M))
    g = np.arange(-(m - 1), m, 2.0)
    a = (g[:, None] + 1j * g[None]).ravel()
    return a / np.sqrt(np.mean(np.abs(a)**2))


def C01(t, tier, seed):
    from qampy import signals
    for n in lengths(tier):
        for cls, M in ((signals.SignalQAMGrayCoded, 4), (signals.SignalQAMGrayCoded, 32), (signals.SignalQAMGrayCoded, 1024), (signals.SignalPSKGrayCoded, 8)):
            dt = ("c16", "c8")[n % 2]
            nb = int(np.log2(M))
            b = np.random.default_rng(n + seed).random((2, n * nb)) < 0.5
            key = "deep:%d:%s%d" % (n, cls.__name__[6:9], M)
            s = t.call(cls.from_bit_array, b, M, dtype=DT[dt])
            w = b.reshape(2, n, nb) @ (1 << np.arange(nb - 1, -1, -1))
            t.ok(s.shape == (2, n) and s.dtype == DT[dt] and np.array_equal(np.asarray(s), np.asarray(s.coded_symbols)[w]), key, "every word has its symbol")
            t.ok(np.array_equal(s.bits, b) and np.array_equal(t.call(s.demodulate, s), b), key + ":bits", "the bits come back")
            t.state(key, np.asarray(s)[:, -9:])
            t.trace()


def C03(t, tier, seed):
    from qampy import signals
    from qampy.core import signal_quality as sq
    for n in lengths(tier):
        for M, dt in ((4, "c16"), (16, "c8"), (128, "c16"), (256, "c8")):
            s = signals.SignalQAMGrayCoded(M, 4, nmodes=2, dtype=DT[dt], seed=1)
            al = np.asarray(s.coded_symbols)
            r, x = rnd(n, 2)
            x = (0.8 * x).astype(DT[dt])
            key = "deep:%d:%d:%s" % (n, M, dt)
            dec, dist, idx = t.call(s.make_decision, x, verbose=True)
            best = np.array([np.concatenate([np.abs(c[:, None] - al[None]).min(1) for c in np.array_split(m, max(1, n // 20000))]) for m in x])
            dec = np.asarray(dec)
            tol = 1e-12 if dt == "c16" else 1e-5
            t.ok(dec.shape == x.shape and np.all(np.abs(dec - x) <= best + tol * (1 + np.abs(x))) and np.array_equal(al[idx], dec), key, "the nearest symbol for every sample")
            d1, d2, d3 = t.call(sq.make_decision, x[1].copy(), al)
            t.ok(np.array_equal(d1, dec[1]), key + ":core", "the same in the core function")
            t.state(key, dec[:, -9:])
            t.trace()


def C04(t, tier, seed):
    from qampy import signals
    for n in lengths(tier):
        for M in (4, 64):
            dt = ("c16", "c8")[n % 2]
            s = signals.SignalQAMGrayCoded(M, n, nmodes=2, dtype=DT[dt], seed=n)
            al = np.asarray(s.coded_symbols)
            nb = int(np.log2(M))
            rx = np.asarray(s).copy()
            wrong = [np.unique([0, 1, n // 3, n // 2, n - 2, n - 1, *range(5, n, 997)]), np.unique([n - 1, *range(2, n, 1500)])]
            cnt = []
            for m in range(2):
                new = al[(np.argmin(np.abs(rx[m, wrong[m]][:, None] - al[None]), 1) + 1) % M]
                rx[m, wrong[m]] = new
                cnt.append(len(wrong[m]))
            b = t.call(s.demodulate, rx) ^ np.asarray(s.bits)
            rx = s.recreate_from_np_array(rx)
            ser, ber, evm = np.array(cnt) / n, b.sum(1) / (n * nb), np.sqrt(np.mean(np.abs(np.asarray(rx) - np.asarray(s))**2, -1))
            key = "deep:%d:%d" % (n, M)
            variants = [("synced", rx, True), ("sync", rx, False)]
            if n < 30000:
                variants += [("shift", s.recreate_from_np_array(np.roll(np.asarray(rx), n // 3, -1)), False), ("turn", s.recreate_from_np_array(np.roll(np.asarray(rx), -7, -1) * DT[dt](1j)), False)]
            for name, x, syn in variants:
                t.ok(np.allclose(t.call(x.cal_ser, synced=syn), ser, atol=1e-12), key + ":ser:" + name, "every wrong symbol counts once")
                t.ok(np.allclose(t.call(x.cal_ber, synced=syn), ber, atol=1e-12), key + ":ber:" + name, "every wrong bit counts once")
                t.ok(np.allclose(t.call(x.cal_evm, synced=syn), evm, atol=1e-9 if dt == "c16" else 1e-4), key + ":evm:" + name, "distance to the sent symbols")
                t.trace()
            x = s.recreate_from_np_array(np.asarray(s) * DT[dt](-1))
            want = (t.call(s.demodulate, np.asarray(x)) ^ np.asarray(s.bits)).mean(-1)
            t.ok(np.allclose(t.call(x.cal_ser, synced=True), 1, atol=1e-12) and np.allclose(t.call(x.cal_ber, synced=True), want, atol=1e-12), key + ":all", "all symbols wrong")
            t.state(key)


def C05(t, tier, seed):
    from qampy.core import ber_functions as bf
    for n in lengths(tier):
        r = np.random.default_rng(n)
        al = qam(16)
        tx = al[r.integers(0, 16, n)]
        for k in (0, 1, n // 3, n - 1):
            key = "deep:%d:%d" % (n, k)
            q = k % 4
            rx = np.roll(tx, k) * 1j**q
            (a, b), ac = t.call(bf.sync_and_adjust, tx, rx)
            t.ok(len(a) == len(b) and np.allclose(a, b, atol=1e-12), key, "the pair agrees symbol by symbol")
            if k and n < 70000:
                for cut in (n - n // 4,):
                    (a, b), ac = t.call(bf.sync_and_adjust, tx, rx[:cut])
                    t.ok(len(a) == len(b) and np.allclose(a, b, atol=1e-12), key + ":cut", "also when only a part was received")
            off, _, _, _ = (tuple(t.call(bf.find_sequence_offset_complex, tx, rx)) + (0,) * 4)[:4]
            t.trace()
        for m in ("truncate", "extend"):
            a, b = t.call(bf.adjust_data_length, tx, tx[:n // 3], m)
            t.ok(len(a) == len(b) and np.array_equal(a, tx[np.arange(len(a)) % n]) and np.array_equal(b, tx[:n // 3][np.arange(len(b)) % (n // 3)]), "deep:adjust:%d:%s" % (n, m), "periodic extension or truncation")
        t.state(n)


def C08(t, tier, seed):
    from qampy import signals, io
    d = tempfile.mkdtemp(prefix="c08deep_")
    try:
        for n in lengths(tier):
            s = signals.SignalQAMGrayCoded(64, n, nmodes=2, seed=n, fb=3e9, dtype=(np.complex128, np.complex64)[n % 2])
            s = s.recreate_from_np_array((np.asarray(s) + 0.01 * rnd(n, 2)[1]).astype(s.dtype))
            for lvl in (0, 1, 9) if n < 2000 else (0, 4):
                fn = os.path.join(d, "a.sig")
                t.call(io.save_signal, fn, s, lvl)
                r = t.call(io.load_signal, fn)
                t.ok(type(r) is type(s) and r.dtype == s.dtype and np.array_equal(np.asarray(r), np.asarray(s)) and np.array_equal(r.symbols, s.symbols) and np.array_equal(r.bits, s.bits) and r.fb == s.fb and r.fs == s.fs,
                     "deep:%d:%d" % (n, lvl), "the same signal comes back")
                t.trace()
            t.state(n)
    finally:
        shutil.rmtree(d)


def C09(t, tier, seed):
    from qampy import signals
    for F, S, R, nf in ((1 << 10, 64, 8, 9), (10016, 32, 32, 5), (1 << 14, 1024, 16, 4), (1 << 16, 4096, 32, 3), ((1 << 16) + 64, 64, 0, 2), (100000, 160, 20, 2)):
        for dt in DT:
            s = t.call(signals.SignalWithPilots, 16, F, S, R, nframes=nf, nmodes=2, seed=[1, 2], dtype=DT[dt])
            key = "deep:%d:%d:%d:%s" % (F, S, R, dt)
            pil = np.zeros(F, bool)
            pil[:S] = True
            if R:
                pil[S::R] = True
            a = np.asarray(s).reshape(2, nf, F)
            if not t.ok(s.shape == (2, F * nf), key + ":shape", "whole frames"):
                continue
            for fr in ([0], [nf - 1, 0], list(range(nf))):
                data = np.asarray(t.call(s.get_data, fr))
                t.ok(np.array_equal(data, np.concatenate([a[:, f][:, ~pil] for f in fr], -1)), key + ":data:%s" % fr, "the payload of the chosen frames")
                x = np.asarray(t.call(s.extract_pilots, fr)) if len(fr) else 0
                t.ok(np.array_equal(x, np.concatenate([a[:, f][:, pil] for f in fr], -1)), key + ":pil:%s" % fr, "the pilots of the chosen frames")
            bad = np.asarray(s).copy()
            pos = [np.flatnonzero(~pil)[k] + (nf - 1) * F for k in (0, 7, -1)]
            bad[1, pos] = -bad[1, pos]
            x = s.recreate_from_np_array(bad)
            n = np.count_nonzero(~pil)
            t.ok(np.allclose(t.call(x.cal_ser, frames=[nf - 1]), [0, 3 / n], atol=1e-12) and np.allclose(t.call(x.cal_ser, frames=[0]), 0), key + ":ser", "errors count in their frame")
            t.state(key)
            t.trace()


def convolve(E, os, w):
    """sum over modes and taps by FFT"""
    nt = w.shape[2]
    n = (E.shape[1] - nt + 1) // os
    L = E.shape[1] + nt
    Ef = np.fft.fft(E, L)
    return np.array([np.fft.ifft(np.sum(Ef * np.fft.fft(m[:, ::-1], L), 0))[nt - 1:nt - 1 + n * os:os] for m in w])


def C12(t, tier, seed):
    from qampy.core.equalisation import apply_filter
    for n in lengths(tier):
        for m, nt, os in ((1, 1, 1), (1, 33, 2), (2, 17, 2), (3, 64, 3), (5, 21, 1)):
            if n > 70000 and m > 2 and tier == "quick":
                continue
            dt = ("c16", "c8")[(n + m) % 2]
            r, E = rnd(n, m)
            w = r.standard_normal((m, m, nt)) + 1j * r.standard_normal((m, m, nt))
            key = "deep:%d:%d:%d:%d:%s" % (n, m, nt, os, dt)
            ok, y = t.attempt(key, apply_filter, E.astype(DT[dt]), os, w.astype(DT[dt]))
            if ok:
                want = convolve(E, os, w)
                t.ok(y.shape == want.shape and np.all(np.abs(y - want) < (1e-8 if dt == "c16" else 1e-3) * np.sqrt(m * nt)), key, "sum over modes and taps at every output")
            if nt == 17:
                ok, y = t.attempt(key + ":real", apply_filter, E.real.astype(np.float64), os, w.real.astype(np.float64))
                if ok:
                    want = convolve(E.real, os, w.real).real
                    t.ok(close(np.asarray(y), want[:m // 2] + 1j * want[m // 2:], 1e-9), key + ":real", "real valued taps")
            t.state(key)
            t.trace()


def C13(t, tier, seed):
    from qampy.core import equalisation as ceq
    from mc.checks import c13
    rng = np.random.default_rng(seed)
    for n in (1025, 4097, 10000) + ((20000, 65537) if tier != "quick" else ()):
        for method, M, m, nt, niter in (("cma", 4, 2, 11, 1), ("mcma", 16, 1, 21, 2), ("sbd_data", 16, 2, 9, 1), ("mrde", 16, 2, 7, 1), ("mddma", 16, 3, 5, 1), ("cma_real", 4, 2, 5, 1)):
            key = "deep:%d:%s" % (n, method)
            E, tx = c13.data(rng, M, m, n, 2, nt, "c16")
            rw = 2 * m if method in c13.REAL else m
            w0 = np.zeros((rw, rw, nt), float if method in c13.REAL else complex)
            for k in range(rw):
                w0[k, k, nt // 2] = 1
            ok, got = t.attempt(key, ceq.equalise_signal, E, 2, 1e-4, M, wxy=w0.copy(), TrSyms=n, Niter=niter, method=method, adaptive_stepsize=False,
                                **({"symbols": tx} if method == "sbd_data" else {"symbols": c13.alphabet(M)} if method == "mddma" else {}))
            if ok:
                c13.compare(t, key, method, E, M, 2, 1e-4, w0, list(range(m)), n, niter, False, tx, got[:2], "c16")


def boxed(d, N):
    """moving sum over 2N+1 samples without a running sum: exact to rounding for every length"""
    from scipy.ndimage import uniform_filter1d
    return uniform_filter1d(d, 2 * N + 1, axis=0, mode="constant") * (2 * N + 1)


def C15(t, tier, seed):
    from qampy.core import phaserecovery as pr
    for n in [x for x in lengths(tier) if x < 70000 or tier != "quick"]:
        r = np.random.default_rng(n)
        al = qam(16)
        s = al[r.integers(0, 16, (2, n))]
        k = np.arange(n)
        ph = np.array([0.3 * np.sin(2 * np.pi * k / n), 0.2 + 0.25 * np.cos(2 * np.pi * k / n)])
        N = 16
        E = s * np.exp(-1j * ph) + 0.01 * rnd(n, 2)[1]
        key = "deep:%d" % n
        ok, res = t.attempt(key, pr.bps, E, 32, al, N)
        if ok:
            out, got = res
            e = np.array(got - ph)[:, N:-N]
            e -= np.round(np.mean(e, -1, keepdims=True) / (np.pi / 2)) * np.pi / 2
            t.ok(out.shape == s.shape and np.max(np.abs(e)) < 0.12 and close(out, E * np.exp(1j * np.asarray(got)), 1e-9), key + ":bps", "follows a slow drift over the whole signal", worst=float(np.max(np.abs(e))))
        q = np.exp(1j * (np.pi / 4 + np.pi / 2 * r.integers(0, 4, n)))
        E = q * np.exp(1j * ph[0])
        ok, res = t.attempt(key + ":vv", pr.viterbiviterbi, E, 31, 4)
        if ok:
            got = np.asarray(res[1])
            e = np.unwrap(4 * (got.ravel() - ph[0][:got.size] if got.size == n else got.ravel() - ph[0][15:15 + got.size])) / 4
            t.ok(np.ptp(e[40:-40]) < 0.02, key + ":vv", "follows a slow drift over the whole signal", spread=float(np.ptp(e)))
        t.state(key)
        t.trace()


def C16(t, tier, seed):
    from qampy import signals, phaserec
    for F, S, R, nf in ((1024, 64, 32, 1), (1 << 14, 128, 16, 2), (1 << 16, 1024, 32, 1), ((1 << 14) + 32, 32, 32, 3)):
        for dt in DT:
            s = signals.SignalWithPilots(16, F, S, R, nframes=nf, nmodes=2, seed=[3, 4], dtype=DT[dt])
            key = "deep:%d:%d:%d:%s" % (F, S, R, dt)
            n = s.shape[1]
            ph = np.array([[0.7], [-2.1]]) + np.array([[3.0], [-8.0]]) * np.arange(n) / n
            rx = s.recreate_from_np_array((np.asarray(s) * np.exp(1j * ph)).astype(DT[dt]))
            ok, r = t.attempt(key, phaserec.pilot_cpe, rx, N=3, nframes=nf, use_seq=False)
            if ok:
                out, tr = r
                lo, hi = S + 4 * R, F - 4 * R
                t.ok(close(np.asarray(out)[:, lo:hi], np.asarray(s)[:, lo:hi], 1e-6 if dt == "c16" else 5e-3), key, "a linear drift is removed in the first frame")
                t.ok(out.shape == s.shape and (F < 5000 or not np.any(t.call(out.cal_ser))), key + ":ser", "no errors")
            t.state(key)
            t.trace()


def C18(t, tier, seed):
    from qampy.core import impairments as im
    for n in lengths(tier):
        r, x = rnd(n, 2)
        f = np.fft.fftfreq(n) * 40e9
        key = "deep:%d" % n
        y = t.call(im.add_dispersion, x, 40e9, 17e-6, 50e3, 1550e-9) if hasattr(im, "add_dispersion") else None
        if y is not None:
            E0, E1 = np.sum(np.abs(x)**2), np.sum(np.abs(y)**2)
            z = t.call(im.add_dispersion, y, 40e9, 17e-6, -50e3, 1550e-9)
            t.ok(abs(E1 - E0) < 1e-9 * E0 and close(z, x, 1e-7), key + ":disp", "dispersion keeps the energy and is undone")
        y = np.asarray(t.call(im.apply_PMD_to_field, x, 0.4, 30e-12, 40e9))
        R = np.array([[np.cos(0.4), -np.sin(0.4)], [np.sin(0.4), np.cos(0.4)]])
        D = np.exp(-1j * np.pi * f * 30e-12)
        want = np.fft.ifft(R.T @ (np.array([D, D.conj()]) * (R @ np.fft.fft(x))))
        t.ok(close(y, want, 1e-7), key + ":pmd", "rotation, delay, rotation back")
        y = np.asarray(t.call(im.add_carrier_offset, x, 1e9, 40e9))
        t.ok(close(y, x * np.exp(2j * np.pi * 1e9 / 40e9 * np.arange(n)), 1e-6), key + ":offset", "carrier offset")
        y = np.asarray(t.call(im.add_modal_delay, x, np.array([5, -n // 2])))
        t.ok(np.array_equal(y, np.array([np.roll(x[0], 5), np.roll(x[1], -n // 2)])), key + ":delay", "modal delays")
        for b in (3, 8):
            d = 2 / 2**b
            v = np.clip(np.tanh(x.real), -0.99999, 0.99999) + 1j * np.clip(np.tanh(x.imag), -0.99999, 0.99999)
            q = np.asarray(t.call(im.quantize_signal_New, v, b, rescale_in=False, rescale_out=False))
            near = lambda u: np.clip((np.floor(u / d) + 0.5) * d, -1 + d / 2, 1 - d / 2)
            t.ok(close(q, near(v.real) + 1j * near(v.imag), 1e-12), key + ":quant:%d" % b, "the nearest level")
        t.state(key)
        t.trace()


def C19(t, tier, seed):
    from qampy.core import filter as cf, resample as rs
    from mc.checks import c19
    for n in lengths(tier):
        r, x = rnd(n, 2)
        key = "deep:%d" % n
        for up, down, taps in ((2, 1, 401), (1, 2, 301), (3, 2, 1001), (5, 4, 61)):
            fold, beta = 2.0, 0.2
            h = c19.pulse(taps, fold * up, 1 / fold, beta)
            z = np.zeros(n * up, complex)
            z[::up] = x[0]
            L = len(z) + taps
            want = np.fft.ifft(np.fft.fft(z, L) * np.fft.fft(h, L))[(taps - 1) // 2:(taps - 1) // 2 + len(z)][::down]
            ok, y = t.attempt(key, rs.rrcos_resample, x[0], fold, fold * up / down, Ts=1 / fold, beta=beta, taps=taps)
            if ok:
                m = min(len(want), len(y))
                t.ok(abs(len(y) - len(want)) == 0 and close(y[:m], want[:m], 1e-8), key + ":resample:%d/%d" % (up, down), "every output sample is the filtered signal at its own time", lens=(len(y), len(want)))
        for N in (1, 2, 7, 64):
            ok, y = t.attempt(key, cf.moving_average, x.real.copy(), N)
            if ok:
                c = np.cumsum(np.concatenate([np.zeros((2, 1)), x.real], -1), -1)
                t.ok(close(np.asarray(y), (c[:, N:] - c[:, :-N]) / N, 1e-8), key + ":average:%d" % N, "mean of every window")
        y = np.asarray(t.call(cf.pre_filter, x, 0.4))
        t.ok(y.shape == x.shape, key + ":pre", "as long as the input")
        t.state(key)
        t.trace()


def C20(t, tier, seed):
    from qampy import helpers
    for n in lengths(tier):
        r, x = rnd(n, 3)
        x = x * np.array([[1], [3], [0.2]]) + np.array([[1], [2j], [-5]])
        for dt in DT:
            a = x.astype(DT[dt])
            y = np.asarray(t.call(helpers.normalise_and_center, a))
            tol = 1e-9 if dt == "c16" else 1e-3
            want = a - a.mean(-1, keepdims=True, dtype=complex)
            want = want / np.sqrt(np.mean(np.abs(want)**2, -1, keepdims=True))
            t.ok(close(y, want, tol), "deep:%d:%s" % (n, dt), "every mode centred and of unit power")
            y = np.asarray(t.call(helpers.rescale_signal, a, 2.0))
            t.ok(abs(max(np.abs(y.real).max(), np.abs(y.imag).max()) - 2) < tol, "deep:%d:%s:rescale" % (n, dt), "the largest excursion is the swing")
            t.ok(close(np.asarray(t.call(helpers.cabssquared, a)), np.abs(a)**2, tol), "deep:%d:%s:abs" % (n, dt), "square of the modulus")
            t.trace()
        t.state(n)


def C21(t, tier, seed):
    from qampy import signals
    from qampy.core import signal_quality as sq
    from mc.checks import c21
    for n in [x for x in lengths(tier) if x < 70000 or tier != "quick"]:
        for M in (4, 64):
            s = signals.SignalQAMGrayCoded(M, n, nmodes=2, seed=n)
            rx = s.recreate_from_np_array(np.asarray(s) + rnd(n, 2)[1] * np.array([[0.1], [0.2]]))
            al, bits = c21.code(s)
            snr = np.array([15.0, 9.0])
            lv = [c21.ref_l(np.asarray(rx)[m], al, bits, 10**(snr[m] / 10))[0] for m in range(2)]
            b = np.asarray(s.bits).reshape(2, n, -1)
            want = np.array([1 - np.mean(np.logaddexp(0, np.where(b[m], -1, 1) * lv[m]), 0) / np.log(2) for m in range(2)])
            gmi, per = t.call(rx.cal_gmi, synced=True, snr=snr)
            key = "deep:%d:%d" % (n, M)
            t.ok(close(per, want, 1e-8) and close(gmi, want.sum(-1), 1e-8), key + ":gmi", "average over all symbols", got=gmi, expected=want.sum(-1))
            N0 = 10**(-snr / 10)
            w = []
            for m in range(2):
                acc = 0.0
                for c in np.array_split(np.arange(n), max(1, n // 10000)):
                    y, x = np.asarray(rx)[m, c], np.asarray(s)[m, c]
                    acc += np.sum(c21.lse((np.abs(y - x)**2)[:, None] / N0[m] - np.abs(y[:, None] - al[None])**2 / N0[m], 1))
                w.append(np.log2(M) - acc / n / np.log(2))
            t.ok(close(t.call(rx.cal_mi, synced=True, snr=snr), np.array(w), 1e-8), key + ":mi", "average over all symbols", expected=w)
            t.state(key)
            t.trace()


def C22(t, tier, seed):
    from qampy import signals
    for n in lengths(tier):
        for M, dt in ((4, "c16"), (16, "c8"), (256, "c16")):
            s = signals.SignalQAMGrayCoded(M, n, nmodes=3, seed=n, dtype=DT[dt])
            rx = s.recreate_from_np_array((np.asarray(s) * 1.3 + rnd(n, 3)[1] * np.array([[0.1], [0.2], [0.01]])).astype(DT[dt]))
            snr, s0, n0 = t.call(rx.est_snr, synced=True, verbose=True)
            S, N = [], []
            for m in range(3):
                x, y = np.asarray(s)[m], np.asarray(rx)[m].astype(complex)
                u, inv, cnt = np.unique(x, return_inverse=True, return_counts=True)
                mu = (np.bincount(inv, y.real) + 1j * np.bincount(inv, y.imag)) / cnt
                S.append(np.sum(np.abs(mu)**2 * cnt) / n)
                N.append(np.mean(np.abs(y - mu[inv])**2))
            tol = 1e-9 if dt == "c16" else 3e-3
            t.ok(np.allclose(s0, S, rtol=tol) and np.allclose(n0, N, rtol=tol * 10) and np.allclose(snr, np.array(S) / N, rtol=tol * 10), "deep:%d:%d:%s" % (n, M, dt), "power of the means over power around them", got=snr, expected=np.array(S) / N)
            t.state(n, M)
            t.trace()


def C23(t, tier, seed):
    from qampy.core import utils
    from qampy.core.segmentaxis import segment_axis
    for n in lengths(tier):
        r = np.random.default_rng(n)
        b = r.random(n) < 0.5
        key = "deep:%d" % n
        for k in (0, 1, n // 2, n - 64):
            o = np.atleast_1d(t.call(utils.find_offset, b[k:k + 64], b))
            t.ok(k in o.tolist() and len(o) < 3, key + ":find:%d" % k, "the position of the sequence", got=o)
        a = np.arange(n)
        for L, ov in ((7, 3), (128, 0), (1000, 999 if n < 5000 else 10)):
            y = np.asarray(t.call(segment_axis, a, L, ov, end="cut"))
            t.ok(y.shape == ((n - ov) // (L - ov) if n >= L else 0, L) and np.array_equal(y, np.arange(y.shape[0])[:, None] * (L - ov) + np.arange(L)), key + ":segment:%d" % L, "all frames")
        y = np.asarray(t.call(utils.rolling_window, a, 5))
        t.ok(np.array_equal(y, np.arange(n - 4)[:, None] + np.arange(5)), key + ":window", "all windows")
        t.state(n)
        t.trace()


def C24(t, tier, seed):
    from qampy.core import digital_pre_compensation as dpc
    for n in lengths(tier):
        for M, mem, mask in ((4, 3, None), (16, 3, None), (16, 5, None), (4, 4, np.arange(n) % 3 != 1)):
            r = np.random.default_rng(n + M)
            al = qam(M)
            tx = al[r.integers(0, M, n)]
            rx = tx + 0.1 * rnd(n)[1]
            key = "deep:%d:%d:%d:%s" % (n, M, mem, mask is not None)
            ok, res = t.attempt(key, dpc.cal_lut, tx, rx, al, mem, mask, True)
            if not ok:
                continue
            ea, ii, iq = res
            sel = np.arange(n) if mask is None else np.flatnonzero(mask)
            for part, idx in ((np.real, np.asarray(ii)), (np.imag, np.asarray(iq))):
                v = np.unique(np.round(part(al), 9))
                lev = np.searchsorted(v, np.round(part(tx), 9))
                code = np.zeros(n, int)
                for j in range(mem):
                    code = code * len(v) + np.roll(lev, mem // 2 - j)
                code, err = code[sel], part(tx - rx)[sel]
                u, inv, cnt = np.unique(code, return_inverse=True, return_counts=True)
                want = (np.bincount(inv, err) / cnt)[inv]
                t.ok(len(idx) == len(sel) and close(part(ea)[idx], want, 1e-9) and len(np.unique(idx)) == len(u), key + ":" + part.__name__, "mean error of all symbols with the same pattern")
            t.state(key)
            t.trace()


def C27(t, tier, seed):
    from qampy.core.equalisation.equalisation import CDcomp
    C = 2.99792458e8
    for n in lengths(tier):
        r, x = rnd(n)
        f = np.fft.fftfreq(n) * 40e9
        for L, wl in ((80e3, 1550e-9), (-2000e3, 1310e-9)):
            H = np.exp(-1j * np.pi * f**2 * 17e-6 * wl**2 * L / C)
            y, h = t.call(CDcomp, x, 40e9, 0, L, 17e-6, wl)
            t.ok(close(np.asarray(y).ravel(), np.fft.ifft(np.fft.fft(x) * H), 1e-6), "deep:%d:%g" % (n, L), "every frequency is turned by the parabolic phase")
            t.trace()
        if n > 2000:
            N = 256
            lowpass = np.abs(np.fft.fftfreq(n)) < 0.3
            z = np.fft.ifft(np.fft.fft(x) * lowpass)
            a, b = t.call(CDcomp, z, 40e9, 1024, 20e3, 17e-6, 1550e-9)[0], t.call(CDcomp, z, 40e9, 0, 20e3, 17e-6, 1550e-9)[0]
            m = min(len(a), len(b)) // 512 * 512 - 2048
            t.ok(m > 0 and np.sqrt(np.mean(np.abs(a[1024:m] - b[1024:m])**2)) < 0.1 * np.std(z), "deep:%d:block" % n, "block by block the same as the whole signal",
                 got=float(np.sqrt(np.mean(np.abs(a[1024:m] - b[1024:m])**2))) if m > 1024 else None)
        t.state(n)


def C28(t, tier, seed):
    from qampy.core import analog_frontend as caf
    for n in lengths(tier):
        r, x = rnd(n)
        z = x.real + 1j * (0.7 * x.imag + 0.2 * x.real) + 0.3 - 0.1j
        c = z - z.mean()
        i = c.real
        q = c.imag - i * np.dot(i, c.imag) / np.dot(i, i)
        y = np.asarray(t.call(caf.comp_IQ_inbalance, z))
        t.ok(close(y, i + 1j * q * np.sqrt(np.dot(i, i) / np.dot(q, q)), 1e-8), "deep:%d:iq" % n, "orthogonal quadratures of equal power")
        y = np.asarray(t.call(caf.orthonormalize_signal, z))
        t.ok(close(y, (i / np.sqrt(np.dot(i, i)) + 1j * q / np.sqrt(np.dot(q, q)))[None] * np.sqrt(n / 2), 1e-8), "deep:%d:gs" % n, "orthogonal quadratures of unit power")
        v = x.real[None].copy()
        y = np.asarray(t.call(caf.comp_rf_delay, v, 3.0, 1.0))
        t.ok(close(np.abs(np.fft.rfft(y))[:, 1:n // 2], np.abs(np.fft.rfft(v))[:, 1:n // 2], 1e-7), "deep:%d:delay" % n, "a delay keeps the spectrum")
        t.state(n)
        t.trace()


KEYS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
PARTS = 1
TEXT = "; one long execution of every entry point for every length 2^k-1, 2^k, 2^k+1 (k = 10, 12, 14, 16; thorough to 20) and some others, up to five modes, against vectorised NumPy"


def shards(pid, tier, seed):
    return [["deep", pid, tier, seed]] if pid in KEYS else []


def run(shard, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        KEYS[shard[1]](t, *shard[2:])
