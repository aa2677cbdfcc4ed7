"""C18: simulated impairments: linear operators determined on a whole basis, noise models, quantisers, modulator and DAC."""
import itertools
import os
import tempfile
import numpy as np
from qampy import impairments, signals
from qampy.core import impairments as core
from mc.core import close

RULE = ("a trace is one impairment with one set of parameters compared with its definition: linear impairments on every unit impulse of every mode (a basis "
        "determines them completely) and on a full signal, quantisers and modulators on a grid over their whole input range, noise models on every single draw of their generator (which determines their distribution)")
BOUNDS = {
    "quick": "lengths 1..12 x 1-3 modes x all unit impulses x both precisions x parameter grids (angles, delays, dispersions, offsets with both signs); quantisers "
             "1-8 bits on 4 points per step; 6x5 modulator parameters; all 64 subsets of impairments of simulate_transmission",
    "thorough": "lengths to 24, finer grids",
}
Q = signals.SignalQAMGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
TOL = {"c16": 1e-10, "c8": 3e-5}
C = 2.99792458e8


def shards(tier, seed):
    top = 12 if tier == "quick" else 24
    out = [[n, N, tier] for n in ("pmd", "dispersion", "offset", "delay") for N in range(1, top + 1)]
    out += [["rotate", tier], ["long", 300000], ["noise", seed], ["draws", "c16", 5 if tier == "quick" else 9], ["draws", "c8", 5 if tier == "quick" else 9], ["phase", seed], ["enob", seed], ["modulator", tier], ["dac", seed], ["txchain", seed], ["realquant", seed], ["wrappers", seed]]
    out += [["quantise", n, tier] for n in range(1, 9)]
    out += [["transmission", seed, i] for i in range(4)]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def inputs(m, N, dt, seed=0):
    """all unit impulses (times 1 and i), and one full signal"""
    for k in range(m):
        for n in range(N):
            for v in (1, 1j):
                x = np.zeros((m, N), DT[dt])
                x[k, n] = v
                yield "%d,%d,%s" % (k, n, v), x
    r = np.random.RandomState(seed + N * m)
    yield "full", (r.randn(m, N) + 1j * r.randn(m, N)).astype(DT[dt])


def dft(N, sign):
    k = np.arange(N)
    return np.exp(sign * 2j * np.pi * np.outer(k, k) / N)


def freqs(N, fs):
    k = np.arange(N)
    return np.where(k < (N + 1) // 2, k, k - N) * fs / N


def compare(t, key, fn, x, want, tol):
    x0 = x.copy()
    ok, y = t.attempt(key, fn, x)
    if not ok:
        return None
    t.ok(np.array_equal(x, x0), key + ":input", "the input is not changed")
    y = np.asarray(y)
    if t.ok(y.shape == want.shape and close(y, want, tol), key, "output of the impairment", got=y, expected=want):
        t.state(key, y)
    t.trace({"key": key})
    return y


def do_pmd(t, N, tier):
    F, B = dft(N, -1), dft(N, 1) / N
    fs = 4e10
    w = 2 * np.pi * freqs(N, fs)
    ths = np.linspace(-np.pi, np.pi, 9)
    for dt in DT:
        for th, tau in itertools.product(ths, (0, 1 / fs, -2 / fs, 0.37 / fs)):
            R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            for name, x in inputs(2, N, dt):
                X = R @ (x @ F.T)
                X = np.array([X[0] * np.exp(-1j * w * tau / 2), X[1] * np.exp(1j * w * tau / 2)])
                want = (R.T @ X) @ B.T
                y = compare(t, "pmd:%d:%s:%.3f:%g:%s" % (N, dt, th, tau * fs, name), lambda x: core.apply_PMD_to_field(x, th, tau, fs), x, want, TOL[dt])
                if y is not None:
                    t.ok(y.dtype == x.dtype and abs(np.sum(np.abs(y)**2) - np.sum(np.abs(x)**2)) < 100 * TOL[dt] * max(1, np.sum(np.abs(x)**2)),
                         "pmd:unitary:%d:%s" % (N, dt), "PMD keeps the energy and the precision")
    # a differential delay of two whole samples along an axis of the fibre: one mode early, the other late by one sample
    if N > 2:
        for name, x in inputs(2, N, "c16"):
            want = np.array([np.roll(x[0], 1), np.roll(x[1], -1)])
            if N % 2:
                compare(t, "pmd:delay:%d:%s" % (N, name), lambda x: core.apply_PMD_to_field(x, 0, 2 / fs, fs), x, want, 1e-9)


def do_dispersion(t, N, tier):
    F, B = dft(N, -1), dft(N, 1) / N
    fs = 6e10
    w = 2 * np.pi * freqs(N, fs)
    for dt, m in itertools.product(DT, (1, 2, 3)):
        for D, L, wl in itertools.product((17e-6, -4e-6), (0, 1e4, 8e5), (1550e-9, 1310e-9)):
            b2 = D * wl**2 / (2 * np.pi * C)
            H = np.exp(-0.5j * w**2 * b2 * L)
            for name, x in inputs(m, N, dt):
                if name != "full" and (m == 3 or wl != 1550e-9):
                    continue
                key = "dispersion:%d:%s:%d:%g:%g:%g:%s" % (N, dt, m, D, L, wl, name)
                y = compare(t, key, lambda x: core.add_dispersion(x, fs, D, L, wl), x, ((x @ F.T) * H) @ B.T, TOL[dt])
                if y is not None and name == "full":
                    back = core.add_dispersion(core.add_dispersion(x, fs, D, L / 3, wl), fs, D, 2 * L / 3, wl)
                    t.ok(close(back, y, TOL[dt] * 10), key + ":additive", "dispersion of consecutive spans adds")
                    t.ok(close(core.add_dispersion(np.ascontiguousarray(y), fs, D, -L, wl), x, TOL[dt] * 10), key + ":inverse", "the opposite length removes it")
                    t.ok(close(core.add_dispersion(x[0], fs, D, L, wl), y[0], TOL[dt]), key + ":1d", "one-dimensional signals")


def do_offset(t, N, tier):
    for dt, m, fo, fs in itertools.product(DT, (1, 2), (0, 1e6, -3e7, 4.9e9, 2.5e9), (1e10, 1)):
        fo = fo if fs > 1 else fo / 1e10
        ph = np.exp(2j * np.pi * np.arange(N) * fo / fs)
        for name, x in inputs(m, N, dt):
            y = compare(t, "offset:%d:%s:%d:%g:%g:%s" % (N, dt, m, fo, fs, name), lambda x: core.add_carrier_offset(x, fo, fs), x, x * ph, TOL[dt])
            if y is not None:
                t.ok(y.dtype == x.dtype, "offset:dtype:%s" % dt, "precision")
                if m == 1:
                    compare(t, "offset:1d:%d:%s:%g:%g:%s" % (N, dt, fo, fs, name), lambda x: core.add_carrier_offset(x, fo, fs), x[0].copy(), x[0] * ph, TOL[dt])


def do_long(t, N):
    """the phase of a long signal is as precise as that of a short one, in both precisions"""
    n = np.arange(N)
    for dt, fo, m in itertools.product(DT, (1e6, -37e6, 3.3e9), (1, 2)):
        x = np.ones((m, N), DT[dt])
        want = np.exp(2j * np.pi * ((n * (fo / 1e10)) % 1))
        compare(t, "offset:long:%s:%g:%d" % (dt, fo, m), lambda x: core.add_carrier_offset(x, fo, 1e10), x, want * np.ones((m, 1)), 1e-6 if dt == "c8" else 1e-9 * 10)
        s = Q(4, 16, nmodes=m, fb=1e10, dtype=DT[dt]).recreate_from_np_array(x)
        y = t.call(impairments.add_carrier_offset, s, fo)
        t.ok(type(y) is Q and y.dtype == DT[dt] and close(np.asarray(y), want * np.ones((m, 1)), 1e-6 if dt == "c8" else 1e-8), "offset:long:signal:%s:%g:%d" % (dt, fo, m), "signals alike")


def do_delay(t, N, tier):
    if N > 8:
        return
    for m in (1, 2, 3):
        for dt in DT if m == 2 else ("c16",):
            x = (np.arange(m * N) + 1j * np.arange(m * N)[::-1]).reshape(m, N).astype(DT[dt])
            rng = range(-N - 1, N + 2) if m < 3 else (-2, 0, 1, N)
            for d in itertools.product(rng, repeat=m):
                want = np.array([[x[i, (n - d[i]) % N] for n in range(N)] for i in range(m)])
                for given in (list(d), np.array(d)):
                    y = compare(t, "delay:%d:%d:%s" % (N, m, d), lambda x: core.add_modal_delay(x, given), x, want, 0)
                    if y is not None:
                        t.ok(y.dtype == x.dtype, "delay:dtype", "precision")
            for bad in ([0] * (m + 1), []):
                try:
                    core.add_modal_delay(x, bad)
                except AssertionError:
                    t.trace()
                else:
                    t.fail("delay:count", "as many delays as modes are required")


def do_rotate(t, tier):
    for dt in DT:
        for th in np.linspace(-2 * np.pi, 2 * np.pi, 33):
            R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            for name, x in inputs(2, 3, dt):
                compare(t, "rotate:%s:%.3f:%s" % (dt, th, name), lambda x: core.rotate_field(x, th), x, R @ x, TOL[dt])
                s = Q(4, 3, nmodes=2, dtype=DT[dt], fb=1e9).recreate_from_np_array(x)
                y = impairments.rotate_field(s, th)
                t.ok(type(y) is Q and y.fb == 1e9 and y.dtype == DT[dt] and close(np.asarray(y), R @ x, TOL[dt]), "rotate:signal:%s" % dt, "signals stay signals")


def stats(t, key, z, power, modes=True):
    """complex noise of the given power per mode: zero mean, both quadratures alike and independent, white, modes independent; 7 standard deviations"""
    n = z.shape[-1]
    e = 7 / np.sqrt(n)
    for k in range(z.shape[0]):
        r, i = z[k].real, z[k].imag
        t.ok(abs(np.mean(z[k])) < e * np.sqrt(power), key + ":mean", "zero mean")
        t.ok(abs(np.mean(r**2) / (power / 2) - 1) < 1.5 * e and abs(np.mean(i**2) / (power / 2) - 1) < 1.5 * e, key + ":power", "power of both quadratures",
             got=(np.mean(r**2), np.mean(i**2)), expected=power / 2)
        t.ok(abs(np.mean(r * i)) < e * power / 2, key + ":iq", "independent quadratures")
        t.ok(abs(np.mean(z[k][1:] * z[k][:-1].conj())) < e * power, key + ":white", "white")
        t.ok(abs(np.mean(r**4) / (3 * (power / 2)**2) - 1) < 6 * e, key + ":gauss", "Gaussian (fourth moment)")
        for j in range(k):
            t.ok(abs(np.mean(z[k] * z[j].conj())) < e * power, key + ":modes", "independent modes")
    t.trace({"key": key, "n": n})
    t.state(key, z[..., :16])


class Source:
    """takes the place of NumPy's generators: the draws are numbered and their values are ours"""
    NAMES = ("randn", "standard_normal", "normal", "default_rng", "RandomState", "seed")

    def __init__(self):
        self.k, self.hot, self.value = 0, -1, 0.0

    def draw(self, size=None):
        n = int(np.prod(size)) if size is not None else 1
        out = np.zeros(n)
        if self.k <= self.hot < self.k + n:
            out[self.hot - self.k] = self.value
        self.k += n
        return out.reshape(size) if size is not None else float(out[0])

    def randn(self, *size):
        return self.draw(tuple(int(i) for i in size) if size else None)

    def standard_normal(self, size=None, *a, **k):
        return self.draw(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.draw(size)

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def seed(self, *a):
        pass

    def run(self, f, hot, value):
        self.k, self.hot, self.value = 0, hot, value
        old = {n: getattr(np.random, n) for n in self.NAMES}
        try:
            for n in self.NAMES:
                setattr(np.random, n, getattr(self, n))
            return np.array(f())
        finally:
            for n in old:
                setattr(np.random, n, old[n])


def matrix(t, key, f):
    """the result without any noise, and the response to each draw (all of them); None when the numbers come from elsewhere"""
    src = Source()
    base = src.run(f, -1, 0.0)
    nd = src.k
    if nd == 0:
        t.note("generator of another kind: moments only")
        return None
    cols = []
    for i in range(nd):
        one = src.run(f, i, 1.0) - base
        two = src.run(f, i, -3.0) - base
        t.ok(src.k == nd and close(two, -3 * one, 1e-4), key + ":linear", "the noise is proportional to the draws")
        cols.append(one)
        t.state(key, i)
    t.trace({"key": key, "draws": nd})
    return base, np.array(cols)


def near(a, b, tol):
    return a.shape == b.shape and (a.size == 0 or bool(np.max(np.abs(a - b)) <= tol + 1e-30))


def do_draws(t, dt, top):
    """additive noise is A z with independent standard normal z: A decides its distribution (A A^H = p 1: white, independent modes; A A^T = 0: circular)"""
    tol = 1e-9 if dt == "c16" else 1e-4
    for m, n in itertools.product((1, 2, 3), range(1, top + 1)):
        s = Q(16, n, nmodes=m, dtype=DT[dt], seed=7, fb=1e9)
        a = np.asarray(s)
        cases = [("awgn:%g:%s" % (st, nm), lambda x=x, st=st: core.add_awgn(x, st), x, st**2) for st in (0.0, 0.01, 0.3, 2.0) for x, nm in ((a, "2d"), (a[0], "1d"), (s, "signal"))]
        for snr, (fb, fs), amp in itertools.product((-3, 25.5), ((1, 1), (2e9, 3e9), (1e9, 2e9)), (1, 7.5)):
            x = a * DT[dt](amp)
            cases.append(("snr:%g:%g:%g" % (snr, fs / fb, amp), lambda x=x, snr=snr, fb=fb, fs=fs: core.change_snr(x, snr, fb, fs), x, np.mean(np.abs(x)**2) * 10**(-snr / 10) * fs / fb))
        sr = s.resample(1.5e9, beta=0.1, renormalise=True) if n > 1 else s
        cases.append(("snr:signal", lambda: impairments.change_snr(sr, 8), sr, np.mean(np.abs(np.asarray(sr))**2) * 10**(-0.8) * sr.fs / sr.fb))
        for nm, f, x, p in cases:
            key = "draws:%s:%s:%d:%d" % (nm, dt, m, n)
            ok, res = t.attempt(key, matrix, t, key, f)
            if not ok or res is None:
                continue
            base, A = res
            x = np.asarray(x)
            t.ok(close(base, x, tol), key + ":zero", "nothing but the noise is added")
            A = A.reshape(len(A), -1).T.astype(complex)
            t.ok(near(A @ A.conj().T, p * np.eye(x.size), 10 * tol * p), key + ":white", "power; independent samples and modes", got=np.round(A @ A.conj().T, 4).tolist()[:2], expected=p)
            t.ok(np.max(np.abs(A @ A.T)) <= 10 * tol * (p + 1e-30), key + ":circular", "both quadratures alike and independent")
        for shape in ((n,), (1, n), (m, n)):
            for df, fs in ((1e3, 1e10), (1e7, 4e10)):
                key = "draws:phase:%s:%g" % (shape, df)
                ok, res = t.attempt(key, matrix, t, key, lambda: core.phase_noise(shape, df, fs))
                if not ok or res is None:
                    continue
                base, A = res
                var = 2 * np.pi * df / fs
                t.ok(not np.any(base), key + ":zero", "no draws, no phase")
                inc = np.diff(A.reshape((len(A),) + (1,) * (2 - len(shape)) + shape), axis=-1).reshape(len(A), -1).T
                t.ok(near(inc @ inc.T, var * np.eye(len(inc)), 1e-9 * var), key + ":wiener", "increments of the requested variance, independent in time and modes")
                first = A.reshape(len(A), -1, n)[:, :, 0]
                t.ok(np.all(np.sum(first**2, axis=0) <= var * (1 + 1e-9)), key + ":start", "starts at zero (or one increment from it)")
        if n < 3:
            continue
        for enob, amp in ((3, 1), (6.5, 4)):
            x = (amp * a).astype(DT[dt])
            key = "draws:enob:%s:%d:%d:%g" % (dt, m, n, enob)
            ok, res = t.attempt(key, matrix, t, key, lambda: core.apply_enob_as_awgn(x, enob))
            if not ok or res is None:
                continue
            base, A = res
            p = 2 * (max(np.abs(x.real).max(), np.abs(x.imag).max()) / 2**(enob - 1))**2 / 12
            A = A.reshape(len(A), -1).T.astype(complex)
            t.ok(close(base, x, tol) and near(A @ A.conj().T, p * np.eye(x.size), 10 * tol * p) and np.max(np.abs(A @ A.T)) <= 10 * tol * p, key, "white circular noise of the resolution")
    for nm, f in (("awgn", lambda: core.add_awgn(a, 0.1)), ("phase", lambda: core.phase_noise((2, 3), 1e7, 1e10))):
        t.ok(not np.array_equal(f(), f()), "draws:fresh:" + nm, "every call draws new noise")


def do_noise(t, seed):
    n = 40000
    for m, dt in itertools.product((1, 2, 3), DT):
        s = Q(16, n, nmodes=m, dtype=DT[dt], seed=seed, fb=1e9)
        a = np.asarray(s)
        for st in (0.01, 0.3, 2.0):
            for x, nm in ((a, "2d"), (a[0], "1d"), (s, "signal")):
                x0 = np.asarray(x).copy()
                ok, y = t.attempt("awgn:%s" % nm, core.add_awgn, x, st)
                if not ok:
                    continue
                t.ok(y.shape == x.shape and y.dtype == x.dtype and type(y) is type(x), "awgn:kind:%s:%s" % (nm, dt), "shape, precision and class")
                t.ok(np.array_equal(np.asarray(x), x0), "awgn:input", "the input is not changed")
                stats(t, "awgn:%s:%s:%d:%g" % (nm, dt, m, st), np.atleast_2d(np.asarray(y) - np.asarray(x)).astype(complex), st**2)
        for snr, (fb, fs), amp in itertools.product((-3, 0, 10, 25.5), ((1, 1), (1e9, 2e9), (2e9, 3e9)), (1, 7.5)):
            x = a * DT[dt](amp)
            p = np.mean(np.abs(x)**2)
            key = "snr:%s:%d:%g:%g:%g" % (dt, m, snr, fs / fb, amp)
            ok, y = t.attempt(key, core.change_snr, x, snr, fb, fs)
            if ok:
                t.ok(y.dtype == x.dtype, key + ":dtype", "precision")
                stats(t, key, (y - x).astype(complex), p * 10**(-snr / 10) * fs / fb)
        for snr in (5, 15):
            for os in (1, 2):
                s2 = s.resample(s.fb * os, beta=0.1, renormalise=True) if os > 1 else s
                y = t.call(impairments.change_snr, s2, snr)
                t.ok(type(y) is Q and y.fs == s2.fs and y.fb == s.fb and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), "snr:signal", "signals stay signals")
                stats(t, "snr:signal:%s:%d:%d:%d" % (dt, m, snr, os), (np.asarray(y) - np.asarray(s2)).astype(complex), np.mean(np.abs(np.asarray(s2))**2) * 10**(-snr / 10) * os)


def do_phase(t, seed):
    n = 40000
    e = 7 / np.sqrt(n)
    for shape, df, fs in itertools.product(((n,), (1, n), (3, n)), (1e3, 1e5, 1e7), (1e10, 4e10)):
        key = "phase:%s:%g:%g" % (shape, df, fs)
        ok, ph = t.attempt(key, core.phase_noise, shape, df, fs)
        if not ok:
            continue
        if not t.ok(ph.shape == shape and not np.iscomplexobj(ph), key + ":shape", "one real phase per sample"):
            continue
        var = 2 * np.pi * df / fs
        d = np.atleast_2d(np.diff(ph, axis=-1))
        t.ok(abs(np.mean(d**2) / var - 1) < 1.5 * e, key + ":var", "variance of the increments", got=np.mean(d**2), expected=var)
        t.ok(np.all(np.abs(np.mean(d, axis=-1)) < e * np.sqrt(var)) and np.all(np.abs(np.atleast_2d(ph)[:, 0]) < 8 * np.sqrt(var)), key + ":mean", "starts at zero, no drift")
        t.ok(np.all(np.abs(np.mean(d[:, 1:] * d[:, :-1], axis=-1)) < e * var), key + ":white", "independent increments")
        if len(d) > 1:
            t.ok(abs(np.mean(d[0] * d[1])) < e * var and abs(np.mean(d[1] * d[2])) < e * var, key + ":modes", "independent modes")
        t.trace({"key": key})
    for m, dt in itertools.product((1, 2), DT):
        s = Q(4, n, nmodes=m, dtype=DT[dt], seed=seed, fb=2e9)
        for df in (1e4, 1e6):
            for x, f, nm in ((np.asarray(s), lambda x: core.apply_phase_noise(x, df, 2e9), "array"), (np.asarray(s)[0], lambda x: core.apply_phase_noise(x, df, 2e9), "1d"),
                             (s, lambda x: impairments.apply_phase_noise(x, df), "signal")):
                key = "phase:apply:%s:%s:%d:%g" % (nm, dt, m, df)
                x0 = np.asarray(x).copy()
                ok, y = t.attempt(key, f, x)
                if not ok:
                    continue
                t.ok(y.shape == x.shape and y.dtype == x.dtype and type(y) is type(x) and np.array_equal(np.asarray(x), x0), key + ":kind", "shape, precision, class; input unchanged")
                r = np.asarray(y) / np.asarray(x)
                t.ok(close(np.abs(r), np.ones(r.shape), 1e-5), key + ":modulus", "only the phase changes")
                d = np.angle(np.atleast_2d(r)[:, 1:] * np.atleast_2d(r)[:, :-1].conj())
                var = 2 * np.pi * df / 2e9
                t.ok(abs(np.mean(d**2) / var - 1) < 1.5 * e, key + ":var", "variance of the increments")
                t.trace({"key": key})


def do_enob(t, seed):
    n = 40000
    for m, dt, enob, amp in itertools.product((1, 2), DT, (3, 5, 6.5, 8), (1, 4)):
        r = np.random.RandomState(seed)
        x = (amp * (r.uniform(-1, 1, (m, n)) + 1j * r.uniform(-0.5, 0.5, (m, n)))).astype(DT[dt])
        key = "enob:%s:%d:%g:%g" % (dt, m, enob, amp)
        ok, res = t.attempt(key, core.apply_enob_as_awgn, x, enob, verbose=True)
        if not ok:
            continue
        y, snr = res
        delta = max(np.abs(x.real).max(), np.abs(x.imag).max()) / 2**(enob - 1)
        p = delta**2 / 12
        stats(t, key, (y - x).astype(complex), 2 * p)
        t.ok(abs(snr - 10 * np.log10(np.mean(np.abs(x)**2) / (2 * p))) < 1e-3, key + ":snr", "the signal-to-noise ratio of the resolution", got=snr)
        y = t.call(core.apply_enob_as_awgn, x, enob)
        t.ok(y.shape == x.shape and y.dtype == x.dtype, key + ":plain", "without details only the signal")


def do_quantise(t, nbits, tier):
    k = 4 if tier == "quick" else 16
    L = 2**nbits
    # -- midrise quantiser: nearest of 2^n levels inside (-1, 1)
    d = 2 / L
    lev = -1 + d / 2 + d * np.arange(L)
    g = np.linspace(-1, 1, L * k + 1)
    for dt in DT:
        for off in (0, d / 7):
            re = np.clip(g + off, -1, 1)
            x = np.array([re + 1j * re[::-1], re * 0.5 + 1j * np.roll(re, 5)]).astype(DT[dt])
            x[:, 0] = 1 + 1j
            near = lambda v: np.abs(v[..., None] - lev).min(-1)
            full = x
            for (fr, fi), resc, out in itertools.product(((1, 1), (.5, 1), (1, .25)), (False, True), (False, True)):    # full scale in one or both quadratures
                key = "New:%d:%s:%g:%s:%s:%g:%g" % (nbits, dt, off, resc, out, fr, fi)
                x = (full.real * fr + 1j * full.imag * fi).astype(DT[dt])
                s = Q(4, 4, nmodes=1, dtype=DT[dt], fb=3e9).recreate_from_np_array(x)
                for inp in (x, s):
                    x0 = x.copy()
                    ok, y = t.attempt(key, core.quantize_signal_New, inp, nbits=nbits, rescale_in=resc, rescale_out=out)
                    if not ok:
                        continue
                    t.ok(type(y) is type(inp) and np.array_equal(x, x0), key + ":kind", "class, and input unchanged")
                    y = np.asarray(y)
                    for part, src in ((y.real, x.real), (y.imag, x.imag)):
                        part = part.astype(float)
                        t.ok(np.all(near(part) < 1e-6), key + ":levels", "the output has only the 2^n levels")
                        t.ok(np.all(np.abs(part - src) <= near(src.astype(float)) + 1e-5), key + ":nearest", "each sample goes to the nearest level")
            x = full
            # full scale other than one: levels scale with the signal
            ok, y = t.attempt("New:scaled:%d:%s" % (nbits, dt), core.quantize_signal_New, x * DT[dt](3), nbits=nbits)
            if ok:
                t.ok(close(np.asarray(y), 3 * np.asarray(core.quantize_signal_New(x, nbits=nbits)), 1e-5), "New:scaled:%d:%s" % (nbits, dt), "scales with the signal")
            big = t.call(core.quantize_signal_New, x * DT[dt](3), nbits=nbits, rescale_in=False, rescale_out=False)
            t.ok(np.abs(np.asarray(big).real).max() <= 1 - d / 2 + 1e-6, "New:clip:%d:%s" % (nbits, dt), "out of range is clipped to the outermost levels")
            t.trace({"nbits": nbits})
    # -- the first quantiser: levels include both ends, error below one step
    lev = np.linspace(-1, 1, L)
    d = lev[1] - lev[0]
    for dt in DT:
        x = np.array([g + 1j * g[::-1], g + 1j * np.roll(g, 3)]).astype(DT[dt])
        for resc, norm, amp in itertools.product((False, True), (False, True), (1, 2.5)):
            if not resc and amp != 1:
                continue
            key = "old:%d:%s:%s:%s:%g" % (nbits, dt, resc, norm, amp)
            xin = (x * amp).astype(DT[dt])
            x0 = xin.copy()
            ok, y = t.attempt(key, core.quantize_signal, xin, nbits=nbits, rescale=resc, re_normalize=norm)
            if not ok:
                continue
            t.ok(np.array_equal(xin, x0) and y.shape == x.shape and y.dtype == DT[dt], key + ":kind", "shape, precision, input unchanged")
            src = xin / np.abs(xin).max(axis=-1, keepdims=True) if resc else xin
            if norm:
                if np.all(np.var(y, axis=-1) > 0):
                    t.ok(np.all(np.abs(np.mean(y, axis=-1)) < 1e-3) and np.all(np.abs(np.mean(np.abs(y)**2, axis=-1) - 1) < 1e-3), key + ":norm", "unit power, zero mean")
                continue
            for part, s in ((y.real, src.real), (y.imag, src.imag)):
                t.ok(np.all(np.abs(part[..., None] - lev).min(-1) < 1e-6), key + ":levels", "the output has only the levels")
                t.ok(np.all(np.abs(part - s) <= d + 1e-5), key + ":error", "error within one step")
                o = np.argsort(s, axis=-1, kind="stable")
                t.ok(np.all(np.diff(np.take_along_axis(part, o, -1), axis=-1) >= -1e-6), key + ":monotone", "monotone")
            t.trace({"key": key})
            t.state(key, y)


def do_realquant(t, seed):
    x = np.linspace(-1, 1, 101)
    for nbits in (1, 2, 4, 6):
        for f, kw in ((core.quantize_signal, {"re_normalize": False}), (core.quantize_signal_New, {})):
            ok, y = t.attempt("real:%s:%d" % (f.__name__, nbits), f, x[None], nbits=nbits, **kw)
            if ok:
                t.ok(not np.iscomplexobj(y) and y.shape == (1, 101) and np.all(np.abs(y[0] - x) <= 2 / (2**nbits - 1) + 1e-9) and len(np.unique(y)) <= 2**nbits,
                     "real:%s:%d" % (f.__name__, nbits), "real signals stay real")
            t.trace()


def do_modulator(t, tier):
    g = np.linspace(-2, 2, 17)
    x = (g[:, None] + 1j * g).reshape(1, -1)
    # the ideal modulator
    y = t.call(core.modulator_response, x)
    t.ok(close(y, (np.sin(np.pi / 2 * x.real) + 1j * np.sin(np.pi / 2 * x.imag)) / 2, 1e-12), "mod:ideal", "an ideal modulator at its null point is a sine in each quadrature")
    vals = {"dcbias": (1, 0.9, 1 + 1.1j, 1 + 0j, 0.8 + 0j), "gfactr": (1, 0.9, 0.8 + 0.95j, 0.9 + 0j), "cfactr": (0, 0.1, 0.1 - 0.2j, 0.2 + 0j, 0.3j)}
    for dc, gf, cf, do, go in itertools.product(vals["dcbias"], vals["gfactr"], vals["cfactr"], (0.5, 0.45), (1, 0.9)):
        pick = lambda v: (v.real, v.imag) if isinstance(v, complex) else (v, v)
        arms = []
        for u, b, G, c in ((x.real, pick(dc)[0], pick(gf)[0], pick(cf)[0]), (x.imag, pick(dc)[1], pick(gf)[1], pick(cf)[1])):
            v = u + b
            arms.append(-(np.exp(1j * np.pi * v * (1 + c) / 2) + G * np.exp(-1j * np.pi * v * (1 - c) / 2)) / (1 + G))
        want = np.exp(1j * np.pi / 4) * (arms[0] * np.exp(-1j * np.pi * do / 2) + go * arms[1] * np.exp(1j * np.pi * do / 2)) / (1 + go)
        key = "mod:%s:%s:%s:%s:%s" % (dc, gf, cf, do, go)
        kw = dict(dcbias=dc, gfactr=gf, cfactr=cf, dcbias_out=do, gfactr_out=go)
        y = compare(t, key, lambda x: core.modulator_response(x, **kw), x, want, 1e-11)
        s = Q(4, 4, nmodes=1, fb=3e9).recreate_from_np_array(x)
        ok, z = t.attempt(key + ":signal", impairments.sim_mod_response, s, **kw)
        if ok:
            t.ok(type(z) is Q and z.fb == 3e9 and close(np.asarray(z), want, 1e-11), key + ":signal", "the same for signals")
    for er in (1, 5, 10, 20, 35, 60):
        gf = core.er_to_g(er)
        v = np.linspace(-1, 1, 4001)[None]
        p = np.abs(core.modulator_response(v + 1j * v, gfactr=gf, gfactr_out=0, dcbias=0) * 1)**2
        t.ok(abs(10 * np.log10(p.max() / p.min()) - er) < 1e-3 * er + 1e-3, "mod:er:%g" % er, "extinction ratio of a modulator with this gain factor",
             got=10 * np.log10(p.max() / p.min()))
        t.trace()


def do_dac(t, seed):
    for m, N, dt in itertools.product((1, 2), (64, 65, 256), DT):
        r = np.random.RandomState(seed + N)
        x = (r.randn(m, N) + 1j * r.randn(m, N)).astype(DT[dt])
        key = "dac:%d:%d:%s" % (m, N, dt)
        for fs in (4e10,):
            same = t.call(core.sim_DAC_response, x, fs, enob=0)
            t.ok(np.array_equal(np.asarray(same), x), key + ":transparent", "without clipping, quantisation, noise and filter nothing changes")
            for clip in (0.5, 0.8, 0.95):
                ok, y = t.attempt(key + ":clip", core.sim_DAC_response, x, fs, enob=0, clip_rat=clip)
                if ok:
                    mx = np.maximum(np.abs(x.real).max(-1), np.abs(x.imag).max(-1))[:, None]
                    want = np.clip(x.real / mx / clip, -1, 1) + 1j * np.clip(x.imag / mx / clip, -1, 1)
                    t.ok(close(np.asarray(y), want, 1e-5), key + ":clip", "clipped at the given ratio of the largest amplitude")
            for nb in (3, 6):
                ok, y = t.attempt(key + ":quant", core.sim_DAC_response, x, fs, enob=0, quant_bits=nb)
                if ok:
                    t.ok(close(np.asarray(y), np.asarray(core.quantize_signal_New(x, nbits=nb)), 1e-6), key + ":quant", "quantised to the given bits")
            for cut in (5e9, 18e9):
                ok, y = t.attempt(key + ":filter", core.sim_DAC_response, x, fs, enob=0, cutoff=cut)
                if ok:
                    t.ok(close(np.asarray(y), np.asarray(core.apply_DAC_filter(x, fs, cut)), 1e-6), key + ":filter", "filtered")
            # the Bessel response: gain one at DC, -3 dB at the cutoff
            for cut in (2e9, 10e9, 18e9):
                n = 4096
                imp = np.zeros((1, n), complex)
                imp[0, 0] = 1
                H = np.abs(np.fft.fft(np.asarray(core.apply_DAC_filter(imp, fs, cut))[0]))
                f = np.arange(n) * fs / n
                t.ok(abs(H[0] - 1) < 1e-6 and abs(np.interp(cut, f[:n // 2], H[:n // 2]) - np.sqrt(0.5)) < 1e-3 and np.all(np.diff(H[:n // 2]) < 1e-9), "dac:bessel:%g" % cut,
                     "low pass with 3 dB at the cutoff", dc=H[0])
            # a measured response
            f = np.linspace(0, 32e9, 401)
            amp, ph = 1 - f / 80e9, 0.3 * f / 32e9
            with tempfile.TemporaryDirectory() as d:
                fn = os.path.join(d, "resp.npz")
                np.savez(fn, dac_res_ch1=np.stack([f, amp, ph], 1), dac_res_ch2=np.stack([f, amp * 0 + 0.5, ph * 0], 1))
                for ch in (1, 2):
                    ok, y = t.attempt(key + ":measured", core.apply_DAC_filter, x, fs, fn=fn, ch=ch)
                    if not ok:
                        continue
                    fr = freqs(N, fs)
                    fr = np.where(np.arange(N) == N / 2, -np.abs(fr), fr)
                    H = (1 - np.abs(fr) / 80e9) * np.exp(1j * 0.3 * fr / 32e9) if ch == 1 else 0.5 * np.ones(N)
                    want = np.fft.ifft(np.fft.fft(x) * H)
                    t.ok(y.dtype == x.dtype and close(np.asarray(y), want, 1e-4), key + ":measured:%d" % ch, "the measured response of the channel is applied")
            t.trace({"key": key})
            for v in (0.25, 1, 2):
                z = t.call(core.ideal_amplifier_response, x, v)
                t.ok(close(np.asarray(z), x * (v / max(np.abs(x.real).max(), np.abs(x.imag).max())), 1e-5), key + ":amp", "ideal amplifier: largest quadrature at the target")


def do_wrappers(t, seed):
    """the functions on signals are the core ones with the rates of the signal"""
    for m, dt, (fb, fs) in itertools.product((1, 2), DT, ((10e9, 10e9), (10e9, 20e9), (3e9, 9e9))):
        s = Q(16, 120, nmodes=m, dtype=DT[dt], seed=seed, fb=fb)
        s = s.recreate_from_np_array(np.asarray(s) * (1 + 0.1j), fs=fs)
        a = np.asarray(s).copy()
        cases = [("dispersion", impairments.add_dispersion, core.add_dispersion, (fs,), (17e-6, 8e4), {"wl0": wl}) for wl in (1550e-9, 1310e-9, 850e-9)]
        cases += [("offset", impairments.add_carrier_offset, core.add_carrier_offset, (fs,), (f,), {}) for f in (1e6, -3.3e8)]
        cases += [("snr", impairments.change_snr, core.change_snr, (fb, fs), (v,), {}) for v in (0, 12.5)]
        cases += [("phasenoise", impairments.apply_phase_noise, core.apply_phase_noise, (fs,), (f,), {}) for f in (0, 1e6)]
        if m == 2:
            cases += [("pmd", impairments.apply_PMD, core.apply_PMD_to_field, (fs,), v, {}) for v in ((0.3, 1e-11), (-1.2, 7e-11))]
        for name, f, g, rates, args, kw in cases:
            key = "wrap:%s:%d:%s:%g:%s:%s" % (name, m, dt, fs / fb, args, kw)
            np.random.seed(seed)
            ok, y = t.attempt(key, f, s, *args, **kw)
            if not ok:
                continue
            np.random.seed(seed)
            w = g(a, *(rates + args if name == "dispersion" else args + rates), **kw)
            t.ok(type(y) is Q and y.fs == fs and y.fb == fb and y.dtype == s.dtype and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), key + ":meta",
                 "a signal with the same attributes")
            t.ok(close(np.asarray(y), np.asarray(w), TOL[dt]), key, "the core function with the rates of the signal and all arguments")
            t.ok(np.array_equal(np.asarray(s), a), key + ":input", "input unchanged")
            t.trace({"key": key})


def do_txchain(t, seed):
    for m, dt, M in itertools.product((1, 2), DT, (4, 64)):
        s = Q(M, 256, nmodes=m, dtype=DT[dt], seed=seed, fb=10e9).resample(20e9, beta=0.1, renormalise=True)
        s0 = np.asarray(s).copy()
        for enob, clip, nb, dac, v in itertools.product((0, 6), (1, 0.9), (0, 5), ({}, {"cutoff": 8e9}), (0.3, 1)):
            key = "tx:%d:%s:%d:%s:%s:%s:%s:%s" % (m, dt, M, enob, clip, nb, bool(dac), v)
            np.random.seed(seed)
            ok, y = t.attempt(key, impairments.sim_tx_response, s, enob=enob, tgt_v=v, clip_rat=clip, quant_bits=nb, dac_params=dac, gfactr=0.95)
            if not ok:
                continue
            np.random.seed(seed)
            d = impairments.sim_DAC_response(s, enob=enob, clip_rat=clip, quant_bits=nb, **dac)
            want = core.modulator_response(core.ideal_amplifier_response(d, v), gfactr=0.95)
            t.ok(type(y) is Q and type(d) is Q and y.fs == s.fs == d.fs and close(np.asarray(y), np.asarray(want), 1e-4), key, "DAC, amplifier and modulator in this order")
            t.ok(np.array_equal(np.asarray(s), s0) and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), key + ":meta", "input unchanged, symbols kept")
            t.trace({"key": key})
        # weak drive through an ideal transmitter is transparent up to its scale
        y = np.asarray(t.call(impairments.sim_tx_response, s, enob=0, tgt_v=1e-3, dac_params={}))
        r = np.vdot(s0, y) / np.vdot(s0, s0)
        t.ok(abs(r.imag) < 1e-4 * abs(r) and r.real > 0 and close(y / r, s0, 1e-3), "tx:transparent:%d:%s" % (m, dt), "weakly driven ideal transmitter reproduces the signal")


def do_transmission(t, seed, part):
    m, dt = ((2, "c16"), (2, "c8"), (2, "c16"), (2, "c16"))[part]
    if part < 2:
        s = Q(16, 500, nmodes=m, dtype=DT[dt], seed=seed, fb=10e9).resample(20e9, beta=0.1, renormalise=True)
    elif part == 2:
        s = signals.SignalWithPilots(16, 512, 64, 32, nframes=2, nmodes=2, seed=seed, fb=10e9)
    else:
        s = signals.SignalPSKGrayCoded(8, 501, nmodes=2, seed=seed, fb=10e9)
    a0 = np.asarray(s).copy()
    opts = {"snr": 20.0, "freq_off": 3e7, "lwdth": 1e5, "dgd": 7e-11, "modal_delay": [3, -5], "dispersion": 2e-3}
    names = list(opts)
    for mask in range(64):
        kw = {n: opts[n] for i, n in enumerate(names) if mask >> i & 1}
        for roll in (False, True) if part == 2 else (False,):
            key = "all:%d:%d:%s" % (part, mask, roll)
            np.random.seed(seed)
            ok, y = t.attempt(key, impairments.simulate_transmission, s, theta=0.7, roll_frame_sync=roll, **kw)
            if not ok:
                continue
            np.random.seed(seed)
            w = a0
            if roll:
                w = np.roll(w, s.pilots.shape[1], axis=-1)
            if "lwdth" in kw:
                w = core.apply_phase_noise(w, kw["lwdth"], s.fs)
            if "freq_off" in kw:
                w = core.add_carrier_offset(w, kw["freq_off"], s.fs)
            if "snr" in kw:
                w = core.change_snr(w, kw["snr"], s.fb, s.fs)
            if "modal_delay" in kw:
                w = core.add_modal_delay(w, kw["modal_delay"])
            if "dispersion" in kw:
                w = core.add_dispersion(w, s.fs, kw["dispersion"], 1)
            if "dgd" in kw:
                w = core.apply_PMD_to_field(w, 0.7, kw["dgd"], s.fs)
            t.ok(y.shape == w.shape and close(np.asarray(y), w, 1e-9 if dt == "c16" else 1e-4), key, "phase noise, offset, noise, delay, dispersion and PMD, each as given")
            t.ok(type(y) is type(s) and y.fb == s.fb and y.fs == s.fs and y.dtype == s.dtype and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), key + ":meta",
                 "a signal with the attributes of the input")
            t.ok(np.array_equal(np.asarray(s), a0), key + ":input", "input unchanged")
            if "dispersion" not in kw and part < 2 and not roll:
                np.random.seed(seed)
                z = core.simulate_transmission(a0, s.fb, s.fs, theta=0.7, **kw)
                t.ok(close(np.asarray(z), w, 1e-9 if dt == "c16" else 1e-4), key + ":core", "the same for arrays")
            t.trace({"key": key})
    for name, f, g in (("apply_PMD", lambda x: impairments.apply_PMD(x, 0.3, 1e-10), lambda a: core.apply_PMD_to_field(a, 0.3, 1e-10, s.fs)),
                       ("add_carrier_offset", lambda x: impairments.add_carrier_offset(x, 1e7), lambda a: core.add_carrier_offset(a, 1e7, s.fs)),
                       ("add_dispersion", lambda x: impairments.add_dispersion(x, 17e-6, 1e4), lambda a: core.add_dispersion(a, s.fs, 17e-6, 1e4)),
                       ("add_modal_delay", lambda x: impairments.add_modal_delay(x, [2, -9]), lambda a: core.add_modal_delay(a, [2, -9]))):
        ok, y = t.attempt("wrap:" + name, f, s)
        if ok:
            t.ok(type(y) is type(s) and y.fs == s.fs and y.fb == s.fb and y.dtype == s.dtype and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols))
                 and close(np.asarray(y), g(a0), 1e-9 if dt == "c16" else 1e-4), "wrap:%s:%d" % (name, part), "the wrapper uses the rates of the signal and returns a signal")
