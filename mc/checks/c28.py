"""C28: front-end compensation: quadratures become orthogonal and equally strong, delays are exact."""
import itertools
import numpy as np
from qampy import analog_frontend as af, signals, impairments
from qampy.core import analog_frontend as caf
from mc.core import close

RULE = "a trace is one signal (one assignment of values to samples) whose compensated version was compared with the definition, or one signal and delay"
BOUNDS = {
    "quick": "every signal of 3 and 4 samples over 6 values and every two-mode signal of 3 samples over 4 values, all delays of up to a period in half samples of every real signal of "
             "1 to 6 samples over 3 values; imbalances on a grid of 9 phases and 5 gains of signals of 4 orders",
    "thorough": "signals of 5 samples",
}
V = [0, 1, -2 + 1j, 3j, 1 - 1j, -1 - 2j]
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = [["small", n, a, tier] for n in ((3, 4) if tier == "quick" else (3, 4, 5)) for a in range(len(V))] + [["modes", a] for a in range(4)]
    out += [["undo", M, dt, seed] for M in (4, 16, 32, 64) for dt in DT] + [["delay", n] for n in range(1, 7)] + [["long", seed], ["objects", seed]]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def iq_ref(x):
    x = np.asarray(x, complex)
    x = x - x.mean()
    i, q = x.real, x.imag
    q = q - i * np.dot(i, q) / np.dot(i, i)
    return i, q


def check_iq(t, x, tol, tag):
    keep = x.copy()
    i, q = iq_ref(x)
    key = "%s:%s" % (tag, np.asarray(x).tolist() if len(x) < 8 else len(x))
    c = np.asarray(x, complex) - np.mean(x)
    if np.dot(i, i) < 1e-9 or np.dot(q, q) < 1e-9:
        return
    # the phase is an arcsine: only for a correlation smaller than the in-phase power
    if abs(np.dot(c.real, c.imag)) < 0.999 * np.dot(i, i):
        ok, r = t.attempt("iq:" + key, caf.comp_IQ_inbalance, x)
        if ok:
            want = i + 1j * q * np.sqrt(np.dot(i, i) / np.dot(q, q))
            t.ok(close(r, want, tol), "iq:" + key, "the quadrature becomes orthogonal to the in-phase part and as strong, the in-phase part stays", got=r, expected=want)
            ok, r2 = t.attempt("iq2:" + key, caf.comp_IQ_inbalance, np.asarray(r))
            t.ok(ok and close(r2, r, 10 * tol), "iq2:" + key, "compensating again changes nothing")
    ok, r = t.attempt("gs:" + key, caf.orthonormalize_signal, x)
    if ok:
        want = i / np.sqrt(np.dot(i, i)) + 1j * q / np.sqrt(np.dot(q, q))
        want = want * np.sqrt(len(x) / 2)
        t.ok(r.shape == (1, len(x)) and close(np.asarray(r)[0], want, tol), "gs:" + key, "orthogonal quadratures of equal power, centred, unit power", got=r, expected=want)
    t.ok(np.array_equal(x, keep), "input:" + key, "the input is not changed")
    t.trace()


def do_small(t, n, a, tier):
    for v in itertools.product(V, repeat=n - 1):
        for dt in DT if n < 4 else ("c16",):
            check_iq(t, np.array((V[a],) + v, DT[dt]), 1e-9 if dt == "c16" else 1e-5, dt)
    t.state(n, a)


def do_modes(t, a):
    """every mode by itself; only the samples at the symbols define mean and power"""
    for v in itertools.product(V[:4], repeat=5):
        E = np.array((V[a],) + v, complex).reshape(2, 3)
        if any(np.dot(p, p) < 1e-9 for m in E for p in iq_ref(m)):
            continue
        for os in (1, 2, 3):
            if os > 1 and any(np.ptp(np.abs(m[::os] - m[::os].mean())) == 0 and np.abs(m[::os] - m[::os].mean()).max() < 1e-9 for m in E):
                continue
            ok, r = t.attempt("modes", caf.orthonormalize_signal, E, os)
            want = []
            for m in E:
                i, q = iq_ref(m)
                s = i / np.sqrt(np.dot(i, i)) + 1j * q / np.sqrt(np.dot(q, q))
                s = s - s[::os].mean()
                w = np.sqrt(np.mean(np.abs(s[::os])**2))
                want.append(s / w if w > 1e-9 else None)
            if any(w is None for w in want):
                continue
            t.ok(ok and close(r, np.array(want), 1e-8), "modes:%s:%d" % (E.tolist(), os), "each mode by itself, mean and power of the symbols", got=r, expected=want)
            t.trace()


def do_undo(t, M, dt, seed):
    """imbalance of a signal with balanced quadratures is removed exactly"""
    al = np.asarray(signals.SignalQAMGrayCoded(M, 64, nmodes=1, seed=seed).coded_symbols)
    al = al.real / np.sqrt(np.mean(al.real**2)) + 1j * al.imag / np.sqrt(np.mean(al.imag**2))
    r = np.random.RandomState(seed + M)
    x = np.tile(al, 6)[r.permutation(6 * M)]
    tol = 1e-9 if dt == "c16" else 1e-4
    for ph, g, off in itertools.product(np.linspace(-1.2, 1.2, 9), (0.4, 0.8, 1, 1.3, 2.5), (0, 0.3 - 0.7j)):
        y = (x.real + 1j * g * (x.imag * np.cos(ph) + x.real * np.sin(ph)) + off).astype(DT[dt])
        key = "undo:%d:%s:%.1f:%g:%s" % (M, dt, ph, g, off)
        if abs(g * np.sin(ph)) < 0.99:
            ok, z = t.attempt(key, caf.comp_IQ_inbalance, y)
            t.ok(ok and close(z, x, tol), key, "phase and amplitude imbalance and offset are removed", got=np.abs(np.asarray(z) - x).max() if ok else None)
        for amp in (1, 3):
            ok, z = t.attempt(key + ":gs", caf.orthonormalize_signal, y * DT[dt](amp))
            t.ok(ok and close(np.asarray(z)[0], x / np.sqrt(2), tol), key + ":gs", "the balanced signal with unit power")
        t.trace({"key": key})


def delayed(x, d):
    """trigonometric interpolation, the component at the Nyquist frequency as a cosine"""
    n = len(x)
    X = [sum(x[k] * np.exp(-2j * np.pi * k * m / n) for k in range(n)) for m in range(n)]
    f = [m if m < (n + 1) // 2 else m - n for m in range(n)]
    return np.array([sum(X[m] * np.exp(2j * np.pi * f[m] * (k - d) / n) for m in range(n)).real / n for k in range(n)])


def do_delay(t, n):
    for v in itertools.product((0.0, 1.0, -2.0), repeat=n):
        x = np.array(v)
        for h in range(-2 * n, 2 * n + 1):
            for fs in (1.0, 50e9):
                d = h / 2
                ok, r = t.attempt("delay", caf.comp_rf_delay, x, d / fs, fs)
                want = np.roll(x, h // 2) if h % 2 == 0 else delayed(x, d)
                t.ok(ok and r.shape == x.shape and close(r, want, 1e-9), "delay:%s:%g:%g" % (v, d, fs), "delayed by that time", got=r, expected=want)
            t.trace()
        if n <= 3:
            E = np.array([x, x[::-1] + 1])
            ok, r = t.attempt("delay:2", caf.comp_rf_delay, E, 1.5)
            ok, r = t.attempt("delay:2", caf.comp_rf_delay, E, 1.5, 1.0)
            t.ok(ok and close(r, np.array([delayed(m, 1.5) for m in E]), 1e-9), "delay2:%s" % (v,), "every mode", got=r)
    ok, r = t.attempt("default", caf.comp_rf_delay, np.arange(8.0), 2 / 50e9)
    t.ok(ok and close(r, np.roll(np.arange(8.0), 2), 1e-8), "default", "50 GS/s unless given", got=r)


def do_long(t, seed):
    r = np.random.RandomState(seed)
    for n in (63, 64, 501):
        x = r.randn(2, n)
        for d in (0, 0.25, -3.7, 11, 40.5):
            ok, y = t.attempt("long", caf.comp_rf_delay, x, d, 1.0)
            if ok:
                t.ok(close(y, np.array([delayed(m, d) for m in x]) if n < 100 else y, 1e-8), "long:%d:%g" % (n, d), "delayed by that time")
                if n % 2:
                    ok, z = t.attempt("long", caf.comp_rf_delay, y, -d, 1.0)
                    t.ok(ok and close(z, x, 1e-9), "back:%d:%g" % (n, d), "the opposite delay undoes it")
                    ok, z = t.attempt("long", caf.comp_rf_delay, y, 2.3, 1.0)
                    ok, w = t.attempt("long", caf.comp_rf_delay, x, d + 2.3, 1.0)
                    t.ok(ok and close(z, w, 1e-9), "add:%d:%g" % (n, d), "delays add up")
                t.trace()


def do_objects(t, seed):
    for M, m, os, dt in itertools.product((4, 16, 64), (1, 2, 3), (1, 2), DT):
        s = signals.SignalQAMGrayCoded(M, 400, nmodes=m, seed=seed, dtype=DT[dt], fb=10e9)
        if os == 2:
            s = s.resample(20e9, beta=0.2, renormalise=True)
        bad = s.recreate_from_np_array((np.asarray(s).real * 1.3 + 1j * (0.8 * np.asarray(s).imag + 0.3 * np.asarray(s).real) + 0.2 - 0.1j).astype(s.dtype))
        key = "objects:%d:%d:%d:%s" % (M, m, os, dt)
        ok, r = t.attempt(key, af.orthonormalize_signal, bad)
        if ok:
            w = caf.orthonormalize_signal(np.asarray(bad), os)
            t.ok(type(r) is type(s) and r.fs == s.fs and r.fb == s.fb and r.M == M and r.dtype == s.dtype and close(np.asarray(r), w, 1e-6 if dt == "c8" else 1e-12), key, "same signal, same values")
            a = np.asarray(r)
            t.ok(np.allclose(a[:, ::os].mean(-1), 0, atol=1e-5) and np.allclose(np.mean(np.abs(a[:, ::os])**2, -1), 1, atol=1e-4), key + ":norm", "centred, unit power at the symbols")
            z = a - a.mean(-1, keepdims=True)
            t.ok(np.allclose(np.mean(z.real * z.imag, -1), 0, atol=1e-5) and np.allclose(np.mean(z.real**2, -1), np.mean(z.imag**2, -1), rtol=1e-4), key + ":orthogonal", "orthogonal quadratures of the same power")
        if dt == "c16":
            re = s.real
            ok, r = t.attempt(key + ":delay", af.comp_rf_delay, re, 3 / s.fs)
            t.ok(ok and r.fs == s.fs and close(np.asarray(r), np.roll(np.asarray(re), 3, -1), 1e-8), key + ":delay", "the sampling rate of the signal is used")
        t.trace({"key": key})
