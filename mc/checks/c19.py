"""C19: filters and resampling: every linear operation determined on a basis, responses against their definitions."""
import itertools
from fractions import Fraction
import numpy as np
from qampy import filtering, signals
from qampy.core import filter as cf, resample as rs, special_fcts as sf
from mc.core import close

RULE = ("a trace is one filter or resampling operation with one set of parameters that was compared with its definition on a whole basis of impulses (which "
        "determines a linear operation) and on a full signal, or one response compared with its definition on a whole grid")
BOUNDS = {
    "quick": "roll-offs 0..1 in 1/40 steps x grids through and beside the singularities; pulse shaping and resampling for all lengths to 10, taps 1-42, all ratios "
             "p/q with p, q <= 5; Bessel and Butterworth orders 1-6 x 5 cutoffs x both precisions x 1-3 modes; moving averages of all lengths to 12",
    "thorough": "lengths to 16, ratios with p, q <= 8, moving averages to 20",
}
Q = signals.SignalQAMGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
TOL = {"c16": 1e-9, "c8": 5e-5}


def shards(tier, seed):
    top, pq, mv = (10, 5, 12) if tier == "quick" else (16, 8, 20)
    out = [["response", b] for b in range(41)]
    out += [["shape", N, seed] for N in range(1, top + 1)]
    out += [["resample", p, q, top, seed] for p in range(1, pq + 1) for q in range(1, pq + 1)]
    out += [["nyquist", up, seed] for up in (2, 3, 4)] + [["poly", seed], ["signal", seed], ["wrappers", seed]]
    out += [["analog", f, o, seed] for f in ("bessel", "butter") for o in range(1, 7)] + [["zerophase", f, seed] for f in ("gauss", "exp")]
    out += [["pre", N] for N in range(4, 2 * top + 1)] + [["average", n, seed] for n in range(1, mv + 1)]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


# -- definitions ----------------------------------------------------------------------------------------------
def rc(f, b, T):
    f = np.abs(np.asarray(f, float))
    lo, hi = (1 - b) / (2 * T), (1 + b) / (2 * T)
    y = np.where(f <= lo, 1.0, 0.0)
    if b:
        y = np.where((f > lo) & (f <= hi), 0.5 * (1 + np.cos(np.pi * T / b * (f - lo))), y)
    return y * T


def integral(t, H, top):
    """inverse Fourier transform of an even response that ends at top: Gauss-Legendre quadrature"""
    x, w = np.polynomial.legendre.leggauss(400)
    f = (x + 1) / 2 * top
    return 2 * np.sum(w * top / 2 * H(f) * np.cos(2 * np.pi * f * t))


def rrc_time(t, b, T):
    """root raised cosine in time, by integrating flat part (exactly) and roll-off (numerically)"""
    lo, hi = (1 - b) / (2 * T), (1 + b) / (2 * T)
    out = []
    x, w = NODES
    for v in np.atleast_1d(t):
        y = np.sqrt(T) * 2 * lo * np.sinc(2 * lo * v)
        if b:
            f = lo + (x + 1) / 2 * (hi - lo)
            y += 2 * np.sum(w * (hi - lo) / 2 * np.sqrt(T) * np.cos(np.pi * T / (2 * b) * (f - lo)) * np.cos(2 * np.pi * f * v))
        out.append(y)
    return np.array(out)


NODES = np.polynomial.legendre.leggauss(120)


def pulse(taps, fs, T, b):
    n = np.arange(taps) - (taps - 1) // 2
    h = rrc_time(n / fs, b, T)
    return h / h.max()


def shaped(x, h):
    """every output sample is the pulse-weighted sum of the input samples, nothing is delayed"""
    N, c = x.shape[-1], (len(h) - 1) // 2
    y = np.zeros(x.shape, complex)
    for n in range(N):
        for m in range(N):
            k = n - m + c
            if 0 <= k < len(h):
                y[..., n] += x[..., m] * h[k]
    return y


def impulses(N, dt, seed):
    for n in range(N):
        for v in (1, 1j):
            x = np.zeros(N, DT[dt])
            x[n] = v
            yield x
    r = np.random.RandomState(seed + N)
    yield (r.randn(N) + 1j * r.randn(N)).astype(DT[dt])


# -- responses ------------------------------------------------------------------------------------------------
def do_response(t, b):
    beta = b / 40
    for T in (1.0, 2.0, 1 / 28e9, 0.7):
        f = np.concatenate([np.arange(-40, 41) / (20 * T), (1 - beta) / (2 * T) * np.array([1, -1]), (1 + beta) / (2 * T) * np.array([1, -1])])
        edge = np.abs(np.abs(f) - 1 / (2 * T)) * T < 1e-9 if beta == 0 else np.zeros(f.shape, bool)
        key = "response:%d:%g" % (b, T)
        ok, y = t.attempt(key + ":rcf", sf.rcos_freq, f, beta, T)
        if ok:
            t.ok(close(y[~edge] / T, rc(f, beta, T)[~edge] / T, 1e-9), key + ":rcf", "raised cosine spectrum")
        ok, z = t.attempt(key + ":rrcf", sf.rrcos_freq, f, beta, T)
        if ok:
            t.ok(close(z[~edge]**2 / T, rc(f, beta, T)[~edge] / T, 1e-9) and np.all(z >= 0), key + ":rrcf", "the root raised cosine squares to the raised cosine")
            t.state(key, z)
        for off, step in ((0, 0.5), (0, 0.25), (0, 0.1), (0.03, 0.2), (0, 1.0)):
            tt = (np.arange(-24, 25) * step + off) * T
            if beta:
                tt = np.concatenate([tt, T / (4 * beta) * np.array([1, -1]), T / (2 * beta) * np.array([1, -1])])
            ok, y = t.attempt(key + ":rct", sf.rcos_time, tt, beta, T)
            if ok:
                want = np.array([integral_rc(v, beta, T) for v in tt])
                t.ok(close(y, want, 1e-6), key + ":rct", "the raised cosine pulse is the transform of its spectrum", got=y, expected=want)
                if step == 1.0 and not off:
                    t.ok(close(y[:49], np.eye(49)[24], 1e-9), key + ":nyquist", "no interference at multiples of the symbol period")
            ok, y = t.attempt(key + ":rrct", sf.rrcos_time, tt, beta, T)
            if ok:
                want = rrc_time(tt, beta, T) / np.sqrt(T)
                t.ok(close(y * T, want * T, 2e-6), key + ":rrct", "the root raised cosine pulse is the transform of its spectrum",
                     got=y * T, expected=want * T)
                t.state(key, off, step, y)
            t.trace({"key": key})


def integral_rc(v, b, T):
    lo, hi = (1 - b) / (2 * T), (1 + b) / (2 * T)
    y = T * 2 * lo * np.sinc(2 * lo * v)
    if b:
        x, w = NODES
        f = lo + (x + 1) / 2 * (hi - lo)
        y += 2 * np.sum(w * (hi - lo) / 2 * T * 0.5 * (1 + np.cos(np.pi * T / b * (f - lo))) * np.cos(2 * np.pi * f * v))
    return y


# -- pulse shaping ----------------------------------------------------------------------------------------------
def do_shape(t, N, seed):
    for fs, T, beta in ((2.0, 1.0, 0.1), (2.0, 1.0, 0.25), (56e9, 1 / 28e9, 0.5), (4.0, 0.5, 1.0), (3.0, 1.0, 0.24)):
        for taps in (1, 2, 5, 8, 21, 42):
            h = pulse(taps, fs, T, beta)
            for dt in DT:
                for x in impulses(N, dt, seed):
                    key = "shape:%d:%g:%g:%d:%s" % (N, fs, beta, taps, dt)
                    x0 = x.copy()
                    ok, y = t.attempt(key, cf.rrcos_pulseshaping, x, fs, T, beta, taps)
                    if ok:
                        want = shaped(x, h)
                        t.ok(close(y, want, TOL[dt]), key, "pulse shaping convolves with the root raised cosine without delay", got=y, expected=want)
                        t.ok(np.array_equal(x, x0), key + ":input", "input unchanged")
                        t.state(key, y)
                        t.trace({"key": key})
                for m in (1, 2, 3):
                    r = np.random.RandomState(seed + m)
                    x = (r.randn(m, N) + 1j * r.randn(m, N)).astype(DT[dt])
                    ok, y = t.attempt(key + ":modes", cf.rrcos_pulseshaping, x, fs, T, beta, taps)
                    if ok:
                        t.ok(y.dtype == x.dtype and close(y, shaped(x, h), TOL[dt]), key + ":modes", "every mode by itself", m=m)
        H = np.sqrt(rc(np.fft.fftfreq(N) * fs, beta, T))
        H = H / H.max()
        for dt, m in itertools.product(DT, (1, 2, 3)):
            for x in list(impulses(N, dt, seed)):
                key = "shapef:%d:%g:%g:%s:%d" % (N, fs, beta, dt, m)
                X = np.array([np.roll(x, i) for i in range(m)])
                for inp in (X, x) if m == 1 else (X,):
                    ok, y = t.attempt(key, cf.rrcos_pulseshaping, inp, fs, T, beta, None)
                    if ok:
                        t.ok(close(y, np.fft.ifft(np.fft.fft(inp) * H), TOL[dt]), key, "spectral pulse shaping multiplies with the root raised cosine spectrum")
                        t.trace({"key": key})


# -- resampling -------------------------------------------------------------------------------------------------
def do_resample(t, p, q, top, seed):
    r = Fraction(p, q)
    up, down = r.numerator, r.denominator
    for fold in (1.0, 28e9, 3.3):
        ok, f = t.attempt("factors:%d:%d:%g" % (p, q, fold), rs._resamplingfactors, fold, fold * p / q) if hasattr(rs, "_resamplingfactors") else (False, None)
        if ok:
            t.ok(tuple(f) == (up, down), "factors:%d:%d:%g" % (p, q, fold), "the ratio in lowest terms", got=f)
    for N, beta, taps, dt in itertools.product(range(1, top + 1), (0.1, 0.25, 1.0), (1, 20, 41), DT):
        fold = 2.0
        for Ts in (None, 1.0):
            T = Ts or 1 / fold
            h = pulse(taps, fold * up, T, beta)
            for x in list(impulses(N, dt, seed))[-3:]:
                z = np.zeros(N * up, complex)
                z[::up] = x
                want = shaped(z, h)[::down]
                key = "resample:%d/%d:%d:%g:%d:%s:%s" % (p, q, N, beta, taps, dt, Ts)
                x0 = x.copy()
                ok, y = t.attempt(key, rs.rrcos_resample, x, fold, fold * p / q, Ts=Ts, beta=beta, taps=taps)
                if ok:
                    t.ok(close(y, want, TOL[dt]), key, "every output sample is the filtered signal at its own time", got=y, expected=want)
                    t.ok(np.array_equal(x, x0), key + ":input", "input unchanged")
                    t.state(key, y)
                    t.trace({"key": key})
                if Ts is None and dt == "c16":
                    ok, y = t.attempt(key + ":poly", rs.rrcos_resample, x, fold, fold * p / q, Ts=Ts, beta=beta, taps=taps, fftconv=False)
                    if ok:
                        t.ok(close(y, want * up, 1e-9), key + ":poly", "the polyphase implementation gives the same (times the upsampling factor)")
                if N > 3 and np.ptp(np.abs(want)) > 1e-3:
                    ok, y = t.attempt(key + ":renorm", rs.rrcos_resample, x, fold, fold * p / q, Ts=Ts, beta=beta, taps=taps, renormalise=True)
                    if ok:
                        c = want - want.mean()
                        c = c / np.sqrt(np.mean(np.abs(c)**2)) * np.sqrt(np.mean(np.abs(x)**2))
                        t.ok(close(y, c, 1e-6 if dt == "c16" else 1e-3), key + ":renorm", "power of the input, zero mean")
        Hn = np.sqrt(rc(np.fft.fftfreq(N * up) * fold * up, beta, 1 / fold))
        x = list(impulses(N, dt, seed))[-1]
        z = np.zeros(N * up, complex)
        z[::up] = x
        key = "resamplef:%d/%d:%d:%g:%s" % (p, q, N, beta, dt)
        ok, y = t.attempt(key, rs.rrcos_resample, x, fold, fold * p / q, beta=beta, taps=None)
        if ok:
            t.ok(close(y, np.fft.ifft(np.fft.fft(z) * Hn / Hn.max())[::down], TOL[dt]), key, "spectral filtering")
    for bad in (0, -0.1, 1.2):
        try:
            rs.rrcos_resample(np.ones(4, complex), 1, 2, beta=bad)
        except AssertionError:
            t.trace()
        else:
            t.fail("resample:beta:%g" % bad, "a roll-off outside of (0, 1] is refused")


def do_nyquist(t, up, seed):
    """up with a root raised cosine, again the same filter, and down: no interference between the symbols"""
    for N in range(2, 40):
        r = np.random.RandomState(seed + N)
        x = (r.choice([-3, -1, 1, 3], N) + 1j * r.choice([-3, -1, 1, 3], N)).astype(complex)
        for beta in (0.01, 0.1, 0.37, 1.0):
            key = "nyquist:%d:%d:%g" % (up, N, beta)
            ok, y = t.attempt(key, rs.rrcos_resample, x, 1.0, up, beta=beta, taps=None)
            if ok:
                z = cf.rrcos_pulseshaping(y, up, 1.0, beta, None)[::up]
                g = np.vdot(x, z) / np.vdot(x, x)
                t.ok(abs(g.imag) < 1e-9 and close(z / g, x, 1e-9), key, "matched filtering recovers every symbol")
                t.trace({"key": key})
    N = 1200
    r = np.random.RandomState(seed)
    x = (r.choice([-3, -1, 1, 3], N) + 1j * r.choice([-3, -1, 1, 3], N)).astype(complex)
    for beta in (0.05, 0.1, 0.24, 0.26, 0.5, 1.0):
        y = t.call(rs.rrcos_resample, x, 1.0, up, beta=beta, taps=1001 * up)
        z = t.call(cf.rrcos_pulseshaping, y, up, 1.0, beta, 1001 * up)[::up]
        z, w = z[250:-250], x[250:-250]
        g = np.vdot(w, z) / np.vdot(w, w)
        e = np.sqrt(np.mean(np.abs(z / g - w)**2) / np.mean(np.abs(w)**2))
        t.ok(e < 2e-3, "nyquist:time:%d:%g" % (up, beta), "matched filtering in time recovers every symbol", error=e)
        t.trace()


def do_poly(t, seed):
    N = 300
    n = np.arange(N)
    for up, down in itertools.product(range(1, 6), repeat=2):
        fr = Fraction(up, down)
        for f in np.linspace(-0.3, 0.3, 13) * min(1, float(fr)):
            x = np.exp(2j * np.pi * f * n)
            for fold in (1.0, 40e9):
                key = "poly:%d/%d:%.3f:%g" % (up, down, f, fold)
                ok, y = t.attempt(key, rs.resample_poly, x, fold, fold * up / down)
                if ok:
                    L = -(-N * fr.numerator // fr.denominator)
                    want = np.exp(2j * np.pi * f * np.arange(L) / float(fr))
                    k = L // 5
                    t.ok(len(y) == L and close(y[k:-k], want[k:-k], 0.02), key, "band-limited signals are interpolated at the right times", n=len(y), L=L)
                    t.trace({"key": key})
                    ok, z = t.attempt(key, rs.rrcos_resample, x, fold, fold * up / down)
                    t.ok(ok and close(z, y, 1e-12), key + ":default", "no roll-off means polyphase resampling")
                if f == 0:
                    continue
                ok, y = t.attempt(key + ":norm", rs.resample_poly, x * 3, fold, fold * up / down, renormalise=True)
                if ok:
                    t.ok(abs(np.mean(np.abs(y)**2) - 9) < 1e-6 and abs(np.mean(y)) < 1e-6, key + ":norm", "power of the input, zero mean")


def do_signal(t, seed):
    for m, dt, N in itertools.product((1, 2), DT, (64, 65)):
        s = Q(16, N, nmodes=m, dtype=DT[dt], seed=seed, fb=10e9)
        for p, q in ((2, 1), (3, 2), (4, 1), (8, 5), (1, 1), (101, 100), (99, 100), (64, 65), (66, 65), (251, 250), (1, 2), (2, 3)):
            for kw in ({"beta": 0.1, "taps": 201}, {"beta": 0.5, "taps": 64, "renormalise": True}, {"beta": None}, {"beta": 0.2, "taps": None}):
                key = "signal:%d:%s:%d:%d/%d:%s" % (m, dt, N, p, q, sorted(kw))
                ok, y = t.attempt(key, s.resample, 10e9 * p / q, **kw)
                if not ok:
                    continue
                L = -(-N * p // q)
                t.ok(type(y) is Q and y.fs == 10e9 * p / q and y.fb == 10e9 and y.shape == (m, L) and y.dtype == DT[dt], key, "a signal at the new rate", shape=y.shape)
                t.ok(np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), key + ":symbols", "the symbols are kept")
                for i in range(m):
                    w = np.asarray(s)[i] if p == q else rs.rrcos_resample(np.asarray(s)[i], 10e9, 10e9 * p / q, Ts=1e-10, **{"taps": 4001, **kw})
                    t.ok(close(np.asarray(y)[i], w, TOL[dt] * 10), key + ":mode%d" % i, "every mode resampled by itself with the symbol period")
                t.trace({"key": key})
        x = s.resample(20e9, beta=0.2, taps=None)
        z = x.resample(10e9, beta=0.2, taps=None)
        g = np.vdot(np.asarray(s), np.asarray(z)) / np.vdot(np.asarray(s), np.asarray(s))
        t.ok(close(np.asarray(z) / g, np.asarray(s), 1e-6 if dt == "c16" else 1e-3), "signal:roundtrip:%d:%s:%d" % (m, dt, N), "up and down again gives the symbols back")


# -- filters ----------------------------------------------------------------------------------------------------
def linear(t, key, fn, m, N, dt, seed):
    """the filter is linear, causality aside time-invariant, mode by mode; returns its impulse response"""
    imp = np.zeros((m, N), DT[dt])
    imp[:, 0] = 1
    ok, h = t.attempt(key, fn, imp)
    if not ok:
        return None
    h = np.asarray(h)
    if not t.ok(h.shape == (m, N) and all(close(h[i], h[0], TOL[dt]) for i in range(m)), key + ":modes", "the same filter for every mode"):
        return None
    r = np.random.RandomState(seed)
    x = (r.randn(m, N) + 1j * r.randn(m, N)).astype(DT[dt])
    x0 = x.copy()
    ok, y = t.attempt(key, fn, x)
    if ok:
        t.ok(np.array_equal(x, x0) and y.shape == x.shape and y.dtype == x.dtype, key + ":kind", "shape, precision, input unchanged")
        return h[0], x, np.asarray(y)
    return None


def do_analog(t, ftype, order, seed):
    fs = 4e10
    for cut, dt, m in itertools.product((1e9, 4e9, 9e9, 15e9, 18e9), DT, (1, 2, 3)):
        N = 256
        key = "filter:%s:%d:%g:%s:%d" % (ftype, order, cut, dt, m)
        fn = lambda x: cf.filter_signal(x, fs, cut, ftype=ftype, order=order)
        res = linear(t, key, fn, m, N, dt, seed)
        if res is None:
            continue
        h, x, y = res
        want = np.array([np.convolve(v, h)[:N] for v in x])
        t.ok(close(y, want, 1e-8 if dt == "c16" else 1e-3), key, "causal convolution with the impulse response")
        big = np.zeros((1, 8192), DT[dt])
        big[0, 0] = 1
        H = np.fft.fft(np.asarray(fn(big))[0].astype(complex))
        f = np.arange(4096) * fs / 8192
        a = np.abs(H[:4096])
        tol = 1e-4 if dt == "c16" else 5e-2
        if dt == "c16" or order < 4:
            t.ok(abs(H[0] - 1) < tol and abs(np.interp(cut, f, a) - np.sqrt(0.5)) < max(tol, 2e-3), key + ":cutoff", "gain one at DC and 3 dB loss at the cutoff",
                 dc=H[0], at=np.interp(cut, f, a))
            t.ok(np.all(np.diff(a) < 1e-5 + (0 if dt == "c16" else 1e-2)), key + ":lowpass", "monotone low pass")
        if dt == "c16" and ftype == "butter":
            w = 1 / np.sqrt(1 + (np.tan(np.pi * f / fs) / np.tan(np.pi * cut / fs))**(2 * order))
            t.ok(close(a, w, 1e-4), key + ":shape", "Butterworth response of this order")
        if m == 1:
            ok, z = t.attempt(key + ":1d", fn, x[0])
            t.ok(ok and close(np.asarray(z), y[0], 1e-9 if dt == "c16" else 1e-4), key + ":1d", "one-dimensional signals")
            xr = np.ascontiguousarray(x.real)
            ok, z = t.attempt(key + ":real", fn, xr)
            t.ok(ok and not np.iscomplexobj(z) and close(np.asarray(z), y.real, 1e-8 if dt == "c16" else 1e-3), key + ":real", "real signals stay real")
        t.state(key, y)
        t.trace({"key": key})
        if order <= 3 and dt == "c16" and cut < 10e9 and m < 3:
            ka = key + ":lsim"
            res = linear(t, ka, lambda x: cf.filter_signal(np.repeat(x, 1, -1), fs, cut, ftype=ftype, order=order, analog=True), m, N, dt, seed)
            # steady state of tones
            n = np.arange(2048)
            for k in (0, 16, 40, 100):
                tone = np.exp(2j * np.pi * k * n / 2048)
                ok, z = t.attempt(ka, cf.filter_signal, tone, fs, cut, ftype=ftype, order=order, analog=True)
                if ok:
                    g = np.vdot(tone[1024:], z[1024:]) / 1024
                    d = H[k * 4]
                    t.ok(abs(abs(g) - abs(d)) < 0.03, ka + ":%d" % k, "the analogue simulation has the same response", got=abs(g), digital=abs(d))
            g = np.exp(2j * np.pi * round(cut / fs * 2048) * n / 2048)
            z = np.asarray(cf.filter_signal(g, fs, cut, ftype=ftype, order=order, analog=True))
            # lsim interpolates linearly between the samples, which attenuates a tone by sinc^2(f/fs)
            want = np.sqrt(0.5) * np.sinc(cut / fs)**2
            t.ok(abs(np.abs(np.vdot(g[1024:], z[1024:]) / 1024) - want) < 0.015, ka + ":cutoff", "3 dB loss at the cutoff")


def do_zerophase(t, ftype, seed):
    for N, cut, dt, m in itertools.product((16, 17, 63, 64), (2e9, 5e9, 11e9), DT, (1, 2, 3)):
        fs = 4e10
        key = "zero:%s:%d:%g:%s:%d" % (ftype, N, cut, dt, m)
        fn = lambda x: cf.filter_signal(x, fs, cut, ftype=ftype)
        res = linear(t, key, fn, m, N, dt, seed)
        if res is None:
            continue
        h, x, y = res
        H = np.fft.fft(h.astype(complex))
        f = np.fft.fftfreq(N, 1 / fs)
        tol = TOL[dt] * 10
        t.ok(close(y, np.fft.ifft(np.fft.fft(x) * H), tol), key, "circular convolution")
        t.ok(abs(H[0] - 1) < tol and np.all(np.abs(H.imag) < tol), key + ":dc", "gain one at DC, no phase")
        if dt == "c16":
            g = np.where(H.real > 1e-12, H.real, 1e-12)
            sel = H.real > 1e-9
            power = 2 if ftype == "gauss" else 1
            c = -np.log(g[1]) / np.abs(f[1])**power
            t.ok(close(-np.log(g[sel]), c * np.abs(f[sel])**power, 1e-6), key + ":shape", "Gaussian response" if ftype == "gauss" else "exponential response")
            dB = -10 * np.log10(np.exp(-2 * c * cut**power))
            t.ok(abs(dB - 3.01) < 0.05, "cutoff:%s:%.1f dB" % (ftype, dB), "the loss at the cutoff is %.1f dB instead of 3 dB" % dB)
        if m == 1:
            ok, z = t.attempt(key + ":1d", fn, x[0])
            t.ok(ok and z.ndim == 1 and close(np.asarray(z), y[0], tol), key + ":1d", "one-dimensional signals")
        t.state(key, y)
        t.trace({"key": key})


def do_pre(t, N):
    for bw in (0.01, 0.1, 0.25, 0.5, 0.8, 0.97):
        cutn = int(N * bw / 2)
        pos = np.fft.fftshift(np.arange(N))
        keep = np.zeros(N, bool)
        keep[pos[cutn:N - cutn]] = True
        for dt in DT:
            for k in range(N):
                x = np.exp(2j * np.pi * k * np.arange(N) / N).astype(DT[dt])
                key = "pre:%d:%g:%s:%d" % (N, bw, dt, k)
                ok, y = t.attempt(key, cf.pre_filter, x, bw)
                if ok:
                    t.ok(y.dtype == x.dtype and y.shape == x.shape and close(y, x * keep[k], TOL[dt]), key, "the outer part of the spectrum is removed, the rest kept")
                for m in (2, 3):
                    X = np.array([x * (i + 1) for i in range(m)])
                    ok, y = t.attempt(key, cf.pre_filter, X, bw)
                    t.ok(ok and close(y, X * keep[k], TOL[dt]), key + ":modes", "every mode")
                t.trace({"key": key})
    for os, bw, fc in itertools.product((1, 2), (0.3, 0.71, 1.0), (0, 0.2, -0.33)):
        f = np.fft.fftfreq(N, 1 / os)
        for k in range(N):
            if abs(abs(f[k] - fc) - bw / 2) < 1e-9:
                continue
            x = np.exp(2j * np.pi * k * np.arange(N) / N)
            key = "wdm:%d:%d:%g:%g:%d" % (N, os, bw, fc, k)
            ok, y = t.attempt(key, cf.pre_filter_wdm, x, bw, os, fc)
            if ok:
                t.ok(close(y, x * (abs(f[k] - fc) < bw / 2), 1e-9), key, "exactly the channel around the centre frequency passes")
                t.state(key, y)
            t.trace({"key": key})


def do_average(t, n, seed):
    r = np.random.RandomState(seed + n)
    for L in range(n, 2 * n + 6):
        for m in (None, 1, 2, 3):
            for dt in (np.float64, np.float32, np.complex128, np.complex64):
                x = r.randn(*((L,) if m is None else (m, L)))
                x = (x + 1j * r.randn(*x.shape)).astype(dt) if np.issubdtype(dt, np.complexfloating) else x.astype(dt)
                x0 = x.copy()
                key = "average:%d:%d:%s:%s" % (n, L, m, np.dtype(dt))
                want = np.stack([x[..., i:i + n].mean(-1) for i in range(L - n + 1)], -1)
                ok, y = t.attempt(key, cf.moving_average, x, n)
                if ok:
                    t.ok(y.dtype == dt and close(y, want, 1e-9 if np.dtype(dt) in (np.dtype("f8"), np.dtype("c16")) else 2e-5) and np.array_equal(x, x0), key, "mean of every window",
                         got=y, expected=want)
                    t.state(key, y)
                t.trace({"key": key})


def do_wrappers(t, seed):
    for m, dt in itertools.product((1, 2), DT):
        s = Q(16, 300, nmodes=m, dtype=DT[dt], seed=seed, fb=10e9).resample(20e9, beta=0.1, taps=401)
        a = np.asarray(s).copy()
        for name, f, g in (
                ("bessel", lambda: filtering.filter_signal(s, 8e9), lambda: cf.filter_signal(a, 20e9, 8e9)),
                ("butter", lambda: filtering.filter_signal(s, 8e9, ftype="butter", order=3), lambda: cf.filter_signal(a, 20e9, 8e9, "butter", 3)),
                ("gauss", lambda: filtering.filter_signal(s, 8e9, ftype="gauss"), lambda: cf.filter_signal(a, 20e9, 8e9, "gauss")),
                ("analog", lambda: filtering.filter_signal_analog(s, 8e9, order=3), lambda: cf.filter_signal(a, 20e9, 8e9, "bessel", 3, True)),
                ("analog butter", lambda: filtering.filter_signal_analog(s, 8e9, ftype="butter"), lambda: cf.filter_signal(a, 20e9, 8e9, "butter", 2, True)),
                ("analog cutoff", lambda: filtering.filter_signal(s, 6e9, ftype="butter", order=4, analog=True), lambda: cf.filter_signal(a, 20e9, 6e9, "butter", 4, True)),
                ("pre", lambda: filtering.pre_filter(s, 0.3), lambda: cf.pre_filter(a, 0.3)),
                ("rrcos", lambda: filtering.rrcos_pulseshaping(s, 0.2), lambda: cf.rrcos_pulseshaping(a, 20e9, 1e-10, 0.2)),
                ("rrcosT", lambda: filtering.rrcos_pulseshaping(s, 0.2, T=2e-10), lambda: cf.rrcos_pulseshaping(a, 20e9, 2e-10, 0.2))):
            ok, y = t.attempt("wrap:" + name, f)
            if ok:
                w = g()
                t.ok(type(y) is Q and y.fs == s.fs and y.fb == s.fb and y.dtype == s.dtype and np.array_equal(np.asarray(y.symbols), np.asarray(s.symbols)), "wrap:%s:meta" % name,
                     "a signal with the same attributes")
                t.ok(close(np.asarray(y), w, TOL[dt]), "wrap:%s" % name, "with the rates of the signal")
                t.ok(np.array_equal(np.asarray(s), a), "wrap:%s:input" % name, "input unchanged")
            t.trace({"name": name})
