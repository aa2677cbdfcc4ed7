"""C24: pre-compensation: pattern look-up table, clipping, modulator and DAC compensation."""
import itertools
import numpy as np
from qampy import signals
from qampy.core import digital_pre_compensation as dpc, impairments, pythran_dsp
from mc.core import close

RULE = "a trace is one symbol sequence with its set of used symbols (or one clipped signal) whose table, pattern indices and compensated signal were compared with the definition"
BOUNDS = {
    "quick": "every sequence of 1 to 5 QPSK symbols and every sequence of 1 to 3 symbols of 4-PAM, 8-PSK and 16-QAM with memory 1 to 3, real and complex patterns, every subset of used "
             "symbols up to 4 symbols; whole alphabets in de Bruijn order so that every pattern of up to 3 symbols occurs; every signal of 3 samples over 7 values at 5 clipping levels",
    "thorough": "sequences of 6 QPSK symbols",
}
R = 1 / np.sqrt(2)
ALPH = {
    "qpsk": np.array([R + 1j * R, R - 1j * R, -R + 1j * R, -R - 1j * R]),
    "pam4": np.array([-3, -1, 1, 3], complex) * (1 + 0j),
    "ipam": np.array([-3j, -1j, 1j, 3j]),
    "rect": np.array([a + 1j * b for a in (-1, 1) for b in (-3, -1, 1, 3)]),
    "psk8": np.round(np.exp(2j * np.pi * np.arange(8) / 8), 12) + 0,
    "q16": np.array([a + 1j * b for a in (-3, -1, 1, 3) for b in (-3, -1, 1, 3)]) / np.sqrt(10),
}
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = [["lut", "qpsk", n, mem, dt, None] for n in (1, 2, 3, 4) for mem in (1, 2, 3) for dt in DT]
    out += [["lut", "qpsk", n, mem, "c16", a] for n in ((5,) if tier == "quick" else (5, 6)) for mem in (1, 2, 3) for a in range(4)]
    out += [["lut", al, n, mem, "c16", None] for al in ("pam4", "ipam", "rect", "psk8") for n in (1, 2, 3) for mem in (1, 2, 3) if len(ALPH[al])**n <= 600]
    out += [["lut", "q16", n, mem, "c16", None] for n in (1, 2) for mem in (1, 2)]
    out += [["masks", al, n, mem] for al in ("qpsk", "pam4") for n in (3, 4) for mem in (1, 2, 3)]
    out += [["debruijn", al, mem, seed] for al in ALPH for mem in (1, 2, 3) if len(ALPH[al])**mem <= 5000]
    return out + [["objects", seed], ["clip"], ["sine"], ["dac"], ["average"]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def windows(n, mem, k):
    """positions of the pattern of symbol k"""
    return [(k - mem // 2 + j) % n for j in range(mem)]


def ref_lut(tx, err, used, mem, parts):
    """mean error over all used symbols with the same neighbourhood: list of (pattern, mean) per part"""
    n = len(tx)
    out = []
    for part, val in parts:
        sums = {}
        for k in used:
            p = tuple(np.round(part(tx)[windows(n, mem, k)], 9))
            sums.setdefault(p, []).append(val(err)[k])
        out.append({p: sum(v) / len(v) for p, v in sums.items()})
    return out


REAL = ((np.real, np.real), (np.imag, np.imag))
COMP = ((lambda x: x, np.real), (lambda x: x, np.imag))


def verify(t, key, tx, rx, al, mem, mask, real, tol):
    keep = tx.copy(), rx.copy()
    ok, r = t.attempt(key, dpc.cal_lut, tx, rx, al, mem, mask, real)
    if not ok:
        return
    ea, i_i, i_q = r
    used = np.arange(len(tx)) if mask is None else np.flatnonzero(mask)
    ti, tq = ref_lut(tx, tx - rx, used, mem, REAL if real else COMP)
    parts = REAL if real else COMP
    good = len(i_i) == len(i_q) == len(used)
    if good:
        for j, k in enumerate(used):
            w = windows(len(tx), mem, k)
            pi, pq = tuple(np.round(parts[0][0](tx)[w], 9)), tuple(np.round(parts[1][0](tx)[w], 9))
            good &= bool(abs(ea[i_i[j]].real - ti[pi]) < tol and abs(ea[i_q[j]].imag - tq[pq]) < tol)
    t.ok(good, key, "mean error of all symbols with the same pattern, found through the index of every symbol", tx=tx, rx=rx, ea=ea, idx=[i_i, i_q])
    for idx, name, pp in ((i_i, "i", parts[0][0]), (i_q, "q", parts[1][0])):
        pats = [tuple(np.round(pp(tx)[windows(len(tx), mem, k)], 9)) for k in used]
        pairs = set(zip(np.asarray(idx).tolist(), pats))
        t.ok(len({a for a, _ in pairs}) == len({b for _, b in pairs}) == len(pairs), key + ":" + name, "one index for every pattern")
    seen = np.zeros(len(ea), bool), np.zeros(len(ea), bool)
    seen[0][i_i] = True
    seen[1][i_q] = True
    t.ok(np.all(ea.real[~seen[0]] == 0) and np.all(ea.imag[~seen[1]] == 0), key + ":unused", "no correction for patterns that do not appear")
    t.ok(np.array_equal(tx, keep[0]) and np.array_equal(rx, keep[1]), key + ":input", "the inputs are not changed")
    t.trace()


def errors(n, dt):
    """all different, so that every wrong assignment shows"""
    k = np.arange(n)
    return (0.01 * 2.0**-k + 0.013j * 3.0**-k + 0.001 * k * k).astype(dt)


def do_lut(t, al, n, mem, dt, first):
    ref = ALPH[al].astype(DT[dt])
    e = errors(n, DT[dt])
    tol = 1e-10 if dt == "c16" else 2e-6
    for s in itertools.product(range(len(ref)), repeat=n if first is None else n - 1):
        s = list(s) if first is None else [first] + list(s)
        tx = ref[s]
        for real in (True, False):
            verify(t, "lut:%s:%d:%s:%s:%s" % (al, mem, dt, s, real), tx, (tx - e).astype(DT[dt]), ref, mem, None, real, tol)
    t.state(al, n, mem, dt, first)


def do_masks(t, al, n, mem):
    ref = ALPH[al]
    e = errors(n, complex)
    for s in itertools.product(range(4), repeat=n):
        for m in itertools.product((False, True), repeat=n):
            if any(m):
                tx = ref[list(s)]
                verify(t, "masks:%s:%d:%s:%s" % (al, mem, s, m), tx, tx - e, ref, mem, np.array(m), True, 1e-10)
                if n == 3:
                    verify(t, "masks:complex:%s:%d:%s:%s" % (al, mem, s, m), tx, tx - e, ref, mem, np.array(m), False, 1e-10)


def debruijn(k, n):
    """cyclic sequence in which every pattern of n symbols occurs exactly once"""
    a, seq = [0] * k * n, []

    def db(i, p):
        if i > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[i] = a[i - p]
        db(i + 1, p)
        for j in range(a[i - p] + 1, k):
            a[i] = j
            db(i + 1, i)
    db(1, 1)
    return seq


def do_debruijn(t, al, mem, seed):
    """an error that is a function of the pattern is removed completely"""
    ref = ALPH[al]
    tx = ref[debruijn(len(ref), mem)]
    n = len(tx)
    sh = [np.roll(tx, mem // 2 - j) for j in range(mem)]
    for kind in range(3):
        w = np.array([0.03, -0.05, 0.02])
        if kind == 0:
            e = sum(w[j] * (sh[j].real**2 + 1j * sh[j].imag**3) for j in range(mem))
        elif kind == 1:
            e = 0.1 * sh[0].real * sh[-1].real + 0.07j * np.abs(sh[mem // 2].imag)
        else:
            e = 0.1 * sh[0] * np.conj(sh[-1])
        for real in (True, False):
            if kind == 2 and real:
                continue
            key = "debruijn:%s:%d:%d:%s" % (al, mem, kind, real)
            for mask in (None, np.arange(n) >= mem, np.arange(n) % 3 != 1):
                ok, r = t.attempt(key, dpc.cal_lut, tx, tx - e, ref, mem, mask, real)
                if ok:
                    ea, i, q = r
                    m = np.ones(n, bool) if mask is None else mask
                    got = tx[m] - e[m] + ea[i].real + 1j * ea[q].imag
                    t.ok(close(got, tx[m], 1e-9), key, "an error that depends on the pattern only is removed", got=got[:8], expected=tx[m][:8])
                    if not real:
                        t.ok(len(np.unique(i)) == len(i), key + ":all", "every pattern has its own entry")
                t.trace({"key": key})
    # index and patterns of find_sym_patterns
    for part, rs in ((tx, np.unique(ref)), (tx.real, np.unique(ref.real)), (tx.imag, np.unique(ref.imag))):
        if len(rs)**mem > 5000:
            continue
        for m in range(1, mem + 1):
            ok, r = t.attempt("patterns:%s:%d" % (al, m), dpc.find_sym_patterns, part, rs, m, True)
            if ok:
                pi, pats = r
                want = np.array([[part[(k + j) % n] for j in range(m)] for k in range(n)])
                t.ok(pats.shape == (len(rs)**m, m) and close(pats[pi], want, 1e-12), "patterns:%s:%d" % (al, m), "the pattern that starts at each symbol")
                t.ok(len(np.unique(np.round(pats, 9), axis=0)) == len(pats), "patterns:%s:%d:all" % (al, m), "all patterns are listed once")
                t.ok(np.array_equal(dpc.find_sym_patterns(part, rs, m), pi), "patterns:%s:%d:plain" % (al, m), "same index without the patterns")


def do_objects(t, seed):
    for M, dt, mem in itertools.product((4, 16, 32, 64), DT, (1, 2, 3)):
        s = signals.SignalQAMGrayCoded(M, 800, nmodes=2, seed=seed, dtype=DT[dt])
        al = np.asarray(s.coded_symbols)
        for i in range(2):
            tx = np.array(s[i])
            e = (0.05 * np.roll(tx, 1).real**2 + 0.03j * tx.imag**3).astype(DT[dt])
            for real in (True,) + ((False,) if M**mem < 5000 else ()):
                key = "objects:%d:%s:%d:%s" % (M, dt, mem, real)
                ok, r = t.attempt(key, dpc.cal_lut, tx, (tx - e).astype(DT[dt]), al, mem, None, real)
                if ok:
                    ea, ii, iq = r
                    res = e - (ea[ii].real + 1j * ea[iq].imag)
                    # what remains has no mean for any pattern
                    for part, idx in ((res.real, ii), (res.imag, iq)):
                        mean = np.bincount(idx, part) / np.maximum(np.bincount(idx), 1)
                        t.ok(np.abs(mean).max() < (1e-10 if dt == "c16" else 1e-5), key, "what remains of the error is zero on average for every pattern", got=np.abs(mean).max())
                    if mem >= 2:
                        t.ok(np.abs(res).max() < (1e-10 if dt == "c16" else 1e-5), key + ":all", "an error from the previous symbol is removed", got=np.abs(res).max())
                t.trace({"key": key})


def do_average(t):
    for n in (1, 2, 3, 4):
        for i in itertools.product(range(3), repeat=n):
            for q in itertools.product(range(3), repeat=n):
                for dt in (complex, np.complex64) if n < 4 else (complex,):
                    e = errors(n, dt)
                    ok, r = t.attempt("average", pythran_dsp.cal_lut_avg, e, np.array(i), np.array(q), 4)
                    if ok:
                        want = np.zeros(4, complex)
                        for k in range(4):
                            a, b = [e[j].real for j in range(n) if i[j] == k], [e[j].imag for j in range(n) if q[j] == k]
                            want[k] = (sum(a) / len(a) if a else 0) + 1j * (sum(b) / len(b) if b else 0)
                        t.ok(close(r, want, 1e-6 if dt == np.complex64 else 1e-12), "average:%s:%s" % (i, q), "average of both parts", got=r, expected=want)
                    t.trace()


def do_clip(t):
    vals = [0, 0.3, -2.5, 1.2j, 0.9 - 1.4j, -1 + 1j, -0.2 - 0.1j]
    for lvl in (0.1, 0.5, 1, 1.2, 3):
        for n in (1, 2, 3):
            for v in itertools.product(vals, repeat=n):
                for E in (np.array(v, complex), np.array([v, v[::-1]], complex), np.array(v, np.complex64)):
                    keep = E.copy()
                    ok, r = t.attempt("clip", dpc.clipper, E, lvl)
                    e2 = np.atleast_2d(E)
                    want = np.clip(e2.real, -lvl, lvl) + 1j * np.clip(e2.imag, -lvl, lvl)
                    t.ok(ok and close(r, want, 1e-6 if E.dtype == np.complex64 else 1e-12) and np.array_equal(E, keep), "clip:%g:%s" % (lvl, v), "both parts are limited to the level", got=r, expected=want)
                    t.trace()


def do_sine(t):
    g = np.linspace(-0.99, 0.99, 45)
    x = (g[:, None] + 1j * g).reshape(1, -1)
    ok, v = t.attempt("sine", dpc.comp_mod_sin, x, 1.0)
    if ok:
        ok, e = t.attempt("sine:mod", impairments.modulator_response, v)
        e = np.asarray(e)
        # linear again: real and imaginary part of the field are those of the signal up to one complex gain
        gain = np.sum(e * x.conj()) / np.sum(np.abs(x)**2)
        t.ok(ok and close(e, gain * x, 1e-9) and abs(gain) > 0.1, "sine:linear", "the modulator is linear after compensation", got=np.abs(e - gain * x).max())
    for vpi in (0.5, 1.14, 3, 2 + 4j, 1 - 0.5j):
        vr, vi = (vpi.real, vpi.imag) if np.iscomplexobj(vpi) else (vpi, vpi)
        for y in (x, x[0], x.astype(np.complex64)):
            ok, v = t.attempt("sine:%s" % vpi, dpc.comp_mod_sin, y, vpi)
            if ok:
                back = np.sin(np.pi * v.real / (2 * vr)) + 1j * np.sin(np.pi * v.imag / (2 * vi))
                t.ok(close(back, y, 1e-6 if y.dtype == np.complex64 else 1e-12), "sine:%s:%s" % (vpi, y.dtype), "the sine with the given Vpi undoes it", got=back.ravel()[:4])
            t.trace()


def do_dac(t):
    from scipy import signal
    for fb, n, beta, papr, cut, order, enob, os in itertools.product((20e9, 32e9), (64, 65, 200), (0.01, 0.1, 0.5), (3, 9), (9e9, 16e9), (1, 2, 4), (3, 6, 12), (2, 4)):
        if os == 4 and (n == 65 or fb == 32e9):
            continue
        key = "dac:%g:%d:%g:%g:%g:%d:%d:%d" % (fb, n, beta, papr, cut, order, enob, os)
        ok, p = t.attempt(key, dpc.comp_dac_resp, fb, n, beta, papr, (cut, order, "sos", enob), os)
        if not ok:
            continue
        fs = fb * os
        k = np.arange(n)
        f = np.where(k < (n + 1) // 2, k, k - n) * fs / n
        # spectrum of the signal: raised cosine
        a = np.abs(f)
        lo, hi = (1 - beta) * fb / 2, (1 + beta) * fb / 2
        nf = np.where(a <= lo, 1.0, np.where(a <= hi, 0.5 * (1 + np.cos(np.pi / (beta * fb) * (a - lo))), 0))
        b, den = signal.bessel(order, cut, "low", analog=False, output="ba", norm="mag", fs=fs)
        z = np.exp(-2j * np.pi * f / fs)
        d = sum(c * z**i for i, c in enumerate(b)) / sum(c * z**i for i, c in enumerate(den))
        alpha = 10**(papr / 10) / (6 * fb * 4**enob) * np.sum(np.abs(d)**2 * nf) * fs / n
        want = nf * d.conj() / (nf * np.abs(d)**2 + alpha)
        t.ok(p.shape == (n,) and np.abs(p - want).max() < 1e-6 * np.abs(want).max(), key, "Wiener filter of the DAC response with its quantisation noise", got=p[:4], expected=want[:4])
        h = np.fft.ifft(p)
        if n % 2:
            t.ok(np.abs(h.imag).max() < 1e-7 * np.abs(h).max(), key + ":real", "a real impulse response", got=np.abs(h.imag).max())
        if enob == 12 and order <= 2:
            t.ok(np.abs((p * d)[nf > 0.5] - 1).max() < 0.05, key + ":flat", "without noise the response is flat in the band of the signal", got=np.abs((p * d)[nf > 0.5] - 1).max())
        t.trace({"key": key})
        t.state(key)
