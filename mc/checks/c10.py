"""C10: time-domain hybrid QAM: frame structure, equal spacing of the two alphabets, recovery of both parts."""
import itertools
from fractions import Fraction
import numpy as np
from qampy import signals
from mc.core import close

RULE = ("a trace is one hybrid signal that was built, compared symbol by symbol with the frame structure of the documentation, taken apart, and whose "
        "parts were decided and demodulated back to the bits that went in")
BOUNDS = {
    "quick": "all pairs of orders 4..256 (QAM) and PSK 4..16; all fractions with denominator to 8; all lengths to 3 frames; all fractions with denominator to 30 and 119 with denominators to 2047; from arrays: all pairs of lengths to "
             "16 x all fractions with denominator to 5",
    "thorough": "orders to 1024, denominators to 12, lengths to 5 frames, arrays to 30",
}
Q, P, T = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded, signals.TDHQAMSymbols
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    top = 8 if tier == "quick" else 12
    orders = [4, 8, 16, 32, 64, 128, 256] + ([512, 1024] if tier != "quick" else [])
    out = [["orders", M1, orders, seed] for M1 in orders]
    out += [["frames", q, seed, tier] for q in range(1, top + 1)]
    out += [["arrays", q, seed, tier] for q in range(2, 6)]
    out += [["long", k, seed, tier] for k in range(8)]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def mindist(a):
    a = np.asarray(a).ravel()
    d = np.abs(a[:, None] - a)
    d[np.arange(a.size), np.arange(a.size)] = np.inf
    return d.min()


def masks(N, fr):
    fr = Fraction(fr)
    F, F2 = fr.denominator, fr.numerator
    second = np.array([i % F >= F - F2 for i in range(N)], bool)
    return ~second, second


def check(t, key, s, N, fr, M, dt, m, classes, bits=True):
    tol = 1e-9 if dt == np.complex128 else 1e-5
    one, two = masks(N, fr)
    a = np.asarray(s)
    if not t.ok(a.shape == (m, N) and a.dtype == dt, key + ":shape", "whole frames, one row per mode", shape=a.shape):
        return
    F = Fraction(fr)
    t.ok(s.M == tuple(M) and s.f_M == F.denominator and s.f_M2 == F.numerator and s.f_M1 == F.denominator - F.numerator and abs(s.fr - F) < 1e-9, key + ":attrs",
         "orders and frame structure", f=(s.f_M, s.f_M1, s.f_M2))
    t.ok(type(s) is T and type(s.symbols_M1) is classes[0] and type(s.symbols_M2) is classes[1], key + ":class", "classes")
    t.ok(np.array_equal(a[:, one], np.asarray(s.symbols_M1)) and np.array_equal(a[:, two], np.asarray(s.symbols_M2)), key + ":layout",
         "the first symbols of each frame are of the first, the last of the second format")
    d1, d2 = mindist(s.symbols_M1.coded_symbols), mindist(s.symbols_M2.coded_symbols)
    t.ok(abs(s.powratio - (d2 / d1)**2) < tol * 10 * s.powratio, key + ":powratio", "the power ratio makes the minimum distances of both formats equal", got=s.powratio,
         expected=(d2 / d1)**2)
    for which, sel, scale in (("M1", one, 1), ("M2", two, np.sqrt(s.powratio))):
        part = getattr(s, "symbols_" + which)
        if not np.any(sel):
            continue
        rx = np.ascontiguousarray(a[:, sel] * scale, dtype=dt)
        al = np.asarray(part.coded_symbols)
        idx = np.abs(rx[..., None] - al).argmin(-1)
        t.ok(close(rx, al[idx], tol * 10), key + ":alphabet" + which, "the part consists of points of its alphabet")
        t.ok(close(np.asarray(part.symbols)[:, :rx.shape[1]], rx, tol * 10), key + ":symbols" + which, "the part is its transmitted symbols")
        if bits:
            r = part.recreate_from_np_array(rx)
            want = part._encoding[idx].reshape(m, -1)
            t.ok(np.array_equal(np.asarray(part.demodulate(r)), want) and np.array_equal(np.asarray(part.bits)[:, :want.shape[1]], want), key + ":bits" + which,
                 "the part demodulates to its bits")
            t.ok(not np.any(r.cal_ser(synced=True)) and not np.any(r.cal_ber(synced=True)), key + ":ser" + which, "the part is received without errors")
    t.state(key, a)
    t.trace({"key": key})


def do_orders(t, M1, orders, seed):
    for M2, dt, m in itertools.product(orders, DT, (1, 2)):
        N = 24
        key = "orders:%d:%d:%s:%d" % (M1, M2, dt, m)
        ok, s = t.attempt(key, T, (M1, M2), N, fr=0.5, nmodes=m, dtype=DT[dt], seed=seed, fb=3e9)
        if ok:
            check(t, key, s, N, Fraction(1, 2), (M1, M2), DT[dt], m, (Q, Q))
            t.ok(s.fb == 3e9 == s.fs and s.os == 1, key + ":rates", "rates")
        for c1, c2 in ((P, Q), (Q, P), (P, P)):
            if (c1 is P and M1 > 16) or (c2 is P and M2 > 16):
                continue
            k = key + ":%s:%s" % (c1.__name__, c2.__name__)
            ok, s = t.attempt(k, T, (M1, M2), N, fr=0.25, nmodes=m, dtype=DT[dt], seed=seed, M1class=c1, M2class=c2)
            if ok:
                check(t, k, s, N, Fraction(1, 4), (M1, M2), DT[dt], m, (c1, c2))


def do_frames(t, q, seed, tier):
    fracs = [Fraction(p, q) for p in range(1, q) if Fraction(p, q).denominator == q]
    for fr in fracs:
        for N in range(q, (3 if tier == "quick" else 5) * q + 1):
            for dt, m, M, given in itertools.product(DT, (1, 2, 3), ((4, 16), (16, 4), (64, 32)), (float(fr), fr)):
                key = "frames:%s:%d:%s:%d:%s:%s" % (fr, N, dt, m, M, type(given).__name__)
                ok, s = t.attempt(key, T, M, N, fr=given, nmodes=m, dtype=DT[dt], seed=seed + N)
                if ok:
                    check(t, key, s, N - N % q, fr, M, DT[dt], m, (Q, Q), bits=N % q == 0 and dt == "c16")
    refused(t)


def do_long(t, k, seed, tier):
    """longer frames: every fraction with a denominator to 30 and some of the larger ones"""
    fracs = sorted({Fraction(p, q) for q in range(9, 31 if tier == "quick" else 61) for p in range(1, q)}
                   | {Fraction(p, q) for q in (64, 65, 97, 100, 101, 125, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1021, 2047) for p in (1, 2, 3, q // 3, q // 2, q - 7, q - 1)})
    for fr in fracs[k::8]:
        if fr.denominator < 9:
            continue
        q = fr.denominator
        for N, m, dt in ((q, 1, "c16"), (2 * q, 2, "c8"), (3 * q - 1, 1, "c16")):
            for given in (float(fr), fr):
                key = "long:%s:%d:%s" % (fr, N, type(given).__name__)
                ok, s = t.attempt(key, T, (4, 16), N, fr=given, nmodes=m, dtype=DT[dt], seed=seed + N)
                if ok:
                    check(t, key, s, N - N % q, fr, (4, 16), DT[dt], m, (Q, Q), bits=False)


def refused(t):
    try:
        T((4, 16), 10, fr=0.5, power_method="nonsense")
    except NotImplementedError:
        t.trace()
    else:
        t.fail("frames:power_method", "an unknown power method is refused")
    t.trace()


def do_arrays(t, q, seed, tier):
    top = 16 if tier == "quick" else 30
    for p in range(1, q):
        fr = Fraction(p, q)
        if fr.denominator != q:
            continue
        for n1, n2 in itertools.product(range(q - p, top + 1), range(p, top + 1)):
            for m, dt, (M1, M2) in (((1, "c16", (4, 16)), (2, "c8", (16, 4)), (2, "c16", (64, 4)))):
                key = "arrays:%s:%d:%d:%d:%s:%s" % (fr, n1, n2, m, dt, (M1, M2))
                a, b = Q(M1, n1, nmodes=m, dtype=DT[dt], seed=[seed, n1], fb=2e9), Q(M2, n2, nmodes=m, dtype=DT[dt], seed=[seed, n2, 1], fb=2e9)
                a0, b0 = np.asarray(a).copy(), np.asarray(b).copy()
                ok, s = t.attempt(key, T.from_symbol_arrays, a, b, float(fr))
                if not ok:
                    continue
                k = min(n1 // (q - p), n2 // p)
                check(t, key, s, k * q, fr, (M1, M2), DT[dt], m, (Q, Q), bits=(n1 + n2) % 3 == 0)
                one, two = masks(k * q, fr)
                r = np.asarray(s)
                t.ok(np.array_equal(r[:, one], a0[:, :k * (q - p)]) and close(r[:, two] * np.sqrt(s.powratio), b0[:, :k * p], 1e-9 if dt == "c16" else 1e-5), key + ":given",
                     "the given symbols in their order")
                t.ok(np.array_equal(np.asarray(a), a0) and np.array_equal(np.asarray(b), b0), key + ":input", "the given signals are not changed")
                t.ok(s.fb == 2e9 == s.fs, key + ":rates", "rates")
    a = Q(4, 8, nmodes=2)
    for bad in (Q(16, 8, nmodes=1), Q(16, 8, nmodes=2, dtype=np.complex64)):
        try:
            T.from_symbol_arrays(a, bad, 0.5)
        except AssertionError:
            t.trace()
        else:
            t.fail("arrays:mismatch", "parts of different mode number or precision are refused")
