"""C25: theoretical error rates, alphabets of shaped symbols and Monte-Carlo kernels against integrals and full sums."""
import itertools
import math
import numpy as np
from scipy import integrate
from qampy import theory, signals
from qampy.core import pythran_dsp

RULE = ("a trace is one order and SNR whose formula was compared with the sum over every transmitted symbol and every decision region (or every received point of a grid), or one set of "
        "noise values whose Monte-Carlo kernel was compared with the full double sum")
BOUNDS = {
    "quick": "square QAM 4..1024, 4-PAM, PSK 4..64 at every SNR from -5 to 40 dB in steps of 1 dB, all pairs of sent and decided levels; decisions of the library on a grid of 161x161 (QAM 64) to 641x641 (QPSK) of "
             "received points for every symbol of QAM 4, 16, 64; hybrids of all pairs of 4, 16, 64, 256 at 5 ratios; every noise sequence of 1 to 3 values out of 5",
    "thorough": "steps of 0.25 dB, 641x641 grid",
}
SQ = (4, 16, 64, 256, 1024)


def shards(tier, seed):
    step = 1.0 if tier == "quick" else 0.25
    out = [["qam", M, step] for M in SQ] + [["pam", step], ["psk", step], ["hybrid"], ["powers"], ["shaping", seed], ["kernels"], ["alphabet"]]
    return out + [["grid", M, {4: 641, 16: 321, 64: 161}[M] if tier == "quick" else 641] for M in (4, 16, 64)]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def Q(x):
    return 0.5 * math.erfc(x / math.sqrt(2))


def pam_rates(L, a):
    """all transitions of an L level PAM with Gray labels; a is half the distance over the deviation: (symbol error rate, bit errors per symbol)"""
    ser, bits = 0.0, 0.0
    for i in range(L):
        for j in range(L):
            if i == j:
                continue
            lo, hi = (2 * (j - i) - 1) * a, (2 * (j - i) + 1) * a
            if j < i:
                lo, hi = -hi, -lo
            p = Q(lo) - (0 if j in (0, L - 1) else Q(hi))
            ser += p / L
            bits += p * bin((i ^ (i >> 1)) ^ (j ^ (j >> 1))).count("1") / L
    return ser, bits


def grid(step):
    return np.arange(-5, 40 + step / 2, step)


def do_qam(t, M, step):
    L = int(round(math.sqrt(M)))
    for db in grid(step):
        snr = 10**(db / 10)
        a = math.sqrt(3 * snr / (M - 1))
        s1, b1 = pam_rates(L, a)
        ser = 1 - (1 - s1)**2
        key = "%d:%g" % (M, db)
        ok, r = t.attempt("ser:" + key, theory.ser_vs_es_over_n0_qam, snr, M)
        t.ok(ok and abs(r - ser) <= 1e-7 * ser + 1e-15, "ser:" + key, "exact symbol error rate of square QAM", got=r, expected=ser)
        ber = b1 / math.log2(L)
        ok, r = t.attempt("ber:" + key, theory.ber_vs_es_over_n0_qam, snr, M)
        if ok:
            # the formula counts errors to both neighbours, one bit each
            near = 2 * (1 - 1 / L) / math.log2(L) * Q(a)
            far = 2 * math.log2(L) * Q(3 * a)
            t.ok(abs(r - ber) <= far + 1e-7 * ber + 1e-300, "ber:" + key, "bit error rate up to errors beyond the next neighbour", got=r, expected=ber)
            t.ok(abs(r - near) <= 1e-7 * near + 1e-300, "berformula:" + key, "every error to a neighbour is one bit", got=r, expected=near)
            for x in (np.array([snr, 2 * snr]), np.array([[snr]])):
                r2 = theory.ber_vs_es_over_n0_qam(x, M)
                t.ok(np.shape(r2) == x.shape and r2.ravel()[0] == r, "array:" + key, "arrays like single values")
            e = theory.ber_vs_evm_qam(-db, M)
            t.ok(abs(e - r) <= 1e-9 * r + 1e-300, "evm:" + key, "the error vector is the inverse of the SNR", got=e, expected=r)
        t.trace()
        t.state(key)


def do_pam(t, step):
    for db in grid(step):
        snr = 10**(db / 10)
        w, _ = pam_rates(4, math.sqrt(2 * snr / 5))
        r = theory.ser_vs_es_over_n0_4pam(snr)
        t.ok(abs(r - w) <= 1e-7 * w + 1e-300, "pam:%g" % db, "exact symbol error rate of 4-PAM", got=r, expected=w)
        t.trace()


def do_psk(t, step):
    for M in (4, 8, 16, 32, 64):
        for db in grid(step):
            snr = 10**(db / 10)
            c = snr * math.sin(math.pi / M)**2
            top = math.pi * (M - 1) / M
            ex = integrate.quad(lambda u: math.exp(-c / math.sin(u)**2) if math.sin(u) > 1e-9 else 0.0, 0, top, epsabs=1e-16, epsrel=1e-9, limit=200)[0] / math.pi
            r = theory.ser_vs_es_over_n0_psk(snr, M)
            key = "psk:%d:%g" % (M, db)
            if ex > 1e-14:
                t.ok(r >= ex * (1 - 1e-6) - 1e-15, key, "an upper bound of the symbol error rate", got=r, expected=ex)
                if M == 4:
                    q = Q(math.sqrt(snr))
                    t.ok(abs(r - ex) <= q * q * 1.001 + 1e-14, key + ":tight", "exact up to errors in both quadratures", got=r, expected=ex)
                elif ex < 1e-2:
                    t.ok(r <= ex * 1.02 + 1e-14, key + ":tight", "tight for small error rates", got=r, expected=ex)
            t.trace()


def do_hybrid(t):
    for M1, M2 in itertools.product((4, 16, 64, 256), repeat=2):
        for db in (0.0, 8.0, 14.0, 20.0, 30.0):
            b1, b2 = (theory.ber_vs_es_over_n0_qam(10**(db / 10), M) for M in (M1, M2))
            n1, n2 = math.log2(M1), math.log2(M2)
            for fr in (0.0, 0.25, 0.5, 0.9, 1.0):
                key = "hybrid:%d:%d:%g:%g" % (M1, M2, db, fr)
                ok, r = t.attempt(key, theory.hybrid_qam_ber_vs_esn0, db, 1.0, fr, M1, M2)
                w = ((1 - fr) * n1 * b1 + fr * n2 * b2) / ((1 - fr) * n1 + fr * n2)
                t.ok(ok and abs(r - w) <= 1e-9 * w + 1e-300, key, "average over the bits of both formats", got=r, expected=w)
                t.trace()
            for pr in (0.3, 1.0, 4.0):
                for fr, w in ((0.0, b1), (1.0, b2)):
                    r = theory.hybrid_qam_ber_vs_esn0(db, pr, fr, M1, M2)
                    t.ok(abs(r - w) <= 1e-9 * w + 1e-300, "pure:%d:%d:%g:%g:%g" % (M1, M2, db, fr, pr), "a frame of one format only has its error rate", got=r, expected=w)


def do_powers(t):
    """the average of both powers is the given one and their ratio (of the second to the first, or the other way round for all) the given ratio"""
    bad = {0: [], 1: []}
    for M1, M2, db, fr, pr in itertools.product((4, 16, 64, 256), (4, 16, 64, 256), (0.0, 8.0, 14.0, 20.0), (0.0, 0.1, 0.25, 0.5, 0.9, 1.0), (0.1, 0.3, 0.5, 1.0, 2.0, 7.0)):
        r = t.call(theory.hybrid_qam_ber_vs_esn0, db, pr, fr, M1, M2)
        n1, n2 = math.log2(M1), math.log2(M2)
        for k in (0, 1):
            p1, p2 = (1, pr) if k == 0 else (pr, 1)
            if fr in (0.0, 1.0):
                p1 = p2 = 1
            s = 10**(db / 10) / ((1 - fr) * p1 + fr * p2)
            w = ((1 - fr) * n1 * theory.ber_vs_es_over_n0_qam(s * p1, M1) + fr * n2 * theory.ber_vs_es_over_n0_qam(s * p2, M2)) / ((1 - fr) * n1 + fr * n2)
            if not abs(r - w) <= 1e-9 * w + 1e-300:
                bad[k].append((M1, M2, db, fr, pr, r, w))
        t.trace()
    t.ok(not bad[0] or not bad[1], "hybrid:powers", "the powers have the given ratio and average", got=bad[0][:2], expected=bad[1][:2])


def do_grid(t, M, n):
    """the decisions of the library on a grid of received points weighted with the density of the noise"""
    s = signals.SignalQAMGrayCoded(M, 64, nmodes=1, seed=1)
    al = np.asarray(s.coded_symbols)
    for db in (0.0, 5.0, 10.0, 15.0):
        snr = 10**(db / 10)
        sig = 1 / math.sqrt(2 * snr)
        g = np.linspace(-6, 6, n + 1)
        g = (g[1:] + g[:-1]) / 2 * sig
        w = np.exp(-g**2 / (2 * sig**2))
        w /= w.sum()
        noise, W = (g[:, None] + 1j * g).ravel(), (w[:, None] * w).ravel()
        ser, ber = 0.0, 0.0
        nb = int(math.log2(M))
        for sy in al:
            rx = np.ascontiguousarray((sy + noise)[None])
            ok, d = t.attempt("grid:%d" % M, s.make_decision, rx)
            if not ok:
                return
            d = np.asarray(d)[0]
            bad = np.abs(d - sy) > 1e-9
            ser += np.sum(W[bad]) / M
            rb, sb = np.asarray(s.demodulate(d[None])).reshape(-1, nb), np.asarray(s.demodulate(np.array([[sy]]))).reshape(nb)
            ber += np.sum(W * np.count_nonzero(rb != sb, axis=1)) / M / nb
            t.trace()
        r = theory.ser_vs_es_over_n0_qam(snr, M)
        a = math.sqrt(3 * snr / (M - 1))
        tol = 12 / n * (a + 1.5) # one cell of the grid lies on both sides of a decision threshold
        t.ok(abs(ser - r) < tol * r + 1e-6, "grid:%d:%g" % (M, db), "the decisions have the theoretical error rate", got=ser, expected=r)
        r = theory.ber_vs_es_over_n0_qam(snr, M)
        t.ok(abs(ber - r) < tol * r + 2 * math.log2(M) * Q(3 * a) + 1e-6, "gridber:%d:%g" % (M, db), "so do the bits", got=ber, expected=r)
        t.state(M, db, ser)


def do_alphabet(t):
    """alphabets and their scaling"""
    for k in range(1, 13):
        M = 1 << k
        ok, al = t.attempt("qam:%d" % M, theory.cal_symbols_qam, M)
        if ok:
            al = np.asarray(al)
            t.ok(al.size == M and len(np.unique(np.round(al, 6))) == M, "qam:%d" % M, "M different points")
            lv = np.concatenate([al.real, al.imag]) if k > 1 else al.real
            t.ok(np.allclose(np.mod(lv + 1, 2), 0) or k == 1, "qam:%d:grid" % M, "on the grid of odd numbers")
            t.ok(abs(al.mean()) < 1e-9, "qam:%d:mean" % M, "centred")
            f = theory.cal_scaling_factor_qam(M)
            t.ok(abs(f - np.mean(np.abs(al)**2)) < 1e-9 * f, "qam:%d:power" % M, "the scaling factor is the mean power", got=f, expected=np.mean(np.abs(al)**2))
            if k % 2 == 1 and k >= 5:
                m = np.abs(lv).max()
                side = 3 * 2**((k - 3) // 2) - 1
                t.ok(m == side and not np.any((np.abs(al.real) > 2**((k - 1) // 2)) & (np.abs(al.imag) > 2**((k - 1) // 2))), "cross:%d" % M, "a cross without corners", got=m, expected=side)
        ok, p = t.attempt("psk:%d" % M, theory.cal_symbols_psk, M)
        if ok:
            p = np.asarray(p)
            t.ok(p.size == M and np.allclose(np.abs(p), 1) and len(np.unique(np.round(p, 9))) == M, "psk:%d" % M, "M points on the unit circle")
            d = np.angle(np.roll(p, -1) / p) if M > 2 else np.array([2 * np.pi / M])
            t.ok(np.allclose(d, 2 * np.pi / M) or M == 2, "psk:%d:even" % M, "evenly spaced, in order")
        t.trace()


def do_shaping(t, seed):
    for M, nu in itertools.product((4, 16, 64, 256), (0.0, 0.02, 0.1, 0.5, 1.0)):
        al = theory.cal_symbols_qam(M)
        for scale in (1.0, 1 / math.sqrt(theory.cal_scaling_factor_qam(M))):
            key = "shaping:%d:%g:%g" % (M, nu, scale)
            ok, r = t.attempt(key, theory.cal_ps_probablts, al * scale, nu)
            if not ok:
                continue
            x, p = r
            lv = np.arange(-(math.isqrt(M) - 1), math.isqrt(M), 2) * scale
            w = np.exp(-nu * lv**2)
            t.ok(np.allclose(x, lv) and np.allclose(p, w / w.sum()), key, "Maxwell-Boltzmann distribution of the levels", got=(x, p))
            if M <= 64 and scale == 1.0:
                np.random.seed(seed)
                n = 40000
                ok, y = t.attempt(key + ":draw", theory.generate_ps_symbols, n, x, p, False)
                if ok:
                    y = np.asarray(y)
                    t.ok(y.shape == (n,) and np.all(np.isin(y.real, x)) and np.all(np.isin(y.imag, x)), key + ":draw", "levels of the alphabet")
                    for v, q in zip(x, p):
                        for part in (y.real, y.imag):
                            t.ok(abs(np.mean(part == v) - q) < 6.5 * math.sqrt(q * (1 - q) / n) + 1e-9, key + ":freq:%g" % v, "drawn with the given probabilities", got=np.mean(part == v), expected=q)
                    c = np.mean(y.real * y.imag)
                    t.ok(abs(c) < 6.5 * np.sum(p * x**2) / math.sqrt(n), key + ":independent", "both quadratures are independent", got=c)
                ok, y = t.attempt(key + ":norm", theory.generate_ps_symbols, 500, x, p)
                t.ok(ok and abs(np.mean(y)) < 1e-9 and abs(np.mean(np.abs(y)**2) - 1) < 1e-9, key + ":norm", "normalised by default")
            t.trace({"key": key})


def do_kernels(t):
    nv = [0, 0.1, -0.4j, 0.7 - 0.2j, -1.5 + 1j]
    for M, c in ((2, theory.cal_symbols_psk), (4, theory.cal_symbols_qam), (8, theory.cal_symbols_psk), (8, theory.cal_symbols_qam), (16, theory.cal_symbols_qam), (32, theory.cal_symbols_qam)):
        al = np.asarray(c(M)).astype(complex)
        al = al / np.sqrt(np.mean(np.abs(al)**2))
        for n in (1, 2, 3):
            for z in itertools.product(nv, repeat=n):
                for N0 in (1.0, 0.1, 0.01):
                    z = np.array(z, complex)
                    ok, r = t.attempt("mi", pythran_dsp.cal_mi_mc, z, al, N0)
                    d = (np.abs(al[:, None, None] - al[None, :, None] + z)**2 - np.abs(z)**2) / N0
                    w = math.log2(M) - np.mean(np.log2(np.sum(np.exp(-d), axis=1)))
                    t.ok(ok and abs(r - w) < 1e-8 * (1 + abs(w)), "mi:%s:%d:%s:%g" % (c.__name__, M, z.tolist(), N0), "average over every symbol and noise value", got=r, expected=w)
                    t.trace()
