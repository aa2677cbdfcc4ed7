"""C01: bits -> symbols -> bits is lossless for every order, precision, mode count and length."""
import numpy as np
from qampy import signals, theory
from mc.core import tol_of

RULE = ("a trace is one bit sequence (all words, all word pairs, or one of all lengths) sent through one constructor and back; "
        "non-trivial because the symbol and bit sequence are compared with a table built from the alphabet alone")
BOUNDS = {
    "quick": "QAM 2..1024 and PSK 2..256, complex128/complex64, every word; every pair of words up to order 16; every bit length "
             "1..5*log2(M) with 1..3 modes; every alphabet point displaced in 8 directions by 45% of half the minimum distance",
    "thorough": "QAM 2..4096 and PSK 2..1024, every pair of words up to order 64, bit lengths up to 9*log2(M), 1..4 modes",
}
QAM = {"quick": [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024], "thorough": [2 ** i for i in range(1, 13)]}
PSK = {"quick": [2, 4, 8, 16, 32, 64, 128, 256], "thorough": [2 ** i for i in range(1, 11)]}
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = []
    for cls, orders in (("QAM", QAM[tier]), ("PSK", PSK[tier])):
        for M in orders:
            for dt in DT:
                for part in ("words", "lengths", "pairs", "symbols"):
                    if part == "pairs" and M > (16 if tier == "quick" else 64):
                        continue
                    out.append([part, cls, M, dt, tier])
    for dt in DT:
        out.append(["bert", "QPSK", 4, dt, tier])
        out.append(["random", "-", 0, dt, tier])
    return out


def words(M):
    """every bit word of an order, most significant bit first"""
    nb = M.bit_length() - 1
    return (np.arange(M)[:, None] >> np.arange(nb - 1, -1, -1) & 1).astype(bool)


def get_cls(name):
    return signals.SignalQAMGrayCoded if name == "QAM" else signals.SignalPSKGrayCoded


def expected_points(name, M):
    """the alphabet as a set: unit-energy square or cross grid, or the points of the unit circle"""
    if name == "PSK":
        off = np.pi / 4 if M == 4 else 0
        return np.exp(1j * (2 * np.pi * np.arange(M) / M + off))
    nb = M.bit_length() - 1
    if nb % 2 == 0:
        m = 2 ** (nb // 2)
        g = np.arange(-(m - 1), m, 2.0)
        pts = (g[:, None] + 1j * g[None]).ravel()
    elif M == 2:
        pts = np.array([-1, 1]) + 0j
    elif M == 8:
        pts = (np.arange(-3, 4, 2.0)[:, None] + 1j * np.array([-1.0, 1.0])[None]).ravel()
    else:        # a square grid without a block in each corner
        n = (nb - 1) // 2
        side, corner = 3 * 2 ** (n - 1), 2 ** (n - 2)
        g = np.arange(-(side - 1), side, 2.0)
        pts = (g[:, None] + 1j * g[None]).ravel()
        lim = side - 1 - 2 * corner
        pts = pts[~((abs(pts.real) > lim) & (abs(pts.imag) > lim))]
        assert pts.size == M
    return pts / np.sqrt(np.mean(abs(pts) ** 2))


def table(sig, t, name, M, dt):
    """symbol of every word, found with the public interface only"""
    w = words(M)
    syms = np.asarray(t.call(sig.modulate, w.reshape(1, -1)))[0]
    key = "%s%d:%s" % (name, M, dt)
    tol = 1e-12 if dt == "c16" else 1e-6
    t.ok(syms.shape == (M,), key + ":count", "modulate returns one symbol per word", got=syms.shape)
    s128 = syms.astype(complex)
    if M > 1:
        d = abs(s128[:, None] - s128[None])
        np.fill_diagonal(d, 9)
        t.ok(d.min() > 1e-3 / np.sqrt(M), key + ":distinct", "the M words have M different symbols", dmin=float(d.min()))
        dmin = d.min()
    t.ok(abs(np.mean(abs(s128) ** 2) - 1) < 100 * tol, key + ":power", "the alphabet has unit mean power",
         power=float(np.mean(abs(s128) ** 2)))
    pts = expected_points(name, M)
    d = abs(s128[:, None] - pts[None])
    t.ok(np.max(np.min(d, 0)) < 1e3 * tol and np.max(np.min(d, 1)) < 1e3 * tol, key + ":points",
         "the alphabet is the constellation of that order", worst=float(np.max(np.min(d, 0))))
    cs = np.asarray(sig.coded_symbols)
    t.ok(cs.shape == (M,) and np.array_equal(np.sort_complex(cs), np.sort_complex(syms)), key + ":alphabet",
         "coded_symbols is the alphabet")
    return w, syms, dmin


def bits_of(x):
    return np.asarray(x).astype(bool)


def run(shard, t):
    part, name, M, dt, tier = shard
    dtype = DT[dt]
    if part == "bert":
        return bert(t, dtype, dt)
    if part == "random":
        return randoms(t, dtype, dt)
    cls = get_cls(name)
    nb = M.bit_length() - 1
    key = "%s%d:%s" % (name, M, dt)
    np.random.seed(M + 7)
    probe = t.call(cls, M, 4, nmodes=1, dtype=dtype)
    w, syms, dmin = table(probe, t, name, M, dt)
    if part == "words":
        # every word, alone and in every position of the sequence of all words
        for shift in sorted({0, 1, M // 2, M - 1}):
            order = np.roll(np.arange(M), shift)
            bits = w[order].reshape(1, -1)
            s = t.call(cls.from_bit_array, bits, M, dtype=dtype)
            ok = t.ok(np.array_equal(np.asarray(s)[0], syms[order]), key + ":from_bits", "from_bit_array maps word by word", shift=shift)
            t.ok(s.dtype == np.dtype(dtype) and s.M == M and s.Nbits == nb, key + ":attrs", "from_bit_array sets order and precision")
            back = t.call(s.demodulate, s)
            t.ok(back.shape == bits.shape and np.array_equal(back, bits), key + ":demod", "demodulate inverts from_bit_array", shift=shift)
            t.ok(np.array_equal(bits_of(s.bits), bits), key + ":bits", "the bits attribute holds the transmitted bits", shift=shift)
            t.ok(np.array_equal(np.asarray(s.symbols), np.asarray(s)), key + ":symbols", "the symbols attribute holds the symbols")
            t.state(key, shift, back)
            t.trace({"class": name, "M": M, "dtype": dt, "first words": order[:4].tolist()})
        for wd in range(M):
            got = t.call(probe.modulate, w[wd])
            t.ok(got.shape == (1, 1) and got[0, 0] == syms[wd], key + ":single", "a word on its own maps as in a sequence", word=wd)
            back = t.call(probe.demodulate, got)
            t.ok(np.array_equal(back.ravel(), w[wd]), key + ":single-demod", "a single symbol gives back its word", word=wd)
            idx = np.array([[wd]])
            t.ok(np.array_equal(np.ravel(t.call(probe.demodulate, idx)), np.ravel(t.call(
                probe.demodulate, np.asarray(probe.coded_symbols)[None, [wd]]))), key + ":index",
                "an index demodulates as the alphabet entry it points to", word=wd)
            t.state(key, wd, got)
            t.trace()
        # displaced points still decode to the word
        for k in range(8):
            r = (syms + 0.45 * dmin * np.exp(1j * np.pi * k / 4)).astype(dtype).reshape(1, -1)
            back = t.call(probe.demodulate, r)
            t.ok(np.array_equal(back.reshape(M, nb), w), key + ":displaced", "a symbol displaced by less than half the minimum distance "
                 "demodulates to its word", direction=k)
            t.state(key, "displaced", k)
            t.trace()
    elif part == "pairs":
        a, b = np.divmod(np.arange(M * M), M)
        for i in range(0, M * M, 4096):
            aa, bb = a[i:i + 4096], b[i:i + 4096]
            for x, y in zip(aa, bb):
                bits = np.concatenate([w[x], w[y]])[None]
                s = np.asarray(t.call(probe.modulate, bits))
                t.ok(s.shape == (1, 2) and s[0, 0] == syms[x] and s[0, 1] == syms[y], key + ":pair", "words map independently", words=[int(x), int(y)])
                back = t.call(probe.demodulate, s)
                t.ok(np.array_equal(back, bits), key + ":pair-demod", "words demodulate independently", words=[int(x), int(y)])
                t.state(key, x, y)
                t.trace({"pair": [int(x), int(y)], "M": M})
    elif part == "lengths":
        maxmodes = 3 if tier == "quick" else 4
        for nmodes in range(1, maxmodes + 1):
            for L in range(1, (5 if tier == "quick" else 9) * nb + 2):
                src = np.resize(w[::-1].ravel() if nmodes == 1 else w.ravel(), L * nmodes).reshape(nmodes, L)
                ns = L // nb
                exp = src[:, :ns * nb]
                for kind, arr in (("bool", src), ("int", src.astype(int)), ("uint8", src.astype(np.uint8))):
                    mod = np.asarray(t.call(probe.modulate, arr))
                    val = exp.reshape(nmodes, ns, nb).dot(1 << np.arange(nb - 1, -1, -1)) if ns else np.zeros((nmodes, 0), int)
                    t.ok(mod.shape == (nmodes, ns) and np.array_equal(mod, syms[val]), key + ":length:" + kind,
                         "modulate maps every complete word of every mode", nmodes=nmodes, bits=L)
                    t.state(key, nmodes, L, kind)
                    if ns == 0:
                        continue
                    if kind == "bool":
                        s = t.call(cls.from_bit_array, arr, M, fb=3.5, dtype=dtype)
                        t.ok(s.shape == (nmodes, ns) and np.array_equal(np.asarray(s), mod), key + ":from-length",
                             "from_bit_array agrees with modulate", nmodes=nmodes, bits=L)
                        t.ok(s.fb == 3.5 and s.fs == 3.5 and s.os == 1, key + ":rates", "from_bit_array sets the symbol rate")
                        back = t.call(s.demodulate, s)
                        t.ok(np.array_equal(back, exp), key + ":demod-length", "demodulate gives back the transmitted words",
                             nmodes=nmodes, bits=L)
                        t.ok(np.array_equal(bits_of(s.bits), exp), key + ":bits-length", "bits holds exactly the transmitted bits",
                             nmodes=nmodes, bits=L, got=np.shape(s.bits))
                t.trace({"nmodes": nmodes, "bits": L, "M": M})
            # 1-D input
            one = t.call(probe.modulate, w.ravel())
            t.ok(one.shape == (1, M), key + ":1d", "1-D bits give one mode")
    elif part == "symbols":
        # signals rebuilt from a symbol array carry the same symbols and bits in every mode
        for nmodes in (1, 2, 3):
            orders = [np.roll(np.arange(M), 3 * i)[::(1 if i % 2 == 0 else -1)] for i in range(nmodes)]
            arr = np.array([syms[o] for o in orders])
            for scale in ((1.0,) if name == "PSK" else (1.0, 0.5, 2.0)):
                a = (arr * scale).astype(dtype)
                keep = a.copy()
                s = t.call(cls.from_symbol_array, a, M=M, fb=2)
                t.ok(np.array_equal(a, keep), key + ":src", "from_symbol_array leaves its argument alone")
                t.ok(np.max(abs(np.asarray(s) - a)) < tol_of(dtype), key + ":from_syms", "from_symbol_array keeps the symbols", nmodes=nmodes,
                     scale=scale)
                back = t.call(s.demodulate, s)
                exp = np.array([w[o].ravel() for o in orders])
                t.ok(back.shape == exp.shape and np.array_equal(back, exp), key + ":from_syms-demod",
                     "a signal rebuilt from symbols demodulates to the same bits", nmodes=nmodes, scale=scale)
                t.ok(np.size(s.bits) == exp.size and np.array_equal(bits_of(s.bits).reshape(exp.shape), exp), key + ":from_syms-bits",
                     "a signal rebuilt from symbols holds the bits of all modes", nmodes=nmodes, got=np.shape(s.bits))
                t.ok(s.M == M and s.fb == 2 and s.fs == 2 and s.dtype == np.dtype(dtype), key + ":from_syms-attrs", "order, rates and precision are set")
                t.ok(np.array_equal(np.asarray(s.symbols), np.asarray(s)), key + ":from_syms-symbols", "symbols holds the symbols")
                t.state(key, nmodes, scale, back)
                t.trace({"nmodes": nmodes, "scale": scale, "M": M})
        if M <= 64:
            s = t.call(cls.from_symbol_array, np.array([syms]))
            t.ok(s.M == M, key + ":guess", "the order is deduced from the number of different symbols")
            s = t.call(cls.from_symbol_array, syms.copy(), M=M)
            t.ok(s.shape == (1, M) and np.array_equal(t.call(s.demodulate, s)[0], w.ravel()), key + ":1d-symbols", "1-D symbols give one mode")
            s = t.call(cls.from_bit_array, w.ravel(), M)
            t.ok(s.shape == (1, M) and np.max(abs(np.asarray(s)[0] - syms)) < tol_of(dtype), key + ":1d-bits", "1-D bits give one mode")
            other = np.complex64 if dt == "c16" else np.complex128
            s = t.call(cls.from_symbol_array, np.array([syms]), M=M, dtype=other)
            t.ok(s.dtype == np.dtype(other) and np.array_equal(t.call(s.demodulate, s)[0], w.ravel()), key + ":cast",
                 "the precision can be chosen when rebuilding")
            t.trace()
        # random and PRBS constructors: bits, symbols and samples belong together
        for nmodes in (1, 2, 3):
            for bitclass, kw in ((signals.RandomBits, {"seed": 5}), (signals.PRBSBits, {"seed": [3, 5, 9], "order": [7, 15, 23]})):
                for N in (1, 2, 17):
                    s = t.call(cls, M, N, nmodes=nmodes, fb=7.0, bitclass=bitclass, dtype=dtype, **kw)
                    t.ok(s.shape == (nmodes, N) and np.shape(s.bits) == (nmodes, N * nb), key + ":ctor-shape", "N symbols per mode", N=N, nmodes=nmodes)
                    t.ok(s.fb == 7.0 and s.fs == 7.0 and s.M == M and s.dtype == np.dtype(dtype), key + ":ctor-attrs", "attributes are set")
                    b = bits_of(s.bits).reshape(nmodes, N, nb)
                    val = b.dot(1 << np.arange(nb - 1, -1, -1))
                    t.ok(np.array_equal(np.asarray(s), syms[val]), key + ":ctor-map", "the samples are the symbols of the bits", N=N, nmodes=nmodes)
                    t.ok(np.array_equal(np.asarray(s.symbols), np.asarray(s)), key + ":ctor-symbols", "symbols equals the samples")
                    t.ok(np.array_equal(t.call(s.demodulate, s), bits_of(s.bits)), key + ":ctor-demod", "demodulate returns bits")
                    t.state(key, bitclass.__name__, nmodes, N, np.asarray(s))
                    t.trace()


def bert(t, dtype, dt):
    key = "bert:" + dt
    w = words(4)
    probe = signals.SignalQAMGrayCoded(4, 4, dtype=dtype)
    syms = np.asarray(probe.modulate(w.reshape(1, -1)))[0]
    for N in (8, 31, 64):
        for nmodes in (1, 2):
            orders = ((15, 23)[:nmodes], (23, 15)[:nmodes])
            for shI in (0, 1, 5):
                for shQ in (0, 3, N - 1):
                    for inv in ((False, False), (True, False), (False, True), (True, True)):
                        s = t.call(signals.QPSKfromBERT, N, nmodes=nmodes, fb=2.5, prbsorders=orders, prbsshifts=(shI, shQ), prbsinvert=inv, dtype=dtype)
                        bi = [np.roll(np.asarray(signals.make_prbs_extXOR(o, N)).astype(bool), shI) ^ inv[0] for o in orders[0]]
                        bq = [np.roll(np.asarray(signals.make_prbs_extXOR(o, N)).astype(bool), shQ) ^ inv[1] for o in orders[1]]
                        val = 2 * np.array(bi).astype(int) + np.array(bq)
                        t.ok(s.shape == (nmodes, N) and np.array_equal(np.asarray(s), syms[val]), key + ":map",
                             "I and Q carry the shifted, inverted patterns", N=N, shifts=[shI, shQ], inv=inv, nmodes=nmodes)
                        t.ok(np.array_equal(t.call(s.demodulate, s), bits_of(s.bits)), key + ":demod", "demodulate returns bits")
                        t.ok(s.fb == 2.5 and s.fs == 2.5 and s.M == 4, key + ":attrs", "attributes are set")
                        t.state(N, nmodes, shI, shQ, inv, np.asarray(s))
                        t.trace({"N": N, "shifts": [shI, shQ], "inv": inv})


def randoms(t, dtype, dt):
    """bit sources are reproducible functions of their seeds"""
    for N in (1, 5, 64):
        for nmodes in (1, 2, 3):
            for seed in (0, 1, 99):
                a = t.call(signals.RandomBits, N, nmodes=nmodes, seed=seed)
                np.random.rand(3)
                b = t.call(signals.RandomBits, N, nmodes=nmodes, seed=seed)
                t.ok(a.shape == (nmodes, N) and a.dtype == bool and np.array_equal(a, b), "randombits", "the same seed gives the same bits", N=N, seed=seed)
                s = t.call(signals.SignalQAMGrayCoded, 16, N, nmodes=nmodes, seed=seed, dtype=dtype)
                s2 = t.call(signals.SignalQAMGrayCoded, 16, N, nmodes=nmodes, seed=seed, dtype=dtype)
                t.ok(np.array_equal(s, s2), "seeded", "the same seed gives the same signal", N=N, seed=seed)
                t.state(N, nmodes, seed, np.asarray(a))
                t.trace({"N": N, "seed": seed})
