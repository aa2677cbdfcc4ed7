"""C22: SNR estimation: power of the symbol means over power around the means, per mode."""
import itertools
import numpy as np
from qampy import signals
from qampy.core.pythran_dsp import estimate_snr

RULE = "a trace is one received signal (one assignment of symbols and displacements) whose SNR estimate was compared with the definition"
BOUNDS = {
    "quick": "every sequence of 2 to 4 symbols of BPSK and QPSK with every displacement out of 5 per symbol, both precisions; signals of orders 2..256 in 1 to 3 modes under "
             "gains, rotations and offsets, received longer and shorter than sent, shifted by every one of 17 shifts and in every order of modes; every choice of frames",
    "thorough": "sequences of 5 symbols",
}
Q, P = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
DISP = [0, 0.1, -0.1, 0.2j, 0.15 - 0.3j]


def shards(tier, seed):
    out = [["small", c, M, n, dt, tier] for c, M in (("P", 2), ("Q", 4), ("P", 4)) for n in (2, 3) for dt in DT]
    out += [["small", "P", 2, n, "c16", tier] for n in ((4,) if tier == "quick" else (4, 5))] + [["small4", a] for a in range(4)]
    out += [["signal", c, M, dt, seed] for c, M in [("Q", m) for m in (4, 8, 16, 32, 64, 128, 256)] + [("P", m) for m in (2, 4, 8, 16)] for dt in DT]
    return out + [["sync", seed], ["pilots", seed], ["normalise", seed]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def ref(rx, tx):
    """sums written out symbol by symbol"""
    S, N, L = 0.0, 0.0, len(rx)
    groups = {}
    for k in range(L):
        groups.setdefault(complex(tx[k]), []).append(complex(rx[k]))
    for g in groups.values():
        mu = sum(g) / len(g)
        S += abs(mu)**2 * len(g) / L
        N += sum(abs(v - mu)**2 for v in g) / L
    return S, N


def check(t, key, res, rx, tx, tol):
    snr, s0, n0 = res
    S, N = ref(rx, tx)
    t.ok(abs(s0 - S) < tol * (1 + S) and abs(n0 - N) < tol, key + ":powers", "power of the means and power around them", got=(s0, n0), expected=(S, N))
    if N > 1e3 * tol:
        t.ok(abs(snr - S / N) < 1e3 * tol * S / N + tol, key, "their ratio", got=snr, expected=S / N)
    t.trace()


def do_small(t, c, M, n, dt, tier):
    s = {"Q": Q, "P": P}[c](M, 16, nmodes=1, dtype=DT[dt], seed=1)
    al = np.asarray(s.coded_symbols)
    tol = 1e-10 if dt == "c16" else 1e-5
    for i in itertools.product(range(M), repeat=n):
        for d in itertools.product(DISP, repeat=n):
            tx = al[list(i)]
            rx = (tx + np.array(d)).astype(DT[dt])
            ok, r = t.attempt("small", estimate_snr, rx, tx, al)
            if ok:
                check(t, "small:%s:%d:%s:%s:%s" % (c, M, dt, i, d), r, rx, tx, tol)
    t.state(c, M, n, dt)


def do_small4(t, a):
    al = np.asarray(Q(4, 16, nmodes=1, seed=1).coded_symbols)
    for i in itertools.product(range(4), repeat=3):
        for d in itertools.product(DISP[:4], repeat=4):
            tx = al[[a] + list(i)]
            rx = tx + np.array(d)
            ok, r = t.attempt("small4", estimate_snr, rx, tx, al)
            if ok:
                check(t, "small4:%s:%s" % ((a,) + i, d), r, rx, tx, 1e-10)


def noisy(s, seed, size=0.1):
    r = np.random.RandomState(seed)
    n = (r.randn(*s.shape) + 1j * r.randn(*s.shape)) * size * np.arange(1, s.shape[0] + 1)[:, None]
    return s.recreate_from_np_array((np.asarray(s) + n).astype(s.dtype))


def do_signal(t, c, M, dt, seed):
    tol = 1e-9 if dt == "c16" else 3e-5
    for m, N in itertools.product((1, 2, 3), (40, 700)):
        s = {"Q": Q, "P": P}[c](M, N, nmodes=m, dtype=DT[dt], seed=seed, fb=1e9)
        tx = np.asarray(s.symbols)
        for g, off in itertools.product((1, 0.3, 2 - 1j, -1j), (0, 0.4 + 0.1j)):
            rx = noisy(s, seed + M + m)
            rx = rx.recreate_from_np_array((np.asarray(rx) * g + off).astype(DT[dt]))
            for given, L in ((False, N), (True, N), (False, N - 7), (False, 2 * N + 5), (False, N + 1)):
                y = np.resize(np.tile(np.asarray(rx), 3)[:, :L], (m, L)) if L != N else np.asarray(rx)
                y = rx.recreate_from_np_array(np.ascontiguousarray(y))
                key = "signal:%s:%d:%s:%d:%d:%s:%s:%d:%s" % (c, M, dt, m, N, g, off, L, given)
                ok, r = t.attempt(key, y.est_snr, synced=True, verbose=True, **({"symbols_tx": s.symbols} if given else {}))
                if ok:
                    want = np.tile(tx, 3)[:, :L]
                    for i in range(m):
                        check(t, key + ":%d" % i, [v[i] for v in r], np.asarray(y)[i], want[i], tol)
                    ok, r2 = t.attempt(key, y.est_snr, synced=True)
                    t.ok(ok and r2.shape == (m,) and np.array_equal(r2, r[0]), key + ":plain", "the same estimate without the powers")
                    ok, r2 = t.attempt(key, s.est_snr, signal_rx=y, synced=True)
                    t.ok(ok and np.array_equal(r2, r[0]), key + ":other", "the received signal given as argument")
                    t.state(key, r[0])


def do_sync(t, seed):
    for M, m in ((4, 1), (4, 2), (16, 2), (64, 3)):
        s = Q(M, 600, nmodes=m, seed=seed, fb=1e9)
        for size in (0.02, 0.15):
            rx = noisy(s, seed + M, size)
            plain = rx.est_snr(synced=True)
            for shift in (0, 1, 2, 5, 17, 63, 64, 100, 255, 299, 300, 301, 402, 500, 590, 598, 599):
                for p in itertools.permutations(range(m)):
                    y = s.recreate_from_np_array(np.ascontiguousarray(np.roll(np.asarray(rx)[list(p)], shift, -1)))
                    key = "sync:%d:%d:%g:%d:%s" % (M, m, size, shift, p)
                    ok, r = t.attempt(key, y.est_snr)
                    if ok:
                        t.ok(r.shape == (m,) and np.allclose(r, plain[list(p)], rtol=1e-8), key, "the SNR of each received mode, whatever its shift and place", got=r, expected=plain[list(p)])
                    t.trace({"key": key})


def do_normalise(t, seed):
    """normalising to the power of the symbols"""
    for M, m, dt in itertools.product((2, 4, 8, 16, 64), (1, 2, 3), DT):
        s = (P if M == 2 else Q)(M, 600, nmodes=m, dtype=DT[dt], seed=seed, fb=1e9)
        for size, g, off, shift in itertools.product((0.01, 0.2, 1.5), (1, 0.3, 2 - 1j), (0, 0.4 + 0.1j), (None, 0, 37, 301)):
            if size > 1 and shift is not None:
                continue
            n = np.asarray(noisy(s, seed + m, size))
            gains = g * (1 + np.arange(m))[:, None] if shift is None else g.real * (1 + np.arange(m))[:, None]
            a = ((n * gains + off) if shift is None else np.roll(n * gains + off, shift, -1)).astype(DT[dt])
            y = s.recreate_from_np_array(a.copy())
            key = "normalise:%d:%d:%s:%g:%s:%s:%s" % (M, m, dt, size, g, off, shift)
            ok, _ = t.attempt(key, y.normalize_and_center, symbol_based=True, **({"synced": True} if shift is None else {}))
            if not ok:
                continue
            c = a.astype(complex)
            c = c - c.mean(-1)[:, None]
            for i in range(m):
                back = c[i] if shift is None else np.roll(c[i], -shift)
                S, _ = ref(back, np.round(np.asarray(s)[i], 5))
                t.ok(np.allclose(np.asarray(y)[i], c[i] / np.sqrt(S), rtol=1e-4, atol=1e-8 if dt == "c16" else 1e-4), key + ":%d" % i,
                     "centred, and divided by the root of the power of its symbols", got=np.asarray(y)[i, :3], expected=c[i, :3] / np.sqrt(S))
            t.trace({"key": key})


def do_pilots(t, seed):
    for M, m, nf in itertools.product((4, 16), (1, 2), (1, 2, 3)):
        s = signals.SignalWithPilots(M, 512, 64, 16, nframes=nf, nmodes=m, seed=seed, fb=1e9)
        rx = noisy(s, seed + nf, 0.08)
        a, one = np.asarray(rx), np.asarray(s)
        pil = np.tile(s._idx_pil, nf)
        for frames in [None] + [list(f) for k in range(1, nf + 1) for f in itertools.permutations(range(nf), k)]:
            pick = np.concatenate([np.arange(512) + 512 * f for f in (range(nf) if frames is None else frames)])
            for pilots in (False, True):
                idx = pick[pil[pick] == pilots]
                key = "pilots:%d:%d:%d:%s:%s" % (M, m, nf, frames, pilots)
                ok, r = t.attempt(key, rx.est_snr, frames=frames, use_pilots=pilots)
                if ok:
                    for i in range(m):
                        S, N = ref(a[i, idx], np.round(one[i, idx], 9))
                        t.ok(r.shape == (m,) and abs(r[i] - S / N) < 1e-7 * S / N, key + ":%d" % i, "the SNR of the %s of the chosen frames" % ("pilots" if pilots else "payload"), got=r[i], expected=S / N)
                t.trace({"key": key})
            # a received payload given as argument, shifted and in another order of modes
            d = rx.get_data(frames)
            want = d.est_snr(synced=True)
            for p in itertools.permutations(range(m)):
                if nf > 1 and len(pick) > 512:
                    continue
                for shift in (0, 3, 101):
                    y = d.recreate_from_np_array(np.ascontiguousarray(np.roll(np.asarray(d)[list(p)], shift, -1)))
                    key = "pilotsync:%d:%d:%d:%s:%s:%d" % (M, m, nf, frames, p, shift)
                    ok, r = t.attempt(key, rx.est_snr, signal_rx=y, synced=False)
                    t.ok(ok and np.allclose(r, want[list(p)], rtol=1e-8), key, "the SNR of each received mode, whatever its shift and place", got=r, expected=want[list(p)])
                    ok, r = t.attempt(key, rx.est_snr, signal_rx=y, symbols_tx=np.ascontiguousarray(np.roll(np.asarray(d.symbols)[list(p)], shift, -1)))
                    t.ok(ok and np.allclose(r, want[list(p)], rtol=1e-8), key + ":given", "the given symbols are the reference", got=r, expected=want[list(p)])
                    t.trace()
