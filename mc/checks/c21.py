"""C21: soft metrics: L-values, GMI and MI of every received symbol against brute-force sums over the alphabet."""
import itertools
import numpy as np
from qampy import signals, theory
from qampy.core import signal_quality as sq
from mc.core import close

RULE = ("a trace is one received symbol (or one received signal) whose L-values, GMI or MI was compared with the sum over the whole alphabet")
BOUNDS = {
    "quick": "orders 2..256 (QAM, PSK to 32) x both precisions x 8 SNRs from -10 to 60 dB x a 15x15 grid of received symbols; GMI and MI of signals in which every "
             "symbol of the alphabet is received with every one of 9 displacements; all ways to give the SNR",
    "thorough": "orders to 1024, 31x31 grid",
}
Q, P = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
SNRS = (-10, 0, 5, 10, 20, 30, 40, 60)


def shards(tier, seed):
    qam = [4, 8, 16, 32, 64, 128, 256] + ([512, 1024] if tier != "quick" else [])
    cls = [["Q", M] for M in qam] + [["P", M] for M in (2, 4, 8, 16, 32)]
    out = [["lvalues", c, M, dt, tier] for c, M in cls for dt in DT]
    out += [["metrics", c, M, dt, seed] for c, M in cls for dt in DT if M <= 256]
    out += [["theory", seed], ["pilots", seed], ["sync", seed]]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def make(c, M, N, **kw):
    return {"Q": Q, "P": P}[c](M, N, **kw)


def lse(a, axis):
    m = a.max(axis=axis, keepdims=True)
    return np.squeeze(m, axis) + np.log(np.sum(np.exp(a - m), axis=axis))


def ref_l(rx, alphabet, bits, snr):
    """log of the ratio of the likelihoods of one and zero, for every bit"""
    d = -snr * np.abs(np.asarray(rx)[:, None] - alphabet)**2
    soft, hard = [], []
    for k in range(bits.shape[1]):
        one, zero = d[:, bits[:, k]], d[:, ~bits[:, k]]
        soft.append(lse(one, 1) - lse(zero, 1))
        hard.append(one.max(1) - zero.max(1))
    return np.array(soft).T, np.array(hard).T


def code(s):
    al = np.asarray(s.coded_symbols)
    return al.astype(complex), np.asarray(s._encoding if hasattr(s, "_encoding") else s.demodulate(al[None]).reshape(len(al), -1)).astype(bool)


def near(a, b, tol):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def do_lvalues(t, c, M, dt, tier):
    s = make(c, M, 64, nmodes=1, dtype=DT[dt], seed=1)
    al, bits = code(s)
    n = 15 if tier == "quick" else 31
    g = np.linspace(-2, 2, n)
    rx = np.ascontiguousarray(np.concatenate([(g[:, None] + 1j * (g + 0.013)).ravel(), al, [0]]).astype(DT[dt]))
    mtx = sq.generate_bitmapping_mtx(s.coded_symbols, bits, M, dtype=DT[dt])
    own = s._bitmap_mtx
    for k in range(bits.shape[1]):
        for v in (0, 1):
            w = al[bits[:, k] == bool(v)]
            for m, nm in ((mtx, "generated"), (own, "own")):
                t.ok(m.shape == (bits.shape[1], M // 2, 2) and close(np.sort_complex(m[k, :, v].astype(complex)), np.sort_complex(w), 1e-6), "bitmap:%s:%s:%d:%d" % (nm, c, M, k),
                     "for each value of each bit the symbols that carry it")
    tol = 1e-7 if dt == "c16" else 2e-3
    for snr in SNRS:
        lin = 10.0**(snr / 10)
        soft, hard = ref_l(rx.astype(complex), al, bits, lin)
        key = "l:%s:%d:%s:%d" % (c, M, dt, snr)
        ok, l = t.attempt(key, sq.soft_l_value_demapper, rx, bits.shape[1], lin, own)
        if ok:
            scale = max(1, lin) if dt == "c8" else 1
            t.ok(l.shape == soft.shape and np.all(np.isfinite(l)) and np.all(np.abs(l - soft) <= tol * (1 + np.abs(soft)) * scale), key, "log-likelihood ratio of every bit",
                 got=l[:4], expected=soft[:4])
            t.state(key, l)
        ok, l = t.attempt(key + ":minmax", sq.soft_l_value_demapper_minmax, rx, bits.shape[1], lin, own)
        if ok:
            t.ok(l.shape == hard.shape and np.all(np.abs(l - hard) <= tol * (1 + np.abs(hard)) * (max(1, lin) if dt == "c8" else 1)), key + ":minmax",
                 "difference of the smallest distances", got=l[:4], expected=hard[:4])
        for _ in rx:
            t.trace()
    # far away from the constellation
    far = np.array([150 + 10j, -300j, 120.0], DT[dt])
    soft, hard = ref_l(far.astype(complex), al, bits, 1.0)
    for fn, want in ((sq.soft_l_value_demapper, soft), (sq.soft_l_value_demapper_minmax, hard)):
        ok, l = t.attempt("far:%s" % fn.__name__, fn, far, bits.shape[1], 1.0, own)
        if ok:
            t.ok(np.all(np.abs(l - want) <= (1e-6 if dt == "c16" else 0.05) * (1 + np.abs(want))), "far:%s:%s:%d" % (fn.__name__, c, M), "symbols far away", got=l, expected=want)


DISP = [complex(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


def signal(c, M, dt, seed, size, m=2):
    """every symbol of the alphabet received with every one of nine displacements; the modes differ in order and size"""
    s0 = make(c, M, 16, nmodes=1, dtype=DT[dt], seed=seed)
    al = np.asarray(s0.coded_symbols)
    r = np.random.RandomState(seed + M)
    idx = np.array([r.permutation(np.repeat(np.arange(M), len(DISP))) for _ in range(m)])
    tx = make(c, M, idx.shape[1], nmodes=m, dtype=DT[dt], seed=seed)
    tx = type(tx).from_symbol_array(np.ascontiguousarray(al[idx]), fb=1e9, M=M)
    e = np.zeros(idx.shape, complex)
    for i in range(m):
        for k in range(M):
            e[i, idx[i] == k] = np.array(DISP) * size * (1 + i)
    rx = tx.recreate_from_np_array((np.asarray(tx) + e).astype(DT[dt]))
    return tx, rx, idx, e


def do_metrics(t, c, M, dt, seed):
    tol = 1e-7 if dt == "c16" else 2e-3
    for size in (0.02, 0.1, 0.4):
        ok, res = t.attempt("metrics:signal:%s:%d" % (c, M), signal, c, M, dt, seed, size)
        if not ok:
            return
        tx, rx, idx, e = res
        al, bits = code(tx)
        a = np.asarray(rx).astype(complex)
        sym = al[idx]
        # what the estimate has to be: the displacements of each symbol have zero mean
        true = np.mean(np.abs(sym)**2, -1) / np.mean(np.abs(e)**2, -1)
        given = [None, 3.0, 12.0, 25.0, [12.0, 7.0], np.array([25.0, 40.0]), 60.0]
        for snr in given:
            lin = true if snr is None else 10**(np.ones(2) * np.asarray(snr) / 10)
            want, wmax, wmi = [], [], []
            for i in range(2):
                soft, hard = ref_l(a[i], al, bits, lin[i])
                b = np.where(bits[idx[i]], -1, 1)
                want.append(1 - np.mean(np.logaddexp(0, b * soft), 0) / np.log(2))
                wmax.append(1 - np.mean(np.logaddexp(0, b * hard), 0) / np.log(2))
                d = -(np.abs(a[i][:, None] - al)**2 - np.abs(a[i] - sym[i])[:, None]**2) * lin[i]
                wmi.append(np.log2(M) - np.mean(lse(d, 1)) / np.log(2))
            key = "%s:%d:%s:%g:%s" % (c, M, dt, size, snr if snr is None or np.isscalar(snr) else list(snr))
            kw = {} if snr is None else {"snr": snr}
            g = max(1, np.max(lin)) if dt == "c8" else 1
            for name, k2, w in (("gmi", {}, want), ("minmax", {"llr_minmax": True}, wmax)):
                ok, r = t.attempt(name + ":" + key, rx.cal_gmi, synced=True, **kw, **k2)
                if ok:
                    gmi, per = r
                    w = np.array(w)
                    t.ok(per.shape == (2, bits.shape[1]) and near(per, w, tol * g), name + ":bits:" + key, "GMI of every bit", got=per, expected=w)
                    t.ok(near(gmi, w.sum(-1), tol * g * 3), name + ":" + key, "sum over the bits", got=gmi, expected=w.sum(-1))
                    t.state(name, key, gmi)
                t.trace({"key": name + key})
            ok, mi = t.attempt("mi:" + key, rx.cal_mi, synced=True, **kw)
            if ok:
                t.ok(near(np.asarray(mi), np.array(wmi), tol * g), "mi:" + key, "mutual information", got=mi, expected=wmi)
                t.trace()
            if M <= 32 and dt == "c16" and (snr is None or (np.isscalar(snr) and snr == 12.0)):
                ok, mi = t.attempt("mislow:" + key, rx.cal_mi, synced=True, fast=False, **kw)
                if ok:
                    w = []
                    for i in range(2):
                        d = -(np.abs(al[:, None] - al)[:, None, :]**2 + 2 * np.real((al[:, None] - al)[:, None, :] * (a[i] - sym[i]).conj()[None, :, None])) * lin[i]
                        w.append(np.log2(M) - np.mean(lse(d, 2)) / np.log(2))
                    t.ok(near(np.asarray(mi), np.array(w), 1e-6), "mislow:" + key, "mutual information averaged over all symbols", got=mi, expected=w)
    # no noise to speak of: all bits get through
    y = tx.recreate_from_np_array((np.asarray(tx) * DT[dt](1 + 1e-4)))
    for snr in (40.0, 60.0, 90.0):
        if 10**(snr / 10) * np.min(np.abs(al[:, None] - al)[np.arange(M)[:, None] != np.arange(M)])**2 < 200:
            continue
        ok, r = t.attempt("clean:%s:%d" % (c, M), y.cal_gmi, synced=True, snr=snr)
        if ok:
            t.ok(near(r[0], np.ones(2) * np.log2(M), 1e-6), "clean:%s:%d:%g" % (c, M, snr), "a clean signal carries all its bits", got=r[0])
        ok, r = t.attempt("clean:%s:%d" % (c, M), y.cal_mi, synced=True, snr=snr)
        if ok:
            t.ok(near(r, np.ones(2) * np.log2(M), 1e-6), "clean:mi:%s:%d:%g" % (c, M, snr), "a clean signal carries all its information", got=r)
    # one symbol in the middle of the constellation must not make the result undefined
    z = np.asarray(tx).copy()
    z[:, 3] = 0
    z = tx.recreate_from_np_array(z)
    for snr in (10.0, 30.0, 60.0):
        for k2 in ({}, {"llr_minmax": True}):
            ok, r = t.attempt("middle:%s:%d" % (c, M), z.cal_gmi, synced=True, snr=snr, **k2)
            if ok:
                t.ok(np.all(np.isfinite(r[1])), "middle:%s:%d:%g" % (c, M, snr), "finite", got=r[1])


def do_sync(t, seed):
    """GMI and MI of signals that are shifted, rotated and have their modes in another order"""
    for M, m in ((4, 1), (4, 2), (16, 2), (64, 3)):
        s = Q(M, 600, nmodes=m, seed=seed, fb=1e9)
        r = np.random.RandomState(seed + M)
        n = (r.randn(*s.shape) + 1j * r.randn(*s.shape)) * 0.1 * np.arange(1, m + 1)[:, None]
        a = np.asarray(s) + n
        for snr in (None, 15.0, list(12.0 + 2 * np.arange(m))):
            ref = s.recreate_from_np_array(a.copy())
            for shift in (0, 1, 17, 64, 299, 300, 301, 590, 599):
                for p in itertools.permutations(range(m)):
                    p = list(p)
                    sn = snr
                    if isinstance(snr, list):
                        sn = [snr[i] for i in p]           # belongs to the received mode
                    kw = {} if snr is None else {"snr": sn}
                    k0 = {} if snr is None else {"snr": snr}
                    y = np.ascontiguousarray(np.roll(a[p], shift, -1))
                    key = "sync:%d:%d:%s:%d:%s" % (M, m, snr, shift, p)
                    for obj, how in ((s.recreate_from_np_array(y), {}), (s, {"signal_rx": s.recreate_from_np_array(y)})):
                        ok, g = t.attempt(key + ":gmi", obj.cal_gmi, **how, **kw)
                        w = ref.cal_gmi(synced=True, **k0)
                        t.ok(ok and g[0].shape == (m,) and near(g[0], w[0][p], 1e-8) and near(g[1], w[1][p], 1e-8), key + ":gmi", "GMI of each received mode, whatever its shift and place",
                             got=g, expected=w)
                        ok, g = t.attempt(key + ":mi", obj.cal_mi, **how, **kw)
                        w = ref.cal_mi(synced=True, **k0)
                        t.ok(ok and g.shape == (m,) and near(g, w[p], 1e-8), key + ":mi", "MI of each received mode, whatever its shift and place", got=g, expected=w)
                    t.trace({"key": key})


def do_theory(t, seed):
    """Monte-Carlo functions against the Gauss-Hermite integral"""
    x, w = np.polynomial.hermite.hermgauss(24)
    for M in (4, 16, 64):
        s = Q(M, 64, nmodes=1, seed=seed)
        al, bits = code(s)
        for snr in (0.0, 8.0, 15.0):
            lin = 10**(snr / 10)
            z = (x[:, None] + 1j * x).ravel() / np.sqrt(lin)
            W = (w[:, None] * w).ravel() / np.pi
            tot, mi = 0, 0
            for i, sy in enumerate(al):
                soft, _ = ref_l(sy + z, al, bits, lin)
                tot += np.sum(W[:, None] * np.logaddexp(0, np.where(bits[i], -1, 1) * soft) / np.log(2)) / M
                d = -(np.abs(sy + z[:, None] - al)**2 - np.abs(z)[:, None]**2) * lin
                mi += np.sum(W * lse(d, 1) / np.log(2)) / M
            gmi, mi = np.log2(M) - tot, np.log2(M) - mi
            n = 4000
            ok, g = t.attempt("theory:gmi:%d:%g" % (M, snr), theory.cal_gmi, M, snr, N=n)
            if ok:
                t.ok(abs(g[0] - gmi) < 8 / np.sqrt(n), "theory:gmi:%d:%g" % (M, snr), "Monte-Carlo GMI", got=g, expected=gmi)
            ok, g = t.attempt("theory:mi:%d:%g" % (M, snr), theory.sim_mi_mc, al.copy(), snr, n)
            if ok:
                t.ok(abs(g - mi) < 8 / np.sqrt(n), "theory:mi:%d:%g" % (M, snr), "Monte-Carlo MI", got=g, expected=mi)
            al2 = al * 3
            keep = al2.copy()
            ok, g2 = t.attempt("theory:mi:scale", theory.sim_mi_mc, al2, snr, n)
            t.ok(ok and abs(g2 - mi) < 8 / np.sqrt(n) and np.array_equal(al2, keep), "theory:mi:scale:%d:%g" % (M, snr), "independent of the scale of the alphabet, which is not changed")
            t.trace({"M": M, "snr": snr})
        ok, g = t.attempt("theory:gmi:array:%d" % M, theory.cal_gmi, M, np.array([0.0, 8.0, 15.0]), N=200)
        t.ok(ok and g.shape == (3,) and np.all(np.diff(g) > 0), "theory:gmi:array:%d" % M, "one value per SNR")


def do_pilots(t, seed):
    for M, nf in itertools.product((4, 16, 64), (1, 2, 3)):
        s = signals.SignalWithPilots(M, 512, 64, 16, nframes=nf, nmodes=2, seed=seed, fb=1e9)
        r = np.random.RandomState(seed + M)
        noise = 0.05 * (r.randn(*s.shape) + 1j * r.randn(*s.shape)) * np.array([[1], [1.5]])
        rx = s.recreate_from_np_array(np.asarray(s) + noise)
        al, bits = code(s.get_data([0]))
        for frames in [None] + [list(f) for k in range(1, nf + 1) for f in itertools.permutations(range(nf), k)]:
            d = rx.get_data() if frames is None else rx.get_data(frames)
            key = "pilots:%d:%d:%s" % (M, nf, frames)
            for snr in (None, 18.0, [18.0, 21.0]):
                ok, g = t.attempt(key, rx.cal_gmi, frames=frames, snr=snr)
                if not ok:
                    continue
                w = d.cal_gmi(synced=True, snr=snr)
                t.ok(close(g[0], w[0], 1e-9) and close(g[1], w[1], 1e-9), key + ":%s" % snr, "GMI of the payload of the chosen frames")
                for i in range(2):
                    own = np.asarray(d.symbols)[i]
                    own = np.tile(own, d.shape[1] // len(own))
                    idx = np.abs(own[:, None] - al).argmin(1)
                    lin = d.est_snr(synced=True)[i] if snr is None else 10**((snr if np.isscalar(snr) else snr[i]) / 10)
                    soft, _ = ref_l(np.asarray(d)[i], al, bits, lin)
                    v = 1 - np.mean(np.logaddexp(0, np.where(bits[idx], -1, 1) * soft), 0) / np.log(2)
                    t.ok(near(g[1][i], v, 1e-7), key + ":value:%s:%d" % (snr, i), "GMI of every bit", got=g[1][i], expected=v)
                t.trace({"key": key})
            p = rx.est_snr(use_pilots=True)
            ok, g = t.attempt(key + ":pilotsnr", rx.cal_gmi, frames=frames, use_pilot_snr=True)
            if ok:
                w = d.cal_gmi(synced=True, snr=10 * np.log10(p))
                t.ok(close(g[0], w[0], 1e-9), key + ":pilotsnr", "GMI with the SNR of the pilots")
        try:
            rx.cal_gmi(snr=10, use_pilot_snr=True)
        except AssertionError:
            t.trace()
        else:
            t.fail("pilots:both", "either the SNR or the pilots are given, not both")
