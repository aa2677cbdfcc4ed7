"""C15: carrier recovery: blind phase search, Viterbi-Viterbi, 16-QAM partitioning, frequency offset."""
import itertools
import numpy as np
from qampy import signals, phaserec
from qampy.core import phaserecovery as core
from mc.core import close

RULE = ("a trace is one recovery run on the real code; for the blind phase search every sample's angle is compared with the windowed distance of all test "
        "angles (any angle within rounding of the minimum is accepted), for the others the output is compared with the estimator's definition and the "
        "constant, drifting or jumping phase that was put in has to be removed")
BOUNDS = {
    "quick": "5 alphabets x all lengths to 16 x windows 1-4 x 1-12 test angles x 2 implementations x 2 precisions; every constant phase on a grid of 96, every "
             "drift on a grid; Viterbi: all lengths to 20, windows 1-8, orders 2-8; partition: every phase on a grid of 96, rings off their radius, "
             "blocks of every composition; frequency offsets: every FFT "
             "bin and points between the bins",
    "thorough": "lengths to 32, windows to 8, phase grids of 720",
}
Q, P = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
ASSUMPTIONS = ["test angles whose windowed distances differ by less than rounding are all accepted"]


def shards(tier, seed):
    out = []
    for M in (4, 16, 32, 64):
        for dt in DT:
            for meth in ("pyt", "py"):
                out.append(["metric", M, dt, meth, seed, tier])
                out.append(["recover", M, dt, meth, seed, tier])
            out.append(["scaled", M, dt, seed, tier])
            for B in (2, 3, 4, 6):
                out.append(["twostage", M, dt, B, seed, tier])
    out += [["viterbi", M, dt, seed, tier] for M in (2, 4, 8) for dt in DT]
    out += [["partition", dt, seed, tier] for dt in DT]
    out += [["freq", os, dt, seed, tier] for os in (1, 2) for dt in DT]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def tols(dt):
    return 1e-9 if dt == "c16" else 2e-4


def distances(E, angles, symbols):
    """|E exp(i angle) - nearest symbol|^2: (samples, angles); angles (1 or samples, angles)"""
    return (np.abs((E[:, None] * np.exp(1j * angles))[:, :, None] - symbols)**2).min(-1)


def windowed(d, N):
    """sum over samples n-N+1..n+N for the samples n with a complete window; None elsewhere"""
    L = d.shape[0]
    out = [None] * L
    for n in range(N, L - N):
        out[n] = d[n - N + 1:n + N + 1].sum(0)
    return out


def check_bps(t, key, E, ph, Eout, angles, symbols, N, dt):
    """ph, Eout of one mode"""
    tol = tols(dt)
    E, ph, Eout = (np.asarray(x) for x in (E, ph, Eout))
    L = E.shape[0]
    if not t.ok(ph.shape == (L,) and Eout.shape == (L,), key + ":shape", "one phase per sample"):
        return
    t.ok(close(Eout, E * np.exp(1j * ph), tol), key + ":output", "the output is the input rotated by the estimated phase")
    t.ok(Eout.dtype == E.dtype and ph.dtype == E.real.dtype, key + ":dtype", "the precision of the input")
    d = windowed(distances(E.astype(complex), angles.astype(float), symbols), N)
    bad = None
    step = np.pi / 2
    for n in range(L):
        if d[n] is None:
            continue
        k = np.abs((angles[0] - ph[n] + step / 2) % step - step / 2)
        j = k.argmin()
        if k[j] > 10 * tol or d[n][j] > d[n].min() + 10 * tol * (1 + d[n].min() + np.abs(E).max()**2):
            bad = n
            break
    t.ok(bad is None, key + ":metric", "the angle of each sample has the least distance within its window", sample=bad)
    inner = ph[N:L - N]
    if inner.size > 1:
        t.ok(np.all(np.abs(np.diff(inner)) <= np.pi / 4 + 10 * tol), key + ":unwrap", "the phases are unwrapped modulo a quarter turn")
    t.state(key, ph)


def do_metric(t, M, dt, meth, seed, tier):
    top, wins = (16, (1, 2, 3, 4)) if tier == "quick" else (32, (1, 2, 3, 4, 6, 8))
    al = Q(M, 4).coded_symbols.astype(DT[dt])
    for N, Mt in itertools.product(wins, (1, 2, 3, 4, 5, 8, 11, 12)):
        angles = np.linspace(-np.pi / 4, np.pi / 4, Mt, endpoint=False).reshape(1, -1)
        for L in range(2 * N + 1, top + 1):
            for m, kind in itertools.product((1, 2, 3), ("noise", "walk", "far")):
                if tier == "quick" and (L + N + Mt + m + len(kind)) % 2:
                    continue
                rng = np.random.default_rng([seed, N, Mt, L, m, len(kind)])
                E = rng.choice(al, (m, L)).astype(complex)
                E = E + (.1 if kind != "far" else 1.5) * (rng.standard_normal((m, L)) + 1j * rng.standard_normal((m, L)))
                E = (E * np.exp(1j * np.cumsum(rng.uniform(-.3, .3, (m, L)), -1) * (kind == "walk"))).astype(DT[dt])
                key = "metric:%d:%s:%s:%d:%d:%d:%d:%s" % (M, dt, meth, N, Mt, L, m, kind)
                E0 = E.copy()
                ok, r = t.attempt(key, core.bps, E, Mt, al, N, method=meth)
                if not ok:
                    continue
                t.ok(np.array_equal(E, E0), key + ":input", "the input is not changed")
                if not t.ok(np.shape(r[0]) == E.shape == np.shape(r[1]), key + ":shape", "the shape of the input"):
                    continue
                for i in range(m):
                    check_bps(t, key + ":mode%d" % i, E[i], r[1][i], r[0][i], angles, al, N, dt)
                if m == 1:
                    ok, r1 = t.attempt(key + ":1d", core.bps, E[0].copy(), Mt, al, N, method=meth)
                    if ok:
                        t.ok(np.array_equal(r1[0], r[0][0]) and np.array_equal(r1[1], r[1][0]), key + ":1d", "a one-dimensional signal gives the same")
                t.trace({"M": M, "N": N, "angles": Mt, "L": L, "modes": m})


def do_scaled(t, M, dt, seed, tier):
    """alphabets that are not normalised"""
    for scale, N, Mt in itertools.product((0.01, 20., 127., 3000.), (1, 3), (4, 7)):
        al = (scale * Q(M, 4).coded_symbols).astype(DT[dt])
        angles = np.linspace(-np.pi / 4, np.pi / 4, Mt, endpoint=False).reshape(1, -1)
        for th in np.arange(8) / 8 * np.pi / 2 + .01:
            rng = np.random.default_rng([seed, N, Mt])
            E = (rng.choice(al, (1, 14)) * np.exp(1j * th)).astype(DT[dt])
            key = "scaled:%d:%s:%g:%d:%d:%.2f" % (M, dt, scale, N, Mt, th)
            ok, r = t.attempt(key, core.bps, E, Mt, al, N)
            if ok:
                # in units of the alphabet
                check_bps(t, key, E[0] / DT[dt](scale), r[1][0], r[0][0] / DT[dt](scale), angles, al / scale, N, dt)
                t.trace({"scale": scale})


def quarter(x):
    return (x + np.pi / 4) % (np.pi / 2) - np.pi / 4


def do_recover(t, M, dt, meth, seed, tier):
    L, N, tol = {4: 24, 16: 30, 32: 40, 64: 50}[M], {4: 4, 16: 6, 32: 10, 64: 12}[M], tols(dt)
    grid = 96 if tier == "quick" else 720
    for m, Mt in itertools.product((1, 2), (8, 21, 32) if M == 4 else (21, 32) if M == 16 else (32,)):
        s = Q(M, L, nmodes=m, dtype=DT[dt], fb=1e9, seed=[seed, M])
        tx = np.asarray(s)
        for k in range(grid):
            th = (2 * np.pi * k / grid - np.pi) * np.array([1, -1])[:m, None]
            rx = s.recreate_from_np_array((tx * np.exp(1j * th)).astype(DT[dt]))
            key = "recover:%d:%s:%s:%d:%d:%d" % (M, dt, meth, m, Mt, k)
            ok, r = t.attempt(key, phaserec.bps, rx, Mt, N, method=meth)
            if not ok:
                continue
            t.ok(type(r[0]) is Q and r[0].fb == 1e9 and r[0].M == M, key + ":class", "a signal object comes back")
            e = quarter(np.asarray(r[1])[:, N:-N] + th)
            # the best test angle is the nearest one as long as the distance grows with the angle
            lim = np.pi / 4 / Mt if M == 4 else np.pi / 2 / Mt
            t.ok(np.all(np.abs(e) <= lim * 1.0001 + 10 * tol), key, "a constant phase is found to within the grid of the test angles", worst=np.abs(e).max(), limit=lim)
            t.state(key, np.asarray(r[1]))
            t.trace({"M": M, "phase": float(th[0, 0])} if k == 3 else None)
        # drifts: no slips
        for rate in np.linspace(-.03, .03, 13) * (1 if M < 32 else .3):
            s = Q(M, 300, nmodes=m, dtype=DT[dt], seed=[seed, M, 1])
            tx = np.asarray(s)
            th = rate * np.arange(300) * np.array([1, -.5])[:m, None] + .2
            rx = s.recreate_from_np_array((tx * np.exp(1j * th)).astype(DT[dt]))
            key = "drift:%d:%s:%s:%d:%d:%.3f" % (M, dt, meth, m, Mt, rate)
            ok, r = t.attempt(key, phaserec.bps, rx, Mt, N, method=meth)
            if ok:
                e = (np.asarray(r[1]) + th)[:, N:-N]
                k = np.round(e[:, :1] / (np.pi / 2)) * np.pi / 2
                t.ok(np.all(np.abs(e - k) < np.pi / 4 / Mt * 2 + 2 * N * abs(rate) + 1e-3), key, "the phase of a drifting carrier is followed without a slip",
                     worst=np.abs(e - k).max())
                t.trace({"M": M, "rate": float(rate)})


def do_twostage(t, M, dt, B, seed, tier):
    tol = tols(dt)
    al = Q(M, 4).coded_symbols.astype(DT[dt])
    for meth, N, Mt in itertools.product(("pyt", "py"), (1, 2, 3), (4, 7, 8)):
        angles = np.linspace(-np.pi / 4, np.pi / 4, Mt, endpoint=False)
        fine = np.linspace(-B / 2, B / 2, B) / (B * Mt) * np.pi / 2
        for L, m, kind in itertools.product(range(4 * N + 1, 4 * N + (6 if tier == "quick" else 16)), (1, 2), ("noise", "const", "wild")):
            rng = np.random.default_rng([seed, N, Mt, L, m])
            E = rng.choice(al, (m, L)).astype(complex)
            if kind != "const":
                E += (.05 if kind == "noise" else .5) * (rng.standard_normal((m, L)) + 1j * rng.standard_normal((m, L)))
            E = (E * np.exp(1j * rng.uniform(-.7, .7, (m, 1)))).astype(DT[dt])
            key = "twostage:%d:%s:%d:%s:%d:%d:%d:%d:%s" % (M, dt, B, meth, N, Mt, L, m, kind)
            E0 = E.copy()
            ok, r = t.attempt(key, core.bps_twostage, E, Mt, al, N, B=B, method=meth)
            if not ok:
                continue
            t.ok(np.array_equal(E, E0), key + ":input", "the input is not changed")
            Eo, ph = r
            if not t.ok(Eo.shape == E.shape == ph.shape and Eo.dtype == E.dtype and ph.dtype == E.real.dtype, key + ":shape", "shape and precision of the input"):
                continue
            t.ok(close(Eo, E * np.exp(1j * ph), tol), key + ":output", "the output is the rotated input")
            for i in range(m):
                d = windowed(distances(E[i].astype(complex), angles[None], al), N)
                first, sure = np.full(L, -np.pi / 4), True
                for n in range(L):
                    if d[n] is not None:
                        o = np.sort(d[n])
                        sure &= o[1] - o[0] > 20 * tol
                        first[n] = angles[d[n].argmin()]
                if not sure:
                    t.note("first stage ambiguous")
                    continue
                cand = first[:, None] + fine
                d2 = windowed(distances(E[i].astype(complex), cand, al), N)
                bad = None
                for n in range(L):
                    if d2[n] is None:
                        continue
                    e = np.abs(quarter(cand[n] - ph[i, n]))
                    j = e.argmin()
                    if e[j] > 10 * tol or d2[n][j] > d2[n].min() + 20 * tol:
                        bad = n
                t.ok(bad is None, key + ":mode%d" % i, "the refined angle has the least distance within its window", sample=bad)
                t.ok(np.all(np.abs(np.diff(ph[i])) <= np.pi / 4 + 10 * tol), key + ":unwrap", "the phases are unwrapped")
            t.state(key, ph)
            t.trace({"M": M, "B": B, "N": N, "angles": Mt, "L": L})
    s = Q(M, 40, nmodes=2, dtype=DT[dt], fb=1e9, seed=[seed, M])
    for k in range(48):
        th = 2 * np.pi * k / 48
        rx = s.recreate_from_np_array((np.asarray(s) * np.exp(1j * th)).astype(DT[dt]))
        key = "twostage:recover:%d:%s:%d:%d" % (M, dt, B, k)
        ok, r = t.attempt(key, phaserec.bps_twostage, rx, 16, 4, B=B)
        if ok:
            t.ok(type(r[0]) is Q and r[0].fb == 1e9, key + ":class", "a signal object")
            e = quarter(np.asarray(r[1])[:, 8:-8] + th)
            lim = np.pi / 2 / 16 * (.75 if B == 2 else .51)
            t.ok(np.all(np.abs(e) <= lim + 10 * tol), key, "a constant phase is found to within the grid", worst=np.abs(e).max(), limit=lim)
            t.trace()


def do_viterbi(t, M, dt, seed, tier):
    tol = 1e-9 if dt == "c16" else 3e-4
    top, wins = (20, range(1, 9)) if tier == "quick" else (40, range(1, 17))
    for N in wins:
        for L, m in itertools.product(range(N, top + 1), (1, 2)):
            rng = np.random.default_rng([seed, N, L, m])
            s = P(M, L, nmodes=m, dtype=DT[dt], fb=1e9, seed=[seed, L]) if M != 4 else Q(M, L, nmodes=m, dtype=DT[dt], fb=1e9, seed=[seed, L])
            tx = np.asarray(s)
            lo = (N - 1) // 2
            hi = lo + L - N + 1
            base = None
            for k in range(12):
                th = 2 * np.pi * k / 12 + .02
                noisy = k % 3 == 2
                E = tx * np.exp(1j * th)
                if noisy:
                    E = E * np.exp(1j * np.cumsum(rng.uniform(-.5, .5, (m, L)) / M, -1)) * rng.uniform(.5, 1.5, (m, L))
                E = E.astype(DT[dt])
                key = "viterbi:%d:%s:%d:%d:%d:%d" % (M, dt, N, L, m, k)
                rx = s.recreate_from_np_array(E)
                ok, r = t.attempt(key, phaserec.viterbiviterbi, rx, N)
                if not ok:
                    continue
                out, ph = np.asarray(r[0]), np.asarray(r[1])
                if not t.ok(out.shape == E.shape and ph.shape == (m, L - N + 1) and type(r[0]) is type(s), key + ":shape", "signal and one phase per complete window",
                            out=out.shape, ph=ph.shape):
                    continue
                raised = (E.astype(complex) / np.abs(E))**M
                est = np.array([[raised[i, j:j + N].sum() for j in range(L - N + 1)] for i in range(m)])
                # the phase of the sum of the M-th powers over the window, an M-th of it removed
                good = np.abs(est) > 1e-3
                t.ok(np.all(np.abs(np.exp(1j * M * ph) * np.abs(est) + est)[good] < 1e3 * tol * N), key + ":phase", "the phase is the M-th part of that of the averaged M-th power")
                t.ok(close(out[:, lo:hi], E[:, lo:hi] * np.exp(-1j * ph), tol), key + ":output", "the phase is removed from the centre of its window")
                t.ok(not np.any(out[:, :lo]) and not np.any(out[:, hi:]), key + ":edge", "samples without a complete window are zero")
                t.ok(np.all(np.abs(np.diff(ph, axis=-1)) <= np.pi / M + 1e-3), key + ":unwrap", "no jumps by more than half the ambiguity")
                if not noisy:
                    q = out[:, lo:hi] / tx[:, lo:hi]
                    if base is None:
                        base = q[:, :1]
                    t.ok(np.all(np.abs((q / base)**M - 1) < 1000 * tol) and np.all(np.abs(q - q[:, :1]) < 100 * tol), key + ":recover",
                         "a constant phase is removed up to the ambiguity of the format, the same for all samples")
                    if M == 4:
                        t.ok(np.all(np.abs(quarter(np.angle(q))) < 100 * tol), key + ":qpsk", "the constellation comes back")
                t.state(key, ph)
                t.trace({"M": M, "N": N, "L": L})
                if m == 1 and k == 1:
                    ok, r1 = t.attempt(key + ":1d", core.viterbiviterbi, E[0], N, M)
                    if ok:
                        t.ok(np.array_equal(r1[0], out[0]) and np.array_equal(r1[1], ph[0]), key + ":1d", "a one-dimensional signal gives the same")


def do_partition(t, dt, seed, tier):
    al = np.asarray(Q(16, 4).coded_symbols)
    grid = 96 if tier == "quick" else 720
    ring = np.abs(al)
    one = (ring < .6) | (ring > 1.2)
    # the rings of a symbol a tenth of its radius away from the nominal one
    for k, f, scale in itertools.product(range(16), (.9, .95, 1.05, 1.1), (1, .3, 5)):
        x = np.tile(al, 32)
        x[k] *= f
        key = "rings:off:%s:%d:%g:%g" % (dt, k, f, scale)
        ok, r = t.attempt(key, core.partition_16qam, (scale * x).astype(DT[dt]))
        t.ok(ok and np.array_equal(r[0], np.tile(one, 32)) and np.array_equal(r[1], ~np.tile(one, 32)), key, "a symbol belongs to the ring it is closest to")
        t.trace()
    # blocks of every composition, the last one shorter than the others
    A, B = al[one], al[~one]
    tol = 1e-9 if dt == "c16" else 1e-5
    for n1, n2 in itertools.product((1, 2, 3, 4, 7), (0, 1, 2, 3, 4, 8, 15)):
        for k in range(grid // 4):
            rng = np.random.default_rng([seed, n1, n2, k])
            N = n1 + n2
            th = 2 * np.pi * k / (grid // 4)
            nb = 6
            pick = [rng.permutation(np.concatenate([A[rng.integers(0, 8, n1)], B[rng.integers(0, 8, n2)]])) for _ in range(nb)]
            x = np.concatenate(pick + [al] * 16)
            x = np.concatenate([x, al[:(n1 + n2) // 2]])
            E = (x * np.exp(1j * th)).astype(DT[dt])
            key = "blocks:%s:%d:%d:%d" % (dt, n1, n2, k)
            ok, r = t.attempt(key, core.phase_partition_16qam, E, N)
            if not ok:
                continue
            out, ph = np.asarray(r[0]), np.asarray(r[1])
            if t.ok(out.shape == ph.shape == x.shape, key + ":shape", "shape"):
                b = ph[:nb * N].reshape(nb, N)
                t.ok(np.all(b == b[:, :1]), key + ":blocks", "one phase for each block")
                t.ok(np.all(np.abs(quarter(b - th)) < tol), key + ":recover", "a clean block with a class 1 symbol gives the phase exactly", worst=np.abs(quarter(b - th)).max())
            t.trace()
    for blocks, per, m in itertools.product((1, 2, 3), (1, 2, 4), (1, 2)):
        rng = np.random.default_rng([seed, blocks, per, m])
        idx = np.stack([np.concatenate([rng.permutation(np.tile(np.arange(16), per)) for _ in range(blocks)]) for _ in range(m)])
        tx = al[idx]
        for scale in (1, .3):
            c1, c2 = core.partition_16qam((scale * tx[0]).astype(DT[dt]))
            t.ok(np.array_equal(c1, one[idx[0]]) and np.array_equal(c2, ~one[idx[0]]), "rings:%d:%d:%g" % (blocks, per, scale), "inner and outer ring against the middle ring")
            t.trace()
        for k in range(grid):
            th = 2 * np.pi * k / grid
            E = (tx * np.exp(1j * th)).astype(DT[dt])
            key = "partition:%s:%d:%d:%d:%d" % (dt, blocks, per, m, k)
            E0 = E.copy()
            ok, r = t.attempt(key, core.phase_partition_16qam, E, 16 * per)
            if not ok:
                continue
            out, ph = np.asarray(r[0]), np.asarray(r[1])
            t.ok(np.array_equal(E, E0), key + ":input", "the input is not changed")
            if not t.ok(out.shape == E.shape == ph.shape, key + ":shape", "shape"):
                continue
            t.ok(close(out, E * np.exp(-1j * ph), 1e-6), key + ":output", "the phase is removed from the signal")
            t.ok(np.all(np.abs(np.diff(ph.reshape(m, blocks, -1), axis=-1)) < 1e-12), key + ":blocks", "one phase for each block")
            t.ok(np.all(np.abs(quarter(ph - th)) < tol), key + ":recover", "the phase is found up to a quarter turn", worst=np.abs(quarter(ph - th)).max())
            t.ok(np.all(np.abs(np.diff(ph, axis=-1)) < np.pi / 4 + 1e-9), key + ":unwrap", "the phase does not slip between blocks")
            t.state(key, ph)
            t.trace({"phase": th, "blocks": blocks})
            if m == 1 and k < 3:
                ok, r1 = t.attempt(key + ":1d", core.phase_partition_16qam, E[0], 16 * per)
                if ok:
                    t.ok(np.array_equal(r1[0], out[0]) and np.array_equal(r1[1], ph[0]), key + ":1d", "a one-dimensional signal gives the same")


def do_freq(t, os, dt, seed, tier):
    L = 256
    tol = 1e-9 if dt == "c16" else 3e-4
    n = np.arange(L * os)
    for m, fft in itertools.product((1, 2, 3), (256 * os, 512 * os, 1000, 1024)):
        F = 1 << int(np.ceil(np.log2(fft)))
        res = os / F / 4
        s = Q(4, L, nmodes=m, fb=1e9, dtype=DT[dt], seed=[seed, m])
        tx = np.repeat(np.asarray(s), os, axis=1)
        sig = s.recreate_from_np_array(tx, fs=os * 1e9)
        bins = list(range(-F // 2 + 1, F // 2, max(1, F // (64 if tier == "quick" else 512))))
        for b, frac in itertools.product(bins, (0, .3)):
            b2 = [b, (b + 9) % (F // 2 - 1), -b][:m]
            f = np.array([(x + frac) * res for x in b2])
            E = (tx * np.exp(2j * np.pi * f[:, None] * n / os)).astype(DT[dt])
            rx = sig.recreate_from_np_array(E)
            key = "freq:%d:%s:%d:%d:%d:%s" % (os, dt, m, fft, b, frac)
            ok, fo = t.attempt(key, phaserec.find_freq_offset, rx, fft_size=fft)
            if not ok:
                continue
            if not t.ok(np.shape(fo) == (m, 1), key + ":shape", "one offset per mode", got=np.shape(fo)):
                continue
            per = os / 4            # the search is ambiguous modulo a quarter of the sampling rate
            e = np.abs((fo[:, 0] - f + per / 2) % per - per / 2)
            width = max(1, F / (L * os)) * res      # with zero padding the peak of the line is broader than a bin, but its maximum is not moved
            t.ok(np.all(e <= (1e-9 if not frac else .5 * width + 1e-9) + 1e-6 * res), key, "the frequency offset is found to within half a bin", got=fo, expected=f, bin=res)
            ok, a = t.attempt(key + ":avg", phaserec.find_freq_offset, rx, average_over_modes=True, fft_size=fft)
            if ok:
                t.ok(close(a, np.full((m, 1), fo.mean()), 1e-12), key + ":avg", "the average over the modes")
            for form in (fo, f, f[:, None]):
                ok, c = t.attempt(key + ":comp", phaserec.comp_freq_offset, rx, form)
                if ok:
                    t.ok(type(c) is Q and c.fs == os * 1e9 and c.dtype == DT[dt] and np.shape(c) == E.shape, key + ":class", "a signal object")
                    ref = np.asarray(c) / (E * np.exp(-2j * np.pi * np.reshape(form, (m, 1)) * n / os))
                    t.ok(close(ref, ref[:, :1] * np.ones_like(ref), 10 * tol) and close(np.abs(ref), np.ones(ref.shape), 10 * tol), key + ":comp",
                         "the offset is removed from every sample, up to a constant phase")
            if not frac:
                ok, c = t.attempt(key + ":undo", phaserec.comp_freq_offset, rx, f)
                if ok:
                    q = np.asarray(c) / tx
                    t.ok(close(q, q[:, :1] * np.ones_like(q), 10 * tol), key + ":undo", "the signal comes back with a constant phase")
            t.state(key, fo)
            t.trace({"os": os, "bin": b, "fft": fft})
    if os == 1:
        N = 300000
        x = np.ones((2, N), DT[dt])
        for f in (1e-3, -.07, .31):
            ok, c = t.attempt("freq:long", core.comp_freq_offset, x, np.array([f, -f]), os=1)
            ref = np.exp(-2j * np.pi * np.outer([f, -f], np.arange(N)))
            q = np.asarray(c) / ref
            t.ok(ok and np.asarray(c).dtype == DT[dt] and close(q, q[:, :1] * np.ones_like(q), 1e-8 if dt == "c16" else 1e-6), "freq:long:%s:%g" % (dt, f), "a long signal is rotated as precisely as a short one")
    one = core.comp_freq_offset(tx[0].astype(DT[dt]), np.array([.01]), os=os)
    t.ok(one.ndim == 1 and close(np.abs(one), np.abs(tx[0]), tol), "freq:1d", "a one-dimensional signal stays one-dimensional")
