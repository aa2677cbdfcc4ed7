"""C16: phase and frequency estimation from pilots."""
import itertools
import numpy as np
from qampy import signals, phaserec
from qampy.core import pilotbased_receiver as pr
from mc.core import close

RULE = ("a trace is one frame layout with one phase history put on the signal: the reported trace is compared with the documented estimator (phases of the "
        "chosen pilots, unwrapped, averaged, interpolated), the output with the input rotated by it, and the payload has to come back wherever the "
        "history is constant or linear")
BOUNDS = {
    "quick": "12 layouts x 1-3 frames x 1-3 modes x averages 2-5 x every pilot ratio to 3 x block limits x with and without sequence x constant phases on a grid, "
             "drifts on a grid, walks, and signals cut at every length; constant offsets and frequency fits on grids of 96, one- and two-dimensional pilots",
    "thorough": "40 layouts, averages to 9, grids of 720",
}
Q = signals.SignalQAMGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    lay = [(24, 0, 4), (24, 4, 4), (24, 8, 2), (26, 2, 3), (30, 6, 6), (33, 8, 5), (40, 8, 1), (32, 16, 4), (21, 1, 5), (48, 0, 6), (20, 12, 2), (36, 12, 0)]
    if tier != "quick":
        lay += [(F, S, R) for F in (40, 60, 64) for S in (0, 1, 4, 12) for R in (2, 3, 4, 6, 8, 12) if (F - S) % R == 0][:30]
    out = [["cpe", F, S, R, dt, seed, tier] for F, S, R in lay for dt in DT]
    out += [["cut", seed, tier], ["old", seed, tier]]
    out += [["const", dt, seed, tier] for dt in DT] + [["foe", dt, seed, tier] for dt in DT]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def unwrap(p):
    out = [p[0]]
    for x in p[1:]:
        out.append(out[-1] + (x - out[-1] + np.pi) % (2 * np.pi) - np.pi)
    return np.array(out)


def estimate(rx, pilots, idx, F, N, rat, mb, nf):
    """(trace per mode, first and last position that is not extrapolated)"""
    N += 1 - N % 2
    use = list(range(len(idx)))[:mb][::rat]
    L = min(F * nf, rx.shape[1])
    pos, ref = [], []
    for f in range(nf):
        for u in use:
            p = idx[u] + f * F
            if p < L:
                pos.append(p)
                ref.append(u)
    if len(pos) < N:
        return None
    h = N // 2
    tr = []
    for m in range(rx.shape[0]):
        ph = unwrap(np.array([np.angle(rx[m, p] * np.conj(pilots[m, u])) for p, u in zip(pos, ref)]))
        avg = [ph[k - h:k + h + 1].mean() for k in range(h, len(pos) - h)]
        ctr = pos[h:len(pos) - h]
        x = np.empty(L)
        for n in range(L):
            if n <= ctr[0]:
                x[n] = avg[0]
            elif n >= ctr[-1]:
                x[n] = avg[-1]
            else:
                k = max(i for i in range(len(ctr)) if ctr[i] <= n)
                w = (n - ctr[k]) / (ctr[k + 1] - ctr[k])
                x[n] = avg[k] * (1 - w) + avg[k + 1] * w
        tr.append(x)
    return np.array(tr), ctr[0], ctr[-1], len(set(np.diff(pos))) < 2


def one(t, key, s, phase, N, rat, mb, nf, seq, dt, linear, L=None):
    tol = 1e-8 if dt == "c16" else 2e-3
    F, S = s.frame_len, s._pilot_seq_len
    tx = np.asarray(s)
    m = tx.shape[0]
    rx = s.recreate_from_np_array(np.ascontiguousarray((tx * np.exp(1j * phase))[:, :L]).astype(DT[dt]))
    arr = np.asarray(rx).copy()
    idx = np.flatnonzero(s._idx_pil)
    pil = np.asarray(s.pilots).astype(complex)
    if not seq:
        idx, pil = idx[S:], pil[:, S:]
    ref = estimate(arr.astype(complex), pil, idx, F, N, rat, mb, nf)
    if ref is None:
        try:
            t.call(phaserec.pilot_cpe, rx, N=N, pilot_rat=rat, max_blocks=mb, nframes=nf, use_seq=seq)
        except (AssertionError, ValueError, IndexError):
            t.state("refused", key)
            t.trace()
        else:
            t.fail(key + ":few", "fewer pilots than the average needs are refused")
        return
    tr, lo, hi, even = ref
    if linear == 1 and not even:        # the mean of unevenly spaced pilots is not the phase at the middle one
        linear = None
    ok, r = t.attempt(key, phaserec.pilot_cpe, rx, N=N, pilot_rat=rat, max_blocks=mb, nframes=nf, use_seq=seq)
    if not ok:
        return
    out, got = r
    t.ok(np.array_equal(np.asarray(rx), arr), key + ":input", "the input is not changed")
    Lo = min(F * nf, arr.shape[1])
    if not t.ok(type(out) is type(s) and out.shape == (m, Lo) == np.shape(got) and out.fb == s.fb and out.M == s.M, key + ":shape", "a pilot signal of the processed frames",
                shape=np.shape(out), trace=np.shape(got)):
        return
    # the start of the unwrapped phase is ambiguous by full turns
    d = np.real(got) - tr
    k = np.round(d[:, :1] / 2 / np.pi) * 2 * np.pi
    t.ok(np.all(np.abs(d - k) < tol) and np.all(np.abs(np.imag(got)) < tol), key + ":trace", "the average of the unwrapped pilot phases, linear between the pilots",
         worst=np.abs(d - k).max())
    t.ok(close(np.asarray(out), arr[:, :Lo] * np.exp(-1j * np.real(got)), tol), key + ":output", "the signal without the reported phase")
    if linear is not None:
        a, b = (0, Lo) if linear == 0 else (lo, hi + 1)
        t.ok(close(np.asarray(out)[:, a:b], tx[:, a:b], 5 * tol), key + ":removed", "a constant phase is removed everywhere, a drift between the outer of evenly spaced pilots")
        if linear == 0 and Lo >= F and np.any(s._idx_dat):
            o = out.get_data() if Lo % F else out
            t.ok(not np.any(o.cal_ser()), key + ":ser", "no errors in the payload")
    t.state(key, np.asarray(got))
    t.trace({"key": key})


def do_cpe(t, F, S, R, dt, seed, tier):
    avgs = (2, 3, 4, 5) if tier == "quick" else range(2, 10)
    n = 0
    for m, nf in itertools.product((1, 2, 3), (1, 2, 3)):
        s = signals.SignalWithPilots(16, F, S, R, nframes=nf, nmodes=m, Mpilots=4 if F % 2 else 16, fb=1e9, dtype=DT[dt], seed=[seed, F])
        x = np.arange(F * nf)
        sgn = np.array([1, -.7, .4])[:m, None]
        for N, rat, mb, seq, pf in itertools.product(avgs, (1, 2, 3), (None, 3, 5), (True, False), range(1, nf + 1)):
            n += 1
            if (n + m) % (4 if tier == "quick" else 2):
                continue
            rng = np.random.default_rng([seed, n])
            gap = max(1, R) * rat + (F - S if not seq and False else 0)
            for kind in range(6):
                if kind < 3:
                    ph, lin = np.full((m, 1), 2 * np.pi * ((n + kind * 5) % 16) / 16) * sgn + 0 * x, 0
                elif kind < 5:
                    # the largest distance between two used pilots decides how fast a drift can be followed
                    big = max(gap, S + max(1, R) * rat, F if not R else 0, F if mb else 0)
                    ph, lin = sgn * (rng.uniform(-.8, .8) * np.pi / big * x + rng.uniform(-3, 3)), 1
                else:
                    ph, lin = np.cumsum(rng.normal(0, .15, (m, F * nf)), -1), None
                one(t, "cpe:%d:%d:%d:%d:%d:%d:%d:%s:%s:%d:%d:%s" % (F, S, R, m, nf, N, rat, mb, seq, pf, kind, dt), s, ph, N, rat, mb, pf, seq, dt, lin)
    try:
        phaserec.pilot_cpe(s, N=1)
    except AssertionError:
        t.trace()
    else:
        t.fail("cpe:one", "an average over one pilot is refused")


def do_cut(t, seed, tier):
    F, S, R = 24, 4, 4
    for m in (1, 2):
        s = signals.SignalWithPilots(16, F, S, R, nframes=3, nmodes=m, fb=1e9, seed=[seed])
        x = np.arange(3 * F)
        for L, nf, seq in itertools.product(range(F, 3 * F + 1), (1, 2, 3), (True, False)):
            one(t, "cut:%d:%d:%d:%s:const" % (m, L, nf, seq), s, np.full((m, 3 * F), 1.9), 3, 1, None, nf, seq, "c16", 0, L)
            one(t, "cut:%d:%d:%d:%s:drift" % (m, L, nf, seq), s, np.tile(.05 * x, (m, 1)), 3, 1, None, nf, seq, "c16", 1, L)


def do_old(t, seed, tier):
    """pilots as the first symbol of each block, any number of modes"""
    for m, R, nb, N, rat, mb, rem, (less, tail) in itertools.product((1, 2, 3), (2, 3, 4, 8), (6, 9, 12), (1, 2, 3, 4, 5), (1, 2, 3), (None, 6, 7), (True, False),
                                                                     ((0, 0), (2, 0), (0, 1), (-1, 1), (3, 1))):
        if (N % 2 == 0 or less or tail) and (m == 3 or R == 4):
            continue
        rng = np.random.default_rng([seed, R, nb])
        tx = np.asarray(Q(16, R * (nb + 1), nmodes=m, seed=[seed, R, m]))
        ref = tx[:, ::R][:, :nb - less]         # fewer (or more) known pilots than blocks
        tx = tx[:, :R * nb + tail]              # and an incomplete block at the end
        for kind in range(3):
            x = np.arange(R * nb + tail)
            ph = (np.array([[1.7], [-2.6], [.4]]) + 0 * x, np.array([[.8], [-.6], [.2]]) * np.pi / (R * rat) * x + .3, np.cumsum(rng.normal(0, .1, (3, x.size)), -1))[kind][:m]
            rx = tx * np.exp(1j * ph)
            key = "old:%d:%d:%d:%d:%d:%s:%s:%d:%d:%d" % (m, R, nb, N, rat, mb, rem, less, tail, kind)
            B = min(nb, mb or nb)
            B = min(B, nb - less)
            B -= B % rat
            use = np.arange(0, B, rat)
            if len(use) <= N or rat >= B:
                try:
                    t.call(pr.pilot_based_cpe, rx, ref, R, N, rat, mb, rem)
                except ValueError:
                    t.trace()
                else:
                    t.fail(key + ":few", "fewer pilots than the average needs are refused")
                continue
            ok, r = t.attempt(key, pr.pilot_based_cpe, rx, ref, R, N, rat, mb, rem)
            if not ok:
                continue
            p = use * R
            a = np.array([unwrap(np.angle(rx[i, p] * tx[i, p].conj())) for i in range(m)])
            h = N // 2              # (an even number of averages is raised by one)
            av = np.array([[a[i, k] if k < h else a[i, min(k, len(use) - 1 - h) - h:min(k, len(use) - 1 - h) + h + 1].mean() for k in range(len(use))] for i in range(m)])
            tr = np.array([np.interp(np.arange(B * R), p, av[i]) for i in range(m)])
            t.ok(close(np.exp(1j * np.asarray(r[1])), np.exp(1j * tr), 1e-9), key + ":trace", "the averaged pilot phases, linear between the pilots")
            w = (rx[:, :B * R] * np.exp(-1j * tr))
            if rem:
                w = w[:, np.arange(B * R) % R != 0]
            t.ok(close(r[0], w, 1e-9), key + ":output", "the payload without this phase")
            if m == 1:
                for u, v in ((rx[0], ref), (rx, ref[0]), (rx[0], ref[0])):
                    ok, r1 = t.attempt(key + ":1d", pr.pilot_based_cpe, u, v, R, N, rat, mb, rem)
                    t.ok(ok and np.array_equal(r1[0], r[0]) and np.array_equal(r1[1], r[1]), key + ":1d", "one-dimensional arrays give the same")
            t.state(key, r[1])
            t.trace({"block": R, "blocks": nb, "average": N})


def do_const(t, dt, seed, tier):
    grid = 96 if tier == "quick" else 720
    tol = 1e-9 if dt == "c16" else 1e-5
    for m, n, noise in itertools.product((1, 2, 3), (1, 2, 7, 16), (0, .15)):
        rng = np.random.default_rng([seed, m, n])
        p = Q(4, n, nmodes=m, dtype=DT[dt], seed=[seed, n])
        for k in range(grid):
            th = 2 * np.pi * k / grid * np.array([1, -1, 2])[:m, None]
            e = noise * rng.uniform(-1, 1, (m, n))
            rx = (np.asarray(p) * np.exp(1j * (th + e))).astype(DT[dt])
            key = "const:%s:%d:%d:%g:%d" % (dt, m, n, noise, k)
            r0 = rx.copy()
            ok, c = t.attempt(key, phaserec.find_pilot_const_phase, rx, p)
            if not ok:
                continue
            t.ok(np.shape(c) == (m, 1) and np.all(np.abs(np.exp(1j * (c - th - e.mean(-1, keepdims=True))) - 1) < 10 * tol), key, "the mean phase of the pilots, also around half a turn",
                 got=c, expected=th)
            if m == 1:
                for a, b in ((rx[0], p[0]), (rx, p[0]), (rx[0], p)):
                    ok, c1 = t.attempt(key + ":1d", phaserec.find_pilot_const_phase, a, b)
                    t.ok(ok and np.array_equal(c1, c), key + ":1d", "one-dimensional pilots give the same")
            sig = p.recreate_from_np_array(rx)
            ok, o = t.attempt(key + ":correct", phaserec.correct_pilot_const_phase, sig, c)
            if ok:
                t.ok(close(np.asarray(o), np.asarray(p) * np.exp(1j * (e - e.mean(-1, keepdims=True))), 10 * tol) and type(o) is Q, key + ":correct", "the phase is removed from every mode")
            t.ok(np.array_equal(rx, r0) and np.array_equal(np.asarray(sig), r0), key + ":input", "the input is not changed")
            t.state(key, c)
            t.trace({"phase": float(th[0, 0]), "modes": m})
        if m > 1:
            try:
                phaserec.correct_pilot_const_phase(sig, np.zeros((m - 1, 1)))
            except AssertionError:
                t.trace()
            else:
                t.fail("const:count", "one offset per mode is needed")


def do_foe(t, dt, seed, tier):
    grid = 96 if tier == "quick" else 720
    tol = 1e-9 if dt == "c16" else 1e-5
    for m, n in itertools.product((1, 2, 3), (2, 3, 16, 33)):
        p = np.asarray(Q(4, n, nmodes=m, dtype=DT[dt], seed=[seed, n]))
        for k in range(1, grid):
            f = (k / grid - .5) * np.array([1, -.8, .3])[:m]
            ph0 = np.array([.4, 2.9, -3.])[:m]
            rx = (p * np.exp(1j * (2 * np.pi * f[:, None] * np.arange(n) + ph0[:, None]))).astype(DT[dt])
            key = "foe:%s:%d:%d:%d" % (dt, m, n, k)
            if np.abs(f).max() > .499:
                continue
            ok, r = t.attempt(key, pr.pilot_based_foe, rx, p)
            if not ok:
                continue
            avg, per, cond = r
            t.ok(np.shape(per) == (m, 1) and close(per[:, 0], f, 10 * tol), key + ":modes", "the offset of each mode in cycles per symbol", got=per, expected=f)
            t.ok(close(avg, np.mean(f), 10 * tol), key + ":mean", "their mean")
            t.ok(np.all(np.abs(np.exp(1j * (np.ravel(cond) - ph0)) - 1) < 1e3 * tol), key + ":start", "the phase at the first pilot")
            t.state(key, per)
            t.trace({"offset": float(f[0]), "pilots": n})
