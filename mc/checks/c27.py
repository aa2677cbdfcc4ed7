"""C27: chromatic dispersion compensation: all-pass with the parabolic phase of the fibre, whole or in blocks."""
import itertools
import numpy as np
from qampy import signals
from qampy.core import impairments
from qampy.core.equalisation.equalisation import CDcomp
from mc.core import close

RULE = "a trace is one signal, fibre and block size whose compensated signal was compared with the sum over all frequencies (or all blocks)"
BOUNDS = {
    "quick": "every signal of 1 to 5 samples over 4 values and every unit impulse of signals up to 32 samples with 6 fibres; every block size up to the length with unit impulses at every "
             "position; signals of 4 orders sent through 8 fibres and compensated with the opposite and the same fibre",
    "thorough": "signals of 6 samples, lengths to 64",
}
C = 2.99792458e8
FIB = [(17e-6, 0.0), (17e-6, 10e3), (17e-6, -10e3), (-100e-6, 50e3), (4e-6, 3e3), (17e-6, 400e3)]


def shards(tier, seed):
    q = tier == "quick"
    return [["small", n] for n in range(1, 6 if q else 7)] + [["impulse", n] for n in (range(1, 33) if q else range(1, 65))] + [["blocks", n] for n in (16, 24, 32, 48, 64, 96)] + \
        [["fibre", M, seed] for M in (4, 16, 32, 64)] + [["overlap", seed]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def phase(n, fs, D, L, wl):
    k = np.arange(n)
    f = np.where(k < (n + 1) // 2, k, k - n) * fs / n
    return np.exp(-1j * np.pi * f**2 * D * wl**2 * L / C)


def whole(x, fs, D, L, wl):
    """sum over all frequencies, written out"""
    n = len(x)
    F = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return F.conj() @ (phase(n, fs, D, L, wl) * (F @ np.asarray(x, complex))) / n


def do_small(t, n):
    for v in itertools.product((0, 1, -2j, 1 + 1j), repeat=n):
        x = np.array(v, complex)
        for D, L in FIB[1:5]:
            ok, r = t.attempt("small", CDcomp, x, 40e9, 0, L, D, 1550e-9)
            if ok:
                y, H = r
                t.ok(close(y, whole(x, 40e9, D, L, 1550e-9), 1e-8), "small:%s:%g:%g" % (v, D, L), "every frequency is turned by the parabolic phase", got=y)
                t.ok(abs(np.sum(np.abs(y)**2) - np.sum(np.abs(x)**2)) < 1e-8, "energy:%s:%g:%g" % (v, D, L), "the energy stays")
            t.trace()
    t.state(n)


def do_impulse(t, n):
    for p in range(n):
        x = np.zeros(n, complex)
        x[p] = 1 - 0.5j
        keep = x.copy()
        for (D, L), fs, wl in itertools.product(FIB, (20e9, 50e9), (1550e-9, 1310e-9)):
            key = "impulse:%d:%d:%g:%g:%g:%g" % (n, p, D, L, fs, wl)
            ok, r = t.attempt(key, CDcomp, x, fs, 0, L, D, wl)
            if not ok:
                continue
            y, H = r
            t.ok(close(y, whole(x, fs, D, L, wl), 1e-8), key, "every frequency is turned by the parabolic phase", got=y)
            t.ok(close(np.fft.ifftshift(H), phase(n, fs, D, L, wl), 1e-8), key + ":H", "the response is returned, zero frequency in the middle")
            ok, r = t.attempt(key, CDcomp, y, fs, 0, -L, D, wl)
            t.ok(ok and close(r[0], x, 1e-8), key + ":back", "the opposite fibre undoes it")
            ok, r = t.attempt(key, CDcomp, y, fs, 0, 2 * L, D, wl)
            t.ok(ok and close(r[0], whole(x, fs, D, 3 * L, wl), 1e-8), key + ":add", "fibres add up")
            ok, r2 = t.attempt(key, CDcomp, x, fs, n, L, D, wl)
            t.ok(ok and close(r2[0], y, 1e-12), key + ":one", "one block of the whole length is the same")
            ok, r2 = t.attempt(key, CDcomp, x[None], fs, 0, L, D, wl)
            t.ok(ok and close(r2[0], y, 1e-12), key + ":2d", "one mode of a two-dimensional signal")
            t.ok(np.array_equal(x, keep), key + ":input", "the input is not changed")
            t.trace()


def do_blocks(t, n):
    for N in range(4, n, 4):
        half = N // 2
        if n % half:
            continue
        for p in list(range(n)) + [-1]:
            x = np.zeros(n, complex)
            if p < 0:
                x[:] = np.arange(n) * (1 - 0.3j) + 2j
            else:
                x[p] = 1 - 0.5j
            for D, L in FIB:
                key = "blocks:%d:%d:%d:%g:%g" % (n, N, p, D, L)
                ok, r = t.attempt(key, CDcomp, x, 40e9, N, L, D, 1550e-9)
                if not ok:
                    continue
                w = np.zeros(n + half, complex)
                for b in range(n // half):
                    blk = np.zeros(N, complex)
                    blk[N // 4:N // 4 + half] = x[b * half:(b + 1) * half]
                    w[b * half:b * half + N] += whole(blk, 40e9, D, L, 1550e-9)
                t.ok(close(r[0], w[N // 4:-(N // 4)], 1e-8), key, "blocks of half the size, padded, are compensated and added", got=r[0])
                if L == 0:
                    t.ok(close(r[0], x, 1e-10), key + ":nothing", "no fibre, no change")
                t.trace()
            t.state(n, N, p)


def do_overlap(t, seed):
    """block processing is the same as the whole signal if the block is longer than the response of the fibre"""
    r = np.random.RandomState(seed)
    f = np.fft.fftfreq(4096)
    x = np.fft.ifft(np.fft.fft(r.randn(4096) + 1j * r.randn(4096)) * (np.abs(f) < 0.3))
    for N, L in ((256, 10e3), (512, 40e3), (1024, 100e3), (128, 3e3)):
        for s in (1, -1):
            ok, a = t.attempt("overlap", CDcomp, x, 40e9, N, s * L, 17e-6, 1550e-9)
            ok, b = t.attempt("overlap", CDcomp, x, 40e9, 0, s * L, 17e-6, 1550e-9)
            d = np.abs(a[0] - b[0])[N:-N]
            t.ok(len(a[0]) == 4096 and np.sqrt(np.mean(d**2) / np.mean(np.abs(x)**2)) < 0.05, "overlap:%d:%g" % (N, s * L), "blocks longer than the response", got=np.sqrt(np.mean(d**2)))
            t.trace({"N": N, "L": L})


def do_fibre(t, M, seed):
    s = signals.SignalQAMGrayCoded(M, 512, nmodes=1, seed=seed, fb=20e9).resample(40e9, beta=0.1, renormalise=True)
    x = np.asarray(s)[0]
    for D, L in FIB + [(17e-6, 1000e3), (2e-6, 80e3)]:
        y = impairments.add_dispersion(x[None], 40e9, D, L)[0]
        key = "fibre:%d:%g:%g" % (M, D, L)
        t.ok(close(y, whole(x, 40e9, D, L, 1550e-9), 1e-8), key + ":add", "the fibre is the same parabola")
        for wl in (1550e-9, 1540e-9):
            y2 = impairments.add_dispersion(x[None], 40e9, D, L, wl)[0]
            ok, r = t.attempt(key, CDcomp, y2, 40e9, 0, -L, D, wl)
            t.ok(ok and close(r[0], x, 1e-8), key + ":undo", "the opposite of the fibre restores the signal", got=np.abs(r[0] - x).max() if ok else None)
            ok, r = t.attempt(key, CDcomp, y2, 40e9, 0, L, -D, wl)
            t.ok(ok and close(r[0], x, 1e-8), key + ":undoD", "the opposite of the fibre restores the signal")
        if D * L != 0:
            ok, r = t.attempt(key, CDcomp, y, 40e9, 0, L, D, 1550e-9)
            if ok and not close(r[0], x, 1e-8):
                if close(r[0], whole(x, 40e9, D, 2 * L, 1550e-9), 1e-8):
                    t.fail("fibre:same-sign-doubles", "compensating the length and dispersion of a fibre removes its dispersion (it is doubled: CDcomp and add_dispersion have the same sign)",
                           D=D, L=L)
                else:
                    t.fail(key + ":comp", "compensating the length and dispersion of a fibre removes its dispersion", got=r[0][:4], expected=x[:4])
        t.trace({"key": key})
