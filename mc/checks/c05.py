"""C05: synchronisation finds the shift, and length adjustment is a periodic extension or a truncation."""
import itertools
import numpy as np
from qampy import signals
from qampy.core import ber_functions as bf

RULE = ("a trace is one pair of sequences (all of a bounded family) that is synchronised or adjusted and compared with a reference that "
        "tries every shift and rotation by brute force; cases whose best correlation is not unique (within 5%) are left out and counted")
BOUNDS = {
    "quick": "adjust: lengths 1..9 x 1..9, offsets -12..12, all methods, 3 dtypes; window search: every binary sequence of 7 items, every "
             "shift, every single and double error, window 2..6; correlation: all +-1 and 4-phase pairs with up to 5/3 items; full sync: "
             "QPSK/16-QAM/8-PSK patterns of 31..64, every shift, 4 rotations, received lengths 0.5..2.5 times the pattern, both sides, 2 modes",
    "thorough": "adjust: lengths to 14; window search: sequences of 9 items; correlation pairs up to 6/4 items; sync with more patterns",
}


def shards(tier, seed):
    out = [["adjust", n, tier] for n in range(1, 10 if tier == "quick" else 15)]
    out += [["window", k, tier] for k in range(8)]
    out += [["corr", k, tier] for k in range(8)]
    out += [["sync", fmt, N, seed, tier] for fmt in ("qpsk", "16qam", "8psk", "real", "bool") for N in (31, 64)]
    out += [["ber", k, seed, tier] for k in range(4)]
    out += [["modes", fmt, nm, seed, tier] for fmt in ("bpsk", "qpsk", "8qam", "16qam", "32qam", "8psk") for nm in (1, 2, 3)]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


# ---------------------------------------------------------------------------------------------------------
def do_adjust(t, n, tier):
    top = 9 if tier == "quick" else 14
    for m in range(1, top + 1):
        for dtype in (int, complex, bool):
            a = (np.arange(n) * 3 + 1).astype(dtype) if dtype is not bool else np.arange(n) % 3 == 0
            b = (np.arange(m) * 7 + 2).astype(dtype) if dtype is not bool else np.arange(m) % 2 == 0
            for method in (None, "truncate", "extend"):
                for off in range(-12, 13):
                    ca, cb = a.copy(), b.copy()
                    x, y = t.call(bf.adjust_data_length, a, b, method, off)
                    N = {"truncate": min(n, m), "extend": max(n, m), None: m}[method]
                    ext = lambda d, L: d[(np.arange(L) - off) % len(d)]
                    ex = a[:N] if n >= N else ext(a, N)
                    ey = b[:N] if m >= N else ext(b, N)
                    t.ok(np.array_equal(x, ex) and np.array_equal(y, ey), "adjust:%s" % method, "both sequences have the common length: the "
                         "longer one is cut at its end, the shorter one repeats with its start at the offset", tx=a, rx=b, offset=off, got=[x, y])
                    t.ok(np.array_equal(a, ca) and np.array_equal(b, cb), "adjust:pure", "the inputs are not changed")
                    t.state(n, m, method, off, x, y)
                    t.trace({"tx": n, "rx": m, "method": method, "offset": off})
            if True:
                x, y = t.call(bf.adjust_data_length, a, b)
                t.ok(len(x) == len(y) == m and np.array_equal(x, np.resize(a, m)), "adjust:default", "by default tx is fitted to rx")


# ---------------------------------------------------------------------------------------------------------
def ref_window(tx, rx, L):
    for i in range(0, len(rx) - L + 1, L):
        w = rx[i:i + L]
        for p in range(len(tx) - L + 1):
            if np.array_equal(tx[p:p + L], w):
                return p - i
    return None


def do_window(t, part, tier):
    n = 7 if tier == "quick" else 9
    for v in range(2 ** n):
        if v % 8 != part:
            continue
        for kind in ("bool", "int", "complex"):
            if kind != "bool" and v % 3:
                continue
            base = (v >> np.arange(n) & 1).astype(bool)
            tx = {"bool": base, "int": base.astype(np.int64) * 257, "complex": np.where(base, 1 + 1j, -1 + 1j)}[kind]
            for k in range(n):
                errs = [()] + [(e,) for e in range(n)] + ([(e, f) for e in range(n) for f in range(e)] if kind == "bool" and k < 3 else [])
                for err in errs:
                    rx = np.roll(tx, k)
                    for e in err:
                        rx[e] = tx.max() if rx[e] != tx.max() else (tx.min() if tx.min() != tx.max() else ~rx[e] if kind == "bool" else -rx[e] - 1)
                    for L in (2, 3, 4, 6):
                        want = ref_window(tx, rx, L)
                        for fn, sign in ((bf.sync_rx2tx, 1), (bf.sync_tx2rx, -1)):
                            ctx, crx = tx.copy(), rx.copy()
                            try:
                                off, out = t.call(fn, tx, rx, L)
                                got = int(off)
                            except bf.DataSyncError:
                                got = out = None
                            ok = got == want and (want is None or np.array_equal(out, np.roll(rx, want) if sign == 1 else np.roll(tx, -want)))
                            t.ok(ok, "window:%s" % fn.__name__, "the first complete window of the received data that occurs in the sent data "
                                 "determines the offset, and none means a sync error", tx=tx, rx=rx, L=L, got=got, want=want)
                            t.ok(np.array_equal(tx, ctx) and np.array_equal(rx, crx), "window:pure", "the inputs are not changed")
                        t.state(v, kind, k, err, L, got)
                t.trace({"tx": base.astype(int).tolist(), "shift": k, "kind": kind})
    # giving up after imax windows
    if part == 0:
        tx = np.arange(40) % 7 == 0
        rx = np.concatenate([np.ones(30, bool), np.roll(tx, 3)])
        for imax in range(1, 15):
            want = None
            for i in range(0, min(imax * 5, len(rx) - 4), 5):
                w = rx[i:i + 5]
                hits = [p for p in range(len(tx) - 4) if np.array_equal(tx[p:p + 5], w)]
                if hits:
                    want = hits[0] - i
                    break
            for fn in (bf.sync_rx2tx, bf.sync_tx2rx):
                try:
                    got = int(t.call(fn, tx, rx, 5, imax=imax)[0])
                except bf.DataSyncError:
                    got = None
                t.ok(got == want, "window:imax", "no more than imax windows are tried", imax=imax, got=got, want=want)
            t.trace()


# ---------------------------------------------------------------------------------------------------------
def correlate(x, y):
    """correlation at every lag from -(len(y)-1) to len(x)-1: sum_n x[n + lag] conj(y[n])"""
    x, y = np.asarray(x, complex), np.asarray(y, complex)
    lags = np.arange(-(len(y) - 1), len(x))
    return lags, np.correlate(x, y, "full")      # the direct sum, not the FFT


def unique_max(v, margin):
    s = np.sort(v)
    return len(v) == 1 or s[-1] - s[-2] > margin * max(s[-1], 1e-9)


def ref_offset(x, y, margin=0.05):
    lags, c = correlate(x, y)
    if not unique_max(abs(c), margin):
        return None
    return int(lags[abs(c).argmax()])


def ref_rotation(x, y):
    lags, c = correlate(x, y)
    best = np.array([np.max((c * (-1j) ** i).real) for i in range(4)])
    if not unique_max(best, 0.05) or best.max() <= 0:
        return None
    return int(best.argmax())


def do_corr(t, part, tier):
    real, cplx = (5, 3) if tier == "quick" else (6, 4)
    n = 0
    for alphabet, top, kind in (((-1., 1.), real, "real"), ((1, 1j, -1, -1j), cplx, "complex"), ((False, True), real, "bool")):
        for nx in range(1, top + 1):
            for ny in range(1, top + 1):
                for x in itertools.product(alphabet, repeat=nx):
                    n += 1
                    if n % 8 != part:
                        continue
                    x = np.array(x, complex if kind == "complex" else None)
                    for y in itertools.product(alphabet, repeat=ny):
                        y = np.array(y, complex if kind == "complex" else None)
                        want = ref_offset(x, y, 0.01)
                        if want is None:
                            t.note("ambiguous")
                            continue
                        got = t.call(bf.find_sequence_offset, x, y)
                        t.ok(got == want, "corr:" + kind, "the offset is the shift with the largest correlation", x=x, y=y, got=got, want=want)
                        t.state(kind, x, y, int(got))
                        if kind == "complex":
                            rot = ref_rotation(x, y)
                            if rot is None:
                                continue
                            ix, yr, ii, acm = t.call(bf.find_sequence_offset_complex, x, y)
                            t.ok(ix == want and ii == rot and np.allclose(yr, y * 1j ** rot), "corr:rotation",
                                 "the offset and the rotation are those with the largest correlation", x=x, y=y, got=[ix, ii], want=[want, rot])
                    t.trace({"x": x.tolist() if kind != "complex" else repr(x), "kind": kind, "all y up to": top})


# ---------------------------------------------------------------------------------------------------------
def pattern(fmt, N, seed):
    R = np.random.RandomState(1000 * seed + N)
    if fmt == "qpsk":
        return (R.randint(0, 2, N) * 2 - 1 + 1j * (R.randint(0, 2, N) * 2 - 1)) / np.sqrt(2)
    if fmt == "16qam":
        return ((R.randint(0, 4, N) * 2 - 3) + 1j * (R.randint(0, 4, N) * 2 - 3)) / np.sqrt(10)
    if fmt == "8psk":
        return np.exp(1j * np.pi / 4 * R.randint(0, 8, N))
    b = R.randint(0, 2, N)
    return b * 2. - 1 if fmt == "real" else b.astype(bool)


def do_sync(t, fmt, N, seed, tier):
    for s in range(2 if tier == "quick" else 8):
        tx = pattern(fmt, N, seed + 17 * s)
        rots = range(4) if np.iscomplexobj(tx) else (0,)
        for L in sorted({N // 2, N - 1, N, N + 1, N + N // 2, 2 * N, 2 * N + N // 2}):
            for k in range(N):
                rx0 = tx[(np.arange(L) + k) % N]
                for r in rots:
                    rx = rx0 * 1j ** r if np.iscomplexobj(tx) else rx0
                    for adj in ("tx", "rx"):
                        x, y = (rx, tx) if adj == "tx" else (tx, rx)
                        off = ref_offset(x, y)
                        rot = ref_rotation(x, y) if np.iscomplexobj(tx) else 0
                        if off is None or rot is None:
                            t.note("ambiguous")
                            continue
                        ctx, crx = tx.copy(), rx.copy()
                        (a, b), acm = t.call(bf.sync_and_adjust, tx, rx, adjust=adj)
                        fix, mov = x, y
                        if np.iscomplexobj(tx):          # it is always the received side that is rotated
                            fix, mov = (x * 1j ** ((4 - rot) % 4), y) if adj == "tx" else (x, y * 1j ** rot)
                        n = len(fix)
                        if len(mov) == n:
                            mov = np.roll(mov, off)
                        elif len(mov) > n:
                            mov = np.roll(mov, off)[:n]
                        else:
                            mov = mov[(np.arange(n) - off) % len(mov)]
                        wa, wb = (mov, fix) if adj == "tx" else (fix, mov)
                        ok = np.shape(a) == wa.shape and np.shape(b) == wb.shape and np.allclose(a, wa, atol=1e-9) and np.allclose(b, wb, atol=1e-9)
                        t.ok(ok, "sync:%s:%s" % (fmt, adj), "the adjusted side is shifted and rotated to where it correlates best and fitted to the "
                             "length of the other side", N=N, L=L, shift=k, rotation=r, offset=off)
                        # what it is good for: an error-free received pattern is matched exactly
                        true = (-k) % N if adj == "tx" else None
                        if adj == "tx" and fmt != "bool" and off % N == true and rot == r:
                            t.note("recovered")
                            t.ok(np.allclose(a, b, atol=1e-9), "sync:%s:match" % fmt, "the synchronised sequences are equal", N=N, L=L, shift=k, rotation=r)
                        t.ok(np.array_equal(tx, ctx) and np.array_equal(rx, crx), "sync:pure", "the inputs are not changed")
                        t.state(fmt, N, s, L, k, r, adj, np.asarray(a))
                t.trace({"format": fmt, "N": N, "rx length": L, "shift": k})


def do_ber(t, part, seed, tier):
    """bit error counting of an unsynchronised, possibly inverted stream"""
    for N in (64, 127):
        tx = np.random.RandomState(seed * 31 + N).randint(0, 2, N).astype(bool)
        for L in (N, N // 2 + 9, 2 * N + 5):
            for k in range(part, N, 4):
                for inv in (False, True):
                    for nerr in (0, 1, 3):
                        rx = tx[(np.arange(L) + k) % N] ^ inv
                        pos = (np.arange(nerr) * 13 + k) % L
                        rx[pos] = ~rx[pos]
                        off = ref_offset(2. * rx - 1, 2. * tx - 1)
                        if off is None or (-off) % N != k:
                            t.note("ambiguous")
                            continue
                        ctx, crx = tx.copy(), rx.copy()
                        ok, res = t.attempt("ber:error", bf.cal_ber_nosyncd, rx, tx)
                        if ok:
                            t.ok(res[1] == nerr and res[2] == L and abs(res[0] - nerr / L) < 1e-12, "ber:count", "every bit error is counted once",
                                 N=N, L=L, shift=k, inverted=inv, got=res, want=nerr)
                        t.ok(np.array_equal(tx, ctx) and np.array_equal(rx, crx), "ber:pure", "the inputs are not changed")
                        t.state(N, L, k, inv, nerr, res)
                t.trace({"N": N, "L": L, "shift": k})
        # the synchronised counter
        for nerr in range(part, N, 4):
            rx = tx.copy()
            rx[:nerr] = ~rx[:nerr]
            for thr in (0.2, 0.5, 1.0):
                try:
                    res = t.call(bf.cal_ber_syncd, rx, tx, threshold=thr)
                    t.ok(nerr / N <= thr and res == (nerr / N, nerr, N), "ber:syncd", "errors are counted", nerr=nerr, got=res)
                except ValueError:
                    t.ok(nerr / N > thr, "ber:threshold", "only a BER above the threshold is refused", nerr=nerr, thr=thr)
                t.state(N, nerr, thr)
            t.trace()


def do_modes(t, fmt, nm, seed, tier):
    """the metrics find the shift and the rotation of each mode, and the order of the modes"""
    M = {"bpsk": 2, "qpsk": 4, "8qam": 8, "16qam": 16, "32qam": 32, "8psk": 8}[fmt]
    cls = signals.SignalPSKGrayCoded if fmt == "8psk" else signals.SignalQAMGrayCoded
    N = 96
    for dtype in (np.complex128, np.complex64):
        sig = t.call(cls, M, N, nmodes=nm, seed=seed + nm, dtype=dtype)
        sym = np.asarray(sig)
        for perm in itertools.permutations(range(nm)):
            for k in range(0, N, {1: 1, 2: 5, 3: 16}[nm]):
                for r in range(4):
                    for L in (N, N // 2 + 7, N + 31):
                        rows = []
                        for m in range(nm):
                            kk, rr = (k + 11 * m) % N, (r + m) % 4
                            rows.append(sym[perm[m]][(np.arange(L) + kk) % N] * 1j ** rr)
                        rx = np.ascontiguousarray(np.array(rows).astype(dtype))
                        if any(ref_offset(rx[m], sym[perm[m]]) is None or (-ref_offset(rx[m], sym[perm[m]])) % N != (k + 11 * m) % N
                               for m in range(nm)):
                            t.note("ambiguous")
                            continue
                        keep = rx.copy()
                        for name in ("cal_ser", "cal_ber", "cal_evm"):
                            v = t.call(getattr(sig, name), rx)
                            t.ok(np.shape(v) == (nm,) and np.all(abs(np.asarray(v)) < 1e-6), "modes:%s:%s" % (fmt, name),
                                 "shifted, rotated and swapped modes have no errors", perm=perm, shift=k, rotation=r, L=L, got=v)
                        v = t.call(sig.est_snr, rx)
                        t.ok(np.all(np.asarray(v) > 1e10), "modes:%s:snr" % fmt, "a clean signal has a very high SNR", perm=perm, shift=k, rotation=r, L=L, got=v)
                        t.ok(np.array_equal(rx, keep), "modes:pure", "the input is not changed")
                        t.state(fmt, nm, perm, k, r, L)
                t.trace({"format": fmt, "permutation": perm, "shift": k})
