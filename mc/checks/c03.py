"""C03: symbol decisions always return the nearest alphabet point, its index and its distance."""
import numpy as np
from qampy import signals
from qampy.core import signal_quality
from qampy.core.equalisation import pythran_equalisation as pe
from mc.core import tol_of

RULE = ("a trace is one block of received points decided by one entry point and compared point by point with the brute-force nearest "
        "alphabet entry; the points enumerate a lattice over and far outside the constellation, the cell borders and the alphabet itself")
BOUNDS = {
    "quick": "QAM/PSK orders up to 256, both precisions, 1-3 modes, lengths 0..64 one by one plus the full lattice (41x41 near, 9x9 at "
             "radius 20 and 1e3), scales 0.1..100, arbitrary alphabets with 1..5 points from a 3x3 grid (every subset), all decision entry points",
    "thorough": "orders up to 1024, lattice 121x121, lengths 0..300, every alphabet of up to 6 of 9 points",
}
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = []
    for dt in DT:
        for cls, orders in (("QAM", [2, 4, 8, 16, 32, 64, 128, 256] + ([512, 1024] if tier == "thorough" else [])),
                            ("PSK", [2, 4, 8, 16, 64] + ([256] if tier == "thorough" else []))):
            for M in orders:
                out.append(["grid", cls, M, dt, tier])
        for k in range(4):
            out.append(["subsets", "-", k, dt, tier])
    return out


def nearest(x, syms):
    d = abs(x.astype(complex)[:, None] - syms.astype(complex)[None])
    return d


def verify(t, key, x, syms, dec, dist, idx, power, **info):
    """every decision is an alphabet entry whose distance is minimal (ties: any of the nearest)"""
    x, dec = np.asarray(x), np.asarray(dec)
    if not t.ok(dec.shape == x.shape, key + ":shape", "one decision per sample", got=dec.shape, want=x.shape, **info):
        return
    if x.size == 0:
        return
    d = nearest(x, syms)
    best = d.min(1)
    eps = 1e-12 if x.dtype == np.complex128 else 3e-6
    slack = eps * (1 + abs(x))
    match = dec[:, None] == np.asarray(syms, dec.dtype)[None]
    bad = ~match.any(1)
    t.ok(not bad.any(), key + ":member", "a decision is an alphabet entry", at=x[bad][:3], got=dec[bad][:3], **info)
    dd = abs(dec.astype(complex) - x)
    bad = dd > best + slack
    t.ok(not bad.any(), key + ":nearest", "the decided symbol is the nearest one", at=x[bad][:3], got=dec[bad][:3],
         want=np.asarray(syms)[d.argmin(1)][bad][:3], **info)
    if dist is not None:
        bad = abs(np.asarray(dist) - best ** power) > slack * 10 * (1 + best)
        t.ok(not bad.any(), key + ":dist", "the reported distance is that of the nearest symbol", at=x[bad][:3], got=np.asarray(dist)[bad][:3],
             want=(best ** power)[bad][:3], **info)
    if idx is not None:
        ii = np.asarray(idx).astype(int)
        bad = (ii < 0) | (ii >= len(syms))
        if t.ok(not bad.any(), key + ":index-range", "indices point into the alphabet", got=ii[bad][:3], **info):
            bad = np.asarray(syms, dec.dtype)[ii] != dec
            t.ok(not bad.any(), key + ":index", "the index is that of the decided symbol", at=x[bad][:3], got=ii[bad][:3], **info)


def points(syms, tier):
    n = 41 if tier == "quick" else 121
    g = np.linspace(-1.9, 1.9, n) + 0.00137
    near = (g[:, None] + 1j * g[None]).ravel()
    f = np.linspace(-1, 1, 9) + 0.0113
    far = (f[:, None] + 1j * f[None]).ravel()
    d = abs(syms[:, None] - syms[None])
    dmin = d[d > 1e-9].min() if len(syms) > 1 else 1
    around = np.concatenate([syms + 0.499 * dmin * np.exp(1j * k * np.pi / 8) for k in range(16)])
    return np.concatenate([syms, near, far * 20, far * 1e3, around])


def run(shard, t):
    part, name, M, dt, tier = shard
    dtype = DT[dt]
    if part == "subsets":
        return subsets(t, M, dt, dtype, tier)
    cls = signals.SignalQAMGrayCoded if name == "QAM" else signals.SignalPSKGrayCoded
    sig = t.call(cls, M, 16, dtype=dtype)
    syms = np.asarray(sig.coded_symbols)
    assert syms.dtype == dtype
    key = "%s%d:%s" % (name, M, dt)
    x = points(syms.astype(complex), tier).astype(dtype)
    entry_points(t, key, x, syms, sig)
    # every length, so that no vector tail or block border is missed
    for L in range(0, 65 if tier == "quick" else 301):
        xs = np.ascontiguousarray(np.resize(x[M:], L))
        dec, dist, idx = t.call(signal_quality.make_decision, xs, syms)
        verify(t, key + ":length", xs, syms, dec, dist, idx, 1, L=L)
        t.state(key, L, dec)
        t.trace({"order": M, "length": L})
    # samples of other scales, and negative zeros
    for scale in (0.1, 3.0, 100.0):
        xs = (x[:200] * scale).astype(dtype)
        dec, dist, idx = t.call(signal_quality.make_decision, xs, syms)
        verify(t, key + ":scale", xs, syms, dec, dist, idx, 1, scale=scale)
        t.state(key, scale, dec)
        t.trace()


def entry_points(t, key, x, syms, sig):
    """all the ways to make decisions, on the same points"""
    keep, keeps = x.copy(), syms.copy()
    dec, dist, idx = t.call(signal_quality.make_decision, x, syms)
    verify(t, key + ":core", x, syms, dec, dist, idx, 1)
    dec2, d2, i2 = t.call(pe.make_decision, x, syms)
    verify(t, key + ":compiled", x, syms, dec2, d2, i2, 1)
    t.state(key, "core", dec, idx)
    t.trace({"points": len(x), "alphabet": len(syms), "first": repr(x[:2])})
    step = max(1, len(x) // 300)
    for i in range(0, len(x), step):
        s, d = t.call(pe.det_symbol, x[i], syms)
        verify(t, key + ":single", x[i:i + 1], syms, np.array([s], x.dtype), np.array([d]), None, 2)
        s, d = t.call(pe.det_symbol_parallel, x[i], syms)
        verify(t, key + ":parallel", x[i:i + 1], syms, np.array([s], x.dtype), np.array([d]), None, 2)
    t.trace()
    if sig is not None:
        for nmodes in (1, 2, 3):
            n = len(x) // nmodes
            xm = np.ascontiguousarray(x[:n * nmodes].reshape(nmodes, n))
            dec = np.asarray(t.call(sig.make_decision, xm))
            dec3, dist3, idx3 = t.call(sig.make_decision, xm, verbose=True)
            if t.ok(dec.shape == xm.shape == np.shape(dec3) == np.shape(idx3) == np.shape(dist3), key + ":obj-shape",
                    "decisions have the shape of the signal", got=dec.shape):
                for m in range(nmodes):
                    verify(t, key + ":object", xm[m], syms, dec[m], None, None, 1, mode=m, nmodes=nmodes)
                    verify(t, key + ":verbose", xm[m], syms, np.asarray(dec3)[m], dist3[m], idx3[m], 1, mode=m, nmodes=nmodes)
            t.state(key, nmodes, dec)
            t.trace()
        # the decisions of a signal about itself
        t.ok(np.array_equal(np.asarray(t.call(sig.make_decision)), np.asarray(sig)), key + ":own", "a clean signal decides on itself")
        one = np.asarray(t.call(sig.make_decision, x))
        t.ok(one.shape == (1, len(x)), key + ":1d", "a 1-D signal is one mode", got=one.shape)
    t.ok(np.array_equal(keep, x) and np.array_equal(keeps, syms), key + ":pure", "decisions leave their arguments alone")


def subsets(t, part, dt, dtype, tier):
    """every alphabet made of up to five (six) points of a 3x3 grid, in two orders"""
    import itertools
    base = np.array([a + 1j * b for a in (-1, 0, 1) for b in (-1, 0, 1)])
    g = np.array([-3, -1.2, -0.6, -0.3, 0.1, 0.4, 0.7, 1.3, 4, 25.]) + 0.0071
    x = (g[:, None] + 1j * (g + 0.0011)[None]).ravel().astype(dtype)
    n = 0
    for k in range(1, 6 if tier == "quick" else 7):
        for c in itertools.combinations(range(9), k):
            n += 1
            if n % 4 != part:
                continue
            for order in (1, -1):
                syms = np.ascontiguousarray(base[list(c)][::order]).astype(dtype)
                key = "alphabet:%s" % dt
                dec, dist, idx = t.call(signal_quality.make_decision, x, syms)
                verify(t, key, x, syms, dec, dist, idx, 1, alphabet=list(c))
                for i in range(n % 7, len(x), 7):
                    for fn in (pe.det_symbol, pe.det_symbol_parallel):
                        sd, d = t.call(fn, x[i], syms)
                        verify(t, key + ":" + fn.__name__, x[i:i + 1], syms, np.array([sd], dtype), np.array([d]), None, 2, alphabet=list(c))
                s = t.call(signals.SymbolOnlySignal.from_symbol_array, np.resize(syms, (1, 7)), coded_symbols=syms)
                d3 = np.asarray(t.call(s.make_decision, x.reshape(2, -1)))
                for m in range(2):
                    verify(t, key + ":symbol-only", x.reshape(2, -1)[m], syms, d3[m], None, None, 1, alphabet=list(c))
                t.state(c, order, dec)
                t.trace({"alphabet": repr(syms)})
