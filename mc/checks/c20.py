"""C20: helper functions (centring, normalising, scaling, units, pilot index) on every signal over a small set of values."""
import itertools
import numpy as np
from qampy import helpers, signals

RULE = "a trace is one signal (one assignment of values to samples and modes) or one frame layout whose result was compared with the definition"
BOUNDS = {
    "quick": "every 1-D signal of 1 to 5 samples and every 2-mode signal of 2 samples over 6 complex values, every real signal of up to 5 samples over 4 values, both "
             "precisions; every pilot index set of the 1-D signals of 4 samples; every layout of frames with 1 to 3 frames of up to 12 symbols, oversampling 1 to 3",
    "thorough": "2-mode signals of 3 samples over 5 values, frames up to 20 symbols and oversampling 4",
}
V = [0, 1, -2, 3j, 1 - 1j, -1 + 2j]
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = [["one", n, dt] for n in (1, 2, 3, 4) for dt in DT] + [["one5", a] for a in range(len(V))]
    out += [["real", n] for n in (1, 2, 3, 4, 5)]
    out += [["two", a, dt, tier] for a in range(len(V)) for dt in DT]
    out += [["pil", dt] for dt in DT] + [["edges"], ["units"], ["objects", seed]]
    out += [["index", os, 12 if tier == "quick" else 20] for os in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def eq(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def ref_norm(E):
    E = np.atleast_2d(np.asarray(E, complex))
    c = E - E.mean(-1, keepdims=True)
    p = np.sqrt(np.mean(np.abs(c)**2, -1, keepdims=True))
    return c, p


def check(t, E, tol, tag):
    """all the functions that map a signal to a signal"""
    keep = E.copy()
    key = "%s:%s" % (tag, np.asarray(E).tolist())
    c, p = ref_norm(E)
    ok, r = t.attempt("cabs:" + key, helpers.cabssquared, E)
    if ok:
        t.ok(eq(r, np.abs(np.asarray(E, complex))**2, tol), "cabs:" + key, "squared magnitude of every sample")
    if np.all(p > 0):
        ok, r = t.attempt("norm:" + key, helpers.normalise_and_center, E)
        if ok:
            t.ok(eq(r, (c / p).reshape(E.shape), tol), "norm:" + key, "zero mean and unit power in every mode", got=r, expected=(c / p).reshape(E.shape))
            ok, r2 = t.attempt("norm2:" + key, helpers.normalise_and_center, r)
            t.ok(ok and eq(r2, r, tol), "norm2:" + key, "normalising again changes nothing")
    ok, f = t.attempt("shift:" + key, helpers.get_center_shift_fac, E)
    if ok:
        t.ok(eq(E + f, c.reshape(E.shape), tol), "shift:" + key, "adding the factor centres every mode")
    e2 = np.atleast_2d(E)
    m = np.maximum(np.abs(e2.real).max(-1), np.abs(e2.imag).max(-1))
    if np.all(m > 0):
        for swing in (1, 0.5, 3):
            ok, r = t.attempt("scale:" + key, helpers.rescale_signal, E, swing)
            if ok:
                t.ok(eq(r, (e2 / m[:, None] * swing).reshape(E.shape), tol), "scale:%s:%g" % (key, swing), "largest component of every mode is the swing", got=r)
        if E.ndim == 2:
            sw = np.array([2.0, 0.25])[:len(E)]
            ok, r = t.attempt("scale:" + key, helpers.rescale_signal, E, sw)
            t.ok(ok and eq(r, e2 / m[:, None] * sw[:, None], tol), "scale:%s:each" % key, "a swing for every mode")
    if E.ndim == 1:
        x = np.asarray(E, complex)
        mid = (x.real.max() + x.real.min()) / 2 + 1j * (x.imag.max() + x.imag.min()) / 2
        for want in (0, 1.5) + ((1 - 2j,) if np.iscomplexobj(E) else ()):
            ok, r = t.attempt("mid:" + key, helpers.set_mid_point, E, want)
            if ok:
                y = x - mid + want
                t.ok(eq(r, y, tol), "mid:%s:%s" % (key, want), "the middle of the extremes of both quadratures", got=r, expected=y)
                big = max(np.abs(y.real).max(), np.abs(y.imag).max())
                if big > 0:
                    ok, r = t.attempt("midscale:" + key, helpers.set_mid_and_resale, E, want, 2)
                    t.ok(ok and eq(r, y / big * 2, tol), "midscale:%s:%s" % (key, want), "first moved, then scaled", got=r)
    t.ok(np.array_equal(E, keep), "input:" + key, "the input is not changed", got=E, expected=keep)
    t.trace()


def do_one(t, n, dt):
    for v in itertools.product(V, repeat=n):
        check(t, np.array(v, DT[dt]), 1e-12 if dt == "c16" else 2e-6, "one")
    t.state(n, dt)


def do_one5(t, a):
    for v in itertools.product(V, repeat=4):
        check(t, np.array((V[a],) + v, complex), 1e-12, "one")
    t.state(5, a)


def do_real(t, n):
    for v in itertools.product([0.0, 1.0, -2.0, 0.5], repeat=n):
        check(t, np.array(v), 1e-12, "real")
    for v in itertools.product([0.0, 1.0, -2.0], repeat=n):
        for w in itertools.product([1.0, -1.0], repeat=n):
            if n <= 3:
                check(t, np.array([v, w]), 1e-12, "real2")


def do_two(t, a, dt, tier):
    vals = V if tier == "quick" else V[1:]
    n = 2 if tier == "quick" else 3
    for v in itertools.product(vals, repeat=2 * n - 1):
        check(t, np.array((V[a],) + v, DT[dt]).reshape(2, n), 1e-12 if dt == "c16" else 2e-6, "two")


def do_pil(t, dt):
    tol = 1e-12 if dt == "c16" else 2e-6
    masks = [np.array(m, bool) for m in itertools.product((False, True), repeat=4) if sum(m) >= 2]
    for v in itertools.product(V[1:], repeat=4):
        one = np.array(v, DT[dt])
        for E in (one, np.array([one, one[::-1] * (2 - 1j) + 3], DT[dt])):
            for m in masks:
                for idx in (m, np.flatnonzero(m)):
                    p = np.atleast_2d(E)[:, m]
                    c = p.mean(-1, keepdims=True)
                    w = np.sqrt(np.mean(np.abs(p - c)**2, -1, keepdims=True))
                    if np.any(w < 1e-9):
                        continue
                    ok, r = t.attempt("pil", helpers.normalise_and_center_pil, E, idx)
                    want = ((np.atleast_2d(E) - c) / w).reshape(E.shape)
                    t.ok(ok and eq(r, want, 10 * tol), "pil:%s:%s:%s" % (E.shape, v, m.tolist()), "centre and power of the pilots only", got=r, expected=want)
                    t.trace()


def do_edges(t):
    for L in range(1, 12):
        for N in range(0, L // 2 + 1):
            E = np.arange(L) + 1j
            for e in (E, np.array([E, -E]), np.array([E, -E, 2 * E])):
                ok, r = t.attempt("edges:%d:%d" % (L, N), helpers.dump_edges, e, N)
                t.ok(ok and np.array_equal(r, e[..., N:L - N]), "edges:%d:%d:%d" % (e.ndim, L, N), "N samples less on both sides", got=r)
                t.trace()


def do_units(t):
    for d in list(range(-120, 121)) + [0.5, -3.3, 1e-3]:
        for x in (d, float(d), np.array([d, d + 1.0])):
            ok, r = t.attempt("db:%s" % d, helpers.dB2lin, x)
            if ok:
                w = np.exp(np.log(10) * np.asarray(x) / 10)
                t.ok(eq(r, w, 1e-12) or np.allclose(r, w, rtol=1e-11, atol=0), "db:%s" % d, "ten to the tenth")
                t.ok(np.allclose(helpers.lin2dB(r), x, rtol=1e-11, atol=1e-9), "lin:%s" % d, "the inverse")
            t.trace()


def do_objects(t, seed):
    for cls, args in ((signals.SignalQAMGrayCoded, (16, 64)), (signals.SignalPSKGrayCoded, (8, 64)), (signals.SignalWithPilots, (16, 128, 16, 8))):
        for m in (1, 2, 3):
            for dtype in DT.values():
                s = cls(*args, nmodes=m, seed=seed, dtype=dtype, fb=2e9) if cls is not signals.SignalWithPilots else cls(*args, nmodes=m, seed=seed, dtype=dtype, fb=2e9)
                x = s * 3 + (1 + 2j)
                for name, fn in (("norm", helpers.normalise_and_center), ("scale", helpers.rescale_signal), ("edges", lambda e: helpers.dump_edges(e, 5))):
                    key = "%s:%s:%d:%s" % (name, cls.__name__, m, np.dtype(dtype))
                    ok, r = t.attempt(key, fn, x)
                    if ok:
                        t.ok(type(r) is cls and r.fb == 2e9 and r.fs == s.fs and r.M == s.M and np.array_equal(np.asarray(r.symbols), np.asarray(s.symbols)), key, "stays the same kind of signal")
                        w = fn(np.asarray(x))
                        t.ok(eq(np.asarray(r), w, 1e-5), key + ":value", "same values as for a plain array")
                    t.trace({"key": key})


def do_index(t, os, top):
    for nf, fl in itertools.product((1, 2, 3), range(2, top + 1)):
        for seq in range(1, fl):
            for ins in range(2, fl - seq + 3):
                ok, r = t.attempt("index:%d:%d:%d:%d:%d" % (nf, fl, os, seq, ins), helpers.find_pilot_idx, nf, fl, os, seq, ins)
                w = []
                for f in range(nf):
                    w += [k < seq or (k - seq) % ins == 0 for k in range(fl)]
                w = np.repeat(np.array(w), os)
                t.ok(ok and r.shape == w.shape and np.array_equal(r, w), "index:%d:%d:%d:%d:%d" % (nf, fl, os, seq, ins), "sequence first, then every ins-th symbol", got=r, expected=w)
                t.trace()
                t.state(nf, fl, os, seq, ins)
                if os == 1 and nf <= 2 and (fl - seq) % ins == 0 and fl >= 6 and seq in (2, 4):
                    ok, s = t.attempt("index:signal", signals.SignalWithPilots, 4, fl, seq, ins, nframes=nf, nmodes=1)
                    if ok:
                        t.ok(np.array_equal(np.tile(s._idx_pil, nf), r), "index:signal:%d:%d:%d:%d" % (nf, fl, seq, ins),
                             "the layout of the signal with pilots")
