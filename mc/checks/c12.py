"""C12: applying equaliser taps is the documented multi-mode correlation, decimated by the oversampling."""
import itertools
import numpy as np
from qampy import signals, equalisation
from qampy.core.equalisation import apply_filter

RULE = ("a trace is one (signal, taps, oversampling, mode selection) sent through apply_filter and compared with the sum over all modes and "
        "taps written out; unit impulses for both operands visit every basis element of the bilinear map, integer valued data make it exact")
BOUNDS = {
    "quick": "1..3 modes, 1..6 taps, oversampling 1..4, every length from taps-1 to 16, complex128/complex64/float64/float32: impulses at every place and tap; "
             "every non-empty ordered choice of modes; signal objects of 1-3 modes",
    "thorough": "1..4 modes, 1..9 taps, oversampling 1..6, lengths to 40",
}
DT = {"c16": np.complex128, "c8": np.complex64, "f8": np.float64, "f4": np.float32}


def shards(tier, seed):
    nm, nt, no, nl = (3, 6, 4, 16) if tier == "quick" else (4, 9, 6, 40)
    out = [["basis", dt, m, nt, no, nl, seed] for dt in DT for m in range(1, nm + 1)]
    out += [["modes", dt, m, nt, no, nl, seed] for dt in DT for m in range(1, nm + 1)]
    out += [["signal", dt, m, nt, no, nl, seed] for dt in ("c16", "c8") for m in range(1, nm + 1)]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def ref(E, os, w, modes):
    nt, L = w.shape[2], E.shape[1]
    n = max(0, (L - nt + 1) // os)
    out = np.zeros((len(modes), n), dtype=complex)
    for a, m in enumerate(modes):
        for i in range(n):
            for k in range(E.shape[0]):
                out[a, i] += np.sum(E[k, i * os:i * os + nt].astype(complex) * w[m, k])
    return out


def cplx(out, real):
    """what the real valued filter returns: the first half of the rows are real, the second half imaginary parts"""
    if not real:
        return out
    h = out.shape[0] // 2
    return out[:h] + 1j * out[h:]


def rnd(rng, dt, shape):
    a = rng.integers(-4, 5, shape).astype(complex)
    if dt[0] == "c":
        a = a + 1j * rng.integers(-4, 5, shape)
    return a.astype(DT[dt]) if dt[0] == "c" else a.real.astype(DT[dt])


def check(t, key, E, os, w, modes=None):
    E0, w0 = E.copy(), w.copy()
    ok, got = t.attempt(key + ":call", apply_filter, E, os, w, **({} if modes is None else {"modes": modes}))
    real = E.dtype.kind == "f" or w.dtype.kind == "f"
    Er = E
    if real and E.dtype.kind == "c":
        Er = np.vstack([E.real, E.imag])
    exp = cplx(ref(Er, os, w, list(range(w.shape[0])) if modes is None else list(np.atleast_1d(modes))), real)
    if not ok:
        return
    got = np.asarray(got)
    t.ok(got.shape == exp.shape, key + ":shape", "one output per oversampling step that lies within the signal", got=got.shape, expected=exp.shape,
         L=E.shape[1], taps=w.shape[2], os=os)
    if got.shape == exp.shape:
        t.ok(np.array_equal(got, exp), key + ":value", "sum over modes and taps", got=got, expected=exp, E=E, w=w, os=os, modes=modes)
    t.ok(np.array_equal(E, E0) and np.array_equal(w, w0), key + ":pure", "the operands are left alone")
    t.state(key, E.shape, os, w.shape, modes, got)
    t.trace({"E": E.tolist() if E.size < 20 else E.shape, "os": os, "taps": w.shape, "modes": modes})


def do_basis(t, dt, m, nt, no, nl, seed):
    rng = np.random.default_rng(seed)
    rm = 2 * m if dt[0] == "f" else m           # real valued filters have two rows per mode
    for n in range(1, nt + 1):
        for os in range(1, no + 1):
            for L in range(max(1, n - 1), nl + 1):
                key = "basis:%s:%d:%d:%d" % (dt, m, n, os)
                w = rnd(rng, dt, (rm, rm, n))
                check(t, key + ":full", rnd(rng, dt, (rm, L)), os, w)
            # impulses: position p of mode k against every tap; all bilinear basis elements of a length
            L = nl - (n % 3)
            for k in range(rm):
                for p in range(L):
                    E = np.zeros((rm, L), dtype=DT[dt])
                    E[k, p] = 1 if dt[0] == "f" else 1 + 2j
                    w = rnd(rng, dt, (rm, rm, n))
                    check(t, key + ":impulse", E, os, w)
            for j, k, i in itertools.product(range(rm), range(rm), range(n)):
                w = np.zeros((rm, rm, n), dtype=DT[dt])
                w[j, k, i] = 1 if dt[0] == "f" else 2 - 1j
                check(t, key + ":tap", rnd(rng, dt, (rm, L)), os, w)


def do_modes(t, dt, m, nt, no, nl, seed):
    rng = np.random.default_rng(seed)
    if dt[0] == "c":
        for r in range(1, m + 1):
            for modes in itertools.permutations(range(m), r):
                for os in (1, 2, 3):
                    for form in (list, np.array):
                        E, w = rnd(rng, dt, (m, 12)), rnd(rng, dt, (m, m, 3))
                        check(t, "modes:%s:%d" % (dt, m), E, os, w, form(modes))
        for os in (1, 2):
            check(t, "modes:%s:%d:int" % (dt, m), rnd(rng, dt, (m, 12)), os, rnd(rng, dt, (m, m, 3)), m - 1)
            E, w = rnd(rng, dt, (m, 24)), rnd(rng, dt, (m, m, 4))
            check(t, "modes:%s:%d:strided" % (dt, m), E[:, ::2], os, w[:, :, ::-1])
            check(t, "modes:%s:%d:reversed" % (dt, m), E[::-1], os, w[::-1])
    else:
        for r in range(1, m + 1):
            for sel in itertools.combinations(range(m), r):
                modes = list(sel) + [s + m for s in sel]
                for os in (1, 2, 3):
                    w = rnd(rng, dt, (2 * m, 2 * m, 3))
                    check(t, "modes:%s:%d" % (dt, m), rnd(rng, dt, (2 * m, 12)), os, w, np.array(modes))
                    # complex signal, real valued taps
                    check(t, "mixed:%s:%d" % (dt, m), rnd(rng, "c16" if dt == "f8" else "c8", (m, 12)), os, w, np.array(modes))
                    check(t, "mixedall:%s:%d" % (dt, m), rnd(rng, "c16" if dt == "f8" else "c8", (m, 12)), os, w)


def do_signal(t, dt, m, nt, no, nl, seed):
    """signal objects: same numbers, and the result is sampled at the symbol rate"""
    rng = np.random.default_rng(seed)
    for os in range(1, no + 1):
        for n in (1, 3, 5):
            s = signals.SignalQAMGrayCoded(16, 24, nmodes=m, fb=1e9, dtype=DT[dt])
            a = rnd(rng, dt, (m, 24 * os))
            sig = s.recreate_from_np_array(a, fs=1e9 * os)
            w = rnd(rng, dt, (m, m, n))
            ok, out = t.attempt("signal:call", equalisation.apply_filter, sig, w)
            if not ok:
                continue
            exp = ref(a, os, w, list(range(m)))
            t.ok(np.asarray(out).shape == exp.shape and np.array_equal(np.asarray(out), exp), "signal:value", "same as for arrays", m=m, n=n, os=os)
            t.ok(type(out) is type(sig) and out.fs == 1e9 and out.fb == 1e9 and out.M == 16, "signal:attr", "sampled at the symbol rate",
                 fs=getattr(out, "fs", None))
            t.ok(np.array_equal(out.symbols, s.symbols), "signal:symbols", "keeps the transmitted symbols")
            t.state("signal", dt, m, os, n, out)
            t.trace()
