"""C13: equaliser training follows the update rule of the chosen method, for every mode on its own."""
import itertools
import numpy as np
from qampy import signals, equalisation, theory
from qampy.core import equalisation as ceq
from mc.core import close

RULE = ("a trace is one training run of the compiled equaliser (method, modes, oversampling, taps, iterations, step size control) replayed update by "
        "update by a textbook implementation; a run in which a decision lies within rounding of a boundary is left out and counted")
BOUNDS = {
    "quick": "14 methods x {1,2,3} modes x oversampling 1,2 x taps 1,3,4,7 x iterations 1..3 x fixed/adaptive step x complex128/complex64 x orders "
             "4,8,16,32,64; every choice of modes; training lengths 1..20; given and default taps; every call form of the "
             "signal-object functions and of the two-stage equaliser against the core functions, refused modes and symbols",
    "thorough": "also oversampling 3,4, taps up to 13, 6 data sets per configuration, orders 128 and 256",
}
DT = {"c16": np.complex128, "c8": np.complex64}
CPLX = ("cma", "cma2", "mcma", "sgncma", "rde", "mrde", "sbd", "mddma", "dd", "sbd_data")
REAL = ("cma_real", "sgncma_real", "dd_real", "dd_data_real")


def shards(tier, seed):
    out = []
    for meth in CPLX + REAL:
        for dt in DT:
            for m in (1, 2, 3):
                out.append(["train", meth, dt, m, seed, tier])
        out.append(["select", meth, "c16", 3, seed, tier])
        out.append(["object", meth, "c16", 2, seed, tier])
    out += [["dual", a, b, 2, seed, tier] for a in ("mcma", "cma", "sbd_data", "sbd") for b in ("sbd", "mddma", "sbd_data", "dd")]
    out += [["forms", a, b, seed] for a, b in (("mcma", "sbd"), ("cma", "mrde"), ("sbd_data", "dd"), ("mddma", "sbd_data"), ("cma_real", "dd_real"), ("dd_data_real", "sgncma_real"))]
    out += [["dual", "cma_real", b, 2, seed, tier] for b in ("dd_real", "dd_data_real")] + [["dual", "dd_data_real", "dd_real", 2, seed, tier]]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


# -- reference --------------------------------------------------------------------------------------------
def alphabet(M):
    s = np.asarray(theory.cal_symbols_qam(M), dtype=complex).ravel()
    return s / np.sqrt(np.mean(abs(s) ** 2))


def moments(M):
    s = alphabet(M)
    r2 = np.mean(abs(s) ** 4) / np.mean(abs(s) ** 2)
    rr = np.mean(s.real ** 4) / np.mean(s.real ** 2)
    ri = np.mean(s.imag ** 4) / np.mean(s.imag ** 2)
    return r2, rr, ri


class Ref:
    """one output of the adaptive filter; margin is the smallest distance of any decision to its boundary"""

    def __init__(self, method, M, syms):
        self.m, self.margin = method, np.inf
        self.r2, self.rr, self.ri = moments(M)
        s = alphabet(M)
        self.rad = np.unique(np.round(abs(s) ** 2, 12))
        self.radr = np.unique(np.round(s.real ** 2, 12))
        self.radi = np.unique(np.round(s.imag ** 2, 12))
        self.syms = syms

    def near(self, x, table):
        d = np.sort(abs(table - x))
        if len(d) > 1:
            self.margin = min(self.margin, d[1] - d[0])
        return table[np.argmin(abs(table - x))]

    def dec(self, y):
        tab = np.unique(np.round(self.syms, 12))
        d = np.sort(abs(tab - y))
        if len(d) > 1:
            self.margin = min(self.margin, d[1] - d[0])
        return tab[np.argmin(abs(tab - y))]

    def sgn(self, x):
        self.margin = min(self.margin, abs(x))
        return np.sign(x)

    def err(self, y, i):
        m = self.m
        if m == "cma":
            return (self.r2 - abs(y) ** 2) * y
        if m == "cma2":
            return (self.r2 - y ** 2) * y
        if m == "mcma":
            return (self.rr - y.real ** 2) * y.real + 1j * (self.ri - y.imag ** 2) * y.imag
        if m == "sgncma":
            return self.sgn(self.r2 - abs(y) ** 2) * (self.sgn(y.real) + 1j * self.sgn(y.imag))
        if m == "rde":
            return (self.near(abs(y) ** 2, self.rad) - abs(y) ** 2) * y
        if m == "mrde":
            return (self.near(y.real ** 2, self.radr) - y.real ** 2) * y.real \
                + 1j * (self.near(y.imag ** 2, self.radi) - y.imag ** 2) * y.imag
        if m in ("sbd", "sbd_data"):
            s = self.dec(y) if m == "sbd" else self.syms[i]
            return (s.real - y.real) * abs(s.real) + 1j * (s.imag - y.imag) * abs(s.imag)
        if m == "mddma":
            s = self.dec(y)
            return (s.real ** 2 - y.real ** 2) * y.real + 1j * (s.imag ** 2 - y.imag ** 2) * y.imag
        if m == "dd":
            return self.dec(y) - y
        y = y.real
        if m == "cma_real":
            return (self.rr - y ** 2) * y
        if m == "sgncma_real":
            return self.sgn(self.rr - y ** 2) * self.sgn(y)
        if m in ("dd_real", "dd_data_real"):
            s = self.dec(y) if m == "dd_real" else self.syms[i]
            return (s - y) * abs(s)
        raise KeyError(m)


def reference(method, E, M, os, mu, w, modes, tr, niter, adaptive, syms, share=False):
    """E: rows of the (possibly real valued) field; syms: the alphabet or reference symbols per row"""
    w = w.astype(complex).copy()
    err = np.zeros((E.shape[0], tr * niter), dtype=complex)
    margin, step = np.inf, mu
    nt = w.shape[2]
    for mode in modes:
        r = Ref(method, M, syms[mode])
        if not share:
            step = mu
        for it in range(niter):
            last = None
            for i in range(tr):
                X = E[:, i * os:i * os + nt]
                y = np.sum(X * w[mode])
                e = r.err(y, i)
                err[mode, it * tr + i] = e
                w[mode] += step * e * np.conj(X)
                if adaptive and i > 0:
                    a, b = e.real * last.real, e.imag * last.imag
                    r.margin = min(r.margin, 10 * abs(a), 10 * abs(b) if method not in REAL else np.inf)
                    if not (a > 0 and (b > 0 or method in REAL)):
                        step = step / (1 + step * abs(last) ** 2)
                last = e if not np.isscalar(e) else complex(e)
                if not np.isfinite(abs(e)) or abs(e) > 50:
                    return w, err, 0.
        margin = min(margin, r.margin)
    return w, err, margin


def rows(E, real):
    return np.vstack([E.real, E.imag]) if real else np.asarray(E)


def data(rng, M, m, n, os, nt, dt):
    """received field: mixed and filtered symbols of M-QAM plus a little noise, and the symbols"""
    a = alphabet(M)
    n2 = n + nt + 4
    s = a[rng.integers(0, M, (m, n2))]
    up = np.repeat(s, os, axis=1) if os > 1 else s
    mix = np.eye(m) + 0.25 * (rng.standard_normal((m, m)) + 1j * rng.standard_normal((m, m)))
    E = mix @ up * 0.8
    E[:, 1:] += (0.15 + 0.1j) * E[:, :-1]
    E = E + 0.05 * (rng.standard_normal(E.shape) + 1j * rng.standard_normal(E.shape))
    need = (n - 1) * os + nt
    return np.ascontiguousarray(E[:, :need]).astype(DT[dt]), s[:, :n].astype(DT[dt])


def ref_symbols(method, M, m, tx):
    """per row of the filter: alphabet or reference sequence"""
    if method in ("sbd", "mddma", "dd"):
        return [alphabet(M)] * m
    if method == "dd_real":
        return [alphabet(M).real] * m + [alphabet(M).imag] * m
    if method == "sbd_data":
        return list(tx.astype(complex))
    if method == "dd_data_real":
        return list(tx.real.astype(float)) + list(tx.imag.astype(float))
    return [None] * (2 * m)


def compare(t, key, method, E, M, os, mu, w0, modes, tr, niter, adaptive, tx, got, dt):
    """got = (taps, errors) of the code under test"""
    real = method in REAL
    m = E.shape[0]
    Er = rows(E, real).astype(complex)
    rmodes = list(modes) + ([k + m for k in modes] if real else [])
    syms = ref_symbols(method, M, m, tx)
    w, err, margin = reference(method, Er, M, os, mu, w0, rmodes, tr, niter, adaptive, syms)
    tol, need = (1e-9, 1e-9) if dt == "c16" else (2e-3, 2e-3)
    if margin < need:
        t.note("left out: a decision at its boundary")
        return
    gw, ge = np.asarray(got[0]), np.asarray(got[1])
    ok = gw.shape == w.shape and ge.shape == err.shape

    def same(a, b):
        return np.all(abs(a - b) <= tol * (1 + np.max(abs(b))))
    if ok and not (same(gw, w) and same(ge, err)):
        if adaptive and len(rmodes) > 1:
            w2, err2, m2 = reference(method, Er, M, os, mu, w0, rmodes, tr, niter, adaptive, syms, share=True)
            if m2 < need:
                t.note("left out: a decision at its boundary")
                return
            if same(gw, w2) and same(ge, err2):
                t.fail("adaptive-step-shared-by-modes", "the adaptive step size of one mode goes on with the value the previous mode ended with")
                t.state(key, gw)
                t.trace()
                return
        ok = False
    t.ok(ok, key, "taps and errors after the training", method=method, M=M, os=os, taps=gw.shape, expected_taps=w, got_taps=gw,
         first_wrong=int(np.argmax(np.any(abs(ge - err) > tol * (1 + np.max(abs(err))), axis=0))) if ge.shape == err.shape else -1,
         niter=niter, adaptive=adaptive, modes=list(modes))
    t.state(key, gw, ge)
    t.trace({"method": method, "M": M, "os": os, "taps": list(w.shape), "symbols": tr, "iterations": niter, "adaptive": adaptive})


def orders(method, tier):
    base = [4, 16, 64] if "real" in method else [4, 8, 16, 32, 64]
    if method.startswith("dd_") and "real" in method:
        base = [4, 8, 16, 32, 64]
    return base + ([128, 256] if tier == "thorough" else [])


def do_train(t, method, dt, m, seed, tier):
    rng = np.random.default_rng([seed, m])
    rw = 2 * m if method in REAL else m
    for M in orders(method, tier):
        for os, nt, niter, adaptive in itertools.product((1, 2) if tier == "quick" else (1, 2, 3, 4),
                                                         (1, 3, 4, 7) if tier == "quick" else (1, 2, 3, 4, 7, 13), (1, 2, 3), (False, True)):
            for rep in range(1 if tier == "quick" else 6):
                n = 12 if tier == "quick" else 30
                E, tx = data(rng, M, m, n, os, nt, dt)
                mu = float(rng.choice([1e-3, 1e-2, 3e-2]))
                given = (os + nt + niter) % 2
                w0 = np.zeros((rw, rw, nt), dtype=DT[dt] if method not in REAL else DT[dt]().real.dtype)
                for k in range(rw):
                    w0[k, k, nt // 2] = 1
                kw = {"Ntaps": nt}
                if given:
                    w0 = w0 + 0.1 * rng.standard_normal(w0.shape).astype(w0.dtype)
                    w0 = w0.astype(DT[dt] if method not in REAL else DT[dt]().real.dtype)
                    kw = {"wxy": w0.copy()}
                if method in ("sbd_data", "dd_data_real"):
                    kw["symbols"] = tx
                E0 = E.copy()
                key = "train:%s:%s:%d:%d:%s" % (method, dt, m, niter, adaptive)
                ok, got = t.attempt(key + ":call", ceq.equalise_signal, E, os, mu, M, TrSyms=n, Niter=niter, method=method,
                                    adaptive_stepsize=adaptive, **kw)
                if not ok:
                    continue
                compare(t, key, method, E, M, os, mu, w0, range(m), n, niter, adaptive, tx, got, dt)
                t.ok(np.array_equal(E, E0) and (not given or np.array_equal(kw["wxy"], w0)), key + ":pure",
                     "neither the signal nor the given taps are changed")
        # every training length
        for n in range(1, 9 if tier == "quick" else 21):
            E, tx = data(rng, M, m, n, 2, 3, dt)
            w0 = np.zeros((rw, rw, 3))
            for k in range(rw):
                w0[k, k, 1] = 1
            kw = {"symbols": tx} if method in ("sbd_data", "dd_data_real") else {}
            key = "length:%s:%s:%d" % (method, dt, m)
            ok, got = t.attempt(key + ":call", ceq.equalise_signal, E, 2, 1e-2, M, Ntaps=3, TrSyms=n, method=method, **kw)
            if ok:
                compare(t, key, method, E, M, 2, 1e-2, w0, range(m), n, 1, False, tx, got, dt)
            for kw2 in ({"TrSyms": n + 1},) + (({"TrSyms": n, "symbols": tx[:, :n - 1]},) if kw and n > 1 else ()):
                try:
                    t.call(ceq.equalise_signal, E, 2, 1e-2, M, Ntaps=3, method=method, **dict(kw, **kw2))
                    t.fail(key + ":overrun", "training past the end of the data has to be refused", n=n)
                except Exception:
                    pass


def do_select(t, method, dt, m, seed, tier):
    """only the chosen modes are trained, in whatever order they are given; the other taps and errors stay as they were"""
    rng = np.random.default_rng([seed, 7])
    rw = 2 * m if method in REAL else m
    for M in (4, 8, 16):
        for r in range(1, m + 1):
            for modes in itertools.permutations(range(m), r):
                for adaptive in (False,) + ((True,) if r == 1 and method not in REAL else ()):
                    E, tx = data(rng, M, m, 10, 2, 3, dt)
                    w0 = (0.1 * rng.standard_normal((rw, rw, 3)) + np.eye(rw)[:, :, None] * np.array([0, 1, 0])).astype(
                        DT[dt] if method not in REAL else float)
                    kw = {"symbols": tx} if method in ("sbd_data", "dd_data_real") else {}
                    key = "select:%s" % method
                    ok, got = t.attempt(key + ":call", ceq.equalise_signal, E, 2, 1e-2, M, wxy=w0.copy(), TrSyms=10, Niter=2, method=method,
                                        modes=list(modes), adaptive_stepsize=adaptive, apply=True, **kw)
                    if not ok:
                        continue
                    out, w, err = got
                    compare(t, key, method, E, M, 2, 1e-2, w0, list(modes), 10, 2, adaptive, tx, (w, err), dt)
                    Er = rows(E, method in REAL)
                    sel = list(modes) + ([k + m for k in modes] if method in REAL else [])
                    nn = (E.shape[1] - 2) // 2
                    y = np.array([[np.sum(Er[:, 2 * i:2 * i + 3] * w[k]) for i in range(nn)] for k in sel])
                    if method in REAL:
                        y = y[:len(modes)] + 1j * y[len(modes):]
                    if not np.all(np.isfinite(w)):
                        t.note("left out: diverged")
                        continue
                    t.ok(close(out, y, 1e-9), key + ":apply",
                         "apply=True gives the trained filters of the chosen modes applied to the signal", modes=modes)


def same(a, b):
    return len(a) == len(b) and all(same(x, y) if isinstance(x, (tuple, list)) else np.array_equal(x, y) for x, y in zip(a, b))


def do_forms(t, a, b, seed):
    """every form of the call on signal objects, against the plain function with everything spelled out; two stages against two calls"""
    real = a.endswith("real")
    m = 2
    for M, dt in itertools.product((8, 16, 32), DT):
        rng = np.random.default_rng([seed, M])
        s = signals.SignalQAMGrayCoded(M, 60, nmodes=m, fb=1e9, dtype=DT[dt], seed=[seed + 3 * k for k in range(m)])
        tx, al = np.asarray(s), np.asarray(s.coded_symbols)
        E = np.repeat(tx, 2, axis=1) * 0.9
        E = (E + 0.05 * (rng.standard_normal(E.shape) + 1j * rng.standard_normal(E.shape))).astype(DT[dt])
        sig = s.recreate_from_np_array(E, fs=2e9)
        rw = 2 * m if real else m
        w0 = (0.1 * rng.standard_normal((rw, rw, 5)) + np.eye(rw)[:, :, None] * np.array([0, 0, 1, 0, 0])).astype(E.real.dtype if real else E.dtype)
        other = np.roll(tx, 7, axis=1)
        used = lambda meth, given: given if given is not None else tx if meth in ("sbd_data", "dd_data_real") else al  # noqa
        for modes, start, tr in itertools.product((None, [0], [1], [1, 0]), ({"Ntaps": 5}, {"wxy": w0}, {"wxy": np.asfortranarray(w0)}), (None, 25)):
            for meth, adaptive, niter, own in itertools.product((a, b), (False, True), (1, 2), (None, other, other[:, :25])):
                if adaptive and (modes is None or len(modes) > 1):
                    continue        # the modes share the step size, see the known findings
                if own is not None and meth in ("cma", "mcma"):
                    continue
                if own is not None and own.shape[1] == 25 and meth not in ("sbd_data", "dd_data_real"):
                    continue
                key = "forms:%s:%s:%d:%s:%s:%s:%s:%d:%s" % (meth, dt, M, modes, sorted(start), tr, adaptive, niter, None if own is None else own.shape[1])
                kw = dict(TrSyms=tr, Niter=niter, method=meth, adaptive_stepsize=adaptive, modes=modes)
                want = ceq.equalise_signal(E.copy(), 2, 1e-2, M, symbols=used(meth, own), apply=True, **dict(start, **kw))
                given = {} if own is None else {"symbols": own}
                ok, got = t.attempt(key, equalisation.equalise_signal, sig, 1e-2, apply=True, **dict(start, **kw), **given)
                if own is not None and own.shape[1] == 25:
                    t.ok(ok and got[2].shape[1] == 25 * niter, key + ":short", "data-aided training uses no more symbols than it has", got=got[2].shape if ok else None)
                ok2, got2 = t.attempt(key + ":noapply", equalisation.equalise_signal, sig, 1e-2, apply=False, **dict(start, **kw), **given)
                if not (ok and ok2):
                    continue
                t.ok(same(got, want) and same(got2, want[1:]) and got[0].fs == 1e9 and type(got[0]) is type(s), key, "what is asked for reaches the equaliser")
                t.trace()
            for bad in ([m], [0, m], [m + 1]):
                try:
                    equalisation.equalise_signal(sig, 1e-2, method=a, modes=bad if not real else [x + m for x in bad], TrSyms=tr, **start)
                except Exception:
                    t.trace()
                else:
                    t.fail("forms:%s:bad:%s" % (a, bad), "modes that do not exist are refused")
            for adaptive, niter, own in itertools.product(itertools.product((False, True), repeat=2), ((1, 1), (2, 1), (1, 3)), (None, "one", "pair", "stack")):
                if any(adaptive) and (modes is None or len(modes) > 1):
                    continue
                if own == "stack" and real:
                    continue
                key = "forms:dual:%s:%s:%s:%d:%s:%s:%s:%s:%s:%s" % (a, b, dt, M, modes, sorted(start), tr, adaptive, niter, own)
                o = {None: (None, None), "one": (other, other), "pair": (other, tx), "stack": (other, tx)}[own]
                given = {None: {}, "one": {"symbols": other}, "pair": {"symbols": (other, tx)}, "stack": {"symbols": np.array([other, tx])}}[own]
                trs = (tr, None if tr is None else tr - 3)
                w1, e1 = ceq.equalise_signal(E.copy(), 2, 1e-2, M, symbols=used(a, o[0]), TrSyms=trs[0], Niter=niter[0], method=a, adaptive_stepsize=adaptive[0], modes=modes, **start)
                w2, e2 = ceq.equalise_signal(E.copy(), 2, 5e-3, M, symbols=used(b, o[1]), TrSyms=trs[1], Niter=niter[1], method=b, adaptive_stepsize=adaptive[1], modes=modes, wxy=w1)
                y = ceq.apply_filter(E.copy(), 2, w2, modes=[*modes, *(k + m for k in modes)] if real and modes is not None else modes)
                kw = dict(TrSyms=trs, Niter=niter, methods=(a, b), adaptive_stepsize=adaptive, modes=modes)
                ok, got = t.attempt(key, equalisation.dual_mode_equalisation, sig, (1e-2, 5e-3), start.get("Ntaps"), apply=True, **kw, **given, **({"wxy": w0} if "wxy" in start else {}))
                ok2, got2 = t.attempt(key + ":noapply", equalisation.dual_mode_equalisation, sig, (1e-2, 5e-3), start.get("Ntaps"), apply=False, **kw, **given, **({"wxy": w0} if "wxy" in start else {}))
                if not (ok and ok2):
                    continue
                t.ok(same(got2, (w2, (e1, e2))) and same(got[1:], (w2, (e1, e2))) and np.array_equal(np.asarray(got[0]), y) and got[0].fs == 1e9, key,
                     "two stages are two calls, the second with the taps of the first")
                t.state(key, w2)
                t.trace()


def do_object(t, method, dt, m, seed, tier):
    """signal objects: the right symbols are used, attributes survive"""
    rng = np.random.default_rng([seed, 9])
    for M in (4, 8, 16, 32):
        for adaptive in (False,):
            s = signals.SignalQAMGrayCoded(M, 40, nmodes=m, fb=1e9, dtype=DT[dt], seed=[seed + 3 * k for k in range(m)])
            tx = np.asarray(s)
            E = np.repeat(tx, 2, axis=1) * 0.9
            E = E @ np.eye(80) + 0.05 * (rng.standard_normal(E.shape) + 1j * rng.standard_normal(E.shape))
            sig = s.recreate_from_np_array(E.astype(DT[dt]), fs=2e9)
            rw = 2 * m if method in REAL else m
            w0 = np.zeros((rw, rw, 5))
            for k in range(rw):
                w0[k, k, 2] = 1
            key = "object:%s" % method
            ok, got = t.attempt(key + ":call", equalisation.equalise_signal, sig, 1e-2, Ntaps=5, TrSyms=30, method=method, apply=True)
            if not ok:
                continue
            out, w, err = got
            compare(t, key, method, np.asarray(sig), M, 2, 1e-2, w0, range(m), 30, 1, False, tx, (w, err), dt)
            t.ok(type(out) is type(s) and out.fs == 1e9 and out.M == M and np.array_equal(out.symbols, tx), key + ":attr",
                 "the equalised signal is a signal at the symbol rate with the same symbols")
            out2 = t.call(equalisation.apply_filter, sig, w)
            t.ok(np.array_equal(np.asarray(out2), np.asarray(out)), key + ":apply", "apply=True equals apply_filter with the returned taps")
            ok, got = t.attempt(key + ":call2", equalisation.equalise_signal, sig, 1e-2, wxy=w, TrSyms=30, method=method)
            if ok:
                compare(t, key + ":continue", method, np.asarray(sig), M, 2, 1e-2, np.asarray(w), range(m), 30, 1, False, tx, got, dt)
            # default training length: whole multiples of the taps, within the signal
            ok, got = t.attempt(key + ":call3", equalisation.equalise_signal, sig, 1e-2, Ntaps=5, method=method)
            if ok:
                n = got[1].shape[1]
                t.ok(0 < n and (n - 1) * 2 + 5 <= sig.shape[1] and n >= 80 // 2 - 10, key + ":length", "the default uses the whole signal but for the ends",
                     n=n)
                compare(t, key + ":default", method, np.asarray(sig), M, 2, 1e-2, w0, range(m), n, 1, False, tx, got, dt)


def do_dual(t, a, b, m, seed, tier):
    rng = np.random.default_rng([seed, 11])
    for M in (4, 16):
        for niter in ((1, 1), (2, 1), (1, 3)):
            for tr in ((None, None), (20, 30), (30, 20)):
                s = signals.SignalQAMGrayCoded(M, 40, nmodes=m, fb=1e9, seed=[seed + 3 * k for k in range(m)])
                E = np.repeat(np.asarray(s), 2, axis=1) * 0.9
                E = E + 0.05 * (rng.standard_normal(E.shape) + 1j * rng.standard_normal(E.shape))
                sig = s.recreate_from_np_array(E, fs=2e9)
                key = "dual:%s:%s" % (a, b)
                ok, got = t.attempt(key + ":call", equalisation.dual_mode_equalisation, sig, (1e-2, 5e-3), 5, TrSyms=tr, Niter=niter, methods=(a, b))
                if not ok:
                    continue
                out, w, errs = got
                w1, e1 = t.call(equalisation.equalise_signal, sig, 1e-2, Ntaps=5, TrSyms=tr[0], Niter=niter[0], method=a)
                o2, w2, e2 = t.call(equalisation.equalise_signal, sig, 5e-3, wxy=w1, TrSyms=tr[1], Niter=niter[1], method=b, apply=True)
                t.ok(np.array_equal(w, w2) and np.array_equal(errs[0], e1) and np.array_equal(errs[1], e2) and np.array_equal(out, o2), key,
                     "two-stage equalisation is the second method started from the taps of the first", M=M, niter=niter, tr=tr)
                ok, got = t.attempt(key + ":noapply", equalisation.dual_mode_equalisation, sig, (1e-2, 5e-3), 5, TrSyms=tr, Niter=niter,
                                    methods=(a, b), apply=False)
                t.ok(ok and len(got) == 2 and np.array_equal(got[0], w2), key + ":noapply", "apply=False returns taps and errors only")
                if a not in ("sbd_data", "dd_data_real") and b not in ("sbd_data", "dd_data_real"):
                    ok, got = t.attempt(key + ":core", ceq.dual_mode_equalisation, np.asarray(sig), 2, (1e-2, 5e-3), M, Ntaps=5, TrSyms=tr,
                                        Niter=niter, methods=(a, b))
                    t.ok(ok and np.allclose(got[1], w2, atol=1e-9), key + ":default-symbols", "the alphabet is generated when no symbols are given")
                t.state(key, M, niter, tr, w)
                t.trace({"methods": [a, b], "niter": niter, "M": M})
