"""C17: frame synchronisation and pilot equalisation."""
import itertools
import warnings
import numpy as np
from qampy import signals, equalisation, phaserec
from qampy.core import pilotbased_receiver as pr, equalisation as ceq
from mc.core import close

RULE = ("a trace is one received pilot signal (delay of each mode, order of the modes, rotation, oversampling, cut) that is synchronised, equalised frame by frame and "
        "phase corrected until its payload is compared with the transmitted one; or one set of taps applied to chosen frames and compared with the sums written out")
BOUNDS = {
    "quick": "synchronisation: every 2nd delay of a frame by whole symbols (all of them thorough), all orders of up to 3 modes, skews, rotations; filtering of frames: all delays of 2 modes in a "
             "small frame x taps 1-7 x all selections of 3 frames; equaliser: frames 0-2, taps 11-23, skews, with and without frequency offset; "
             "every form of the call (taps given, steps, one or several frames, with and without application, negative shifts) against the sequence of core calls",
    "thorough": "every delay by whole symbols",
}
ASSUMPTIONS = ["delays by fractions of a symbol are a known finding (the blind equaliser settles on either neighbour)"]
Q = signals.SignalQAMGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}
FB = 1e9


def shards(tier, seed):
    out = []
    parts = 12
    for cfg in ((1024, 256, 32, 1, 2), (1024, 256, 32, 1, 1), (2048, 256, 32, 2, 2), (2048, 512, 32, 2, 1)):
        out += [["sync", list(cfg), p, parts, tier] for p in range(parts)]
    out += [["order", m, dt, tier] for m in (2, 3) for dt in DT]
    out += [["skew", p, tier] for p in range(4)]
    out += [["frames", dt, m, os, seed, tier] for dt in DT for m in (1, 2, 3) for os in (1, 2)]
    out += [["equalise", m, fr, tier] for m in (1, 2) for fr in (0, 1, 2)]
    out += [["forms", m, skew, lead, w, seed] for m, skew, lead in ((1, 0, 20), (2, 0, 20), (2, 2, 20), (3, 2, 20), (2, 4, 7), (1, 0, 4)) for w in (False, True)]
    out += [["parts", seed, tier], ["half"], ["refuse"]]
    return out


def run(shard, t):
    warnings.simplefilter("ignore")
    globals()["do_" + shard[0]](t, *shard[1:])


def shape(s, os):
    return np.asarray(s.resample(os * FB, beta=.1, renormalise=True) if os > 1 else s)


def receive(t, key, r, s, Ntaps=17, modes=None, shifts=None, eqtaps=17, methods=("cma", "cma")):
    """synchronise, equalise, correct the phase; the payload has to be that of s"""
    F, os = s.frame_len, r.os
    ok, found = t.attempt(key + ":sync", r.sync2frame, Ntaps=Ntaps)
    if not ok:
        return
    t.ok(found is True or found == True, key + ":found", "the synchronisation reports success")  # noqa
    if shifts is not None:
        want = [(x - (Ntaps - 1) // 2) % (F * os) for x in shifts]
        got = np.asarray(r.shiftfctrs)
        t.ok(np.array_equal(got % (F * os), want) and np.all(got >= 0), key + ":shift", "the start of the frame in every mode, in the order of the transmitted modes",
             got=np.asarray(r.shiftfctrs), expected=want)
    t.ok(r.synctaps == Ntaps, key + ":synctaps", "the number of taps used is recorded")
    ok, o = t.attempt(key + ":equaliser", equalisation.pilot_equaliser, r, [1e-3, 1e-3], eqtaps, foe_comp=False, Niter=10, methods=methods)
    if not ok:
        return
    taps, o = o
    t.ok(type(o) is type(s) and o.fs == FB and o.shape[-1] == F and o.shape[0] == s.shape[0], key + ":signal", "one frame at one sample per symbol", shape=np.shape(o))
    ok, o = t.attempt(key + ":cpe", phaserec.pilot_cpe, o, N=3)
    if not ok:
        return
    o = o[0]
    t.ok(not np.any(o.cal_ser()), key + ":ser", "the payload is received without errors", got=o.cal_ser(), shifts=np.asarray(r.shiftfctrs))
    t.state(key, np.asarray(r.shiftfctrs), np.asarray(o.make_decision(o.get_data())) if hasattr(o, "make_decision") else 0)
    t.trace({"key": key})


def do_sync(t, cfg, part, parts, tier):
    F, S, R, m, os = cfg
    s = signals.SignalWithPilots(16, F, S, R, nmodes=m, fb=FB, seed=[1])
    a = shape(s, os)
    shifts = list(range(0, F * os, os))
    use = [x for i, x in enumerate(shifts) if tier != "quick" or i % 2 == 0 or i < 20 or i >= len(shifts) - 20 or abs(i - S) < 6 or abs(i - S // 2) < 4][part::parts]
    for sh in use:
        r = s.recreate_from_np_array(np.tile(np.roll(a, sh, axis=-1), (1, 3)), fs=os * FB)
        receive(t, "sync:%s:%d" % (cfg, sh), r, s, shifts=[sh] * m)


def do_order(t, m, dt, tier):
    """the modes arrive in any order, rotated"""
    F, S, os = 4096, 256, 2
    s = signals.SignalWithPilots(16, F, S, 32, nmodes=m, fb=FB, dtype=DT[dt], seed=[1])
    a = shape(s, os)
    for perm in itertools.permutations(range(m)):
        for sh, th in itertools.product((0, 300, 2 * S, 5554, F * os - 2), (0, .6, -2.) if tier == "quick" else np.arange(16) / 8 * np.pi):
            r = s.recreate_from_np_array(np.tile(np.roll(a[list(perm)] * np.exp(1j * th * np.arange(1, m + 1))[:, None], sh, axis=-1), (1, 3)).astype(DT[dt]), fs=os * FB)
            receive(t, "order:%d:%s:%s:%d:%.2f" % (m, dt, perm, sh, th), r, s, shifts=[sh] * m)


def do_skew(t, part, tier):
    """the modes arrive with different delays, in either order; different numbers of taps"""
    F, S, os = 2048, 256, 2
    s = signals.SignalWithPilots(16, F, S, 32, nmodes=2, fb=FB, seed=[2])
    a = shape(s, os)
    n = 0
    for skew, sh, perm in itertools.product((2, 10, 100, -40, 600), (0, 4, 500, 1000, 3000, F * os - 10), ((0, 1), (1, 0))):
        n += 1
        if n % 4 != part:
            continue
        b = np.vstack([np.roll(a[p], sh + p * skew) for p in perm])
        r = s.recreate_from_np_array(np.tile(b, (1, 3)), fs=os * FB)
        receive(t, "skew:%d:%d:%s" % (skew, sh, perm), r, s, shifts=[sh, sh + skew])
    for nt, sh in itertools.product((11, 13, 15, 19), (0, 4, 500, F * os - 10)):
        n += 1
        if n % 4 != part:
            continue
        r = s.recreate_from_np_array(np.tile(np.roll(a, sh, axis=-1), (1, 3)), fs=os * FB)
        if (nt - 1) // 2 % 2 == 0:
            receive(t, "taps:%d:%d" % (nt, sh), r, s, Ntaps=nt, shifts=[sh, sh], eqtaps=17 if (17 - nt) % 4 == 0 else nt)


def do_frames(t, dt, m, os, seed, tier):
    """taps applied to chosen frames"""
    F = 6
    rng = np.random.default_rng([seed, m, os])
    s = signals.SignalWithPilots(4, F, 2, 2, nmodes=m, fb=FB, dtype=DT[dt], seed=[seed])
    L = 5 * F * os + 3
    E = (rng.integers(-4, 5, (m, L)) + 1j * rng.integers(-4, 5, (m, L))).astype(DT[dt])
    sels = [[0], [1], [2], [0, 1], [1, 2], [0, 1, 2], [0, 2], [2, 0], [1, 0], [2, 1, 0], [1, 1]]
    shifts = [[a] for a in range(F * os)] if m == 1 else \
        [[a, b] + [(a + b) % (F * os)] * (m - 2) for a in range(0, F * os, 1 if os == 1 or tier != "quick" else 2) for b in range(0, F * os, 1 if os == 1 else 3)] + [[a] * m for a in range(F * os)]
    for nt, st in itertools.product(range(1, 8), (5, 7, None)):
        st = nt if st is None else st
        if (nt - st) % 2:
            continue
        w = (rng.integers(-3, 4, (m, m, nt)) + 1j * rng.integers(-3, 4, (m, m, nt))).astype(DT[dt])
        wr = rng.integers(-3, 4, (2 * m, 2 * m, nt)).astype(E.real.dtype)
        for n, sh in enumerate(shifts):
            start = np.array(sh) - (nt - st) // 2
            if start.min() < 0:
                start = start + F * os
            full = sliding(E, w)
            fullr = sliding(np.vstack([E.real, E.imag]), wr)
            fullr = fullr[:m] + 1j * fullr[m:]
            for k, sel in enumerate(sels):
                if (n + k) % (3 if m > 1 and tier == "quick" else 1):
                    continue
                for real in (False, True) if m < 3 else (False,):
                    key = "frames:%s:%d:%d:%d:%d:%s:%s:%s" % (dt, m, os, nt, st, sh, sel, real)
                    r = s.recreate_from_np_array(E.copy(), fs=os * FB)
                    r.shiftfctrs, r.synctaps = np.array(sh), st
                    last = start.max() + F * os * (max(sel) + 1)
                    if last > L - nt + 1 + F * os:
                        continue
                    if last >= L - (nt - 1):        # the implementation also refuses a frame that ends with the signal
                        try:
                            t.call(equalisation.apply_filter, r, w, frames=sel)
                        except AssertionError:
                            t.state("refused", sh, nt, sel)
                        else:
                            t.ok(last <= L - nt + 1, key + ":end", "a frame beyond the signal is refused")
                        continue
                    ok, o = t.attempt(key, equalisation.apply_filter, r, wr if real else w, frames=sel)
                    if not ok:
                        continue
                    f_ = fullr if real else full
                    want = np.hstack([np.stack([f_[i, start[i] + f * F * os:start[i] + (f + 1) * F * os:os] for i in range(m)]) for f in sel])
                    g = np.asarray(o)
                    t.ok(g.shape == want.shape and np.array_equal(g, want), key, "every mode filtered from the start of its chosen frames", got=g.shape, expected=want.shape)
                    t.ok(type(o) is type(s) and o.fs == FB == o.fb and o.nframes == len(sel), key + ":object", "a signal at one sample per symbol")
                    t.ok(np.array_equal(r.shiftfctrs, sh) and r.synctaps == st and np.array_equal(np.asarray(r), E), key + ":input", "the input keeps its samples and shifts")
                    t.state(key, g)
                    t.trace({"shifts": sh, "taps": nt, "frames": sel})
    for off in (None, False, []):
        r = s.recreate_from_np_array(E.copy(), fs=os * FB)
        r.shiftfctrs, r.synctaps = np.array(shifts[3]), 5
        ok, o = t.attempt("frames:whole:%s" % off, equalisation.apply_filter, r, w, frames=off)
        if ok:
            t.ok(np.array_equal(np.asarray(o), sliding(E, w)[:, ::os][:, :(L - nt + 1) // os]), "frames:whole:%s" % off, "without frames the whole signal is filtered")
            t.trace()


def sliding(E, w):
    nt = w.shape[-1]
    n = E.shape[1] - nt + 1
    out = np.zeros((w.shape[0], n), complex)
    for k in range(nt):
        out += w[:, :, k].astype(complex) @ E[:, k:k + n]
    return out


def do_equalise(t, m, fr, tier):
    """frames with different data, equalised one by one and together, from a synchronised signal"""
    F, S, os = 1024, 256, 2
    nf = 3
    s = signals.SignalWithPilots(16, F, S, 32, nframes=nf, nmodes=m, fb=FB, repeat_data=False, seed=[3])
    a = shape(s, os)
    one = s[:, :F].copy()
    for lead, skew, nt, foe in itertools.product((8, 40, 1000), (0,) if m == 1 else (0, 2, 30), (13, 17, 21), (False, True)):
        st = 17
        # quiet symbols before and after
        tail = 2 * F
        b = np.zeros((m, a.shape[1] + lead + tail + abs(skew)), complex)
        rng = np.random.default_rng(1)
        b += .01 * (rng.standard_normal(b.shape) + 1j * rng.standard_normal(b.shape))
        for i in range(m):
            b[i, lead + i * skew:lead + i * skew + a.shape[1]] = a[i]
        f0 = 1e-4 if foe else 0
        b = b * np.exp(2j * np.pi * f0 * np.arange(b.shape[1]) / os)
        r = one.recreate_from_np_array(b, fs=os * FB)
        sh = np.array([lead + i * skew for i in range(m)])
        r.shiftfctrs, r.synctaps = sh - (st - 1) // 2, st
        if np.min(r.shiftfctrs - (nt - st) // 2) < 0:
            continue
        key = "equalise:%d:%d:%d:%d:%d:%s" % (m, fr, lead, skew, nt, foe)
        keep = r.shiftfctrs.copy(), np.asarray(r).copy()
        ok, res = t.attempt(key, equalisation.pilot_equaliser, r, 1e-3, nt, foe_comp=foe, frame=fr, verbose=True, Niter=10)
        if not ok:
            continue
        taps, o, foes, nts = res
        t.ok(np.array_equal(keep[0], r.shiftfctrs) and np.array_equal(keep[1], np.asarray(r)), key + ":input", "the input is not changed")
        t.ok(np.shape(taps) == (m, m, nt) and tuple(nts) == (nt, st), key + ":taps", "taps of the requested length")
        if foe:
            t.ok(np.all(np.abs(np.asarray(foes) - f0) < 2e-5), key + ":foe", "the frequency offset", got=foes)
        o2, _ = phaserec.pilot_cpe(o, N=3)
        ndat = np.count_nonzero(s._idx_dat)
        want = np.asarray(s.symbols)[:, fr * ndat:(fr + 1) * ndat]
        got = np.asarray(o2.get_data())
        dec = np.abs(got[..., None] - np.asarray(s.coded_symbols)).argmin(-1)
        wid = np.abs(want[..., None] - np.asarray(s.coded_symbols)).argmin(-1)
        t.ok(np.array_equal(dec, wid), key + ":data", "the payload of the requested frame", errors=np.mean(dec != wid, -1))
        t.state(key, dec)
        t.trace({"modes": m, "frame": fr, "lead": lead, "skew": skew, "taps": nt})
        for apply, verbose in ((True, False), (False, True), (False, False)):
            ok, r2 = t.attempt(key + ":%s:%s" % (apply, verbose), equalisation.pilot_equaliser, r, 1e-3, nt, apply=apply, foe_comp=foe, frame=fr, verbose=verbose, Niter=10)
            if ok:
                w2 = r2 if not (apply or verbose) else r2[0]
                t.ok(np.array_equal(np.asarray(w2), np.asarray(taps)), key + ":forms:%s:%s" % (apply, verbose), "the same taps in all forms of the call")
        if fr == 0:
            for frames in ([0, 1], [0, 1, 2], [1, 2]) if not foe else ([0, 1],):
                ok, rr = t.attempt(key + ":nframes:%s" % frames, equalisation.pilot_equaliser_nframes, r, 1e-3, nt, foe_comp=foe, frames=frames, Niter=10)
                if not ok:
                    continue
                tps, o, _ = rr
                t.ok(len(tps) == len(frames) and type(o) is type(s) and o.nframes == len(frames) and o.fs == FB, key + ":nframes:object", "taps of all and one signal of the frames")
                for i, f in enumerate(frames):
                    fo = one.recreate_from_np_array(np.asarray(o)[:, i * F:(i + 1) * F].copy())
                    fo, _ = phaserec.pilot_cpe(fo, N=3)
                    g = np.abs(np.asarray(fo.get_data())[..., None] - np.asarray(s.coded_symbols)).argmin(-1)
                    w_ = np.abs(np.asarray(s.symbols)[:, f * ndat:(f + 1) * ndat, None] - np.asarray(s.coded_symbols)).argmin(-1)
                    t.ok(np.array_equal(g, w_), key + ":nframes:%s:%d" % (frames, f), "the payload of each frame", errors=np.mean(g != w_, -1))
                t.trace()


def sequence(x, ref, sh, os, foe_comp, mu, M, Ntaps, Niter, methods, wx, adaptive):
    """the taps of one pilot sequence: equalise, estimate the frequency, and equalise without it in two steps"""
    n = len(x)
    S = ref.shape[1]
    sets = [[i] for i in range(n)] if len(set(sh)) > 1 else [None]
    cut = [np.asarray(x)[:, sh[0 if k is None else k[0]]:][:, :S * os + Ntaps - 1] for k in sets]
    kw = dict(Ntaps=Ntaps, Niter=Niter, adaptive_stepsize=adaptive)
    est = np.zeros_like(ref)
    for k, c in zip(sets, cut):
        y, wx, _ = ceq.equalise_signal(c, os, mu[0], M, wxy=wx, method=methods[0], apply=True, modes=k, **kw)
        est[slice(None) if k is None else k] = y
    f = np.zeros((n, 1))
    if foe_comp:
        f[:] = pr.pilot_based_foe(est, ref)[0]
        cut = [c * np.exp(-2j * np.pi * f * np.arange(1, c.shape[1] + 1) / os) for c in cut]
    for k, c in zip(sets, cut):
        for u, meth in zip(mu, methods):
            wx, _ = ceq.equalise_signal(c, os, u, M, wxy=wx, method=meth, apply=False, modes=k, symbols=ref, **kw)
    return wx, f


def do_forms(t, m, skew, lead, withtaps, seed):
    """all forms in which frames are equalised, against the steps they consist of"""
    F, S, os, st = 512, 128, 2, 17
    s = signals.SignalWithPilots(16, F, S, 32, nframes=4, nmodes=m, fb=FB, repeat_data=False, seed=[seed])
    a = shape(s, os)
    rng = np.random.default_rng([seed, m])
    b = .05 * (rng.standard_normal((m, a.shape[1] + 60)) + 1j * rng.standard_normal((m, a.shape[1] + 60)))
    for i in range(m):
        b[i, lead + i * skew:lead + i * skew + a.shape[1]] += a[i]
    b = b * np.exp(2j * np.pi * 1e-4 * np.arange(b.shape[1]) / os)
    mix = np.eye(m) + .1 * rng.standard_normal((m, m))
    if not skew:
        b = mix @ b
    r = s.recreate_from_np_array(b, fs=os * FB)
    r.shiftfctrs, r.synctaps = np.array([lead + i * skew - (st - 1) // 2 for i in range(m)]), st
    for nt, mu, foe, methods in itertools.product((11, 17, 19), (1e-3, [2e-3, 5e-4]), (False, True), (("cma", "cma"), ("mcma", "sbd_data"))):
        key = "forms:%d:%d:%d:%s:%d:%s:%s:%s" % (m, skew, lead, withtaps, nt, mu, foe, methods[1])
        wx = None
        if withtaps:
            wx = np.zeros((m, m, nt), complex)
            wx[range(m), range(m), nt // 2] = 1
            wx[:, :, nt // 2 - 1] = .1
        sh = r.shiftfctrs - (nt - st) // 2
        full = 4
        if sh.min() < 0:        # the first whole frame is the next one, in all modes
            sh, full = sh + F * os, 3
        asked = 33 if withtaps else nt      # the number of taps is that of the given ones
        mus = np.repeat(mu, 2) if np.ndim(mu) == 0 else mu
        kw = dict(foe_comp=foe, Niter=2, methods=methods)
        single = {}
        for f in range(full):
            w0, f0 = sequence(r, np.asarray(s.pilot_seq), sh + f * F * os, os, foe, mus, 4, nt, 2, methods, None if wx is None else wx.copy(), True)
            ok, g = t.attempt(key + ":%d" % f, equalisation.pilot_equaliser, r, mu, asked, wxinit=None if wx is None else wx.copy(), frame=f, verbose=True, **kw)
            if not ok:
                continue
            t.ok(close(np.asarray(g[0]), w0, 1e-9) and close(np.asarray(g[2]), f0, 1e-12) and tuple(g[3]) == (nt, st), key + ":%d:taps" % f, "taps and frequency of the pilot sequence of the frame",
                 got=g[2], expected=f0)
            x = np.asarray(r) * np.exp(-2j * np.pi * f0 * np.arange(1, r.shape[1] + 1) / os)
            o = np.stack([sliding(x[:, sh[i] + f * F * os:][:, :F * os + nt - 1], w0)[i, ::os] for i in range(m)])
            t.ok(close(np.asarray(g[1]), o, 1e-9) and g[1].fs == FB, key + ":%d:signal" % f, "the frame without the frequency, filtered with the taps")
            t.state(key, f, g[0])
            t.trace({"key": key, "frame": f})
        for frames, form in itertools.product(([0], [2], [0, 1], [1, 2], [0, 2, 3], [3, 1], [1, 0, 2], None) if full == 4 else ([0], [0, 1], [0, 2], [2, 1]), itertools.product((True, False), repeat=2)):
            if foe and nt != 17:
                continue
            apply, verbose = form
            fkey = key + ":%s:%s:%s" % (frames, apply, verbose)
            ok, g = t.attempt(fkey, equalisation.pilot_equaliser_nframes, r, mu, asked, apply=apply, verbose=verbose, frames=None if frames is None else list(frames), wxinit=None if wx is None else wx.copy(), **kw)
            if not ok:
                continue
            init, each = wx, []
            for f in range(4) if frames is None else frames:
                q = equalisation.pilot_equaliser(r, mu, asked, wxinit=init, frame=f, verbose=True, **kw)
                each.append(q)
                init = q[0] if f == 0 else init      # the taps of the first frame start the others
            taps, rest = g[0], g[1:]
            good = len(taps) == len(each) and all(np.array_equal(x, e[0]) for x, e in zip(taps, each))
            t.ok(good, fkey + ":taps", "the taps of each frame, as from single frames")
            if apply:
                o = rest[0]
                t.ok(type(o) is type(s) and o.fs == FB and np.array_equal(np.asarray(o), np.hstack([np.asarray(e[1]) for e in each])), fkey + ":signal", "the frames one after the other, as from single frames")
                rest = rest[1]
            if verbose:
                t.ok(len(rest) == 2 and all(np.array_equal(x, e[2]) for x, e in zip(rest[0], each)) and list(map(tuple, rest[1])) == [(nt, st)] * len(each), fkey + ":more", "frequency and numbers of taps of each frame")
            else:
                t.ok(len(rest) == 0, fkey + ":more", "nothing more is returned")
            t.trace()
        for frames in ([full], [0, full], [full + 1]):
            try:
                equalisation.pilot_equaliser_nframes(r, mu, nt, frames=frames, **kw)
            except AssertionError:
                t.trace()
            else:
                t.fail(key + ":incomplete:%s" % frames, "a frame that is not complete is refused")


def do_parts(t, seed, tier):
    """shifting and correcting shifts"""
    rng = np.random.default_rng(seed)
    for m, L in itertools.product((1, 2, 3), range(1, 8)):
        x = rng.integers(-9, 10, (m, L)) + 1j * rng.integers(-9, 10, (m, L))
        for sh in itertools.product(range(-3, 4) if m == 3 else range(-8, 9), repeat=m):
            key = "shift:%s:%d" % (sh, L)
            x0 = x.copy()
            ok, y = t.attempt(key, pr.shift_signal, x, list(sh))
            if ok:
                w = np.array([[x[i, (j + sh[i]) % L] for j in range(L)] for i in range(m)])
                t.ok(np.array_equal(y, w) and np.array_equal(x, x0), key, "every mode starts at its shift")
                t.state(key, y)
                t.trace({"shifts": list(sh)})
    for a, b, os in itertools.product(range(1, 30), range(1, 30), (1, 2, 3)):
        sh = np.array([5, 100, 33])
        key = "correct:%d:%d:%d" % (a, b, os)
        try:
            c = t.call(pr.correct_shifts, sh, (a, b), os)
        except ValueError:
            t.ok((b - a) % os != 0, key, "a difference of whole symbols is accepted")
        else:
            t.ok((b - a) % os == 0 and np.array_equal(c, sh - int((b - a) / 2)), key, "the centre of the taps stays in place")
            t.ok(np.array_equal(sh, [5, 100, 33]), key + ":input", "the shifts of the caller are not changed")
        t.trace()


def do_half(t):
    """delays by half a symbol"""
    F, os = 2048, 2
    s = signals.SignalWithPilots(16, F, 256, 32, nmodes=1, fb=FB, seed=[1])
    a = shape(s, os)
    bad = 0
    for sh in range(1, F * os, 128):
        r = s.recreate_from_np_array(np.tile(np.roll(a, sh, axis=-1), (1, 3)), fs=os * FB)
        ok = r.sync2frame()
        d = (int(r.shiftfctrs[0]) - (sh - 8) + F) % (F * os) - F
        t.ok(not ok or abs(d) <= os, "half:sync:%d" % sh, "the start of the frame is found to within a symbol or the synchronisation reports failure", off=d)
        _, o = equalisation.pilot_equaliser(r, [1e-3, 1e-3], 17, foe_comp=False, Niter=10)
        o, _ = phaserec.pilot_cpe(o, N=3)
        bad += bool(not ok or np.any(o.cal_ser()))
        t.trace({"delay": sh})
    if bad:
        t.fail("half-symbol-delay", "%d of 32 signals delayed by an odd number of samples at two samples per symbol are not found, or equalised one symbol away from the frame" % bad)


def do_refuse(t):
    F, S = 1024, 256
    s = signals.SignalWithPilots(16, F, S, 32, nmodes=1, fb=FB, seed=[1])
    a = shape(s, 2)
    r = s.recreate_from_np_array(np.tile(a, (1, 3)), fs=2 * FB)
    for f in (equalisation.pilot_equaliser, equalisation.pilot_equaliser_nframes):
        try:
            f(r, 1e-3, 17)
        except ValueError:
            t.trace()
        else:
            t.fail("refuse:unsynced:" + f.__name__, "a signal that is not synchronised is refused")
    short = s.recreate_from_np_array(a, fs=2 * FB)
    try:
        short.sync2frame()
    except AssertionError:
        t.trace()
    else:
        t.fail("refuse:short", "a signal that may not contain a sequence is refused")
    r.sync2frame()
    for bad in (3, 5):
        try:
            equalisation.pilot_equaliser(r, 1e-3, 17, frame=bad)
        except AssertionError:
            t.trace()
        else:
            t.fail("refuse:frame:%d" % bad, "an incomplete frame is refused")
    try:
        equalisation.pilot_equaliser(r, 1e-3, 16)
    except ValueError:
        t.trace()
    else:
        t.fail("refuse:taps", "tap numbers that differ by an odd number are refused")
    for meth in ("sbd_data", "cma_real", "mcma_real"):
        try:
            r.sync2frame(method=meth)
        except ValueError:
            t.trace()
        else:
            t.fail("refuse:method:" + meth, "data-aided and real-valued methods are refused for synchronisation")
    # noise: no sequence
    rng = np.random.default_rng(5)
    z = rng.standard_normal((1, 3 * F * 2)) + 1j * rng.standard_normal((1, 3 * F * 2))
    n = s.recreate_from_np_array(z, fs=2 * FB)
    t.ok(not n.sync2frame(), "refuse:noise", "noise is reported as not synchronised")
