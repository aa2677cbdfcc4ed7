"""C09: pilot frames: layout, extraction and per-frame metrics."""
import itertools
import numpy as np
from qampy import signals
from mc.core import close

RULE = ("a trace is one frame layout: built, taken apart frame by frame (every selection of frames) and compared with a layout computed from the "
        "documentation; then every single symbol of every frame is replaced and the metrics of every selection of frames are compared with the count")
BOUNDS = {
    "quick": "all frame lengths to 12, all sequence lengths, all spacings that divide the rest (and none), 1-3 frames, 1-2 modes (3 for some), repeated "
             "or new data, orders 4..64 x pilot orders, scales, two precisions; arrays and signals as payload and pilots, one pilot mode or all",
    "thorough": "all frame lengths to 24 and 1-3 modes throughout",
}
Q, P = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded
DT = {"c16": np.complex128, "c8": np.complex64}

QPSK = np.asarray(Q(4, 4, seed=[1]).coded_symbols)


def shards(tier, seed):
    top = 12 if tier == "quick" else 24
    out = [["ctor", F, nf, seed, tier] for F in range(top, 0, -1) for nf in (1, 2, 3)]
    out += [["array", F, seed, tier] for F in range(top + 4, 4, -1)]
    out += [["metrics", M, nf, rep, seed, tier] for M in (4, 16, 64) for nf in (1, 2, 3) for rep in (True, False)]
    out += [["index", seed, tier], ["ownpilots", seed, tier]]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def layout(F, S, R):
    """True where a pilot is"""
    return [i < S or (R not in (0, None) and (i - S) % R == 0) for i in range(F)]


def ratios(F, S):
    return [0, None] + [r for r in range(1, F - S + 1) if (F - S) % r == 0]


def selections(nf):
    sel = [None]
    for n in range(1, nf + 1):
        sel += [list(c) for c in itertools.permutations(range(nf), n)]
    return sel + [0, nf - 1, np.array([nf - 1]), (0,)]


def check_frames(t, key, s, pil, want_data, want_pil, nf, F, dt, cls):
    """want_data(f), want_pil(f): symbols of frame f, (modes, n)"""
    npil, ndat = sum(pil), F - sum(pil)
    a = np.asarray(s)
    full = np.empty((a.shape[0], F * nf), a.dtype)
    m = np.array(pil)
    for f in range(nf):
        fr = full[:, f * F:(f + 1) * F]
        fr[:, m], fr[:, ~m] = want_pil(f), want_data(f)
    t.ok(s.shape == full.shape and s.dtype == dt and np.array_equal(a, full), key + ":layout", "pilots and data at their documented places in every frame",
         shape=s.shape)
    t.ok(s.nframes == nf and s.frame_len == F, key + ":nframes", "number and length of frames")
    t.ok(np.array_equal(s.idx_pilots, np.tile(m, nf)) and np.array_equal(s.idx_payload, np.tile(~m, nf)), key + ":masks", "pilot and payload masks")
    for sel in selections(nf):
        ff = list(range(nf)) if sel is None else np.atleast_1d(sel).tolist()
        k = "%s:frames %s" % (key, sel)
        if ndat:
            ok, d = t.attempt(k + ":data", s.get_data, sel)
            if ok:
                w = np.hstack([want_data(f) for f in ff])
                t.ok(type(d) is cls and np.array_equal(np.asarray(d), w), k + ":data", "payload of the chosen frames")
                tx = np.asarray(d.symbols)
                L = w.shape[1]
                reps = -(-L // tx.shape[1])
                t.ok(np.array_equal(np.tile(tx, reps)[:, :L], w), k + ":symbols", "the payload carries the symbols transmitted in these frames",
                     got=tx.shape)
                d *= 2
        if npil:
            ok, p = t.attempt(k + ":pilots", s.extract_pilots, sel)
            if ok:
                t.ok(np.array_equal(np.asarray(p), np.hstack([want_pil(f) for f in ff])), k + ":pilots", "pilots of the chosen frames")
                p *= 2
        t.ok(np.array_equal(np.asarray(s), full), k + ":alias", "the extracted parts are the caller's: changing them leaves the signal alone")
    ok, u = t.attempt(key + ":distinct", s.recreate_from_np_array, (np.arange(full.size).reshape(full.shape) * (1 + .5j)).astype(dt))
    if ok:      # every sample of every frame different
        w = np.asarray(u).reshape(a.shape[0], nf, F)
        for sel in selections(nf):
            ff = list(range(nf)) if sel is None else np.atleast_1d(sel).tolist()
            for f, c, mask in ((u.get_data, ndat, ~m), (u.extract_pilots, npil, m)):
                if c:
                    ok, d = t.attempt("%s:distinct:%s" % (key, sel), f, sel)
                    t.ok(ok and np.array_equal(np.asarray(d), np.hstack([w[:, i, mask] for i in ff])), "%s:distinct:%s" % (key, sel), "samples of the frames in the order asked for")
    for bad in (nf, [0, nf], [nf + 3]):
        for f, name in ((s.get_data, "get_data"), (s.extract_pilots, "extract_pilots")):
            try:
                f(bad)
            except (AssertionError, ValueError, IndexError):
                continue
            t.fail("%s:%s:outside %s" % (key, name, bad), "a frame that does not exist is refused")
    t.state(key, full)


def do_ctor(t, F, nf, seed, tier):
    fb = 10e9
    for S in range(0, F + 1):
        for R in ratios(F, S):
            pil = layout(F, S, R)
            npil, ndat = sum(pil), F - sum(pil)
            if not ndat or not npil:
                continue        # no data / no pilots: numpy cannot generate empty signals
            for n, (m, dt, rep, Mp, scale, (cls, M)) in enumerate(itertools.product((1, 2) if tier == "quick" and F > 6 else (1, 2, 3), DT, (True, False), (4, 16), (1, 2.5),
                                                                                     ((Q, 4), (Q, 16), (P, 8)))):
                if tier == "quick" and F > 8 and (n + F + S) % 3:
                    continue
                key = "ctor:%d:%d:%s:%d:%d:%s:%s:%d:%s:%s%d" % (F, S, R, nf, m, dt, rep, Mp, scale, cls.__name__, M)
                ok, s = t.attempt(key, signals.SignalWithPilots, M, F, S, R, nframes=nf, pilot_scale=scale, Mpilots=Mp, dataclass=cls, nmodes=m, dtype=DT[dt],
                                  repeat_data=rep, fb=fb, seed=[seed + n])
                if not ok:
                    continue
                p, d = np.asarray(s.pilots), np.asarray(s.symbols)
                t.ok(s.M == M and s.Mpilots == Mp and s.fb == fb and s.fs == fb and s.os == 1 and s.pilot_scale == scale, key + ":attrs", "orders, rates, scale")
                t.ok(p.shape == (m, npil) and np.array_equal(np.asarray(s.pilot_seq), p[:, :S]) and np.array_equal(np.asarray(s.ph_pilots), p[:, S:]),
                     key + ":parts", "sequence and phase pilots are the two parts of the pilots of a frame", shape=p.shape, sequence=s.pilot_seq.shape)
                t.ok(d.shape == (m, ndat * nf), key + ":symbols", "as many data symbols as payload positions")
                pa = np.asarray(s.pilots.coded_symbols) * scale
                t.ok(np.all(np.abs(p[..., None] - pa).min(-1) < 1e-5) and np.all(np.abs(d[..., None] - np.asarray(s.coded_symbols)).min(-1) < 1e-5),
                     key + ":alphabet", "pilots are from the scaled pilot alphabet, data from the payload alphabet")
                if rep and nf > 1:
                    t.ok(np.array_equal(d, np.tile(d[:, :ndat], nf)), key + ":repeat", "repeated data are the same in all frames")
                check_frames(t, key, s, pil, lambda f: d[:, f * ndat:(f + 1) * ndat], lambda f: p, nf, F, DT[dt], cls)
                t.trace({"frame": F, "sequence": S, "ratio": R, "frames": nf, "modes": m, "M": M} if n == 0 else None)
        for R in range(1, F - S):
            if (F - S) % R:
                try:
                    t.call(signals.SignalWithPilots, 4, F, S, R, nframes=nf)
                except ValueError:
                    t.state("refused", F, S, R)
                else:
                    t.fail("ctor:%d:%d:%d:uneven" % (F, S, R), "a frame that the pilot spacing does not divide is refused")


def do_ownpilots(t, seed, tier):
    """repeat_pilots=False with several frames"""
    for F, S, R, nf in ((8, 4, 2, 2), (12, 4, 4, 3)):
        try:
            s = t.call(signals.SignalWithPilots, 4, F, S, R, nframes=nf, repeat_pilots=False)
        except ValueError as e:
            t.fail("own-pilots-per-frame-not-constructible", "SignalWithPilots(repeat_pilots=False, nframes>1) raises %s" % e)
            continue
        m = np.tile(layout(F, S, R), nf)
        t.ok(s.shape == (1, F * nf) and np.all(np.abs(np.asarray(s)[:, m]) > .5), "ownpilots:%d" % F, "a frame with pilots")
        t.trace()
    for Mp, scale, m, dt, (F, S, R), rep in itertools.product((4, 16), (1, 1.5, .5), (1, 2), DT, ((12, 4, 4), (24, 8, 2), (9, 9, 0), (10, 4, 0)), (True, False)):
        key = "ownpilots:one:%d:%s:%d:%s:%d:%s" % (Mp, scale, m, dt, F, rep)
        if F == S:
            continue
        s = t.call(signals.SignalWithPilots, 4, F, S, R, nframes=1, repeat_pilots=False, repeat_data=rep, Mpilots=Mp, pilot_scale=scale, nmodes=m, dtype=DT[dt], seed=[1])
        alph = np.asarray(Q(Mp, 4, seed=[1]).coded_symbols) * scale
        t.ok(s.Mpilots == Mp and s.pilot_scale == scale and s.dtype == DT[dt] and np.all(np.abs(np.asarray(s.pilots)[..., None] - alph).min(-1) < 1e-5), key + ":pilots",
             "the pilots are symbols of their order, scaled as asked")
        check_frames(t, key, s, layout(F, S, R), lambda f: np.asarray(s.symbols), lambda f: np.asarray(s.pilots), 1, F, DT[dt], Q)
        t.trace()


def do_array(t, F, seed, tier):
    fs = signals.SignalWithPilots.from_symbol_array
    rng = np.random.default_rng([seed, F])
    for S in range(0, F):
        for R in ratios(F, S):
            pil = np.array(layout(F, S, R))
            npil, ndat = int(pil.sum()), int((~pil).sum())
            if not ndat or not npil:
                continue
            for n, (m, nf, dt, extra, pform, payform, scale) in enumerate(itertools.product((1, 2, 3), (1, 2), DT, (0, 3), ("none", "signal", "array", "one", "onesig", "index"),
                                                                                           ("signal", "array", "psk"), (1, 2.0))):
                if (n + S * 7 + F) % (11 if tier == "quick" else 3):
                    continue
                if payform == "array" and ndat < 4:
                    continue
                key = "array:%d:%d:%s:%d:%d:%s:%d:%s:%s:%s" % (F, S, R, m, nf, dt, extra, pform, payform, scale)
                pay = Q(4, ndat + extra, nmodes=m, dtype=DT[dt], fb=5e9, seed=[seed, n])
                kw, cls = {}, Q
                if payform == "psk":
                    pay, cls = P(8, ndat + extra, nmodes=m, dtype=DT[dt], fb=5e9, seed=[seed, n]), P
                if payform == "array":
                    pay = np.asarray(pay).copy()
                    pay[:, :4] = Q(4, 4, nmodes=1, dtype=DT[dt], seed=[1]).coded_symbols
                    kw.update(M=4, fb=5e9)
                want = np.asarray(pay)[:, :ndat].copy()
                src = pay.copy()
                bits = None if payform == "array" else np.asarray(pay.bits).copy()
                p, pidx = None, None
                if pform in ("signal", "index"):
                    p = Q(16, npil, nmodes=m, dtype=DT[dt], fb=5e9, seed=[seed, n, 5])
                elif pform == "onesig" and m > 1 and npil >= 4:
                    p = Q(4, npil, nmodes=1, dtype=DT[dt], fb=5e9, seed=[seed, n, 5])
                    p = np.asarray(p)
                    p[:, :4] = Q(4, 4, seed=[1]).coded_symbols
                elif pform in ("array", "one") and npil >= 4:
                    p = np.asarray(Q(4, npil, nmodes=1 if pform == "one" else m, dtype=DT[dt], seed=[seed, n, 5])).copy()
                    p[:, :4] = Q(4, 4, seed=[1]).coded_symbols
                elif pform != "none":
                    continue
                mask = pil
                if pform == "index":        # any set of positions
                    pidx = rng.permutation(F)[:npil]
                    mask = np.zeros(F, bool)
                    mask[pidx] = True
                if p is None and payform == "array":
                    kw.pop("fb")
                ok, s = t.attempt(key, fs, pay, F, S, R, pilots=p, pilot_idx=pidx, nframes=nf, pilot_scale=scale, **kw)
                if not ok:
                    continue
                t.ok(np.array_equal(np.asarray(pay), np.asarray(src)), key + ":input", "the payload is not changed")
                gp = np.asarray(s.pilots)
                if p is not None:
                    wp = np.broadcast_to(np.asarray(p), (m, npil))
                    t.ok(close(gp, wp, 1e-6), key + ":pilots", "the given pilots are used")
                else:
                    t.ok(np.all(np.abs(gp[..., None] - QPSK * scale).min(-1) < 1e-5) and gp.shape == (m, npil), key + ":pilots", "generated pilots are multiplied with the scale", got=gp)
                t.ok(s.pilot_scale == scale and s.frame_len == F and s.Mpilots == (16 if pform in ("signal", "index") else 4), key + ":pilotattrs", "scale, frame length, order of the pilots")
                if pform != "index":
                    seq, ph = np.asarray(s.pilot_seq), np.asarray(s.ph_pilots)
                    t.ok(np.array_equal(seq, gp[:, :S]) and np.array_equal(ph, gp[:, S:]), key + ":sequence", "the pilots are the sequence, then the phase pilots")
                if payform != "array":
                    b = s.symbols
                    t.ok(np.array_equal(np.asarray(b.symbols), want) and np.array_equal(np.asarray(b.bits), bits[:, :ndat * pay.Nbits]), key + ":bits",
                         "the payload has the transmitted symbols and bits of its length", got=[b.symbols.shape, b.bits.shape])
                    ok, er = t.attempt(key + ":errors", lambda: (s.cal_ser(), s.cal_ber()))
                    if ok:
                        t.ok(not np.any(er), key + ":errors", "a signal as it was made has no errors", got=er)
                gd = np.asarray(s.symbols)
                t.ok(close(gd, want, 1e-6), key + ":payload", "the given symbols are the payload", got=gd, expected=want)
                t.ok(s.M == (8 if payform == "psk" else 4) and (payform == "array" and p is None or s.fb == 5e9 == s.fs), key + ":attrs", "order and rates")
                check_frames(t, key, s, list(mask), lambda f: gd, lambda f: gp, nf, F, DT[dt], cls)
                t.trace({"frame": F, "sequence": S, "ratio": R, "pilots": pform, "payload": payform})
                if nf == 1 and ndat >= 4 and npil >= 4 and payform == "array" and pform == "array" and scale == 1:
                    fr = np.asarray(s).copy()
                    ok, r = t.attempt(key + ":frame", fs, fr, F, S, R, payload_is_frame=True, M=4)
                    if ok:
                        t.ok(close(np.asarray(r), fr, 1e-6) and close(np.asarray(r.symbols), gd, 1e-6) and close(np.asarray(r.pilots), gp, 1e-6), key + ":frame",
                             "a complete frame is taken apart into pilots and payload")
                        t.trace()
            # too short a payload is refused
            if ndat > 1:
                try:
                    fs(Q(4, ndat - 1), F, S, R)
                except AssertionError:
                    pass
                else:
                    t.fail("array:%d:%d:%s:short" % (F, S, R), "a payload that does not fill the frame is refused")


def do_index(t, seed, tier):
    """signals cut to any length: the complete frames count"""
    F, S, R = 12, 4, 4
    for nf, m, os in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        s = signals.SignalWithPilots(4, F, S, R, nframes=nf, nmodes=m, fb=1e9, seed=[seed])
        if os == 2:
            a = np.repeat(np.asarray(s), 2, axis=1)
            s2 = s.recreate_from_np_array(a, fs=2e9)
            for L in range(0, a.shape[1] + 1):
                t.ok(s2[:, :L].nframes == L // (2 * F), "cut:os2:%d:%d" % (nf, L), "frames counted in symbols")
                t.state("cut", nf, L)
                t.trace()
            continue
        pil = np.array(layout(F, S, R))
        a = np.asarray(s)
        for L in range(1, F * nf + 1):
            c = s[:, :L].copy()
            k = "cut:%d:%d:%d" % (nf, m, L)
            n = L // F
            t.ok(c.nframes == n, k, "complete frames are counted")
            ok, d = t.attempt(k + ":data", c.get_data)
            if ok:
                w = np.hstack([a[:, f * F:(f + 1) * F][:, ~pil] for f in range(n)]) if n else a[:, :L][:, ~pil[:L]]
                t.ok(np.array_equal(np.asarray(d), w), k + ":data", "payload of the complete frames")
            if n:
                t.ok(np.array_equal(np.asarray(c.extract_pilots()), np.hstack([a[:, f * F:(f + 1) * F][:, pil] for f in range(n)])), k + ":pilots", "pilots of the complete frames")
                t.ok(np.array_equal(c.idx_pilots, np.tile(pil, n)) and np.array_equal(c.idx_payload, np.tile(~pil, n)), k + ":masks", "masks of the complete frames")
            try:
                s.recreate_from_np_array(np.asarray(c))
            except AssertionError:
                t.ok(n == 0, k + ":recreate", "an array with a complete frame can be used")
            else:
                t.ok(n > 0, k + ":recreate", "an array shorter than a frame is refused")
            t.state("cut", nf, m, L)
            t.trace()


def do_metrics(t, M, nf, rep, seed, tier):
    m, F, S, R = 2, 16, 4, 4
    pil = np.array(layout(F, S, R))
    ndat = int((~pil).sum())
    s = signals.SignalWithPilots(M, F, S, R, nframes=nf, nmodes=m, repeat_data=rep, fb=1e9, seed=[seed, M])
    alph = np.asarray(s.coded_symbols)
    enc = np.asarray(s._symbols._encoding, dtype=int)
    dat = np.flatnonzero(np.tile(~pil, nf))
    a = np.asarray(s)
    idx0 = np.abs(a[..., None] - alph).argmin(-1)
    nb = int(np.log2(M))
    sels = [x for x in selections(nf) if not isinstance(x, np.ndarray)]

    def verify(changes, key):
        b = a.copy()
        for (mode, pos, new) in changes:
            b[mode, pos] = alph[new]
        r = s.recreate_from_np_array(b)
        for sel in sels:
            ff = list(range(nf)) if sel is None else np.atleast_1d(sel).tolist()
            ser, ber, pw = np.zeros(m), np.zeros(m), np.zeros(m)
            for (mode, pos, new) in changes:
                if pos // F in ff:
                    old = idx0[mode, pos]
                    ser[mode] += new != old
                    ber[mode] += (enc[new] != enc[old]).sum()
                    pw[mode] += abs(alph[new] - alph[old])**2
            n = ndat * len(ff)
            k = "%s:frames %s" % (key, sel)
            for name, want, fn in (("ser", ser / n, r.cal_ser), ("ber", ber / n / nb, r.cal_ber), ("evm", np.sqrt(pw / n), r.cal_evm)):
                ok, v = t.attempt(k + ":" + name, fn, frames=sel)
                if ok and name == "evm":
                    tx = np.hstack([a[:, f * F:(f + 1) * F][:, ~pil] for f in ff])
                    want = want / np.sqrt(np.mean(np.abs(tx)**2, -1))
                    # the documented EVM is relative to the transmitted power; an absolute one is accepted when the alphabet has unit power
                    t.ok(close(np.asarray(v).ravel(), want, 1e-9) or close(np.asarray(v).ravel(), np.sqrt(pw / n), 1e-9), k + ":" + name,
                         "EVM of the chosen frames", got=v, expected=want)
                elif ok:
                    t.ok(close(np.asarray(v).ravel(), want, 1e-12), k + ":" + name, "errors of the chosen frames", got=v, expected=want)
            t.state(M, nf, rep, key, str(sel), ser, ber)
        t.trace({"changes": changes})
    verify([], "clean")
    for mode in range(m):
        for i, pos in enumerate(dat):
            for j in (range(1, M) if M == 4 else (1, 5, M - 1)):
                verify([(mode, int(pos), int((idx0[mode, pos] + j) % M))], "metrics:%d:%d:%s:%d:%d:%d" % (M, nf, rep, mode, pos, j))
    # pilots do not count
    for mode, pos in itertools.product(range(m), np.flatnonzero(np.tile(pil, nf))):
        b = a.copy()
        b[mode, pos] *= -1
        r = s.recreate_from_np_array(b)
        t.ok(not np.any(r.cal_ser()) and not np.any(r.cal_ber()) and not np.any(r.cal_evm()), "metrics:pilot:%d:%d" % (mode, pos), "errors on pilots are not counted")
        t.trace()
    for (i, p), (j, q) in itertools.combinations(list(enumerate(dat))[::3], 2):
        verify([(0, int(p), int((idx0[0, p] + 1) % M)), (1, int(q), int((idx0[1, q] + 2) % M))], "metrics2:%d:%d:%s:%d:%d" % (M, nf, rep, p, q))
