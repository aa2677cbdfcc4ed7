"""C04: SER, BER and EVM report exactly the errors that happened."""
import itertools
import numpy as np
from qampy import signals
from mc.checks.c01 import words, get_cls
from mc.checks.c05 import ref_offset
from mc.core import tol_of

RULE = ("a trace is one received signal made from the transmitted one by replacing or displacing chosen symbols (and shifting, rotating, "
        "cutting or repeating it), measured with cal_ser, cal_ber and cal_evm and compared with the counted errors")
BOUNDS = {
    "quick": "QAM 2..256, PSK 2..32, both precisions, 1-3 modes: every symbol->symbol substitution (M<=32) at every place of a short signal, "
             "every set of up to 2 error positions over all modes, received lengths 1..3N, displacements in 8 directions at 5 radii, "
             "up to 6 errors in unsynchronised signals at every 5th shift and all rotations",
    "thorough": "every substitution up to order 128, all pairs of positions in longer signals, every shift",
}
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = []
    for dt in DT:
        for cls, orders in (("QAM", [2, 4, 8, 16, 32, 64, 128, 256]), ("PSK", [2, 4, 8, 16, 32])):
            for M in orders:
                for part in ("subst", "positions", "lengths", "evm", "unsynced"):
                    if part == "subst" and M > (32 if tier == "quick" else 128):
                        continue
                    out.append([part, cls, M, dt, seed, tier])
        out.append(["symbolonly", "-", 5, dt, seed, tier])
        out += [["pilots", "QAM", M, dt, seed, tier] for M in (4, 16, 64)]
    return out


class Link:
    def __init__(self, t, name, M, N, nmodes, dtype, seed):
        cls = get_cls(name)
        self.M, self.N, self.nmodes, self.nb = M, N, nmodes, M.bit_length() - 1
        R = np.random.RandomState(seed * 7 + M)
        self.val = R.randint(0, M, (nmodes, N))
        self.w = words(M)
        self.sig = t.call(cls.from_bit_array, self.w[self.val].reshape(nmodes, -1), M, dtype=dtype)
        self.table = np.asarray(t.call(self.sig.modulate, self.w.reshape(1, -1)))[0]
        self.dtype = np.dtype(dtype)
        assert np.array_equal(np.asarray(self.sig), self.table[self.val])
        d = abs(self.table[:, None] - self.table[None]).astype(float)
        np.fill_diagonal(d, 9)
        self.dmin = d.min()


def measure(t, key, lk, rx, rxval, txval, synced, evm=None, **info):
    """rx carries the values rxval; txval are the values that were sent at the same places"""
    keep = rx.copy()
    nm, n = rxval.shape
    eser = np.count_nonzero(rxval != txval, axis=1) / n
    bits = lk.w[rxval] ^ lk.w[txval]
    eber = bits.reshape(nm, -1).sum(1) / (n * lk.nb)
    ser = t.call(lk.sig.cal_ser, rx, synced=synced)
    t.ok(np.shape(ser) == (nm,) and np.allclose(ser, eser, atol=1e-12), key + ":ser", "the SER of each mode is the share of wrong symbols",
         got=ser, want=eser, **info)
    ber = t.call(lk.sig.cal_ber, rx, synced=synced)
    t.ok(np.shape(ber) == (nm,) and np.allclose(ber, eber, atol=1e-12), key + ":ber", "the BER of each mode is the share of wrong bits",
         got=ber, want=eber, **info)
    if evm is not None:
        got = t.call(lk.sig.cal_evm, rx, synced=synced)
        t.ok(np.shape(got) == (nm,) and np.allclose(got, evm, atol=20 * tol_of(lk.dtype)), key + ":evm",
             "the EVM of each mode is the RMS distance to the sent symbols", got=got, want=evm, **info)
    t.ok(np.array_equal(keep, rx), key + ":pure", "measuring does not change the signal")
    t.state(key, rxval.tobytes(), rx)
    return eser, eber


def run(shard, t):
    part, name, M, dt, seed, tier = shard
    globals()["do_" + part](t, name, M, DT[dt], "%s%d:%s" % (name, M, dt), seed, tier)


def do_subst(t, name, M, dtype, key, seed, tier):
    """every symbol received as every other symbol"""
    for nmodes in (1, 2):
        lk = Link(t, name, M, M, nmodes, dtype, seed)
        lk.val[:] = np.arange(M)
        lk.sig = t.call(get_cls(name).from_bit_array, lk.w[lk.val].reshape(nmodes, -1), M, dtype=dtype)
        for mode in range(nmodes):
            for a in range(M):
                for b in range(M):
                    if nmodes == 2 and M > 8 and (a + b + mode) % 7:
                        continue
                    rv = lk.val.copy()
                    rv[mode, a] = b
                    measure(t, key + ":subst", lk, lk.table[rv], rv, lk.val, True, evm=rms(lk.table[rv], lk.table[lk.val]), sent=a, received=b)
        # all symbols at once, every rotation of the alphabet
        for s in range(0, M, max(1, M // 32)):
            rv = (lk.val + s) % M
            measure(t, key + ":all", lk, lk.table[rv], rv, lk.val, True, evm=rms(lk.table[rv], lk.table[lk.val]), shift=s)
        t.trace({"order": M, "nmodes": nmodes, "substitutions": M * M})


def rms(a, b):
    return np.sqrt(np.mean(abs(a.astype(complex) - b.astype(complex)) ** 2, axis=-1))


def do_positions(t, name, M, dtype, key, seed, tier):
    """every set of up to two error positions, over all modes"""
    for nmodes in (1, 2, 3):
        N = 9 if tier == "quick" else 16
        lk = Link(t, name, M, N, nmodes, dtype, seed + nmodes)
        places = [(m, i) for m in range(nmodes) for i in range(N)]
        for k in (0, 1, 2):
            if k == 2 and tier == "quick" and M > 16:
                continue
            for c in itertools.combinations(places, k):
                rv = lk.val.copy()
                for j, (m, i) in enumerate(c):
                    rv[m, i] = (rv[m, i] + 1 + j) % M
                rx = lk.table[rv]
                measure(t, key + ":places", lk, rx, rv, lk.val, True, evm=rms(rx, lk.table[lk.val]), places=c, nmodes=nmodes)
                # where the errors are
                ser, errs, tx = t.call(lk.sig.cal_ser, rx, synced=True, verbose=True)
                t.ok(np.shape(ser) == (nmodes,) and np.allclose(ser, np.mean(rv != lk.val, axis=1)), key + ":verbose-rate",
                     "the same rate with and without the places", got=ser, places=c)
                t.ok(np.array_equal(np.asarray(errs) != 0, rv != lk.val) and np.allclose(np.asarray(tx), lk.table[lk.val], atol=1e-6),
                     key + ":verbose-ser", "the symbol errors are reported at their places", places=c)
                ber, errs, tx = t.call(lk.sig.cal_ber, rx, synced=True, verbose=True)
                t.ok(np.shape(ber) == (nmodes,) and np.allclose(ber, (lk.w[rv] ^ lk.w[lk.val]).reshape(nmodes, -1).mean(1)),
                     key + ":verbose-bit-rate", "the same rate with and without the places", got=ber, places=c)
                t.ok(np.array_equal(np.asarray(errs).astype(bool), (lk.w[rv] ^ lk.w[lk.val]).reshape(nmodes, -1))
                     and np.array_equal(np.asarray(tx).astype(bool), lk.w[lk.val].reshape(nmodes, -1)),
                     key + ":verbose-ber", "the bit errors are reported at their places", places=c)
            t.trace({"nmodes": nmodes, "errors": k, "N": N, "order": M})
        # a signal measured on itself: modified in place after transmission
        s = lk.sig.copy()
        rv = lk.val.copy()
        rv[:, ::3] = (rv[:, ::3] + 1) % M
        s[:] = lk.table[rv]
        got = t.call(s.cal_ser, synced=True)
        t.ok(np.allclose(got, np.mean(rv != lk.val, axis=1)), key + ":self", "a signal is measured against what was sent", got=got)
        got = t.call(s.cal_ber, synced=True)
        t.ok(np.allclose(got, (lk.w[rv] ^ lk.w[lk.val]).reshape(nmodes, -1).mean(1)), key + ":self-ber", "a signal is measured against what was sent")
        t.trace()


def do_lengths(t, name, M, dtype, key, seed, tier):
    """received signals that are shorter or longer than the pattern (which then repeats)"""
    N = 12
    for nmodes in (1, 2):
        lk = Link(t, name, M, N, nmodes, dtype, seed)
        for L in range(1, 3 * N + 1):
            tv = lk.val[:, np.arange(L) % N]
            for nerr in (0, 1, min(3, L)):
                rv = tv.copy()
                for j in range(nerr):
                    rv[(j + L) % nmodes, (5 * j + L - 1) % L] += 1
                rv %= M
                rx = np.ascontiguousarray(lk.table[rv])
                measure(t, key + ":length", lk, rx, rv, tv, True, evm=rms(rx, lk.table[tv]), L=L, nerr=nerr)
            if nmodes == 2:      # only the first mode is received
                v = t.call(lk.sig.cal_ser, np.ascontiguousarray(lk.table[tv[:1]]), synced=True)
                t.ok(np.shape(v) == (1,) and v[0] == 0, key + ":one-mode", "one received mode is compared with the first one", L=L, got=v)
        t.trace({"nmodes": nmodes, "order": M, "lengths": 3 * N})


def do_evm(t, name, M, dtype, key, seed, tier):
    """every displacement pattern: EVM, blind EVM, and no error as long as the cell is not left"""
    N = 16
    for nmodes in (1, 2):
        lk = Link(t, name, M, N, nmodes, dtype, seed)
        x = lk.table[lk.val]
        for radius in (0, 0.05, 0.2, 0.4, 0.49):
            for k in range(8):
                for per in (1, 3, 4):        # which symbols are displaced
                    sel = np.arange(N) % per == 0
                    rx = x.astype(complex).copy()
                    rx[:, sel] += radius * lk.dmin * np.exp(1j * np.pi * (k + 0.3 + np.arange(nmodes)[:, None] + np.arange(N)[sel]) / 4)
                    rx = rx.astype(dtype)
                    want = rms(rx, x)
                    measure(t, key + ":noise", lk, rx, lk.val, lk.val, True, evm=want, radius=radius, direction=k, nmodes=nmodes)
                    blind = t.call(lk.sig.cal_evm, rx, blind=True)
                    t.ok(np.allclose(blind, want, atol=20 * tol_of(dtype)), key + ":blind", "without decision errors the blind EVM is the EVM",
                         got=blind, want=want)
                    t.trace({"radius": radius, "direction": k, "every": per, "order": M} if per == 3 else None)
        # leaving the cell towards a neighbour: data-aided EVM keeps the true distance, blind EVM takes the nearest
        rv = (lk.val + 1) % M
        rx = lk.table[rv]
        blind = t.call(lk.sig.cal_evm, rx, blind=True)
        t.ok(np.allclose(blind, 0, atol=20 * tol_of(dtype)), key + ":blind-errors", "blind EVM measures to the nearest symbol", got=blind)


def do_unsynced(t, name, M, dtype, key, seed, tier):
    """errors are counted the same after the signal was shifted, rotated, cut or repeated"""
    N = 96
    lk = Link(t, name, M, N, 2, dtype, seed)
    perms = ((0, 1), (1, 0))
    for k in range(0, N, 5 if tier == "quick" else 1):
        for r in range(4):
            for L in (N, N - 20, N + 40):
                perm = perms[(k + r) % 2]
                tv = lk.val[list(perm)][:, (np.arange(L) + k) % N]
                rv = tv.copy()
                for j in range((k + r) % 7):
                    rv[j % 2, (17 * j + k) % L] = (rv[j % 2, (17 * j + k) % L] + 1) % M
                sent = lk.table[tv]
                rx = (lk.table[rv] + 0.2 * lk.dmin * np.exp(1j * np.arange(L))).astype(complex) * 1j ** r
                rx = rx.astype(dtype)
                offs = [ref_offset(rx[m], lk.table[lk.val[perm[m]]]) for m in range(2)]
                cross = [max(abs(np.correlate(rx[m], lk.table[lk.val[1 - perm[m]]], "full"))) / max(
                    abs(np.correlate(rx[m], lk.table[lk.val[perm[m]]], "full"))) for m in range(2)]
                if any(o is None or (-o) % N != k for o in offs) or max(cross) > 0.9:
                    t.note("ambiguous")
                    continue
                want = rms(rx / 1j ** r, sent)
                measure(t, key + ":unsynced", lk, rx, rv, tv, False, evm=want, shift=k, rotation=r, L=L)
                t.trace({"order": M, "shift": k, "rotation": r, "L": L} if L == N else None)


def do_pilots(t, name, M, dtype, key, seed, tier):
    """the payload of pilot signals: errors in chosen frames and modes, with and without synchronisation"""
    nb = M.bit_length() - 1
    for nmodes, nf, nerr, rot in itertools.product((1, 2), (1, 2, 3), (0, 1, 2, 5), range(4)):
        s = t.call(signals.SignalWithPilots, M, 180, 20, 10, nframes=nf, nmodes=nmodes, seed=seed, fb=1e9, dtype=dtype)
        pay = np.flatnonzero(s._idx_dat)
        sent = s.get_data([0])
        table = np.asarray(sent.coded_symbols)
        dmin = min(abs(table[0] - v) for v in table[1:])
        a = np.asarray(s).copy()
        for f, m, e in itertools.product(range(nf), range(nmodes), range(nerr)):      # f + 1 times as many in frame f
            for g in range(f + 1 + m):
                a[m, pay[(7 * e + 11 * g + f) % pay.size] + f * 180] *= -1
        a = a + 0.1 * dmin * np.exp(1j * np.arange(a.shape[1]))
        # the pilots are never counted
        a[:, np.tile(~np.asarray(s._idx_dat), nf)] *= 1j
        turned = (a * 1j ** rot).astype(dtype)
        rx = s.recreate_from_np_array(turned)
        for frames in [None] + [list(c) for k in range(1, nf + 1) for c in itertools.permutations(range(nf), k)]:
            pick = np.concatenate([pay + 180 * f for f in (range(nf) if frames is None else frames)])
            tv = np.asarray(s)[:, pick]
            for synced in (True, False, None):
                got = (turned if synced in (True, None) else a)[:, pick]
                kw = {} if synced is None else {"synced": synced}
                td = np.abs(tv[..., None] - table).argmin(-1)
                rd = np.abs(got[..., None] - table).argmin(-1)
                bits = np.asarray(t.call(sent.demodulate, np.ascontiguousarray(np.vstack([table[td], table[rd]]).astype(dtype)))).astype(int)
                eber = np.mean(bits[:nmodes] ^ bits[nmodes:], axis=1)
                eser = np.mean(td != rd, axis=1)
                eevm = rms(got, tv)
                k2 = "%s:%d:%d:%d:%d:%s:%s" % (key, nmodes, nf, nerr, rot, frames, synced)
                data = rx.get_data(frames)
                for how in ({"frames": frames}, {"signal_rx": data}):
                    ok, r = t.attempt(k2, rx.cal_ser, **how, **kw)
                    t.ok(ok and np.shape(r) == (nmodes,) and np.allclose(r, eser), k2 + ":ser", "the payload errors of the chosen frames", got=r, want=eser)
                    ok, r = t.attempt(k2, rx.cal_ber, **how, **kw)
                    t.ok(ok and np.shape(r) == (nmodes,) and np.allclose(r, eber), k2 + ":ber", "the bit errors of the chosen frames", got=r, want=eber)
                    ok, r = t.attempt(k2, rx.cal_evm, **how, **kw)
                    t.ok(ok and np.shape(r) == (nmodes,) and np.allclose(r, eevm, atol=20 * tol_of(dtype)), k2 + ":evm", "the EVM of the chosen frames", got=r, want=eevm)
                    ok, r = t.attempt(k2, rx.cal_ser, verbose=True, **how, **kw)
                    t.ok(ok and len(r) == 3 and np.allclose(r[0], eser) and np.allclose(np.count_nonzero(r[1], axis=1) / pick.size, eser), k2 + ":verbose-ser", "rate and places", got=r)
                    ok, r = t.attempt(k2, rx.cal_ber, verbose=True, **how, **kw)
                    t.ok(ok and len(r) == 3 and np.allclose(r[0], eber) and np.allclose(np.mean(r[1], axis=1), eber), k2 + ":verbose-ber", "rate and places", got=r)
                    ok, r = t.attempt(k2, rx.cal_evm, blind=True, **how, **kw)
                    t.ok(ok and np.allclose(r, rms((turned)[:, pick], table[np.abs(turned[:, pick][..., None] - table).argmin(-1)]), atol=20 * tol_of(dtype)), k2 + ":blind",
                         "blind EVM to the nearest points", got=r)
                t.trace({"frames": frames, "synced": synced})
                t.state(k2, eser, eevm)


def do_symbolonly(t, name, M, dtype, key, seed, tier):
    syms = np.array([0, 1, -1, 2j, -1.5 - 1j]).astype(dtype)
    for nmodes in (1, 2):
        val = np.array([[(3 * i + 2 * m + i * i) % M for i in range(11)] for m in range(nmodes)])
        s = t.call(signals.SymbolOnlySignal.from_symbol_array, syms[val], coded_symbols=syms)
        for places in itertools.combinations(range(11), 2):
            rv = val.copy()
            for i in places:
                rv[nmodes - 1, i] = (rv[nmodes - 1, i] + 1) % M
            got = t.call(s.cal_ser, syms[rv], synced=True)
            want = np.mean(rv != val, axis=1)
            t.ok(np.allclose(got, want), key + ":ser", "the SER counts wrong symbols of an arbitrary alphabet", places=places, got=got)
            got = t.call(s.cal_evm, syms[rv], synced=True)
            t.ok(np.allclose(got, rms(syms[rv], syms[val]), atol=1e-5), key + ":evm", "the EVM is the RMS distance", places=places, got=got)
            t.state(nmodes, places, got)
            t.trace({"errors at": places})
