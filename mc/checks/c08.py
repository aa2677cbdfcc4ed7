"""C08: saved signals come back as they were, or not at all; Matlab files are read into the documented layout."""
import itertools
import os
import pickle
import shutil
import tempfile
import zlib
import numpy as np
from scipy.io import savemat
from qampy import signals, io, phaserec
from qampy.core import io as cio
from mc.core import close, canon
from mc.checks import c07

RULE = ("a trace is one history of saves (with a crash, torn write or damaged byte at one place) followed by a load in the same process and in one "
        "forked before the save, compared with the saved object in its samples, attributes and metrics; or one Matlab file read back")
BOUNDS = {
    "quick": "11 kinds of signal x 2 precisions x 1, 2 modes x every compression level, all histories of 3 saves/loads on 2 files; every truncation, every "
             "single flipped bit and every overwritten tail of the file of every kind; Matlab: every key layout x 1-4 modes x transposition x port maps",
    "thorough": "also every damaged value of every byte; histories of 4",
}
N, FBM = 48, 1e9
ASSUMPTIONS = ["the file is a zlib stream: damage that happens to leave its Adler-32 checksum valid is not counted as detectable"]
DT = {"c16": np.complex128, "c8": np.complex64}


def shards(tier, seed):
    out = []
    for dt in DT:
        for m in (1, 2):
            for i in range(11):
                out.append(["roundtrip", dt, m, i, seed, tier])
    for i in range(11):
        for part in range(3):
            out.append(["damage", "c16" if i % 2 else "c8", 1, i, part, seed, tier])
    out.append(["history", seed, tier])
    out += [["matlab", m, seed, tier] for m in (1, 2, 3, 4)]
    out.append(["matlabsymbols", seed, tier])
    return out


def run(shard, t):
    d = tempfile.mkdtemp(prefix="verif-c08-")
    try:
        globals()["do_" + shard[0]](t, d, *shard[1:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(dt, m, i, seed):
    n, c07.N = c07.N, N
    try:
        kind, f, fs = list(c07.kinds(DT[dt], m, seed))[i]
        return kind, f()
    finally:
        c07.N = n


def behaviour(s, kind):
    """what one can do with a signal after it was loaded"""
    out = {}

    def add(name, f):
        try:
            out[name] = canon(np.asarray(f()))
        except Exception as e:
            out[name] = type(e).__name__
    r = s
    if s.os == 1 and kind not in ("tdhqam",):
        add("ser", lambda: s.cal_ser(synced=True))
        add("ber", lambda: s.cal_ber(synced=True) if kind != "symonly" else 0)
        add("evm", lambda: s.cal_evm(synced=True))
        add("decision", lambda: (s.get_data() if kind.startswith("pilots") else s).make_decision())
        if kind != "symonly":
            add("bits", lambda: s.demodulate(s.symbols))
            add("gmi", lambda: s.cal_gmi(synced=True, snr=15))
        add("bps", lambda: phaserec.bps(s, 4, 3)[0])
    add("resample", lambda: s.resample(3 * s.fb, beta=0.2))
    add("os", lambda: s.os)
    return out


def digest(s, kind):
    return (type(s).__name__, str(s.dtype), s.shape, s.fs, s.fb, np.asarray(s).tobytes(), canon(c07.snap(s, kind)), canon(behaviour(s, kind)))


class Reader:
    """a process that exists before the file is written, and loads it"""

    def __init__(self):
        self.a, b = os.pipe()
        c, self.d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                fn, kind = pickle.loads(os.read(c, 4096))
                s = cio.load_signal(fn)
                out = pickle.dumps(hash_of(digest(s, kind)))
            except BaseException as e:
                out = pickle.dumps("raised %s %s" % (type(e).__name__, e))
            os.write(b, out)
            os._exit(0)
        os.close(b)
        os.close(c)

    def read(self, fn, kind):
        os.write(self.d, pickle.dumps((fn, kind)))
        out = pickle.loads(os.read(self.a, 65536))
        os.waitpid(self.pid, 0)
        os.close(self.a)
        os.close(self.d)
        return out


def hash_of(x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()


def do_roundtrip(t, d, dt, m, i, seed, tier):
    kind, s = make(dt, m, i, seed)
    want = digest(s, kind)
    fn = os.path.join(d, "signal")
    for lvl in list(range(0, 10)) + [-1, None]:
        for how in ("function", "method", "again"):
            key = "%s:%s:level%s:%s" % (kind, dt, lvl, how)
            rd = Reader()
            kw = {} if lvl is None else {"lvl": lvl}
            if how == "method":
                ok, _ = t.attempt(key, s.save_to_file, fn, **kw)
            elif how == "function":
                ok, _ = t.attempt(key, io.save_signal, fn, s, **kw)
            else:       # saving what was loaded
                ok, _ = t.attempt(key, lambda: io.save_signal(fn, cio.load_signal(fn), **kw))
            other = rd.read(fn, kind) if ok else rd.read("/nonexistent", kind)
            if not ok:
                continue
            t.ok(digest(s, kind) == want, key + ":input", "saving does not change the signal")
            ok, r = t.attempt(key + ":load", io.load_signal, fn)
            if not ok:
                continue
            got = digest(r, kind)
            for a, b, what in zip(got, want, ("class", "precision", "shape", "sampling rate", "symbol rate", "samples", "attributes", "behaviour")):
                t.ok(a == b, key + ":" + what, "the %s of the loaded signal" % what, got=repr(a)[:300], expected=repr(b)[:300])
            t.ok(other == hash_of(want), key + ":process", "another process loads the same signal", got=str(other)[:200])
            t.state(kind, dt, m, lvl, how, got[5])
            t.trace({"kind": kind, "level": lvl, "how": how})


def loads_or_fails(t, key, fn, want, kind, what, old=None):
    t.transitions += 1
    try:
        r = io.load_signal(fn)
    except Exception as e:
        t.state(what, type(e).__name__, key)
        return "raised"
    try:
        same = digest(r, kind) == want if type(r).__name__ == want[0] else False
        if old and not same:
            same = digest(r, old[1]) == old[0]
    except Exception:
        same = False
    if not same and collides(fn):
        t.note("damage that leaves a valid checksum")       # Adler-32 cannot see it
        return "same"
    t.ok(same, key, "a damaged file raises an error or gives the saved signal: " + what)
    t.state(what, "same", key)
    return "same"


def collides(fn):
    try:
        zlib.decompress(open(fn, "rb").read())
        return True
    except zlib.error:
        return False


def do_damage(t, d, dt, m, i, part, seed, tier):
    kind, s = make(dt, m, i, seed)
    want = digest(s, kind)
    fn, bad = os.path.join(d, "signal"), os.path.join(d, "damaged")
    io.save_signal(fn, s)
    raw = open(fn, "rb").read()

    def put(b):
        with open(bad, "wb") as f:
            f.write(b)
    if part == 0:                       # the writing process died: any prefix
        for n in range(len(raw)):
            put(raw[:n])
            r = loads_or_fails(t, "%s:truncated at %d of %d" % (kind, n, len(raw)), bad, want, kind, "truncated")
            t.ok(r == "raised", "%s:truncated at %d" % (kind, n), "a truncated file is refused")
            t.trace({"kind": kind, "bytes": n} if n == 100 else None)
        okind, other = make(dt, m, (i + 1) % 11, seed)
        owant = digest(other, okind)
        io.save_signal(fn, other)
        old = open(fn, "rb").read()
        for n in range(1, min(len(raw), len(old))):       # written over an old file that was not truncated, up to n
            put(raw[:n] + old[n:])
            loads_or_fails(t, "%s:torn at %d" % (kind, n), bad, want, kind, "torn", (owant, okind))
            t.trace()
    else:
        n = len(raw)
        for k in range(n):
            if k % 2 != part - 1:
                continue
            vals = [raw[k] ^ (1 << b) for b in range(8)] if tier == "quick" else [v for v in range(256) if v != raw[k]]
            for v in vals:
                put(raw[:k] + bytes([v]) + raw[k + 1:])
                loads_or_fails(t, "%s:byte %d is %d" % (kind, k, v), bad, want, kind, "flipped")
                t.trace({"kind": kind, "byte": k, "value": v} if k == 1 else None)
    t.note("bytes of " + kind, len(raw))


def do_history(t, d, seed, tier):
    sigs = [make("c16", 1, 0, seed), make("c8", 2, 2, seed), make("c16", 2, 9, seed)]
    want = [digest(s, k) for k, s in sigs]
    files = [os.path.join(d, "a"), os.path.join(d, "b")]
    ops = [("save", f, j) for f in range(2) for j in range(3)] + [("load", f, None) for f in range(2)]
    for hist in itertools.product(ops, repeat=3 if tier == "quick" else 4):
        for f in files:
            if os.path.exists(f):
                os.remove(f)
        model = [None, None]
        for n, (what, f, j) in enumerate(hist):
            key = "history:%s" % (hist[:n + 1],)
            if what == "save":
                io.save_signal(files[f], sigs[j][1])
                t.transitions += 1
                model[f] = j
            else:
                t.transitions += 1
                try:
                    r = io.load_signal(files[f])
                except FileNotFoundError:
                    t.ok(model[f] is None, key, "the file exists")
                    continue
                if not t.ok(model[f] is not None, key, "nothing was saved in this file"):
                    continue
                j = model[f]
                t.ok(digest(r, sigs[j][0])[:7] == want[j][:7], key, "the last signal saved in this file is loaded")
                r *= 3                  # the loaded signal is the caller's
            t.state("history", tuple(model), what)
        t.trace({"history": [list(h) for h in hist]})
        for f in range(2):
            if model[f] is not None:
                t.ok(digest(io.load_signal(files[f]), sigs[model[f]][0])[:7] == want[model[f]][:7], "history:%s:end" % (hist,), "the file holds the last signal saved")


def do_matlab(t, d, m, seed, tier):
    rng = np.random.default_rng([seed, m])
    fn = os.path.join(d, "x.mat")
    s = signals.SignalQAMGrayCoded(16, 20, nmodes=m, fb=FBM, seed=seed)
    for L in (1, 2, 5, 20):
        data = rng.standard_normal((m, L)) + 1j * rng.standard_normal((m, L))
        for tr in (False, True):
            arr = data.T if tr else data
            cases = [("one complex array", {"x": arr}, [["x"]], {"transpose": tr}),
                     ("two real arrays", {"re": arr.real, "im": arr.imag}, [["re", "im"]], {"transpose": tr})]
            if not tr and m > 1:
                for col in (False, True):
                    o = "column" if col else "row"
                    cases.append(("array per mode", {"m%d" % k: data[k][:, None] if col else data[k] for k in range(m)}, [["m%d" % k] for k in range(m)],
                                  {"oned_as": o}))
                    cases.append(("pair per mode", dict([("r%d" % k, data[k].real) for k in range(m)] + [("i%d" % k, data[k].imag) for k in range(m)]),
                                  [["r%d" % k, "i%d" % k] for k in range(m)], {"oned_as": o}))
            # real-time scope: rows are real and imaginary parts
            for order in itertools.permutations(range(2 * m)) if m < 3 else [tuple(range(2 * m)), tuple(range(2 * m))[::-1]]:
                rows = np.zeros((2 * m, L))
                for k in range(m):
                    rows[order[2 * k]], rows[order[2 * k + 1]] = data[k].real, data[k].imag
                pm = [[order[2 * k], order[2 * k + 1]] for k in range(m)]
                kw = {"transpose": tr, "dim2cmplx": True, "portmap": pm}
                if pm == [[0, 1], [2, 3]] and L == 5:
                    del kw["portmap"]           # the default
                cases.append(("scope %s" % (order,), {"x": rows.T if tr else rows}, [["x"]], kw))
                if not tr and L > 1:
                    cases.append(("scope per port %s" % (order,), {"p%d" % k: rows[k] for k in range(2 * m)}, [["p%d" % k] for k in range(2 * m)], kw))
            for name, content, keys, kw in cases:
                kw = dict(kw)
                key = "matlab:%s:%d modes:%d:%s" % (name, m, L, tr)
                savemat(fn, content, oned_as=kw.pop("oned_as", "row"))
                ok, r = t.attempt(key, io.ndarray_from_matlab, fn, keys, **kw)
                if ok:
                    t.ok(close(r, data, 1e-15), key, "modes along the first and samples along the second axis", got=r, expected=data)
                ok, r = t.attempt(key + ":signal", io.create_signal_from_matlab, s, fn, 2 * FBM, keys, **kw)
                if ok:
                    t.ok(type(r) is type(s) and r.fs == 2 * FBM and r.fb == FBM and r.M == 16 and close(np.asarray(r), data, 1e-15) and
                         np.array_equal(np.asarray(r.symbols), np.asarray(s.symbols)), key + ":signal", "signal with the rates and symbols of the transmitter")
                t.state(key, data)
                t.trace({"layout": name, "modes": m, "length": L, "transpose": tr})


def do_matlabsymbols(t, d, seed, tier):
    fn = os.path.join(d, "y.mat")
    for M, m, L in itertools.product((4, 16, 64, 8), (1, 2), (128, 301)):
        s = signals.SignalQAMGrayCoded(M, L, nmodes=m, seed=[seed, M, L])
        x = np.asarray(s).copy()
        x[:, :M] = s.coded_symbols      # the whole alphabet occurs
        savemat(fn, {"x": x * 3.7, "re": x.real, "im": x.imag})
        for keys, norm, pm, delay in itertools.product(([["x"]], [["re", "im"]]), (True, False), (False, True) if m == 1 else (False,), (0, 1, 7, -3)):
            if (norm is False and keys == [["x"]]) or (delay and not pm):
                continue
            key = "symbols:%d:%d:%d:%s:%s:%s:%d" % (M, m, L, keys, norm, pm, delay)
            kw = {} if norm else {"normalise": False}
            if pm:
                kw.update(fake_polmux=True, fake_pm_delay=delay)
            ok, r = t.attempt(key, io.load_symbols_from_matlab_file, fn, M, keys, fb=FBM, **kw)
            if not ok:
                continue
            want = [x] if not pm else [np.vstack([np.roll(x[0], delay), x[0]]), np.vstack([x[0], np.roll(x[0], delay)])]
            good = False
            for w in want:
                if r.shape == w.shape:
                    idx = np.abs(w[..., None] - s.coded_symbols).argmin(-1)
                    good |= close(np.asarray(r), r.coded_symbols[idx], 1e-12) and np.array_equal(np.asarray(r.bits), s._encoding[idx].reshape(w.shape[0], -1))
            t.ok(good, key, "the symbols, with the modes delayed against each other for fake polarisation multiplexing")
            t.ok(type(r) is type(s) and r.M == M and r.fb == FBM and r.fs == FBM, key + ":attributes", "order and rates", M=r.M, fb=r.fb)
            t.state(key, np.asarray(r))
            t.trace({"M": M, "keys": keys, "normalise": norm, "fake_polmux": pm, "delay": delay})
