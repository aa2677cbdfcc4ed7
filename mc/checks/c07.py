"""C07: signal objects keep their attributes through every sequence of operations."""
import copy
import itertools
import pickle
import numpy as np
from qampy import signals, impairments, filtering, helpers, phaserec, equalisation, analog_frontend
from mc.core import close, tol_of

RULE = ("a trace is one sequence of operations on one signal object; after every operation the class, precision, shape, rates, every public attribute "
        "and (for array operations) the samples are compared with a model that consists of a plain array and a dictionary of attributes")
BOUNDS = {
    "quick": "11 kinds of signal x 2 precisions x 1, 2 modes: all sequences of 2 out of 52 operations (array operations, copies, pickling, rate changes, "
             "processing functions), and all sequences of 3 array operations",
    "thorough": "all sequences of 3 operations, and of 4 array operations",
}
FB = 10e9
DT = {"c16": np.complex128, "c8": np.complex64}
N = 96


class Model:
    """what a user may observe of a signal: samples, rates, attributes"""

    def __init__(self, obj, arr, fs, fb, attrs):
        self.obj, self.arr, self.fs, self.fb, self.attrs = obj, arr, fs, fb, attrs


def kinds(dt, m, seed):
    Q, P = signals.SignalQAMGrayCoded, signals.SignalPSKGrayCoded
    rng = np.random.default_rng(seed)
    yield "qam16", lambda: Q(16, N, nmodes=m, fb=FB, dtype=dt, seed=seed), FB
    yield "qam32", lambda: Q(32, N, nmodes=m, fb=FB, dtype=dt, seed=seed), FB
    yield "psk8", lambda: P(8, N, nmodes=m, fb=FB, dtype=dt, seed=seed), FB
    yield "bits", lambda: Q.from_bit_array(rng.integers(0, 2, (m, 4 * N)).astype(bool), 16, fb=FB, dtype=dt), FB
    yield "array", lambda: Q.from_symbol_array(np.asarray(Q(16, N, nmodes=m, dtype=dt, seed=seed)), 16, fb=FB), FB
    yield "bert", lambda: signals.QPSKfromBERT(N, nmodes=m, fb=FB, prbsshifts=(0, 11), dtype=dt), FB
    yield "symonly", lambda: signals.SymbolOnlySignal(5, N, np.array([1, 1j, -1, -1j, 0.2]), nmodes=m, fb=FB, dtype=dt), FB
    yield "resampled", lambda: signals.ResampledQAM(16, N, fb=FB, fs=2 * FB, nmodes=m, dtype=dt, seed=seed), 2 * FB
    yield "tdhqam", lambda: signals.TDHQAMSymbols((4, 16), N, fr=0.25, nmodes=m, fb=FB, dtype=dt, seed=seed), FB
    yield "pilots", lambda: signals.SignalWithPilots(16, N, 16, 8, nframes=1, nmodes=m, fb=FB, dtype=dt, seed=seed), FB
    yield "pilots2", lambda: signals.SignalWithPilots(16, N // 2, 16, 8, nframes=2, nmodes=m, fb=FB, dtype=dt, seed=seed), FB


ATTRS = {
    "": ("M", "fb"),
    "qam": ("symbols", "bits", "coded_symbols", "Nbits"),
    "symonly": ("symbols", "coded_symbols"),
    "tdhqam": ("symbols_M1", "symbols_M2", "fr", "powratio", "f_M", "f_M1", "f_M2"),
    "pilots": ("symbols", "bits", "coded_symbols", "pilots", "pilot_seq", "ph_pilots", "frame_len", "pilot_scale", "shiftfctrs", "synctaps",
               "Mpilots"),
}


def names(kind):
    for k in ("symonly", "tdhqam", "pilots"):
        if kind.startswith(k):
            return ATTRS[""] + ATTRS[k]
    return ATTRS[""] + ATTRS["qam"]


def snap(obj, kind):
    out = {}
    for n in names(kind):
        v = getattr(obj, n)
        out[n] = np.array(np.asarray(v), copy=True) if isinstance(v, np.ndarray) else v
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) == type(b) and a == b


# -- operations: name -> (what to do with the object, what the samples are then (None: any), rule for the shape, rate factor, when possible)
def op(f, g=None, shape=lambda s: s, fs=None, when=lambda s: True, upcast=False):
    return f, g, shape, fs, when, upcast


def elementwise(f, **kw):
    return op(f, f, **kw)


W = np.array([1.5, -0.5j])


ARRAY = {
    "copy": op(lambda s: s.copy(), lambda a: a),
    "copy.copy": op(copy.copy, lambda a: a),
    "deepcopy": op(copy.deepcopy, lambda a: a),
    "pickle0": op(lambda s: pickle.loads(pickle.dumps(s, 0)), lambda a: a),
    "pickle2": op(lambda s: pickle.loads(pickle.dumps(s, 2)), lambda a: a),
    "pickle5": op(lambda s: pickle.loads(pickle.dumps(s, 5)), lambda a: a),
    "slice": elementwise(lambda s: s[:, 3:], shape=lambda s: (s[0], s[1] - 3)),
    "stride": elementwise(lambda s: s[:, ::2], shape=lambda s: (s[0], (s[1] + 1) // 2), when=lambda s: s.shape[1] > 40),
    "mode": elementwise(lambda s: s[:1], shape=lambda s: (1, s[1])),
    "swap": elementwise(lambda s: s[::-1]),
    "fancy": elementwise(lambda s: s[list(range(s.shape[0]))[::-1]]),
    "row": elementwise(lambda s: s[0], shape=lambda s: s[1:], when=lambda s: s.ndim == 2),
    "roll": elementwise(lambda s: np.roll(s, 5, axis=-1)),
    "tile": elementwise(lambda s: np.tile(s, (1, 2)), shape=lambda s: (s[0], 2 * s[1]), when=lambda s: s.shape[1] < 200),
    "scale": elementwise(lambda s: s * 2),
    "rscale": elementwise(lambda s: 2 * s),
    "add": elementwise(lambda s: s + s),
    "arrmul": elementwise(lambda s: np.full(s.shape, 2, dtype=s.dtype) * s),
    "neg": elementwise(lambda s: -s),
    "conj": elementwise(np.conj),
    "atleast": elementwise(np.atleast_2d),
    "up": op(lambda s: s.astype(np.complex128), lambda a: a.astype(np.complex128), upcast=True),
}


def imul(s):
    s = s.copy()
    s *= 2
    s[:, 0] = 1
    return s


def recreate(**kw):
    return lambda s: s.recreate_from_np_array(np.array(np.asarray(s)) * 2, **kw)


def rs(k):
    return op(lambda s: s.resample(k * FB, beta=0.2), None, None, k * FB)


def two(s):
    return s.shape[0] == 2


def qam(s):
    return not isinstance(s, signals.TDHQAMSymbols)


def decidable(s):
    return qam(s) and s.dtype == s.coded_symbols.dtype      # phase search needs one precision


def fast(s):
    return s.fs > 1.5 * FB


OTHER = {
    "inplace": op(imul, imul),
    "recreate": op(recreate(), lambda a: a * 2),
    "recreate fs": op(lambda s: s.recreate_from_np_array(np.array(np.asarray(s)), fs=s.fs), lambda a: a),
    "resample1": rs(1), "resample2": rs(2), "resample3": rs(3),
    "carrier offset": op(lambda s: impairments.add_carrier_offset(s, 1e8)),
    "change_snr": op(lambda s: impairments.change_snr(s, 20)),
    "phase noise": op(lambda s: impairments.apply_phase_noise(s, 1e5)),
    "dispersion": op(lambda s: impairments.add_dispersion(s, 1e-6, 1e4)),
    "pmd": op(lambda s: impairments.apply_PMD(s, 0.3, 1e-12), when=two),
    "rotate": op(lambda s: impairments.rotate_field(s, 0.3), when=two),
    "modal delay": op(lambda s: impairments.add_modal_delay(s, list(range(1, s.shape[0] + 1)))),
    "transmission": op(lambda s: impairments.simulate_transmission(s, snr=20, freq_off=1e7, lwdth=1e4, modal_delay=[2] * s.shape[0], dispersion=1e-4)),
    "transmission pmd": op(lambda s: impairments.simulate_transmission(s, snr=20, dgd=1e-12), when=two),
    "tx": op(lambda s: impairments.sim_tx_response(s, dac_params={"cutoff": 4e9}), when=fast),
    "dac": op(lambda s: impairments.sim_DAC_response(s, cutoff=4e9), when=fast),
    "dac no filter": op(lambda s: impairments.sim_DAC_response(s)),
    "modulator": op(lambda s: impairments.sim_mod_response(s)),
    "bessel": op(lambda s: filtering.filter_signal(s, 4e9)),
    "butter": op(lambda s: filtering.filter_signal(s, 4e9, ftype="butter")),
    "gauss": op(lambda s: filtering.filter_signal(s, 4e9, ftype="gauss")),
    "exp": op(lambda s: filtering.filter_signal(s, 4e9, ftype="exp")),
    "pre_filter": op(lambda s: filtering.pre_filter(s, 0.3)),
    "rrcos": op(lambda s: filtering.rrcos_pulseshaping(s, 0.2)),
    "moving average": op(lambda s: filtering.moving_average(s, 3), shape=lambda s: (s[0], s[1] - 2)),
    "normalise": op(helpers.normalise_and_center),
    "dump_edges": op(lambda s: helpers.dump_edges(s, 2), lambda a: a[:, 2:-2], shape=lambda s: (s[0], s[1] - 4)),
    "set_mid_point": op(helpers.set_mid_point),
    "comp offset": op(lambda s: phaserec.comp_freq_offset(s, np.full(s.shape[0], 1e6))),
    "bps": op(lambda s: phaserec.bps(s, 8, 5)[0], when=decidable),
    "bps two stage": op(lambda s: phaserec.bps_twostage(s, 8, 5)[0], when=decidable),
    "viterbi": op(lambda s: phaserec.viterbiviterbi(s, 11)[0], when=qam),
    "orthonormalise": op(analog_frontend.orthonormalize_signal),
    "comp IQ": op(analog_frontend.comp_IQ_inbalance),
    "filter": op(lambda s: equalisation.apply_filter(s, np.ones((s.shape[0], s.shape[0], 3), s.dtype)), None, None, FB,
                 when=lambda s: qam(s) and not isinstance(s, signals.SignalWithPilots)),
    "equalise": op(lambda s: equalisation.equalise_signal(s, 1e-4, Ntaps=3, method="cma", apply=True)[0], None, None, FB, when=qam),
    "normalize method": op(lambda s: (s.normalize_and_center(), s)[1]),
}
OTHER["recreate fb"] = op(lambda s: s.recreate_from_np_array(np.array(np.asarray(s)), fb=2 * s.fb), lambda a: a)
ALL = dict(ARRAY, **OTHER)


def shards(tier, seed):
    out = []
    for dt in DT:
        for m in (1, 2):
            for i in range(11):
                out.append([dt, m, i, "pairs" if tier == "quick" else "triples", seed])
                out.append([dt, m, i, "array3" if tier == "quick" else "array4", seed])
    return out


def run(shard, t):
    dt, m, i, what, seed = shard
    kind, make, fs = list(kinds(DT[dt], m, seed))[i]
    ok, obj = t.attempt("%s:create" % kind, make)
    if not ok:
        return
    start = Model(obj, np.array(np.asarray(obj)), fs, FB, snap(obj, kind))
    consistent(t, "%s:created" % kind, kind, obj, DT[dt], m)
    arrays = [k for k in ARRAY if k != "up" or dt == "c8"]
    if what == "pairs":
        explore(t, kind, start, 2, list(ALL), ())
    elif what == "triples":
        explore(t, kind, start, 3, list(ALL), ())
    else:
        explore(t, kind, start, 3 if what == "array3" else 4, arrays, ())


def consistent(t, key, kind, obj, dt, m):
    """the attributes of a new signal describe it"""
    t.ok(obj.dtype == dt and obj.shape == (m, N if kind != "resampled" else 2 * N), key + ":shape", "shape and precision of the new signal", got=obj.shape)
    t.ok(obj.fb == FB and obj.fs == (2 * FB if kind == "resampled" else FB), key + ":rates", "rates of the new signal", fb=obj.fb, fs=obj.fs)


def explore(t, kind, model, depth, ops, path):
    if depth == 0:
        return
    for name in ops:
        f, g, shape, fs, when, upcast = ALL[name]
        s = model.obj
        if s.ndim != 2 or not when(s):
            continue
        if kind.startswith("pilots") and name.startswith(("slice", "stride", "dump", "moving", "mode")) and depth > 1 and name not in ("mode",):
            shorter = shape(s.shape)[1] < s.frame_len * s.os
        else:
            shorter = False
        p = path + (name,)
        key = "%s:%s" % (kind, " > ".join(p))
        before = np.array(np.asarray(s))
        np.random.seed(1)
        try:
            r = t.call(f, s)
        except Exception as e:
            if kind.startswith("pilots") and isinstance(e, AssertionError) and "frame_len" in str(e) and (
                    s.shape[1] - (2 if name in ("equalise", "moving average") else 0) < s.frame_len * round(s.fs / s.fb)):
                t.note("shorter than a frame: refused")
            else:
                t.fail(key + ":raises", "raised %s: %s" % (type(e).__name__, e))
            continue
        nxt = step(t, key, kind, model, name, r, before)
        t.trace({"kind": kind, "operations": list(p)} if len(t.samples) < 2 else None)
        if nxt is not None and depth > 1 and not shorter:
            explore(t, kind, nxt, depth - 1, ops, p)
        if name == "normalize method":      # works in place
            s[:] = before


def step(t, key, kind, model, name, r, before):
    f, g, shape, fs, when, upcast = ALL[name]
    s = model.obj
    if name != "normalize method" and np.asarray(s).tobytes() != before.tobytes():
        t.fail(key + ":input", "the operation leaves its input alone")
        return None
    if not t.ok(type(r) is type(s), key + ":class", "the class of the result is that of the input", got=str(type(r)), expected=str(type(s))):
        return None
    want_dt = np.dtype(np.complex128) if upcast else before.dtype
    fb = 2 * model.fb if name == "recreate fb" else model.fb
    nfs = model.fs if fs is None else fs
    if name == "recreate fb":
        nfs = 2 * model.fs
    if shape is not None:
        want = shape(before.shape)
    elif name.startswith("resample"):
        n = before.shape[1] * nfs / model.fs          # half a sample too many or too few is a matter of taste
        want = (before.shape[0], r.shape[1] if abs(r.shape[1] - n) < 1 else int(round(n)))
    else:
        want = (before.shape[0], (before.shape[1] - 2) // int(round(model.fs / model.fb)))
        nfs = model.fb
    good = t.ok(r.shape == want, key + ":shape", "shape of the result", got=r.shape, expected=want)
    good &= t.ok(r.dtype == want_dt, key + ":dtype", "precision of the result", got=str(r.dtype), expected=str(want_dt))
    good &= t.ok(r.fs == nfs and r.fb == fb and r.os == int(nfs / fb), key + ":rates", "sampling and symbol rate", fs=r.fs, fb=r.fb, want_fs=nfs, want_fb=fb)
    for n in names(kind):
        want = model.attrs[n] if n != "fb" else fb
        try:
            got = getattr(r, n)
        except Exception as e:
            good = t.ok(False, key + ":" + n, "attribute %s is kept: %s" % (n, e))
            continue
        if not same(got, want):
            good = t.ok(False, key + ":" + n, "attribute %s is kept" % n, got=repr(got)[:200], expected=repr(want)[:200])
    arr = np.array(np.asarray(r))
    if g is not None and good:
        want = np.asarray(g(before))
        good &= t.ok(close(arr, want, 1e-12 if arr.dtype == np.complex128 else 1e-5), key + ":samples", "the samples are those of the plain array")
    if kind.startswith("pilots") and good and r.ndim == 2 and r.os > 0 and r.shape[1] >= r.frame_len * r.os:
        n = r.shape[1] // (r.frame_len * r.os)
        good &= t.ok(r.nframes == n and r.idx_payload.sum() == n * model.attrs["symbols"].shape[1] // (2 if kind == "pilots2" else 1),
                     key + ":frames", "number of frames and payload indices", got=r.nframes, expected=n)
    t.state(kind, r.shape, r.dtype.str, nfs, fb, name, arr)
    if not good:
        return None
    attrs = dict(model.attrs, fb=fb)
    return Model(r if name != "normalize method" else r.copy(), arr, nfs, fb, attrs)
