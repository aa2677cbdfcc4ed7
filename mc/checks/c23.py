"""C23: framing, searching and bit helpers on every input up to a size."""
import itertools
import math
import warnings
import numpy as np
from scipy import integrate
from qampy.core import utils, special_fcts as sf
from qampy.core.segmentaxis import segment_axis

RULE = "a trace is one input (array, frame size, overlap, ending, bit sequence) whose result was compared element by element with the definition"
BOUNDS = {
    "quick": "segment_axis: every length to 12, frame, overlap, ending and axis of contiguous, transposed, strided and reversed arrays of 1 to 3 dimensions; rolling_window: "
             "every length to 10 and size; find_offset: every binary sequence to 4 in every binary data to 9 values; every bit vector to 12 bits and every Gray code to 16 bits; "
             "every pair of 7-bit streams at 2 to 5 bits per symbol",
    "thorough": "lengths to 16, data to 12 values",
}


def shards(tier, seed):
    q = tier == "quick"
    return [["segment", i, 12 if q else 16] for i in range(8)] + [["window", 10 if q else 14], ["gray", 16 if q else 20], ["misc"]] + \
        [["find", k, 9 if q else 12] for k in (1, 2, 3, 4)] + [["streams", n] for n in (2, 3, 4, 5)] + [["bits", 12 if q else 16]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def frames(a, axis, length, overlap, end, val):
    """list of frames along the axis, None when there is none"""
    a = np.moveaxis(np.asarray(a), axis, 0)
    L, hop = len(a), length - overlap
    rows, p = [], 0
    while p + length <= L:
        rows.append([a[p + k] for k in range(length)])
        p += hop
    used = p - hop + length if rows else 0
    if used < L and end != "cut":
        rows.append([a[p + k] if p + k < L else (a[p + k - L] if end == "wrap" else np.full(a.shape[1:], val, a.dtype)) for k in range(length)])
    if not rows:
        return None
    return np.moveaxis(np.array(rows), (0, 1), (axis, axis + 1))


def do_segment(t, i, top):
    def arrays(n):
        base = np.arange(n * 6) * (1 + 0.5j)
        return [(np.arange(n), 0), (np.arange(2 * n)[::2], 0), (np.arange(n)[::-1], 0), (base.reshape(6, n)[:2], 1), (base.reshape(n, 6).T[:2], 1), (base.reshape(n, 6)[:, 1:3], 0),
                (base.reshape(2, n, 3), 1), (base.reshape(3, 2, n).astype(np.complex64), 2)]
    for n in range(1, top + 1):
        a, axis = arrays(n)[i]
        for length in range(1, n + 3):
            for overlap in range(length):
                for end in ("cut", "pad", "wrap"):
                    for ax in (axis, axis - a.ndim) + ((None,) if a.ndim == 1 else ()):
                        key = "segment:%d:%d:%d:%d:%s:%s" % (i, n, length, overlap, end, ax)
                        keep = a.copy()
                        hop = length - overlap
                        size = length if n <= length else length + -((n - length) // -hop) * hop
                        if end == "wrap" and size > 2 * n:
                            continue
                        want = frames(a, axis, length, overlap, end, 7)
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            try:
                                r = segment_axis(a, length, overlap, axis=ax, end=end, endvalue=7)
                            except ValueError as e:
                                t.ok(want is None, key, "an array with at least one frame is accepted", error=str(e))
                                t.trace()
                                continue
                        if want is None:
                            t.fail(key, "an array shorter than one frame is refused", got=r)
                        else:
                            t.ok(r.shape == want.shape and r.dtype == a.dtype and np.array_equal(r, want), key, "every frame", got=r, expected=want)
                        t.ok(np.array_equal(a, keep), key + ":input", "the input is not changed")
                        t.trace()
                        t.state(n, length, overlap, end, i)
    for bad in ((3, 3), (3, 4), (0, 0), (3, -1), (-1, 0)):
        try:
            r = segment_axis(np.arange(9), *bad)
        except ValueError:
            t.trace()
        else:
            t.fail("segment:bad:%s" % (bad,), "impossible frames are refused", got=r)
    two = np.arange(12).reshape(3, 4)
    t.ok(np.array_equal(segment_axis(two, 5, 2), frames(two.ravel(), 0, 5, 2, "cut", 0)), "segment:flat", "without an axis the array is flattened")


def do_window(t, top):
    for n in range(1, top + 1):
        for size in range(1, n + 1):
            base = np.arange(n * 4) * (1 - 1j)
            for j, a in enumerate((np.arange(n), np.arange(2 * n)[::2], np.arange(n)[::-1], base.reshape(4, n)[:2], base.reshape(n, 4).T[1:3], base.reshape(2, 2, n))):
                for wrap in (False, True):
                    key = "window:%d:%d:%d:%s" % (n, size, j, wrap)
                    ok, r = t.attempt(key, utils.rolling_window, a, size, wrap)
                    k = np.arange(n if wrap else n - size + 1)[:, None] + np.arange(size)
                    if ok:
                        t.ok(r.shape == a.shape[:-1] + k.shape and np.array_equal(r, a[..., k % n]), key, "every window", got=r, expected=a[..., k % n])
                        # the contents stay right when memory is used again afterwards
                        w = [np.full(a.shape[:-1] + (n + size,), 99) for _ in range(3)]
                        t.ok(np.array_equal(r, a[..., k % n]), key + ":memory", "the windows stay valid", got=r, expected=a[..., k % n])
                        del w
                    t.trace()
                    t.state(n, size, j, wrap)


def do_find(t, k, top):
    for dt in (np.int64, bool, np.uint8, np.float64, np.complex64):
        n_max = top if dt in (bool, np.int64) else 7
        for n in range(k + 1, n_max + 1):
            for data in itertools.product((0, 1), repeat=n):
                d = np.array(data, dt)
                for seq in itertools.product((0, 1), repeat=k):
                    want = next((i for i in range(n - k + 1) if data[i:i + k] == seq), None)
                    try:
                        r = utils.find_offset(np.array(seq, dt), d)
                    except ValueError:
                        r = None
                    t.ok(r == want, "find:%s:%s:%s" % (np.dtype(dt), data, seq), "first place of the sequence, an error if there is none", got=r, expected=want)
                    t.trace()
    # values whose bytes also occur across the items
    for vals in itertools.product((0, 1, 256, 257, 65536), repeat=4):
        d = np.array(vals, np.int32)
        for seq in itertools.product((0, 1, 256, 257), repeat=min(k, 2)):
            want = next((i for i in range(4 - len(seq) + 1) if vals[i:i + len(seq)] == seq), None)
            try:
                r = utils.find_offset(np.array(seq, np.int32), d)
            except ValueError:
                r = None
            t.ok(r == want, "find:bytes:%s:%s" % (vals, seq), "only whole items match", got=r, expected=want)
            t.trace()


def do_bits(t, top):
    for n in range(1, top + 1):
        for v in itertools.product((False, True), repeat=n):
            w = sum(1 << i for i, b in enumerate(v) if b)
            for x in (np.array(v), list(v), np.array(v, int)) if n <= 8 else (np.array(v),):
                ok, r = t.attempt("bits", utils.bool2bin, x)
                t.ok(ok and int(r) == w, "bits:%s" % (v,), "first bit is the least significant", got=r, expected=w)
            t.trace()
    for n in (40, 62, 63):
        for hot in range(n):
            v = np.zeros(n, bool)
            v[hot] = True
            ok, r = t.attempt("bits:long", utils.bool2bin, v)
            t.ok(ok and int(r) == 1 << hot, "bits:%d:%d" % (n, hot), "one bit", got=r)
    try:
        r = utils.bool2bin(np.ones(64, bool))
    except AssertionError:
        t.trace()
    else:
        t.fail("bits:64", "more than 63 bits are refused", got=r)


def do_gray(t, bits):
    n = 1 << bits
    v = np.arange(n)
    ok, g = t.attempt("gray", utils.bin2gray, v)
    if ok:
        t.ok(np.array_equal(np.sort(g), v), "gray:perm", "every code is used once")
        for k in range(1, bits + 1):
            c = g[:1 << k]
            d = c ^ np.roll(c, 1)
            t.ok(np.all(c < (1 << k)) and np.all((d & (d - 1)) == 0) and np.all(d > 0), "gray:%d" % k, "neighbours differ in one bit, also around the end")
            t.trace()
        for i in range(0, n, 1 if n <= 65536 else 7):
            if utils.bin2gray(i) != g[i]:
                t.fail("gray:scalar:%d" % i, "numbers like arrays", got=utils.bin2gray(i), expected=g[i])
                break
        t.state(g)


def do_streams(t, nbits):
    n0, n1 = (nbits + 1) // 2, nbits // 2
    for L in range(n0, 8):
        for L2 in sorted({L, L - 1, 7} & set(range(n1, 8))):
            for a in itertools.product((False, True), repeat=L) if L <= 5 else [tuple((x >> k) & 1 == 1 for k in range(L)) for x in range(0, 1 << L, 3)]:
                for x in range(0, 1 << L2, 1 if L2 <= 4 else 11):
                    b = tuple((x >> k) & 1 == 1 for k in range(L2))
                    n = min(L // n0, L2 // n1)
                    w = []
                    for k in range(n):
                        w += a[k * n0:(k + 1) * n0] + b[k * n1:(k + 1) * n1]
                    ok, r = t.attempt("streams", utils.convert_iqtosinglebitstream, np.array(a), np.array(b), nbits)
                    t.ok(ok and r.tolist() == w, "streams:%d:%s:%s" % (nbits, a, b), "bits of both streams in turn", got=r, expected=w)
                    t.trace()


def do_misc(t):
    for n in range(0, 60):
        t.ok(utils.factorial(n) == math.factorial(n), "factorial:%d" % n, "product of all numbers up to n")
        t.trace()
    for start, step, N in itertools.product((-2, 0, 0.5, 1e3), (-1, 0.25, 2), (1, 2, 5, 64)):
        ok, r = t.attempt("linspacestep", utils.linspacestep, start, step, N)
        t.ok(ok and len(r) == N and all(abs(r[k] - (start + k * step)) < 1e-9 for k in range(N)), "linspacestep:%g:%g:%d" % (start, step, N), "N values with the step", got=r)
        t.trace()
    x = np.linspace(-5, 5, 41)
    for A, x0, w in itertools.product((1, -2, 0.3), (0, 1, -2), (0.5, 1, 3)):
        for i, v in enumerate(x):
            u = (v - x0) / w
            for name, r, want in (("ttanh", sf.ttanh(x, A, x0, w)[i], A * (math.exp(u) - math.exp(-u)) / (math.exp(u) + math.exp(-u))), ("gauss", sf.gauss(x, A, x0, w)[i], A * math.exp(-u * u / 2)),
                                  ("sech", sf.sech(x, A, x0, w)[i], 2 * A / (math.exp(u) + math.exp(-u))), ("super1", sf.supergauss(x, A, x0, w, 1)[i], A * math.exp(-u * u / 2)),
                                  ("super2", sf.supergauss(x, A, x0, w, 2)[i], A * math.exp(-u**4 / 2))):
                t.ok(abs(r - want) < 1e-9, "%s:%g:%g:%g:%g" % (name, A, x0, w, v), "the definition", got=r, expected=want)
            t.trace()
    for v in np.linspace(-6, 8, 57):
        want = integrate.quad(lambda u: math.exp(-u * u / 2) / math.sqrt(2 * math.pi), v, v + 40 if v > 0 else 40, epsabs=1e-15, epsrel=1e-11, points=[0] if v < 0 else None)[0]
        t.ok(abs(sf.q_function(v) - want) < 1e-8 * want, "q:%g" % v, "tail of the normal distribution", got=sf.q_function(v), expected=want)
        t.trace()
