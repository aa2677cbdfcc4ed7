"""C02: the labelling is a Gray labelling, and every table derived from it agrees with it."""
import numpy as np
from qampy import signals, theory
from qampy.core import utils
from qampy.core.signal_quality import generate_bitmapping_mtx
from mc.checks.c01 import QAM, PSK, DT, words, get_cls, bits_of

RULE = ("a trace is one pair of nearest neighbours of one constellation (all pairs are visited), or one bit of one label; a pair is "
        "non-trivial because its two labels come from demodulating the two points")
BOUNDS = {"quick": "all nearest-neighbour pairs of QAM 2..1024 and PSK 2..256 in both precisions; all integers below 4096 for bin2gray",
          "thorough": "QAM 2..4096, PSK 2..1024; all integers below 2^16"}


def shards(tier, seed):
    out = [["pairs", c, M, dt] for c, o in (("QAM", QAM[tier]), ("PSK", PSK[tier])) for M in o for dt in DT]
    return out + [["gray", "", 4096 if tier == "quick" else 65536, "c16"]]


def run(shard, t):
    part, name, M, dt = shard
    if part == "gray":
        return gray(t, M)
    cls = get_cls(name)
    key = "%s%d:%s" % (name, M, dt)
    nb = M.bit_length() - 1
    w = words(M)
    s = t.call(cls.from_bit_array, w.reshape(1, -1), M, dtype=DT[dt])
    pts = np.asarray(s)[0].astype(complex)
    labels = bits_of(t.call(s.demodulate, s)).reshape(M, nb)
    d = abs(pts[:, None] - pts[None])
    np.fill_diagonal(d, 99)
    dmin = d.min()
    ii, jj = np.nonzero(d < dmin * 1.01)
    square = name == "PSK" or nb % 2 == 0 or M <= 8
    double = 0
    for i, j in zip(ii, jj):
        if i < j:
            h = int(np.count_nonzero(labels[i] != labels[j]))
            if square:
                t.ok(h == 1, key + ":neighbour", "nearest neighbours differ in one bit", points=[str(pts[i]), str(pts[j])], hamming=h)
            else:
                t.ok(h <= 2, key + ":cross", "nearest neighbours of a cross constellation differ in at most two bits", hamming=h)
                double += h != 1
            t.state(key, int(i), int(j))
            t.trace({"points": [str(pts[i]), str(pts[j])], "hamming": h})
    if not square:
        # 8 such pairs for 32-QAM, and twice as many for each further cross order
        t.ok(double <= 8 * 2 ** ((nb - 5) // 2), key + ":cross-count",
             "only the pairs at the folded edges of a cross constellation differ in two bits", pairs=int(double))
    # the table of points per bit value, which the soft demappers use, says the same as the labels
    bm = t.call(generate_bitmapping_mtx, np.asarray(s.coded_symbols), bits_of(t.call(s.demodulate, np.asarray(s.coded_symbols)[None])), M,
                dtype=DT[dt])
    own = np.asarray(getattr(s, "_bitmap_mtx", bm))
    t.ok(bm.shape == (nb, M // 2, 2) and own.shape == bm.shape, key + ":bitmap-shape", "one set of points per bit and value", got=bm.shape)
    for b in range(nb):
        for v in (0, 1):
            exp = np.sort_complex(np.asarray(s)[0][labels[:, b] == bool(v)])
            t.ok(np.array_equal(np.sort_complex(bm[b, :, v]), exp), key + ":bitmap", "points with that bit value", bit=b, value=v)
            t.ok(np.array_equal(np.sort_complex(own[b, :, v]), exp), key + ":own-bitmap", "the signal's own table", bit=b, value=v)
            t.state(key, "bitmap", b, v)
            t.trace({"bit": b, "value": v, "M": M})


def gray(t, n):
    a = np.arange(n)
    g = np.asarray(t.call(utils.bin2gray, a))
    g2 = np.asarray(t.call(theory.bin2gray, a))
    t.ok(np.array_equal(np.sort(g), a), "bin2gray:perm", "bin2gray is a bijection of the first 2^n integers")
    t.ok(np.array_equal(g, g2), "bin2gray:same", "theory and core use the same code")
    for i in range(n):
        one = int(t.call(utils.bin2gray, i))
        t.ok(one == g[i], "bin2gray:scalar", "scalar and array agree", i=i)
        if i:
            t.ok(bin(int(g[i]) ^ int(g[i - 1])).count("1") == 1, "bin2gray:step", "consecutive integers differ in one bit of their code", i=i)
        t.state("gray", i, one)
        t.trace({"i": i, "code": one})
    for nb in range(1, 13):
        M = 2 ** nb
        c = np.asarray(t.call(theory.gray_code_qam, M))
        t.ok(np.array_equal(np.sort(c), np.arange(M)), "gray_code_qam", "the code is a permutation of the labels", M=M)
        t.state("perm", M)
        t.trace()
