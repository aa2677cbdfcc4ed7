"""C29: moment-based and blind estimators of core.signal_quality, on finite signals whose moments are exact."""
import itertools
import numpy as np
from qampy.core import signal_quality as sq

RULE = ("a trace is one finite signal, the complete product of a constellation with a finite noise alphabet (every symbol meets every noise value), handed to one "
        "estimator; the moments of such a signal are exact, so the estimate has to be")
BOUNDS = {
    "quick": "all seven QAM orders 4..256 x 5 noise alphabets with the moments of Gaussian noise x 9 signal-to-noise ratios x 7 gains and rotations x 4 orders of the samples; "
             "blind EVM: every displacement of every symbol on a 7x7 grid inside its decision region",
    "thorough": "33 signal-to-noise ratios, 15x15 grids",
}
ORDERS = (4, 8, 16, 32, 64, 128, 256)


def alphabet(M):
    """the square (or cross, or 3x3 without centre for 8) constellation on odd integers, written out"""
    if M == 8:
        return np.array([complex(a, b) for a in (-3, -1, 1, 3) for b in (-1, 1)])
    k = int(np.log2(M))
    if k % 2 == 0:
        r = range(-(2**(k // 2) - 1), 2**(k // 2), 2)
        return np.array([complex(a, b) for a in r for b in r])
    w = 3 * 2**((k - 3) // 2)
    c = 2**((k - 5) // 2 + 1)
    r = range(-(w - 1), w, 2)
    return np.array([complex(a, b) for a in r for b in r if not (abs(a) > w - c and abs(b) > w - c)])


def noises(N):
    """finite alphabets with E z = E z^2 = 0, E|z|^2 = N, E|z|^4 = 2 N^2 and E z|z|^2 = 0, like circular Gaussian noise"""
    ring = lambda k, r, p=0.0: r * np.exp(2j * np.pi * (np.arange(k) + p) / k)
    yield "half", np.concatenate([np.zeros(8), ring(8, np.sqrt(2 * N))])
    yield "half5", np.concatenate([np.zeros(5), ring(5, np.sqrt(2 * N), .3)])
    yield "two", np.concatenate([ring(6, np.sqrt(N / 2), .1)] * 4 + [ring(6, np.sqrt(3 * N), .7)])          # 4/5 at N/2, 1/5 at 3N: mean N, square 2N^2
    yield "half12", np.concatenate([np.zeros(12), ring(12, np.sqrt(2 * N), .5)])
    g = np.sqrt(3 * N / 2) * np.array([-1, 0, 0, 0, 0, 1])                                                  # Gauss-Hermite weights 1/6 2/3 1/6 per quadrature
    yield "hermite", (g[:, None] + 1j * g).ravel()


def shards(tier, seed):
    out = [["moments", M, seed, tier] for M in ORDERS]
    out += [["evm", M, seed, tier] for M in ORDERS] + [["qpsk", seed, tier]]
    return out


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def do_moments(t, M, seed, tier):
    s = alphabet(M)
    P = np.mean(abs(s)**2)
    rng = np.random.default_rng([seed, M])
    for db in np.linspace(-5, 35, 9 if tier == "quick" else 33):
        snr = 10**(db / 10)
        for name, z in noises(P / snr):
            E = (s[:, None] + z).ravel()
            assert abs(np.mean(abs(E)**4) - (np.mean(abs(s)**4) + 4 * P * P / snr + 2 * (P / snr)**2)) < 1e-9 * np.mean(abs(E)**4)
            for g in (1, 1 / np.sqrt(P), 1e-3, 250., 1j, np.exp(.7j), -2 + .4j):
                for o in range(4):
                    x = g * (E, E[::-1], rng.permutation(E), E.reshape(len(s), -1).T.ravel())[o]
                    key = "moments:%d:%g:%s:%s:%d" % (M, db, name, g, o)
                    ok, r = t.attempt(key, sq.cal_snr_qam, x.copy(), M)
                    t.ok(ok and abs(r / snr - 1) < 1e-6 * (1 + 1 / snr + snr / 100), key + ":snr", "signal to noise ratio", got=r, expected=snr)
                    ok, r = t.attempt(key, sq.cal_s0, x.copy(), M)
                    t.ok(ok and abs(r / (P * abs(g)**2) - 1) < 1e-7 * (1 + 1 / snr), key + ":s0", "signal power without the noise", got=r, expected=P * abs(g)**2)
                    ok, r = t.attempt(key, sq.norm_to_s0, x.copy(), M)
                    t.ok(ok and np.allclose(r, x / (abs(g) * np.sqrt(P)), rtol=1e-6 * (1 + 1 / snr)), key + ":norm", "normalised to unit signal power")
                    t.trace({"M": M, "snr": db, "noise": name})
            t.state(M, db, name)


def s0(x, M):
    a = alphabet(M)
    gamma = np.mean(abs(a)**4) / np.mean(abs(a)**2)**2
    r2, r4 = np.mean(abs(x)**2), np.mean(abs(x)**4)
    # r2 = S + N, r4 = gamma S^2 + 4 S N + 2 N^2  ->  (2 - gamma) S^2 = 2 r2^2 - r4
    return np.sqrt((2 * r2**2 - r4) / (2 - gamma))


def do_evm(t, M, seed, tier):
    s = alphabet(M)
    P = np.mean(abs(s)**2)
    k = 7 if tier == "quick" else 15
    grid = np.linspace(-.95, .95, k)
    rng = np.random.default_rng([seed, M, 2])
    pts = s / np.sqrt(P)
    for a, b in itertools.product(grid, grid):
        for scale in (1, .1, 40):
            # all symbols displaced alike, or each by another turn of the displacement
            for kind, d in (("same", np.full(len(s), complex(a, b))), ("turned", complex(a, b) * 1j**np.arange(len(s))), ("half", complex(a, b) * (np.arange(len(s)) % 2))):
                x = scale * (s + d)
                key = "evm:%d:%.2f:%.2f:%g:%s" % (M, a, b, scale, kind)
                n = x / np.sqrt(s0(x, M))
                want = np.sqrt(np.mean(np.min(abs(n[:, None] - pts), axis=1)**2))
                ok, r = t.attempt(key, sq.cal_evm, x.copy(), M)
                t.ok(ok and abs(r - want) < 1e-7, key + ":blind", "distance to the nearest point of the normalised constellation", got=r, expected=want)
                p = rng.permutation(len(s))
                ok, r = t.attempt(key, sq.cal_evm, x[p], M, known=s[p] * 3)
                want = np.sqrt(np.mean(abs(n - pts)**2))
                t.ok(ok and abs(r - want) < 1e-7, key + ":known", "distance to the symbol that was sent", got=r, expected=want)
                t.trace({"M": M, "displacement": [a, b]})
    t.state("evm", M)


def do_qpsk(t, seed, tier):
    """all symbols of one displacement pattern: folding onto one symbol keeps mean and variance (small displacements, where the fourth power is one to one)"""
    s = alphabet(4) / np.sqrt(2)
    for db in np.linspace(12, 40, 8 if tier == "quick" else 29):
        for name, z in noises(10**(-db / 10)):
            if abs(z).max() > .6:
                continue
            E = np.concatenate([q * (1 + z) for q in s])
            for g in (1, .01, 30):
                key = "qpsk:%g:%s:%g" % (db, name, g)
                ok, r = t.attempt(key, sq.cal_snr_blind_qpsk, (g * E).copy())
                want = 10 * np.log10(np.mean(abs(1 + z)**2) / np.mean(abs(z)**2))
                t.ok(ok and abs(r - want) < 1e-6, key, "power over variance of the folded constellation, in dB", got=r, expected=want)
                t.trace({"snr": db})
    t.state("qpsk")
