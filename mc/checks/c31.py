"""C31: the numba equaliser follows the formulas of its error functions."""
import itertools
import numpy as np
from qampy import theory
from qampy.core.equalisation import numba_equalisation as ne
from mc.core import close

RULE = ("a trace is one complete history of samples on which the compiled training function was run and replayed update by update, or one value given to a compiled error, partition or step function; "
        "values within rounding of a decision boundary are left out and counted")
BOUNDS = {
    "quick": "error functions on a 61 x 61 grid for 9 methods and orders 4-64 (plus corners of every decision region); partitions with 0-8 boundaries at, beside and between the boundaries; "
             "step control on 13^4 pairs of errors; training on every sequence of 3 samples to length 5 (6 sequences to length 3 for two modes), oversampling 1-3, taps 1-4, fixed and adaptive",
    "thorough": "sequences of 4 samples to length 6",
}


def shards(tier, seed):
    return [["errors", m, tier] for m in METHODS] + [["train", m, a, tier] for m in METHODS for a in (False, True)] + [["parts"], ["steps"], ["sums", seed]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def alphabet(M):
    s = np.asarray(theory.cal_symbols_qam(M), dtype=complex).ravel()
    return s / np.sqrt(np.mean(abs(s)**2))


def split(levels):
    levels = np.unique(np.round(levels, 12))
    return (levels[1:] + levels[:-1]) / 2, levels


def pick(x, part, code):
    """the code of the region x lies in, and how far it is from the next region"""
    k = int(np.sum(x > part))
    return code[k], (np.abs(x - part).min() if len(part) else np.inf)


def decide(x, sy):
    d = np.abs(x - sy)
    o = np.sort(d)
    return sy[d.argmin()], (o[1] - o[0] if len(o) > 1 else np.inf)


class Ref:
    """the error of a method and how far its decisions are from flipping"""

    def __init__(self, name, M):
        s = alphabet(M)
        self.n = name
        self.sy = s
        self.R = float(np.mean(abs(s)**4) / np.mean(abs(s)**2))
        self.Rc = complex(np.mean(s.real**4) / np.mean(s.real**2), 1.1 * np.mean(s.imag**4) / np.mean(s.imag**2))
        self.part, self.code = split(abs(s)**2)
        pr, cr = split(s.real**2)
        self.partc, self.codec = pr + 1.1j * pr, cr + 1.1j * cr
        self.d = 2 * float(np.min(np.abs(np.unique(np.round(s.real, 12)))))
        self.beta = .3

    def numba(self):
        return {"CMA": lambda: ne.ErrorFctCMA(self.R), "MCMA": lambda: ne.ErrorFctMCMA(self.Rc), "RDE": lambda: ne.ErrorFctRDE(self.part, self.code),
                "MRDE": lambda: ne.ErrorFctMRDE(self.partc, self.codec), "SBD": lambda: ne.ErrorFctSBD(self.sy), "MDDMA": lambda: ne.ErrorFctMDDMA(self.sy),
                "DD": lambda: ne.ErrorFctDD(self.sy), "CME": lambda: ne.ErrorFctCME(self.R, self.d, self.beta), "SCA": lambda: ne.ErrorFctSCA(self.R)}[self.n]()

    def __call__(self, x):
        x = complex(x)
        a, b = x.real, x.imag
        n, inf = self.n, np.inf
        if n == "CMA":
            return (self.R - (a * a + b * b)) * x, inf
        if n == "MCMA":
            return complex((self.Rc.real - a * a) * a, (self.Rc.imag - b * b) * b), inf
        if n == "RDE":
            p = a * a + b * b
            c, m = pick(p, self.part, self.code)
            return (c - p) * x, m
        if n == "MRDE":
            c, m = pick(a * a, self.partc.real, self.codec.real)
            e, k = pick(b * b, self.partc.imag, self.codec.imag)
            return complex((c - a * a) * a, (e - b * b) * b), min(m, k)
        if n in ("SBD", "MDDMA", "DD"):
            r, m = decide(x, self.sy)
            if n == "DD":
                return r - x, m
            if n == "SBD":
                return complex((r.real - a) * abs(r.real), (r.imag - b) * abs(r.imag)), m
            return complex((r.real**2 - a * a) * a, (r.imag**2 - b * b) * b), m
        if n == "CME":
            e = (self.R - (a * a + b * b)) * x
            return e + self.beta * np.pi / (2 * self.d) * complex(np.sin(a * np.pi / self.d), np.sin(b * np.pi / self.d)), inf
        if abs(abs(a) - abs(b)) < 1e-12 and abs(a) != abs(b):
            return 0j, 0
        return complex(16 * a * (self.R**2 - a * a) * (abs(a) >= abs(b)), 16 * b * (self.R**2 - b * b) * (abs(b) >= abs(a))), inf


METHODS = ("CMA", "MCMA", "RDE", "MRDE", "SBD", "MDDMA", "DD", "CME", "SCA")


def do_errors(t, name, tier):
    for M in (4, 16, 64) if tier == "quick" else (4, 8, 16, 32, 64, 128):
        ref = Ref(name, M)
        f = ref.numba()
        ax = np.arange(-30, 31) / 18
        pts = [complex(a, b) for a in ax for b in ax]
        for s in ref.sy:
            pts += [s * g + h for g in (.999, 1., 1.001) for h in (0, 1e-3, -1e-3j, .4j)]
        pts += [0j, 1e-300 + 0j, 1e3 - 1e3j, complex(0., -0.), 5j, -7. + 0j]
        for x in pts:
            want, m = ref(x)
            got = t.call(f, x)
            if m < 1e-9:
                t.note("left out")
                continue
            t.ok(close(got, want, 1e-10), "error:%s:%d:%s" % (name, M, x), "the error of the method", got=got, expected=want)
            t.state(name, M, got)
            t.trace()


def history(ref, E, tr, os, mu, w, adaptive):
    w = w.copy()
    nt = w.shape[1]
    err, margin = [], np.inf
    for i in range(tr):
        X = E[:, i * os:i * os + nt]
        y = sum(np.conj(w[k, j]) * X[k, j] for k in range(w.shape[0]) for j in range(nt))
        e, m = ref(y)
        margin = min(margin, m)
        err.append(e)
        w += mu * np.conj(e) * X
        if adaptive and i:
            p = err[-2]
            s, u = p.real * e.real, p.imag * e.imag
            margin = min(margin, abs(s) + (ref.n == "SCA" and s == 0), abs(u) + (ref.n == "SCA" and u == 0))
            if not (s > 0 and u > 0):
                mu = mu / (1 + mu * abs(p)**2)
    return np.array(err), w, mu, margin


def do_train(t, name, adaptive, tier):
    M = 16
    ref = Ref(name, M)
    f = ref.numba()
    A = [.9 + .35j, -.4 + .8j, .25 - .6j] + ([] if tier == "quick" else [-.7 - .55j])
    top = 5 if tier == "quick" else 6
    B = [(.9 + .35j, .3 - .2j), (-.4 + .8j, .7 + .1j), (.25 - .6j, -.5 + .9j), (-.8 - .5j, .2 + .6j), (.55 + .15j, -.35 - .75j), (-.15 + .45j, .65 - .95j)]
    rng = np.random.RandomState(5)
    for m, os, nt in itertools.product((1, 2), (1, 2, 3), (1, 2, 3, 4)):
        for tr in range(1, 7):
            L = (tr - 1) * os + nt
            if L > (top if m == 1 else 3):
                break
            w0 = (rng.randn(m, nt) + 1j * rng.randn(m, nt)) * .5
            for mu in (.07,):
                for seq in itertools.product(A if m == 1 else B, repeat=L):
                    E = np.array(seq, dtype=complex).reshape(L, m).T.copy()
                    err, w, step, margin = history(ref, E, tr, os, mu, w0, adaptive)
                    if margin < 1e-9:
                        t.note("left out")
                        continue
                    key = "train:%s:%s:%d:%d:%d:%d:%s" % (name, adaptive, m, os, nt, tr, seq)
                    keep = E.copy()
                    ok, r = t.attempt(key, ne.train_eq, E, tr, os, mu, w0.copy(), f, adaptive)
                    if ok:
                        t.ok(close(r[0], err, 1e-9), key + ":err", "the errors of every update", got=r[0], expected=err)
                        t.ok(close(r[1], w, 1e-9), key + ":taps", "the taps after the last update", got=r[1], expected=w)
                        t.ok(close(r[2], step, 1e-9), key + ":step", "the step size after the last update", got=r[2], expected=step)
                        t.ok(np.array_equal(E, keep), key + ":input", "the signal is not changed")
                        t.state(name, adaptive, r[0], r[1])
                    t.trace({"key": key})


def do_parts(t):
    for n in range(9):
        for gap in (1., .5, .25):
            part = np.arange(1, n + 1) * gap
            code = np.arange(n + 1) * 10. - 5
            xs = np.concatenate([part, part - gap / 8, part + gap / 8, [-1., 0., 100., np.inf, -np.inf]])
            want = [code[int(np.sum(x > part))] for x in xs]
            got = t.call(ne.partition_signal, xs, part, code)
            t.ok(list(got) == want, "parts:signal:%d:%g" % (n, gap), "each value gets the code of its interval, borders belong to the lower one", got=got, expected=want)
            for x, w in zip(xs, want):
                g = t.call(ne.partition_value, float(x), part, code)
                t.ok(g == w, "parts:value:%d:%g:%g" % (n, gap, x), "the code of the interval", got=g, expected=w)
                t.state(n, gap, x)
                t.trace()
            t.ok(list(t.call(ne.partition_signal, [], part, code)) == [], "parts:empty", "no values, no codes")


def do_steps(t):
    ax = [-2., -1., -.5, -.1, -1e-3, -0., 0., 1e-3, .1, .5, 1., 1.5, 2.]
    for a, b, c, d in itertools.product(ax, repeat=4):
        for mu in (.1,) if abs(a) + abs(b) < 2.5 else (.1, 2.):
            g = t.call(ne.adapt_step, mu, complex(a, b), complex(c, d))
            w = mu if a * c > 0 and b * d > 0 else mu / (1 + mu * (c * c + d * d))
            t.ok(abs(g - w) <= 1e-14, "steps:%g:%g:%g:%g:%g" % (mu, a, b, c, d), "the step size shrinks unless the errors agree in both signs", got=g, expected=w)
            t.trace()
    t.state("steps")


def do_sums(t, seed):
    for sh in [(1,), (5,), (0,), (1, 1), (2, 3), (3, 0), (2, 7), (2, 2, 2)]:
        r = np.random.RandomState(seed)
        a = r.randint(-9, 10, sh) + 1j * r.randint(-9, 10, sh)
        for n, x in (("c", a), ("f", np.asfortranarray(a)), ("t", a.T), ("s", a[..., ::-1])):
            g = t.call(ne.sum, x)
            t.ok(g == np.sum(a), "sums:%s:%s" % (sh, n), "the sum of all elements", got=g, expected=np.sum(a))
            t.state(sh, n)
            t.trace()
