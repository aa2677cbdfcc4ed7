"""C14: parallel loops give the same result under every schedule of their iterations."""
import copy
import ctypes
import itertools
import os
import numpy as np
from mc import omp
from mc.core import canon
from mc.checks.c13 import alphabet

RULE = ("a trace is one schedule (interleaving of the iterations of one parallel loop, at statement granularity and between the read and the write "
        "of every shared update) of one function of the pythran sources, run to its end; its result must equal that of the sequential schedule, "
        "which in turn must equal the compiled extension called with 1, 2, 3, 4 and 8 OpenMP threads")
BOUNDS = {
    "quick": "all exported functions of the two pythran sources with all their parallel loops, wherever a pragma makes one; 2-6 iterations each; every schedule with at most 2 preemptions, every order of "
             "the iterations; all equaliser methods",
    "thorough": "at most 3 preemptions, and 2 with longer loops",
}
ASSUMPTIONS = ["sequentially consistent memory; a statement without shared updates is atomic; pythran declares a variable that is assigned only in "
               "the loop inside the loop (private)"]
FILES = {"dsp": "/repo/qampy/core/pythran_dsp.py", "eq": "/repo/qampy/core/equalisation/pythran_equalisation.py"}
CPLX = ("cma", "cma2", "mcma", "sgncma", "rde", "mrde", "sbd", "mddma", "dd", "sbd_data")
REAL = ("cma", "sgncma", "dd", "dd_data")


def rnd(rng, *shape):
    return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)


def inputs(name, rng, big=False):
    """name of the case -> arguments"""
    a4, a16 = alphabet(4), alphabet(16)
    x = 1 if not big else 2
    out = {}
    if name == "bps":
        for L, n in ((2, 1), (3, 1)) if not big else ((4, 1), (5, 2)):
            E = a4[rng.integers(0, 4, L)] * np.exp(0.2j) + 0.05 * rnd(rng, L)
            out["one row L%d" % L] = (E, np.linspace(-np.pi / 4, np.pi / 4, 3, endpoint=False).reshape(1, -1), a4, n)
            out["rows L%d" % L] = (E, np.linspace(-np.pi / 4, np.pi / 4, 3, endpoint=False)[None] + rng.uniform(0, .1, (L, 1)), a4, n)
    elif name in ("soft_l_value_demapper", "soft_l_value_demapper_minmax"):
        bm = np.zeros((2, 2, 2), dtype=complex)
        for b in range(2):
            for v in range(2):
                bm[b, :, v] = [a4[k] for k in range(4) if (k >> b & 1) == v]
        for n in (1, 2) if not big else (2, 3):
            out["n%d" % n] = (rnd(rng, n), 2, 5., bm)
    elif name == "select_angles":
        out["rows"] = (rng.uniform(0, 1, (3 * x, 4)), rng.integers(0, 4, 3 * x))
        out["one"] = (rng.uniform(0, 1, (1, 4)), rng.integers(0, 4, 3 * x))
        out["one i4"] = (rng.uniform(0, 1, (1, 4)), rng.integers(0, 4, 3 * x).astype(np.int32))
    elif name == "estimate_snr":
        tx = a4[np.r_[0, 1, 2, 3, 0, 1, 2, 3]]
        out["all"] = (tx + 0.1 * rnd(rng, 8), tx, a4)
        out["some"] = (tx[:3] + 0.1 * rnd(rng, 3), tx[:3], a4)
    elif name == "cal_mi_mc":
        out["4"] = (0.1 * rnd(rng, 1 * x), a4[:2 * x], 0.1)
    elif name == "cal_mi_mc_fast":
        tx = a4[rng.integers(0, 4, 3 * x)]
        out["4"] = (tx + 0.1 * rnd(rng, 3 * x), tx, a4, 0.1)
    elif name == "cal_lut_avg":
        for i, q in itertools.product(([0, 0, 0], [0, 1, 0], [2, 1, 2]), repeat=2):
            out["%s %s" % (i, q)] = (rnd(rng, 2 + (x > 1)), np.array(i + [0]), np.array(q + [0]), 3)
    elif name == "prbs_ext":
        out["7"] = (93, np.array([7, 6]), 7, 4 * x)
    elif name == "prbs_int":
        out["7"] = (93, 0xC1, 7, 4 * x)
    elif name in ("det_symbol", "det_symbol_parallel"):
        for k in range(4):
            out["4:%d" % k] = (complex(a4[k] * 1.1 + 0.1 * rnd(rng, 1)[0]), a4)
    elif name == "apply_filter_to_signal":
        for m in (1, 2):
            out["%d" % m] = (rnd(rng, m, 5 + x), 2, rnd(rng, m, m, 3), np.arange(m))
        out["None"] = (rnd(rng, 2, 5), 2, rnd(rng, 2, 2, 2), None)
    elif name == "make_decision":
        out["4"] = (rnd(rng, 3 * x), a4)
    elif name == "train_equaliser":
        from qampy.core.equalisation.equalisation import generate_symbols_for_eq
        for meth, M in [(c, 16) for c in CPLX]:
            for m, sel, ad in ((2, (0, 1), False), (2, (1, 0), False), (3, (0, 2), False)) + (((2, (0, 1), True),) if meth in ("cma", "sbd") else ()):
                tr, it = 2 * x, 2
                E = np.ascontiguousarray(0.7 * rnd(rng, m, tr + 2))
                s = np.tile(a16[rng.integers(0, 16, tr)], (m, 1)) if meth == "sbd_data" else np.tile(generate_symbols_for_eq(meth, M, complex), (m, 1))
                out["%s:%d:%s:%s" % (meth, m, sel, "adaptive" if ad else "fixed")] = (
                    E, tr, it, 1, 0.05, 0.3 * rnd(rng, m, m, 2), np.array(sel), ad, s, meth)
    elif name == "train_equaliser_realvalued":
        for meth in REAL:
            for m, sel, ad in ((2, (0, 1), False), (4, (0, 2), False)) + (((2, (0, 1), True),) if meth == "cma" else ()):
                tr, it = 2 * x, 2
                E = 0.7 * rnd(rng, m, tr + 3).real.copy()
                s = np.tile(np.array([0.3, -0.3, 0.9, -0.9] if meth[:2] == "dd" else [0.8]), (m, 1))
                out["%s:%d:%s:%s" % (meth, m, sel, "adaptive" if ad else "fixed")] = (
                    E, tr, it, 1, 0.05, 0.3 * rnd(rng, m, m, 2).real.copy(), np.array(sel), ad, s, meth)
    return out


KNOWN = ("bps", "soft_l_value_demapper", "soft_l_value_demapper_minmax", "select_angles", "estimate_snr", "cal_mi_mc", "cal_mi_mc_fast",
         "apply_filter_to_signal", "make_decision", "train_equaliser", "train_equaliser_realvalued", "cal_gmi_mc",
         "cal_lut_avg", "prbs_ext", "prbs_int", "det_symbol", "det_symbol_parallel")
EQ = ("apply_filter_to_signal", "make_decision", "train_equaliser", "train_equaliser_realvalued", "det_symbol", "det_symbol_parallel")


def shards(tier, seed):
    out = []
    for f in FILES:
        for name in KNOWN:
            if (name in EQ) != (f == "eq"):
                continue
            for k in range(8 if "train" in name else 1):
                out.append([f, name, k, seed, tier])
    return out


def same(a, b):
    """equal up to the order of additions"""
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "iub" and b.dtype.kind in "iub":
        return np.array_equal(a, b)
    return bool(np.all((abs(a - b) <= 1e-9 * (1 + abs(b))) | (a == b)))


_omp = None


def threads(n):
    global _omp
    if _omp is None:
        _omp = ctypes.CDLL("libgomp.so.1")
    _omp.omp_set_num_threads(n)


def run(shard, t):
    f, name, part, seed, tier = shard
    import qampy.core.pythran_dsp as pd
    import qampy.core.equalisation.pythran_equalisation as pe
    compiled = getattr(pd if f == "dsp" else pe, name, None)
    try:
        prog = omp.Program(FILES[f])
    except (omp.Unsupported, SyntaxError) as e:
        t.note("not interpreted: %s" % e)
        prog = None
    rng = np.random.default_rng([seed, 21])
    if name == "cal_gmi_mc":
        return gmi(t, prog, compiled, seed, tier)
    cases = list(inputs(name, rng).items())
    if tier == "thorough":
        cases += [(k + " big", v) for k, v in inputs(name, rng, True).items()]
    nparts = 8 if "train" in name else 1
    for i, (case, args) in enumerate(cases):
        if i % nparts != part:
            continue
        bound = 2 if tier == "quick" or case.endswith("big") else 3
        one(t, f, name, case, args, prog, compiled, bound)


def one(t, f, name, case, args, prog, compiled, bound):
    key = "%s:%s" % (name, case)
    adaptive = "adaptive" in case
    ref = None
    if prog is not None:
        try:
            ref, _ = prog.call(name, copy.deepcopy(args))
        except omp.Unsupported as e:
            t.note("not interpreted: %s" % e)
    if ref is not None:
        differing = 0
        for choices, out, used, steps in omp.schedules(prog, name, lambda: copy.deepcopy(args), bound):
            t.transitions += steps
            t.state(name, case, canon(list(choices)))
            ok = same(out, ref)
            if not ok:
                differing += 1
                if adaptive and independent(prog, name, args):
                    t.fail("adaptive-step-schedule:" + name, "with an adaptive step size the result depends on the schedule of the modes")
                    break
                else:
                    t.fail("schedule:" + key, "the result depends on the schedule of the loop iterations", schedule=list(choices), expected=repr(ref)[:600],
                           got=repr(out)[:600])
                    break
            t.trace({"function": name, "case": case, "schedule": list(choices)} if choices else None)
        t.note("schedules of " + name, 1)
        t.note("schedules whose result differs", differing)
    if compiled is not None and not adaptive:
        first = None
        for n in (1, 2, 3, 4, 8):
            threads(n)
            for rep in range(1 if n == 1 else 4):
                t.note("runs of the compiled function")
                got = t.call(compiled, *copy.deepcopy(args))
                if first is None:
                    first = got
                    if ref is not None:
                        t.ok(same(got, ref), "compiled:" + key, "the compiled function and the interpreted source agree", compiled=repr(got)[:500],
                             interpreted=repr(ref)[:500])
                t.ok(same(got, first), "threads:" + key, "the compiled function gives the same result with %d threads" % n)
        threads(1)


def independent(prog, name, args):
    """the same run with a fixed step size does not depend on the schedule"""
    fixed = tuple(False if isinstance(a, bool) else a for a in args)
    ref, _ = prog.call(name, copy.deepcopy(fixed))
    return all(same(out, ref) for _, out, _, _ in omp.schedules(prog, name, lambda: copy.deepcopy(fixed), 1))


def gmi(t, prog, compiled, seed, tier):
    """draws its noise itself: every schedule starts from the same random state"""
    a4 = alphabet(4)
    bm = np.zeros((2, 2, 2), dtype=complex)
    for b in range(2):
        for v in range(2):
            bm[b, :, v] = [a4[k] for k in range(4) if (k >> b & 1) == v]
    if prog is None:
        t.note("not interpreted: cal_gmi_mc")
        return

    def args():
        np.random.seed(seed)
        return (a4, 4., 1, bm)
    ref, _ = prog.call("cal_gmi_mc", args())
    for choices, out, used, steps in omp.schedules(prog, "cal_gmi_mc", args, 1 if tier == "quick" else 2):
        t.transitions += steps
        t.state("gmi", canon(list(choices)))
        if not t.ok(same(out, ref), "schedule:cal_gmi_mc", "the result depends on the schedule of the loop iterations", schedule=list(choices)):
            break
        t.trace({"function": "cal_gmi_mc", "schedule": list(choices)})
    # the compiled function is a Monte-Carlo estimate with its own random numbers: it must agree on average
    for n in (1, 4):
        threads(n)
        got = np.mean([t.call(compiled, a4, 4., 4000, bm) for _ in range(4)])
        np.random.seed(1)
        want = prog.call("cal_gmi_mc", (a4, 4., 1500, bm))[0]
        t.ok(abs(got - want) < 0.03, "compiled:cal_gmi_mc", "the compiled function and the interpreted source agree", compiled=float(got),
             interpreted=float(want))
    threads(1)
