"""C06: the PRBS generators produce the sequences of their polynomials, for every register state and length."""
import itertools
import numpy as np
from qampy import signals
from qampy.core import prbs, utils
from qampy.core.pythran_dsp import prbs_ext, prbs_int

RULE = ("a trace is one start state of one generator, run for a number of bits and compared with the recurrence of the standard polynomial "
        "written down independently; states are (generator, order, register state) configurations")
BOUNDS = {
    "quick": "order 7: every start state, full period twice; order 15: the complete state cycle (32767 states) of both forms and 2048 start "
             "states; order 23: the full period; order 31: recurrence over 200000 bits from 60 states plus linearity; lengths 0..80 one by one; "
             "bit objects: 1..4 modes, all given/missing seed and order combinations; BERT signals: 1-2 modes, 5 shifts, all inversions",
    "thorough": "order 15: every start state; order 31: 20 million bits",
}
TAPS = {7: 6, 15: 14, 23: 18, 31: 28}
FULL = {o: 2 ** o - 1 for o in TAPS}


def shards(tier, seed):
    out = [["seeds", form, 7, 0, tier] for form in ("ext", "int")]
    out += [["seeds", form, 15, k, tier] for form in ("ext", "int") for k in range(4)]
    out += [["period", form, o, 0, tier] for form in ("ext", "int") for o in (7, 15, 23)]
    out += [["long", form, 31, seed, tier] for form in ("ext", "int")]
    out += [["lengths", form, o, seed, tier] for form in ("ext", "int") for o in TAPS]
    out += [["linear", form, o, seed, tier] for form in ("ext", "int") for o in TAPS]
    out += [["lfsr", "-", o, seed, tier] for o in TAPS]
    out += [["bits", "-", 0, seed, tier], ["seedforms", "-", 0, seed, tier], ["bert", "-", 0, seed, tier]]
    return out


def ref_ext(order, state, n):
    """Fibonacci form: every bit is the sum of the bits `order` and `tap` places before; the register holds the last bits, newest on top"""
    hist = [(state >> i) & 1 for i in range(order)]           # oldest (bit 0) first
    for i in range(n):
        hist.append(hist[-order] ^ hist[-TAPS[order]])
    return np.array(hist[order:], dtype=np.uint8)


def ref_int(order, state, n):
    """Galois form: multiplication by x modulo x^order + x^tap + 1; the output is the coefficient that overflows"""
    poly = (1 << order) | (1 << TAPS[order]) | 1
    out = np.zeros(n, dtype=np.uint8)
    for i in range(n):
        state <<= 1
        if state >> order & 1:
            state ^= poly
            out[i] = 1
    return out


REF = {"ext": ref_ext, "int": ref_int}
FN = {"ext": prbs.make_prbs_extXOR, "int": prbs.make_prbs_intXOR}


def gen(t, form, order, n, seed=None):
    return t.call(FN[form], order, n, seed)


def recurrence(form, order, b):
    """the recurrence every such sequence obeys, whatever the start: out[n] = out[n - order] + out[n - k]"""
    k = TAPS[order] if form == "ext" else order - TAPS[order]
    b = b.astype(np.uint8)
    return np.array_equal(b[order:], b[:-order] ^ b[order - k:len(b) - k])


def run(shard, t):
    part, form, order, k, tier = shard
    globals()["do_" + part](t, form, order, k, tier)


def do_seeds(t, form, order, k, tier):
    states = range(1, 2 ** order) if order == 7 else range(1 + k, 2 ** order, 4 if tier == "thorough" else 64)
    n = 2 * FULL[7] + 3 if order == 7 else 3 * order
    for s in states:
        got = gen(t, form, order, n, s)
        t.ok(got.dtype == bool and np.array_equal(got, REF[form](order, s, n)), "seeds:%s:%d" % (form, order),
             "the sequence from a start state is that of the polynomial", state=s, got=got[:24])
        t.state(form, order, s, got[:3 * order])
        t.trace({"form": form, "order": order, "state": s})
    got = gen(t, form, order, 50, 0)
    t.ok(not got.any(), "zero:%s" % form, "the all-zero register stays zero")


def do_period(t, form, order, k, tier):
    """the sequence runs through all states before it repeats"""
    P = FULL[order]
    b = gen(t, form, order, 2 * P)
    key = "period:%s:%d" % (form, order)
    t.ok(b.dtype == bool and b.shape == (2 * P,), key + ":shape", "the generator returns the requested number of booleans")
    t.ok(np.array_equal(b[:P], b[P:]), key, "the sequence repeats after 2^n - 1 bits")
    t.ok(int(b[:P].sum()) == 2 ** (order - 1), key + ":balance", "one period has one more 1 than 0", ones=int(b[:P].sum()))
    t.ok(recurrence(form, order, b), key + ":recurrence", "the sequence obeys the recurrence of its polynomial")
    # all windows of n bits of one period are different: the generator visits every nonzero state
    w = np.zeros(P, dtype=np.int64)
    ext = np.concatenate([b[:P], b[:order]]).astype(np.int64)
    for i in range(order):
        w = (w << 1) | ext[i:i + P]
    u = np.unique(w)
    t.ok(len(u) == P and u[0] == 1, key + ":states", "the sequence visits every nonzero register state once", different=len(u))
    for v in u[:200000]:
        t.states.add(hash((form, order, int(v))))
    t.trace({"form": form, "order": order, "period": P})


def do_long(t, form, order, seed, tier):
    R = np.random.RandomState(seed)
    n = 200000 if tier == "quick" else 20000000
    for s in [None, 1, 2, 2 ** 30, 2 ** 31 - 1, 2 ** 31 - 2] + [int(v) for v in R.randint(1, 2 ** 31 - 1, 54 if tier == "quick" else 4)]:
        b = gen(t, form, order, n, s)
        st = 2 ** 31 - 1 if s is None else s
        m = 2000
        t.ok(np.array_equal(b[:m], REF[form](order, st, m)), "long:%s" % form, "the sequence is that of the polynomial", state=s)
        t.ok(recurrence(form, order, b), "long:%s:recurrence" % form, "the sequence obeys the recurrence of its polynomial", state=s)
        t.state(form, order, st, b[:400])
        t.trace({"form": form, "order": order, "state": st})


def do_lengths(t, form, order, seed, tier):
    key = "lengths:%s:%d" % (form, order)
    full = REF[form](order, FULL[order], 200)
    for n in list(range(0, 81)) + [97, 128, 200]:
        b = gen(t, form, order, n)
        t.ok(b.dtype == bool and b.shape == (n,) and np.array_equal(b, full[:n]), key, "the default start state is all ones, and a shorter "
             "sequence is the start of a longer one", n=n)
        t.ok(np.array_equal(gen(t, form, order, float(n)), full[:n]), key + ":float", "the length may be a float", n=n)
        t.state(form, order, n)
        t.trace({"form": form, "order": order, "bits": n})
    for bad in (0, 1, 8, 9, 16, 24, 30, 32):
        try:
            t.call(FN[form], bad, 10)
            t.fail(key + ":order", "an order that is not implemented is refused", order=bad)
        except AssertionError:
            pass


def do_linear(t, form, order, seed, tier):
    """the output is linear in the start state, so single-bit states decide all states"""
    n = 4 * order
    basis = [gen(t, form, order, n, 1 << i) for i in range(order)]
    for i in range(order):
        t.ok(np.array_equal(basis[i], REF[form](order, 1 << i, n)), "basis:%s:%d" % (form, order), "the sequence from a single-bit state is "
             "that of the polynomial", bit=i)
        t.trace({"form": form, "order": order, "bit": i})
    R = np.random.RandomState(seed + order)
    pairs = list(itertools.combinations(range(order), 2))
    for s in [1 << a | 1 << b for a, b in pairs] + [int(v) for v in R.randint(1, 2 ** order - 1, 60)]:
        want = np.zeros(n, bool)
        for i in range(order):
            if s >> i & 1:
                want ^= basis[i]
        got = gen(t, form, order, n, s)
        t.ok(np.array_equal(got, want), "linear:%s:%d" % (form, order), "the sequence is linear in the start state", state=s)
        t.state(form, order, s)
        t.trace()


def do_lfsr(t, form, order, seed, tier):
    """the stepping generators agree with the compiled ones and expose the register"""
    R = np.random.RandomState(seed * 3 + order)
    poly = (1 << order) | (1 << TAPS[order]) | 1
    for s in [1, FULL[order], 1 << (order - 1)] + [int(v) for v in R.randint(1, 2 ** order - 1, 12)]:
        n = 300
        e, i = utils.lfsr_ext(s, [order, TAPS[order]], order), utils.lfsr_int(s, poly)
        oe, oi, st_e, st_i = [], [], s, s
        for _ in range(n):
            b, r = t.call(next, e)
            nb = (st_e ^ st_e >> (order - TAPS[order])) & 1
            st_e = st_e >> 1 | nb << (order - 1)
            t.ok((b, r) == (nb, st_e), "lfsr:ext:%d" % order, "the register steps as the polynomial says", state=s, got=[b, r], want=[nb, st_e])
            oe.append(b)
            b, r = t.call(next, i)
            st_i <<= 1
            nb = st_i >> order & 1
            st_i ^= poly if nb else 0
            t.ok((b, r) == (nb, st_i), "lfsr:int:%d" % order, "the register steps as the polynomial says", state=s, got=[b, r], want=[nb, st_i])
            t.state(order, r)
            oi.append(b)
        t.ok(np.array_equal(t.call(prbs_ext, s, np.array([order, TAPS[order]]), order, n), oe), "lfsr:ext-compiled:%d" % order,
             "compiled and stepping generator agree", state=s)
        t.ok(np.array_equal(t.call(prbs_int, s, poly, order, n), oi), "lfsr:int-compiled:%d" % order, "compiled and stepping generator agree", state=s)
        t.trace({"order": order, "state": s})


def do_seedforms(t, form, order, seed, tier):
    """a start state can be given as a number or as bits, least significant first"""
    for v in range(2 ** 7):
        bits = [(v >> i) & 1 for i in range(7)]
        for x in (bits, np.array(bits), np.array(bits, bool), tuple(bits)):
            t.ok(int(t.call(utils.bool2bin, x)) == v, "bool2bin", "bits are read least significant first", value=v)
        for f in ("ext", "int"):
            t.ok(np.array_equal(gen(t, f, 7, 40, np.array(bits, bool)), REF[f](7, v, 40)), "seedforms:" + f, "a start state given as bits", value=v)
        t.state(v)
        t.trace({"value": v})
    for n in (1, 8, 31, 33, 53, 62, 63):
        for i in range(n):
            x = np.zeros(n, bool)
            x[i] = True
            t.ok(int(t.call(utils.bool2bin, x)) == 1 << i, "bool2bin:wide", "bit i has the value 2^i", n=n, i=i)
            t.state(n, i)
        t.trace()


def do_bits(t, form, order, seed, tier):
    """bit objects: each mode carries the sequence of its order and seed; missing ones are chosen, never all-zero"""
    for N in (1, 63, 300):
        for nmodes in (1, 2, 3):
            for orders in itertools.product((7, 15, 23, 31), repeat=nmodes):
                for seeds in ([None] * nmodes, [1 + 5 * i for i in range(nmodes)], [127 - i for i in range(nmodes)]):
                    b = t.call(signals.PRBSBits, N, nmodes=nmodes, seed=seeds, order=list(orders))
                    t.ok(b.shape == (nmodes, N) and b.dtype == bool, "bits:shape", "one row of booleans per mode", nmodes=nmodes, N=N)
                    for m in range(nmodes):
                        t.ok(np.array_equal(b[m], REF["ext"](orders[m], FULL[orders[m]] if seeds[m] is None else seeds[m], N)), "bits:mode",
                             "each mode carries the sequence of its order and seed", orders=orders, seeds=seeds, mode=m)
                    t.state(N, orders, seeds, np.asarray(b))
                t.trace({"N": N, "orders": orders})
    for nmodes in (1, 2, 3, 4):
        for no in range(0, nmodes + 1):
            for ns in range(0, nmodes + 1):
                for rep in range(3):
                    np.random.seed(100 * rep + 10 * no + ns)
                    given_o, given_s = [15, 7, 23, 15][:no], [3, None, 9, 77][:ns]
                    ok, b = t.attempt("bits:missing:error", signals.PRBSBits, 120, nmodes=nmodes, seed=list(given_s), order=list(given_o))
                    if not ok:
                        continue
                    for m in range(nmodes):
                        row = np.asarray(b)[m]
                        t.ok(row.any(), "bits:missing:zero", "no mode is stuck at zero", mode=m, orders=no, seeds=ns)
                        cand = [given_o[m]] if m < no else [15, 23]
                        t.ok(any(recurrence("ext", o, row) for o in cand), "bits:missing:order", "each mode is a PRBS of the given or a default order",
                             mode=m, orders=no, seeds=ns)
                        if m < no and m < ns:
                            t.ok(np.array_equal(row, REF["ext"](given_o[m], FULL[given_o[m]] if given_s[m] is None else given_s[m], 120)),
                                 "bits:missing:given", "given seeds and orders are used", mode=m, orders=no, seeds=ns)
                    t.state(nmodes, no, ns, rep, np.asarray(b))
                    t.trace({"nmodes": nmodes, "orders given": no, "seeds given": ns})


def do_bert(t, form, order, seed, tier):
    """QPSKfromBERT: in-phase and quadrature bits are the two shifted, optionally inverted patterns"""
    for nmodes, N in itertools.product((1, 2), (1, 2, 40, 127, 300)):
        for oi, oq in ((7, 7), (15, 7), (7, 23), (31, 15)):
            orders = ((oi,) * nmodes if nmodes == 1 else (oi, oq), (oq,) * nmodes)
            for sh, inv in itertools.product(((0, 0), (1, 0), (0, 5), (-3, 64), (127, 1000)), itertools.product((False, True), repeat=2)):
                for dt in (np.complex128, np.complex64):
                    key = "bert:%d:%d:%d:%d" % (nmodes, N, oi, oq)
                    ok, s = t.attempt(key, signals.QPSKfromBERT, N, nmodes=nmodes, fb=2e9, prbsorders=orders, prbsshifts=sh, prbsinvert=inv, dtype=dt)
                    if not ok:
                        continue
                    good = s.shape == (nmodes, N) and s.dtype == dt and s.fb == 2e9 and s.fs == 2e9 and s.M == 4
                    bits = np.asarray(s.bits)
                    for m in range(nmodes):
                        for q in range(2):
                            b = np.roll(REF["ext"](orders[q][m], FULL[orders[q][m]], N).astype(bool), sh[q]) ^ inv[q]
                            good = good and np.array_equal(bits[m, q::2], b)
                    t.ok(good, key + ":bits", "two bits per symbol: the shifted and inverted patterns of I and Q", shifts=sh, invert=inv)
                    t.ok(np.array_equal(np.asarray(s), np.asarray(s.symbols)) and np.array_equal(np.asarray(s.demodulate(s.symbols)), bits), key + ":symbols", "the symbols carry these bits")
                    # in-phase bit decides the sign of one quadrature, the other bit that of the other
                    x = np.asarray(s)
                    a, b = bits[:, ::2], bits[:, 1::2]
                    t.ok(all(len(set(np.sign(p[c == v]))) <= 1 for p, c in ((x.real, a), (x.imag, b)) for v in (False, True)), key + ":quadratures",
                         "the first bit only sets the real part, the second only the imaginary part")
                    t.trace({"orders": orders, "shifts": sh, "invert": inv})
        t.state("bert", nmodes, N)
