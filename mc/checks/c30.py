"""C30: distributed phase recovery: every request is answered once, with the right result, under every schedule."""
import contextlib
import io
import itertools
import threading
import zmq
import numpy as np
from qampy import signals
from qampy.core import processing
from qampy.core.phaserecovery import bps
from mc.core import close

RULE = ("a trace is one complete schedule of a dealer and its workers, run on the real classes over simulated sockets with every order of their socket operations, "
        "or the same history over real sockets, or one array or container that travels through the real packing")
BOUNDS = {
    "quick": "1-3 workers, 1-4 requests (good ones, unknown methods, missing parameters, errors outside ASCII), every order in which the dealer sends and collects, every interleaving of all "
             "socket operations, every choice between workers that answered, a worker dying before any of its operations; push-pull workers in the same way; "
             "arrays of 14 types x 12 shapes x 4 memory layouts, containers to depth 3; replay of the histories over real in-process sockets",
    "thorough": "up to 5 requests and 3 workers with a crash",
}
ASSUMPTIONS = ["the simulated sockets follow the documented behaviour of DEALER, REP, PUSH and PULL; the replay over real sockets checks them"]

LIMIT = {False: 4, True: 2}      # beyond: histories that lead to the same state are continued once


def shards(tier, seed):
    q = tier == "quick"
    out = []
    for w, n in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (() if q else ((1, 5), (2, 4), (3, 4))):
        for word in words(n):
            if w == 3 and n == 3 and word != "sss" + "rrr" and q:
                continue
            out.append(["dealer", w, n, word, False, seed])
    for w, n in ((1, 2), (2, 2), (2, 3)) + (() if q else ((3, 3),)):
        for word in words(n):
            out.append(["dealer", w, n, word, True, seed])
    out += [["pushpull", w, n, crash, seed] for w, n in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 3)) for crash in (False, True)]
    out += [["real", w, n, seed] for w, n in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 3))]
    return out + [["pack", k, seed] for k in range(4)] + [["flags", seed], ["recovery", seed]]


def run(shard, t):
    globals()["do_" + shard[0]](t, *shard[1:])


def words(n):
    """all orders in which n requests are sent and n answers are collected"""
    out = []
    for pos in itertools.combinations(range(2 * n), n):
        w = "".join("s" if i in pos else "r" for i in range(2 * n))
        if all(w[:i].count("s") >= w[:i].count("r") for i in range(2 * n + 1)):
            out.append(w)
    return out


# -- simulated sockets under a controlled scheduler -----------------------------------------------------------
class Stop(BaseException):
    pass


class World:
    """the network and the scheduler: one actor runs at a time, until its next socket operation"""

    def __init__(self, choices):
        self.choices, self.taken, self.widths = list(choices), [], []
        self.bound, self.waiting, self.finished, self.dead = {}, {}, set(), set()
        self.turn = threading.Semaphore(0)
        self.now = None
        self.log = []
        self.errors = {}
        self.keys, self.sockets, self.hist, self.hidden = [], [], {}, lambda: ()

    def choose(self, n):
        k = self.choices[len(self.taken)] if len(self.taken) < len(self.choices) else 0
        self.taken.append(k)
        self.widths.append(n)
        self.keys.append(self.state(n))
        return k

    def state(self, n):
        """everything the future depends on: what every actor has seen and done, what is under way, what the objects and classes hold"""
        ids = {id(x): i for i, x in enumerate(self.sockets)}
        return hash((n, tuple(sorted((a, tuple(h)) for a, h in self.hist.items())), tuple(sorted(self.waiting)), tuple(sorted(self.dead)), self.now if self.now in self.waiting else None,
                     tuple(tuple(sorted((ids[id(p)], tuple(map(tuple, q))) for p, q in x.queue.items())) for x in self.sockets), self.hidden()))

    def step(self, ready):
        """called by an actor before each of its socket operations"""
        me = self.now
        if me is None:            # set-up, outside of any schedule
            return
        go = threading.Semaphore(0)
        self.waiting[me] = (ready, go)
        self.turn.release()
        go.acquire()
        if me in self.dead:
            raise Stop()
        self.hist.setdefault(me, []).append("op")

    def spawn(self, name, fn):
        started = threading.Semaphore(0)
        self.waiting[name] = (lambda: True, started)

        def body():
            started.acquire()
            try:
                if name not in self.dead:
                    fn()
            except Stop:
                pass
            except BaseException as e:
                self.errors[name] = e
            self.finished.add(name)
            self.turn.release()
        th = threading.Thread(target=body, daemon=True)
        th.start()
        return th

    def go(self, name):
        self.now = name
        self.waiting.pop(name)[1].release()
        self.turn.acquire()

    def run(self, actors, killable=()):
        """one schedule; the first choices are given, the others are the first possible"""
        th = [self.spawn(n, f) for n, f in actors]
        left = set(killable)
        while True:
            ready = [n for n, _ in actors if n in self.waiting and self.waiting[n][0]()]
            opts = [("run", n) for n in ready] + [("kill", n) for n in sorted(left) if n in ready]
            if not ready:
                break
            kind, n = opts[self.choose(len(opts)) if len(opts) > 1 else 0]
            self.log.append((kind, n))
            if kind == "kill":
                self.dead.add(n)
                left = set()          # one crash in a history
            self.go(n)
        self.blocked = [n for n, _ in actors if n in self.waiting]
        for n in list(self.waiting):
            self.dead.add(n)
            self.go(n)
        for x in th:
            x.join()


class Socket:
    def __init__(self, world, kind):
        self.w, self.kind, self.peers, self.queue, self.rr, self.partner, self.calls = world, kind, [], {}, 0, None, []
        world.sockets.append(self)

    # set-up
    def bind(self, url):
        self.w.bound[url] = self
        self.url = url

    def bind_to_random_port(self, url, min_port=49152, max_port=65536, max_tries=100):
        self.bind("%s:%d" % (url, min_port + 7))
        return min_port + 7

    def connect(self, url):
        other = self.w.bound[url]
        self.peers.append(other)
        other.peers.append(self)
        self.queue[other], other.queue[self] = [], []

    # transport
    def send_multipart(self, parts, flags=0, copy=True, track=False):
        self.calls.append(("send", flags, copy, track))
        assert all(isinstance(p, bytes) for p in parts)
        if self.kind == zmq.REP:
            if self.partner is None:
                raise zmq.ZMQError(zmq.EFSM)
        self.w.step(lambda: True)
        if self.kind == zmq.REP:
            to, env = self.partner
            self.partner = None
            to.queue[self].append(env + list(parts))
        elif self.kind == zmq.PULL:
            raise zmq.ZMQError(zmq.ENOTSUP)
        else:
            to = self.peers[self.rr % len(self.peers)]
            self.rr += 1
            to.queue[self].append(list(parts))

    def recv_multipart(self, flags=0, copy=True, track=False):
        self.calls.append(("recv", flags, copy, track))
        if self.kind == zmq.PUSH:
            raise zmq.ZMQError(zmq.ENOTSUP)
        if self.kind == zmq.REP and self.partner is not None:
            raise zmq.ZMQError(zmq.EFSM)
        if flags & zmq.NOBLOCK and not any(self.queue.values()):
            raise zmq.Again()
        self.w.step(lambda: any(self.queue.values()))
        who = [p for p in self.peers if self.queue[p]]
        p = who[self.w.choose(len(who)) if len(who) > 1 else 0]
        msg = self.queue[p].pop(0)
        self.w.hist.setdefault(self.w.now, []).append(tuple(msg))
        if self.kind == zmq.REP:
            i = msg.index(b"")
            self.partner = (p, msg[:i + 1])
            msg = msg[i + 1:]
        return msg

    def send(self, data, flags=0, copy=True, track=False):
        part = self.__dict__.setdefault("part", [])
        part.append(data)
        self.calls.append(("send", flags, copy, track))
        if not flags & zmq.SNDMORE:
            self.part = []
            self.send_multipart(part, flags, copy, track)

    def recv(self, flags=0, copy=True, track=False):
        if not self.__dict__.get("rest"):
            self.rest = list(self.recv_multipart(flags, copy, track))
        return self.rest.pop(0)

    def getsockopt(self, opt):
        return int(bool(self.__dict__.get("rest"))) if opt == zmq.RCVMORE else 0

    get = getsockopt
    rcvmore = property(lambda self: self.getsockopt(zmq.RCVMORE))

    def setsockopt(self, opt, value):
        pass

    set = setsockopt

    def poll(self, timeout=None, flags=zmq.POLLIN):
        return flags & (zmq.POLLOUT | (zmq.POLLIN if any(self.queue.values()) else 0))

    def close(self, linger=None):
        pass


class Context:
    def __init__(self, world):
        self.w = world

    def socket(self, kind):
        return Socket(self.w, kind)


def explore(make, merge=False, stop=lambda: False):
    """depth-first through all schedules; make(choices) runs one and returns its world.  With merge, histories that lead to
    the same state (see World.state) are continued once."""
    todo = [[]]
    seen = set()
    while todo and not stop():
        pre = todo.pop()
        w = make(pre)
        yield w
        for i in range(len(pre), len(w.taken)):
            if merge:
                if w.keys[i] in seen:
                    break
                seen.add(w.keys[i])
            for k in range(1, w.widths[i]):
                todo.append(w.taken[:i] + [k])


def refuted(t, more=300):
    """a configuration with a failure is not explored to the end"""
    n = itertools.count()
    return lambda: bool(t.fails) and next(n) > more


def hidden(objects):
    """what the objects and their classes hold besides sockets"""
    out = []
    for o in objects:
        for d in [o.__dict__] + [c.__dict__ for c in type(o).__mro__[:-1]]:
            out += [(k, repr(v)) for k, v in sorted(d.items()) if not isinstance(v, (Socket, Context)) and not callable(v) and not k.startswith("__")]
    return tuple(out)


# -- the requests ------------------------------------------------------------------------------------------------
class Worker(processing.PhRecWorker):
    def double(self, p):
        return {"id": p["id"], "v": p["a"] * 2}

    def fail(self, p):
        raise ValueError("l\u00e4uft nicht %d" % p["id"])


class Pusher(processing.PPWorker):
    def double(self, id, a):
        return {"id": id, "v": a * 2}

    def fail(self, id, a):
        raise ValueError("l\u00e4uft nicht %d" % id)


def requests(n, seed):
    s = signals.SignalQAMGrayCoded(16, 24, seed=[seed])
    alph = np.asarray(s.coded_symbols)
    a = np.asarray(s) * np.exp(.13j)
    out = []
    for i in range(n):
        k = (i + n) % 4
        if k == 0:
            d = {"id": i, "data": a * np.exp(.05j * i), "Mtestangles": 8, "symbols": alph, "N": 3}
            r = bps(d["data"], 8, alph, 3)
            out.append((b"do_phase_rec", d, {"id": i, "Eout": r[0], "ph": r[1]}))
        elif k == 1:
            d = {"id": i, "a": np.arange(i, i + 5, dtype=np.complex64)}
            out.append((b"double", d, {"id": i, "v": d["a"] * 2}))
        elif k == 2:
            out.append((b"fail", {"id": i, "a": 0}, ("ValueError", "%d" % i)))
        else:
            out.append((b"nothing%d" % i, {"id": i}, ("AttributeError", "nothing%d" % i)))
    if n == 2:
        out[0] = (b"do_phase_rec", {"id": 0}, ("KeyError", "'data'"))
    return out


def same(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, np.ndarray):
        return isinstance(got, np.ndarray) and got.dtype == want.dtype and np.array_equal(got, want)
    return type(got) is type(want) and got == want


def errortext(e):
    return b" ".join(x for x in e.args[0]) if e.args and isinstance(e.args[0], list) else b""


def match(got, reqs, left):
    """which outstanding request this answers"""
    for j in left:
        want = reqs[j][2]
        if isinstance(want, dict):
            if same(got, want):
                return j
        elif isinstance(got, Exception) and want[0].encode() in errortext(got) and want[1].encode() in errortext(got):
            return j
    return None


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def do_dealer(t, W, n, word, crash, seed):
    reqs = requests(n, seed)
    frozen = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in r[1].items()} for r in reqs]
    key = "dealer:%d:%d:%s:%s" % (W, n, word, crash)

    def make(pre):
        w = World(pre)
        ctx = Context(w)
        d = processing.DataDealer("tcp://127.0.0.1", context=ctx) if n % 2 else processing.DataDealer("tcp://127.0.0.1", 5555, context=ctx)
        ws = [quiet(Worker, "tcp://127.0.0.1:%s" % d.port, context=ctx) for _ in range(W)]
        w.got, w.who = [], {}

        def client():
            sent = itertools.count()
            for c in word:
                if c == "s":
                    j = next(sent)
                    w.who[j] = d.socket.rr % W
                    d.send_msg(reqs[j][0], reqs[j][1])
                else:
                    try:
                        w.got.append(d.recv_msg())
                    except Exception as e:
                        w.got.append(e)
        names = ["w%d" % i for i in range(W)]
        w.hidden = lambda: hidden([d] + ws)
        w.run([("client", client)] + [(x, o.run) for x, o in zip(names, ws)], names if crash else ())
        w.port = d.port
        w.ws = ws
        return w

    for w in explore(make, W * n > LIMIT[crash], refuted(t)):
        t.transitions += len(w.log)
        dead = [int(x[1:]) for k, x in w.log if k == "kill"]
        trace = {"schedule": w.taken, "log": [" ".join(x) for x in w.log]}
        t.ok(not w.errors, key + ":alive", "dealer and workers keep going", got={k: repr(v) for k, v in w.errors.items()}, **trace)
        left = list(range(n))
        wrong = []
        for g in w.got:
            j = match(g, reqs, left)
            if j is None:
                wrong.append(repr(g))
            else:
                left.remove(j)
        t.ok(not wrong, key + ":answer", "every answer is the result of (or the error raised by) one request that has no answer yet", got=wrong, **trace)
        if not dead:
            t.ok(not left and "client" not in w.blocked, key + ":all", "every request is answered", missing=left, **trace)
        else:
            # only what was given to the dead worker may stay unanswered; while the dealer does not wait for it
            lost = [j for j in left if w.who.get(j, dead[0]) not in dead and "client" not in w.blocked]
            t.ok(not lost, key + ":crash", "requests given to workers that live are answered", missing=lost, **trace)
            if "client" in w.blocked:
                open_ = [x for x in w.ws if any(x.socket.queue.values())]
                t.ok(all(w.ws.index(x) in dead for x in open_), key + ":idle", "no living worker leaves a request lying", **trace)
        t.ok(all(same(r[1], f) for r, f in zip(reqs, frozen)), key + ":input", "the requests are not changed")
        t.state(W, n, word, tuple(w.log))
        t.trace(trace)


def do_pushpull(t, W, n, crash, seed):
    reqs = [r for r in requests(n, seed)]
    reqs = [(b"double", {"id": j, "a": np.arange(j + 3)}, {"id": j, "v": np.arange(j + 3) * 2}) if isinstance(r[2], dict) or n == 2 else r for j, r in enumerate(reqs)]
    key = "pushpull:%d:%d:%s" % (W, n, crash)

    def make(pre):
        w = World(pre)
        ctx = Context(w)
        src = ctx.socket(zmq.PUSH)
        src.bind("tcp://127.0.0.1:1")
        sink = processing.ResultSink("tcp://127.0.0.1", port=None if n % 2 else 6001, context=ctx)
        ws = [Pusher("tcp://127.0.0.1:%d" % sink.port, "tcp://127.0.0.1:1", context=ctx) for _ in range(W)]
        w.got = []

        def client():
            for h, d, _ in reqs:
                src.send_multipart([h, processing.pack_array(d)])

        def collect():
            while True:
                w.got.append(sink.socket.recv_multipart())
        names = ["w%d" % i for i in range(W)]
        w.hidden = lambda: hidden([sink] + ws)
        w.run([("client", client), ("sink", collect)] + [(x, o.run) for x, o in zip(names, ws)], names if crash else ())
        return w

    for w in explore(make, W * n > LIMIT[crash], refuted(t)):
        t.transitions += len(w.log)
        dead = [int(x[1:]) for k, x in w.log if k == "kill"]
        trace = {"schedule": w.taken, "log": [" ".join(x) for x in w.log]}
        t.ok(not w.errors, key + ":alive", "workers keep going", got={k: repr(v) for k, v in w.errors.items()}, **trace)
        left, wrong = list(range(n)), []
        for g in w.got:
            r = processing.unpack_array(g[1]) if g[0] == b"OK" else Exception(list(g))
            j = match(r, reqs, left)
            if j is None:
                wrong.append(repr(g))
            else:
                left.remove(j)
        t.ok(not wrong, key + ":answer", "every result is that of one job", got=wrong, **trace)
        t.ok(all(j % W in dead for j in left), key + ":all", "every job given to a living worker has a result", missing=left, **trace)
        t.state(W, n, crash, tuple(w.log))
        t.trace(trace)


def do_real(t, W, n, seed):
    """the same histories over real sockets: dealer and workers in turn, in every order"""
    reqs = requests(n, seed)
    num = itertools.count()
    todo = [[]]
    ctx = zmq.Context()
    while todo and not t.fails:
        pre = todo.pop()
        url = "inproc://c30-%d-%d" % (W, next(num))
        d = processing.DataDealer(url, 1, context=ctx)
        ws = [quiet(Worker, url + ":1", context=ctx) for _ in range(W)]
        pend, ans, sent, got, taken, widths = [0] * W, [0] * W, 0, [], [], []
        key = "real:%d:%d" % (W, n)
        while True:
            opts = (["s"] if sent < n else []) + ["w%d" % i for i in range(W) if pend[i]] + (["r"] if any(ans) else [])
            if not opts:
                break
            c = pre[len(taken)] if len(taken) < len(pre) else 0
            taken.append(c)
            widths.append(len(opts))
            op = opts[c]
            t.transitions += 1
            if op == "s":
                d.send_msg(reqs[sent][0], reqs[sent][1])
                sent += 1
                pol = zmq.Poller()
                for x, p in zip(ws, pend):
                    if not p:
                        pol.register(x.socket, zmq.POLLIN)
                # the model says: requests go round the workers
                i = (sent - 1) % W
                if not pend[i]:
                    ev = dict(pol.poll(5000))
                    if ws[i].socket not in ev:
                        t.fail(key + ":conformance", "real sockets give the requests to the workers in turn", schedule=taken)
                        break
                pend[i] += 1
            elif op == "r":
                if not d.socket.poll(5000):
                    t.fail(key + ":lost", "an answer that was sent arrives", schedule=taken)
                    break
                try:
                    g = d.recv_msg()
                except Exception as e:
                    g = e
                got.append(g)
                j = match(g, reqs, [x for x in range(n)])
                if j is None:
                    t.fail(key + ":answer", "every answer belongs to a request", got=repr(g), schedule=taken)
                    break
                ans[j % W] -= 1
            else:
                i = int(op[1:])
                if not ws[i].socket.poll(5000):
                    t.fail(key + ":request", "a request that was sent arrives", schedule=taken)
                    break
                ok, _ = t.attempt(key + ":process", ws[i].process)
                if not ok:
                    break
                pend[i] -= 1
                ans[i] += 1
        else:
            pass
        left = list(range(n))
        for g in got:
            j = match(g, reqs, left)
            if j is not None:
                left.remove(j)
        t.ok(not left, key + ":all", "every request is answered once", missing=left, schedule=taken)
        for x in [d] + ws:
            x.socket.close(0)
        t.state("real", W, n, tuple(taken))
        t.trace({"schedule": taken})
        for i in range(len(pre), len(taken)):
            for k in range(1, widths[i]):
                todo.append(taken[:i] + [k])
    ctx.term()


# -- packing -------------------------------------------------------------------------------------------------------
TYPES = ["?", "i1", "u1", "<i2", "<i4", "<u4", "<i8", "<u8", "<f2", "<f4", "<f8", "<c8", "<c16", ">c16"]
SHAPES = [(), (0,), (1,), (7,), (0, 3), (3, 0), (1, 1), (2, 5), (5, 2), (2, 3, 4), (1, 0, 2), (2, 1, 2, 3)]


def layouts(a):
    yield "c", a
    yield "f", np.asfortranarray(a) if a.ndim else a
    if a.ndim:
        yield "step", np.repeat(a, 2, axis=-1)[..., ::2]
        yield "back", a[..., ::-1]
        if a.ndim > 1:
            yield "t", a.T


def travel(t, key, x):
    ok, b = t.attempt(key, processing.pack_array, x)
    if not ok:
        return None
    t.ok(isinstance(b, bytes), key + ":bytes", "packed data is bytes")
    ok, y = t.attempt(key, processing.unpack_array, b)
    w = World([])
    c = Context(w)
    p, q = c.socket(zmq.PUSH), c.socket(zmq.PULL)
    q.bind("x")
    p.connect("x")
    ok2, _ = t.attempt(key + ":send", processing.send_array, p, x)
    ok3, z = t.attempt(key + ":recv", processing.recv_array, q) if ok2 else (False, None)
    return (y, z) if ok and ok3 else None


def do_pack(t, part, seed):
    r = np.random.RandomState(seed)
    for i, (ty, sh) in enumerate(itertools.product(TYPES, SHAPES)):
        if i % 4 != part:
            continue
        dt = np.dtype(ty)
        a = r.randint(0, 100, sh)
        a = np.asarray(a % 2 if ty == "?" else a).astype(dt)
        if dt.kind == "c":
            a = np.asarray(a * (1 - 2j) / 3).astype(dt)
        if dt.kind == "f":
            a = np.asarray(a / 3).astype(dt)
            if a.size > 3:
                a.flat[0], a.flat[1], a.flat[2] = np.inf, np.nan, -0.0
        for name, x in layouts(a):
            key = "pack:%s:%s:%s" % (ty, sh, name)
            keep = x.copy()
            res = travel(t, key, x)
            if res is not None:
                for y in res:
                    t.ok(isinstance(y, np.ndarray) and y.dtype == dt and y.shape == x.shape and y.tobytes() == np.ascontiguousarray(keep).tobytes(), key,
                         "arrays arrive with their type, shape and every bit", got=y, expected=keep)
            t.trace({"key": key})
            t.state(key)
    if part:
        return
    leaves = [0, -1, 2**40, 1.5, float("inf"), 1 + 2j, "", "text \u00e4", b"", b"\x00\xff", None, True, False, np.float32(.1), np.float64(.1), np.complex64(.1 + 2j), np.int16(-3), np.bool_(True),
              np.arange(3), np.ones((2, 2), np.complex64)]
    for d, x in enumerate(leaves):
        for how, box in (("leaf", lambda v: v), ("list", lambda v: [v, [v]]), ("dict", lambda v: {"k": v, "m": {"k": [v]}}), ("empty", lambda v: [[], {}, v])):
            key = "pack:value:%d:%s" % (d, how)
            v = box(x)
            res = travel(t, key, v)
            if res is not None:
                for y in res:
                    t.ok(alike(y, v), key, "values and containers arrive unchanged", got=repr(y), expected=repr(v))
            t.trace({"key": key})
            t.state(key)
    for cls, kw in ((signals.SignalQAMGrayCoded, {}), (signals.SignalPSKGrayCoded, {})):
        s = cls(8, 30, nmodes=2, seed=[seed])
        res = travel(t, "pack:signal:" + cls.__name__, s)
        if res is not None:
            for y in res:
                t.ok(np.array_equal(y, np.asarray(s)), "pack:signal:" + cls.__name__, "the samples of a signal arrive")
        t.trace()


def alike(y, v):
    if isinstance(v, list):
        return isinstance(y, list) and len(y) == len(v) and all(alike(a, b) for a, b in zip(y, v))
    if isinstance(v, dict):
        return isinstance(y, dict) and set(y) == set(v) and all(alike(y[k], v[k]) for k in v)
    if isinstance(v, np.ndarray):
        return isinstance(y, np.ndarray) and y.dtype == v.dtype and np.array_equal(y, v)
    return (type(y) is type(v) or type(v) is np.float64 and type(y) is float) and y == v


def do_flags(t, seed):
    """flags and options reach the socket, ports are kept"""
    for fl in (0, zmq.NOBLOCK, zmq.SNDMORE, zmq.NOBLOCK | zmq.SNDMORE):
        w = World([])
        c = Context(w)
        d = processing.DataDealer("tcp://a", 5, context=c)
        wk = quiet(Worker, "tcp://a:5", context=c)
        t.call(d.send_msg, b"double", {"id": 1, "a": 2}, flags=fl)
        t.ok(d.socket.calls[-1][1] == fl, "flags:dealer:send:%d" % fl, "flags of the dealer", got=d.socket.calls[-1])
        h, m = t.call(wk.recv_msg, flags=fl)
        t.ok(wk.socket.calls[-1][1] == fl and h == b"double" and m == {"id": 1, "a": 2}, "flags:worker:recv:%d" % fl, "flags of the worker, header and message", got=(h, m))
        t.call(wk.send_msg, [3], flags=fl)
        t.ok(wk.socket.calls[-1][1] == fl, "flags:worker:send:%d" % fl, "flags of the worker", got=wk.socket.calls[-1])
        g = t.call(d.recv_msg, flags=fl)
        t.ok(d.socket.calls[-1][1] == fl and g == [3], "flags:dealer:recv:%d" % fl, "flags of the dealer", got=g)
        if fl & zmq.NOBLOCK:
            for o in (d, wk):
                try:
                    o.recv_msg(flags=fl)
                except zmq.Again:
                    pass
                else:
                    t.fail("flags:again", "nothing to receive is reported")
        src, sink = c.socket(zmq.PUSH), processing.ResultSink("tcp://a", 6, context=c)
        src.bind("tcp://a:7")
        pp = Pusher("tcp://a:6", "tcp://a:7", context=c)
        for k in range(2):
            src.send_multipart([b"double", processing.pack_array({"id": 1, "a": 2})])
        h, m = t.call(pp.recv_msg, flags=fl)
        t.ok(pp.receive_socket.calls[-1][1] == fl and h == b"double" and m == {"id": 1, "a": 2}, "flags:pusher:recv:%d" % fl, "flags of the receiving socket, header and message", got=(h, m))
        t.call(pp.send_msg, [3], flags=fl)
        t.ok(pp.send_socket.calls[-1][1] == fl and sink.socket.recv_multipart() == [b"OK", processing.pack_array([3])], "flags:pusher:send:%d" % fl, "flags of the sending socket")
        t.call(pp.process, flags=fl)
        t.ok(pp.receive_socket.calls[-1][1] == fl and processing.unpack_array(sink.socket.recv_multipart()[1]) == {"id": 1, "v": 4}, "flags:pusher:process:%d" % fl, "flags of the receiving socket")
        p, q = c.socket(zmq.PUSH), c.socket(zmq.PULL)
        q.bind("y")
        p.connect("y")
        for copy, track in itertools.product((True, False), (True, False)):
            t.call(processing.send_array, p, np.arange(3), fl, copy, track)
            sent = p.calls[-1]
            if fl & zmq.SNDMORE:
                p.send(b"")
            t.call(processing.recv_array, q, fl, copy, track)
            q.rest = []
            t.ok(sent[1:] == (fl, copy, track) == q.calls[-1][1:], "flags:array:%d:%s:%s" % (fl, copy, track), "options of send_array and recv_array", got=(sent, q.calls[-1]))
        t.trace()
    for port in (None, 5001, 80):
        w = World([])
        c = Context(w)
        for cls in (processing.DataDealer, processing.ResultSink):
            o = cls("tcp://h%s" % cls.__name__, port, context=c)
            t.ok(o.socket.url == "tcp://h%s:%d" % (cls.__name__, o.port) and (port is None or o.port == port), "ports:%s:%s" % (cls.__name__, port), "the port that is bound is known", got=(o.socket.url, o.port))
            t.ok(o.socket.kind == (zmq.DEALER if cls is processing.DataDealer else zmq.PULL), "kind:" + cls.__name__, "kind of socket")
        if port is None:
            d = processing.DataDealer("tcp://z", context=c)
            t.ok(5000 <= d.port <= 5100, "ports:range", "random ports of a dealer lie in their range", got=d.port)
        t.trace()


def do_recovery(t, seed):
    """the phase search a worker performs is the one of the library"""
    for M, m, N, angles, dt in itertools.product((4, 16, 64), (1, 2), (0, 3, 10), (4, 32), (np.complex128, np.complex64)):
        s = signals.SignalQAMGrayCoded(M, 60, nmodes=m, seed=[seed, M], dtype=dt)
        E = (np.asarray(s) * np.exp(.1j)).astype(dt)
        w = World([])
        c = Context(w)
        d = processing.DataDealer("tcp://a", 5, context=c)
        wk = quiet(processing.PhRecWorker, "tcp://a:5", context=c)
        alph = np.asarray(s.coded_symbols)
        key = "recovery:%d:%d:%d:%d:%s" % (M, m, N, angles, np.dtype(dt))
        for sig in (E, E[0]):
            t.call(d.send_msg, b"do_phase_rec", {"id": "job", "data": sig, "Mtestangles": angles, "symbols": alph, "N": N})
            ok, _ = t.attempt(key, wk.process)
            ok, g = t.attempt(key, d.recv_msg)
            if ok:
                r = bps(sig, angles, alph, N)
                t.ok(set(g) == {"id", "Eout", "ph"} and g["id"] == "job" and g["Eout"].dtype == np.asarray(r[0]).dtype and close(g["Eout"], r[0], 1e-6) and close(g["ph"], r[1], 1e-6), key,
                     "the worker returns what the phase search returns", got=g)
            t.trace({"key": key})
            t.state(key)
