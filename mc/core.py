"""The explorer all checks share.

A check enumerates a bounded space completely.  The space is split into shards (small JSON-able descriptions);
each shard is explored by one worker process, which drives the real code from /repo and compares every step
with a reference model.  A Tracker counts what was really covered.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAIL = 25


class Violation(Exception):
    """raised by a shard to give up after a failure that makes going on pointless"""


class ShardTimeout(BaseException):
    pass


def canon(x):
    """a hashable canonical form of an observed value (exact: no rounding)"""
    if isinstance(x, np.ndarray):
        a = np.ascontiguousarray(x)
        return (a.dtype.str, a.shape, a.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return tuple((k, canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, np.generic):
        return (x.dtype.str, x.tobytes())
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None))):
        return x
    return repr(x)


class Tracker:
    def __init__(self, shard=None):
        self.shard = shard
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = {}
        self.notes = {}
        self.outcomes = {}

    # -- counting -------------------------------------------------------------------------------------
    def call(self, fn, /, *args, **kwargs):
        """one transition of the real code"""
        self.transitions += 1
        return fn(*args, **kwargs)

    def state(self, *parts):
        """one observed state (input plus result); equal states are counted once"""
        self.states.add(hash(canon(parts)))

    def trace(self, sample=None):
        """one complete history that was run on the real code and compared with the reference model"""
        self.traces += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- verdicts -------------------------------------------------------------------------------------
    def fail(self, key, what, **details):
        if key not in self.fails and len(self.fails) < MAX_FAIL:
            self.fails[key] = {"key": key, "what": what, "shard": self.shard,
                               "details": {k: short(v) for k, v in details.items()}}

    def ok(self, cond, key, what, **details):
        if not cond:
            self.fail(key, what, **details)
        return bool(cond)

    def attempt(self, key, fn, /, *args, **kwargs):
        """a call that has to succeed; returns (True, result) or records the failure and gives (False, None)"""
        try:
            return True, self.call(fn, *args, **kwargs)
        except Exception as e:
            self.fail(key, "raised %s: %s" % (type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
            return False, None


def short(v, limit=1200):
    if isinstance(v, np.ndarray):
        v = {"dtype": str(v.dtype), "shape": list(v.shape), "values": np.array2string(np.asarray(v), threshold=40)}
    try:
        s = json.dumps(v, default=repr)
        return v if len(s) <= limit and json.loads(s) is not None else s[:limit]
    except Exception:
        return repr(v)[:limit]


def close(a, b, tol):
    """same shape, and equal up to tol relative to the size of b (NaN never equals anything)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= tol * scale))


def tol_of(dtype):
    return 1e-9 if np.dtype(dtype) in (np.dtype("c16"), np.dtype("f8")) else 2e-4


# ---------------------------------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise ShardTimeout()


def run_shard(modname, shard, seconds):
    from mc import deep, modes
    t = Tracker(shard)
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(seconds))
    try:
        np.random.seed(12345)
        {"deep": deep, "modewise": modes}.get(shard[0], mod).run(shard, t)
    except Violation:
        pass
    except ShardTimeout:
        t.fail("timeout:%s" % json.dumps(shard), "the exploration of this shard did not end within %d s" % seconds)
    except Exception as e:
        t.fail("exception:%s:%s" % (json.dumps(shard), type(e).__name__),
               "raised %s: %s" % (type(e).__name__, e), traceback=traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
    return t


def _worker(conn, modname, shards, seconds):
    while True:
        i = conn.recv()
        if i is None:
            break
        conn.send((i, run_shard(modname, shards[i], seconds)))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def explore(modname, shards, workers, seconds, deadline):
    """explores every shard; returns the list of trackers and the failures that no shard could report.
    Each worker is forked from the single-threaded parent, and asks for the next shard over its own pipe."""
    importlib.import_module(modname)
    ctx = mp.get_context("fork")
    done, extra, running, procs = [], [], {}, []
    todo = list(range(len(shards)))[::-1]
    end = time.time() + deadline

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(there, modname, shards, seconds), daemon=True)
        p.start()
        there.close()
        procs.append(p)
        give(here)

    def give(conn):
        i = todo.pop() if todo else None
        conn.send(i)
        if i is not None:
            running[conn] = i

    try:
        for _ in range(min(workers, len(shards))):
            start()
        while running:
            ready = mp.connection.wait(list(running), timeout=max(0.1, end - time.time()))
            for conn in ready:
                i = running.pop(conn)
                try:
                    done.append(conn.recv()[1])
                    give(conn)
                except (EOFError, OSError):
                    extra.append({"key": "process-died:%s" % json.dumps(shards[i]), "shard": shards[i], "details": {},
                                  "what": "the process exploring this shard ended abnormally (crash in compiled code?)"})
                    if len(extra) < 4 and todo:
                        start()
            if running and time.time() >= end:
                extra.append({"key": "no-progress", "what": "exploration not finished after %d s" % deadline,
                              "shard": shards[min(running.values())], "details": {"left": len(todo) + len(running)}})
                break
    finally:
        for p in procs:
            p.join(0.2 if not running else 0)
            if p.is_alive():
                p.kill()
    return done, extra


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def merge(trackers):
    m = Tracker()
    for t in trackers:
        m.states |= t.states
        m.transitions += t.transitions
        m.traces += t.traces
        for k, v in t.notes.items():
            m.notes[k] = m.notes.get(k, 0) + v
        m.fails.update({k: v for k, v in t.fails.items() if k not in m.fails})
    for t in trackers:          # a few samples, from different shards
        if t.samples and len(m.samples) < 6:
            m.samples.append({"shard": t.shard, "case": short(t.samples[0], 600)})
    return m
