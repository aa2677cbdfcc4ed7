import importlib
import json
import os
import sys
import time


def main(argv):
    from mc import boot
    replay = None
    if argv and argv[0] == "--replay":
        replay = json.load(open(argv[1]))
        pid, tier = replay["property"], replay["tier"]
    else:
        pid = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit("tier is quick or thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    boot.boot()
    try:
        return decide(pid, tier, seed, start, replay)
    finally:
        boot.cleanup()


def decide(pid, tier, seed, start, replay):
    from mc import core, deep, modes
    modname = "mc.checks." + pid.lower()
    mod = importlib.import_module(modname)
    shards = [replay["shard"]] if replay and replay.get("shard") is not None else deep.shards(pid, tier, seed) + modes.shards(pid, tier, seed) + list(mod.shards(tier, seed))
    workers = min(8, os.cpu_count() or 1, max(1, len(shards)))
    limit = getattr(mod, "SHARD_SECONDS", 500 if tier == "quick" else 6 * 3600)
    deadline = 620 if tier == "quick" else 12 * 3600
    trackers, extra = core.explore(modname, shards, workers, limit, deadline)
    m = core.merge(trackers)
    fails = list(m.fails.values()) + extra
    known = {f["key"]: f for f in core.load_known()["findings"] if f["property"] == pid}
    hit = {f["key"] for f in fails if f["key"] in known}
    new = [f for f in fails if f["key"] not in known]
    for k in sorted(known):
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
        elif not replay:
            print("note: the known finding %s did not show up in this run" % k)
    if not m.traces and not fails:
        print("the check explored nothing")
        return 2
    rc = 0
    rdir = os.path.join(core.VERIF, "evidence", "replays")
    for i, f in enumerate(new[:10]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (pid, i))
        if not replay:
            json.dump(dict(f, property=pid, tier=tier, seed=seed), open(p, "w"), indent=1, default=repr)
        print("  %s: %s" % (f["key"][:200], f["what"][:300]))
        for k, v in f["details"].items() if i < 2 or replay else ():
            print("     %s = %s" % (k, (v if isinstance(v, str) else json.dumps(v, default=repr))[-500:]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    coverage = {
        "states": len(m.states), "transitions": m.transitions, "traces_validated_against_impl": m.traces,
        "samples": m.samples, "exhaustive": not extra and not new, "shards": len(shards),
        "rule": mod.RULE, "bounds": (mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS) + (deep.TEXT if pid in deep.KEYS else "") + (modes.TEXT if pid in modes.KEYS else ""),
        "counters": m.notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": coverage, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - start, 2), "violations": len(new)}
    if not replay:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w"), indent=1, default=repr)
    print("%s %s: states=%d transitions=%d traces=%d shards=%d violations=%d known=%d  %.1f s" % (
        pid, tier, len(m.states), m.transitions, m.traces, len(shards), len(new), len(hit), time.time() - start))
    return rc


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
