"""run_driver.py ID TIER SEED SHARD NSHARDS OUT [REPLAY]: write the traces of one shard as ndjson."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/drivers")
import common  # noqa: E402

common.setup()


def main():
    pid, tier, seed, shard, nshards, out = sys.argv[1:7]
    shard, nshards = int(shard), int(nshards)
    mod = importlib.import_module(pid.lower())
    mod_plan = mod.plan(tier)
    prob = getattr(mod, "CANARIES", 24) / max(1, len(mod_plan) * getattr(mod, "PER", 1))
    limit = getattr(mod, "LIMIT", 60)
    devnull = open(os.devnull, "w")
    stdout = sys.stdout
    timeouts = 0
    with open(out, "w") as f:
        only = os.environ.get("VERIF_ONLY")
        for n, job in enumerate(mod_plan):
            if n % nshards != shard or timeouts > 2:
                continue
            key = "-".join(map(str, job)) if isinstance(job, tuple) else str(job)
            if only and key != only:
                continue
            rng = common.rng_for(seed, pid, key)
            sys.stdout = devnull
            try:
                res = common.limited(lambda: mod.run(job, rng, tier), limit)
            finally:
                sys.stdout = stdout
            if res[0] == "ok":
                cases = res[1] if isinstance(res[1], list) else [res[1]]
                cases = [c for c in cases if c is not None]
            else:
                timeouts += res[0] == "timeout"
                cases = [{"error": res[0] + ": " + res[1] + ": " + res[2] if len(res) > 2 else res[0]}]
            for k, c in enumerate(cases):
                c["id"] = key if len(cases) == 1 else "%s.%d" % (key, k)
                c["canary"] = False
                c.setdefault("error", "")
                line = json.dumps(c)
                f.write(line + "\n")
                if hasattr(mod, "corrupt") and not c["error"] and \
                        common.rng_for(seed, pid, key, k).random() < prob:
                    d = mod.corrupt(json.loads(line), common.rng_for(seed, pid, key, "canary"))
                    if d is not None:
                        d["id"] += "#canary"
                        d["canary"] = True
                        f.write(json.dumps(d) + "\n")


if os.environ.get("VERIF_PROFILE"):
    import cProfile
    import pstats
    pr = cProfile.Profile()
    pr.runcall(main)
    pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
else:
    main()
