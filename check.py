#!/opt/venv/bin/python
"""Entry point.  check.py <ID> | --worker ... | --replay FILE | --selftest ID [N] | --run ID INDEX"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)


def main(a):
    from artsim import boot
    boot.prepare_env()
    from artsim import engine
    import artsim.specs        # noqa: F401
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a[0] == "--worker":
        boot.boot()
        engine.worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
        return 0
    if a[0] == "--setup":
        boot.boot()
        print("artemis imports from /repo, %d checks registered" % len(engine.SPECS))
        return 0
    if a[0] == "--replay":
        rc, text = engine.replay_subprocess(os.path.abspath(a[1]))
        print(text, end="")
        return rc
    if a[0] == "--replay-inner":
        boot.boot()
        return engine.replay_inner(a[1])
    if a[0] == "--digest":
        import json
        boot.boot()
        with open(a[1]) as f:
            plan = json.load(f)
        mod = engine.prop_module(plan["prop"])
        if hasattr(mod, "prepare"):
            mod.prepare()
        r = engine.execute(plan)
        print("DIGEST %s" % r.get("digest"))
        return 0
    if a[0] == "--run":
        import json
        boot.boot()
        mod = engine.prop_module(a[1])
        if hasattr(mod, "prepare"):
            mod.prepare()
        plan = engine.plan_for(a[1], seed, int(a[2]), tier)
        if len(a) > 3:
            print(json.dumps(plan, indent=1))
        r = engine._execute(plan) if len(a) > 4 else engine.execute(plan)
        print(json.dumps({k: v for k, v in r.items() if k != "tail"}, indent=1))
        return 0
    if a[0] == "--hashes":
        boot.boot()
        mod = engine.prop_module(a[1])
        if hasattr(mod, "prepare"):
            mod.prepare()
        for i in range(int(a[2]), int(a[3])):
            r = engine.execute(engine.plan_for(a[1], seed, i, tier))
            print(i, r.get("hash"), r.get("sig"), r.get("digest"), (r.get("violation") or {}).get("rule"), r.get("harness_error", ""))
        return 0
    runs = None
    if len(a) > 1:
        runs = int(a[1])
    return engine.check(a[0], tier, seed, runs=runs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
