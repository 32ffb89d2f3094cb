"""C08: permutation-based scores come only from validly permuted data."""
from .. import harness as H, perflib as L, world as W

KINDS = ("raise", "interrupt", "slow", "clockjump", "stderr")


def gen(rng, tier):
    worlds, models = L.gen_perf_base(rng, tier)
    kinds = H.swarm(rng, KINDS)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5]) if tier == "quick" else rng.choice([2, 4, 8])):
        op = L.gen_perf_op(rng, worlds, models)
        op["mid"] = rng.choice([None, 0, 0, 1])
        op["faults"] = H.gen_faults(rng, kinds, 0.35, max_call=L.est_calls(op, len(worlds[op["world"]]["cols"])), max_line=40)
        ops.append(op)
        if op["faults"]:
            ops.append(dict(op, faults=[]))
    return {"worlds": worlds, "models": models, "ops": ops}


def execute(plan, run):
    pr = L.PerfRun(run)
    fired = checked = 0
    for op in plan["ops"]:
        f = pr.perform(op)
        if f["metric"] == "Accuracy" and not f["model"].spec.get("labels"):
            continue
        if f["out"].returned:
            how = L.check_perf(f, run)
            run.probe("scores_reconstructed_" + how)
            checked += 1
            if fired:
                run.probe("checked_after_fault")
        fired += len(f["out"].ctx.fired)
    return {"nontrivial": checked > 0}
