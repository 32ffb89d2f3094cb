"""C10: tree-based explanations depend only on the fitted trees."""
import sys

from .. import core, harness as H, treelib as T

KINDS = ("interrupt", "interrupt", "raise", "stderr")
prepare = T.prepare


def gen(rng, tier):
    r = rng.random()
    kinds = T.GB if r < 0.45 else T.FOREST if r < 0.75 else T.GB + T.FOREST
    nm = rng.choice([1, 2])
    tmodels = [T.gen_tree_model(rng, kinds, wide=True)]
    for _ in range(nm - 1):
        tmodels.append(T.gen_tree_model(rng, kinds, tmodels[0]["names"] if rng.random() < 0.6 else None, wide=True))
    threaded = rng.random() < 0.35
    # a write error inside tqdm leaves tqdm's own lock held (third-party), so it is not combined with other threads
    fk = [k for k in H.swarm(rng, KINDS) if not (threaded and k == "stderr")]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4]) if tier == "quick" else rng.choice([2, 4, 7])):
        if rng.random() < 0.12:
            ops.append({"op": "retrain", "model": rng.randrange(nm), "faults": []})
            continue
        op = T.gen_tree_op(rng, tmodels)
        op["faults"] = gen_faults(rng, fk)
        ops.append(op)
        if rng.random() < 0.3 or op["faults"]:
            ops.append(dict(op, faults=[]))
    plan = {"tmodels": tmodels, "ops": ops}
    if threaded:
        threads = []
        for _ in range(rng.choice([2, 2, 3])):
            threads.append([T.gen_tree_op(rng, tmodels, mids=0) for _ in range(rng.choice([1, 1, 2]))])
        plan["threads"] = threads
        plan["sched"] = {"mode": "random", "seed": rng.getrandbits(32), "rate": rng.choice([0.02, 0.1, 0.3])}
        if rng.random() < 0.3:
            plan["sched"].update(hot=rng.choice([6, 15, 40]), rate=0.002)
    return plan


def gen_faults(rng, kinds):
    fs = []
    for f in H.gen_faults(rng, kinds, 0.4, max_call=1):
        if f["kind"] == "interrupt" and f["call"] is not None:
            f = {"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 11)), "exc": f["exc"]}
        fs.append(f)
    return fs


def execute(plan, run):
    tr = T.TreeRun(run)
    done = after = fired = 0
    for op in plan["ops"]:
        rec = tr.perform(op)
        if rec is None:
            continue
        if rec["out"].returned:
            done += 1
            after += fired > 0
            run.probe("checked_" + op["op"])
        fired += len(rec["out"].ctx.fired)
    if plan.get("threads"):
        for th in plan["threads"]:                  # shared handlers are built before the threads start
            for op in th:
                if op["op"] in ("ss", "ssimp") and tr.specs[op["model"]]["kind"] in T.GB:
                    key = op.get("handler") if op.get("handler") is not None else ("own", op["model"], tr.version[op["model"]]) if op["op"] == "ssimp" else None
                    if key is not None:
                        tr.handler(op["model"], key)

        def body(ops, task):
            for op in ops:
                rec = tr.perform(dict(op, mid=None), task=task)
                if rec is not None and rec["out"].returned:
                    run.probe("checked_in_thread")
        H.run_threads(run, plan, body)
        tr.check_untouched()
        done += 1
    return {"nontrivial": done > 1 or after > 0}
