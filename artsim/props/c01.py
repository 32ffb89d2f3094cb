"""C01: a calculator never serves a wrong value."""
import random

from .. import harness as H, pdlib as P, world as W

KINDS = ("raise", "nan", "interrupt", "slow", "clockjump", "stderr")


def gen(rng, tier):
    worlds, models = P.gen_base(rng, tier, kinds=P.more_kinds(rng), distinct_rows=rng.random() < 0.7, shapes=True)
    kinds = H.swarm(rng, KINDS)
    ops = []
    slotw = []
    ids = []
    nid = 0
    slots = 0
    nops = rng.choice([3, 5, 8, 12]) if tier == "quick" else rng.choice([3, 6, 10, 16, 24])
    batch = {}
    for _ in range(nops):
        r = rng.random()
        if not ids or r < 0.12:
            m = rng.randrange(len(models))
            w = models[m]["world"]
            b = H.batchsizes(rng, W.rows_of(worlds[w]))
            ops.append({"op": "new", "id": nid, "world": w, "model": m, "batchsize": b})
            ids.append((nid, w))
            batch[nid] = b
            nid += 1
            continue
        c, w = rng.choice(ids[-2:] if rng.random() < 0.7 else ids)
        names = W.names_of(worlds[w])
        mc = P.est_calls(worlds, w, batch[c])
        if r < 0.20 and slots:
            s = rng.randrange(slots)
            w = slotw[s]
            ops.append({"op": "restore", "slot": s, "id": nid, "from": c})
            ids.append((nid, w))
            batch[nid] = batch[c]
            nid += 1
        elif r < 0.26:
            ops.append({"op": "save", "calc": c, "slot": slots})
            slotw.append(w)
            slots += 1
        elif r < 0.29:
            ops.append({"op": "deepcopy", "calc": c, "id": nid})
            ids.append((nid, w))
            batch[nid] = batch[c]
            nid += 1
        elif r < 0.39:
            k = rng.choice(P.METHODS)
            ops.append({"op": "fit", "method": k, "calc": c, "features": P.gen_features(rng, names, minimum=2), "ova": rng.random() < 0.7,
                        "faults": H.gen_faults(rng, kinds, 0.5, max_call=mc + 4)})
        else:
            kind = rng.choice(["single", "pairs", "pairs", "minus"])
            op = {"op": kind, "calc": c, "show_progress": rng.random() < 0.15, "faults": H.gen_faults(rng, kinds, 0.5, max_call=mc)}
            if rng.random() < 0.12:
                op["faults"].append({"kind": "checkpoint", "call": H.low(rng, mc), "slot": slots})
                slotw.append(w)
                slots += 1
            if kind == "pairs":
                op["pairs"] = P.gen_pairs(rng, names)
                op["all"] = rng.random() < 0.5
            else:
                op["features"] = P.gen_features(rng, names)
            ops.append(op)
            if op["faults"] and rng.random() < 0.4:            # asked again once the model is healthy
                ops.append(dict(op, faults=[]))
    if rng.random() < 0.2:                                     # the caller edits the data it built calculators on
        for _ in range(rng.choice([1, 2])):
            ops.insert(rng.randrange(1, len(ops) + 1), {"op": "edit", "world": rng.randrange(len(worlds)), "col": rng.randrange(5), "by": rng.choice([1, 1, 2]), "cells": rng.random() < 0.7})
    return {"worlds": worlds, "models": models, "ops": ops}


def execute(plan, run):
    pd = P.PDRun(run)
    rng = random.Random("c01-%s" % plan["env"])
    healthy = after = False
    for op in plan["ops"]:
        k = op["op"]
        touched = None
        if k == "new":
            touched = pd.new_calc(op)
        elif k == "edit":
            pd.edit(op)
        elif k == "save":
            if op["calc"] in pd.calcs:
                pd._save(pd.calcs[op["calc"]], op["slot"])
        elif k == "restore":
            touched = pd.restore(op)
        elif k == "deepcopy":
            touched = pd.deepcopy(op)
        elif k == "fit":
            c = pd.calcs.get(op["calc"])
            if c is None:
                continue
            if op["method"] == "greenwell" and not P.well_spread(c.I):
                continue
            f = pd.fit(op)
            if f["out"].kind != "ok":
                after = True
            touched = c
        else:
            r = pd.compute(op)
            if r is None:
                continue
            c, out = r
            filled = P.check_tables(c, rng)
            if out.kind == "swallowed":
                run.probe("swallowed")
            if out.returned and not any(x == "nan" for x in out.ctx.fired):
                P.check_complete(c, op, filled)
                healthy = True
                if after:
                    run.probe("healthy_computation_after_fault")
            if out.ctx.fired:
                after = True
                if any(any(v) for v in filled["single"].values()) and out.kind == "fault":
                    run.probe("fault_with_partly_filled_tables")
        if touched is not None:
            P.check_tables(touched, rng)
    for c in pd.calcs.values():
        P.check_tables(c, rng)
    return {"nontrivial": healthy and (after or len(pd.calcs) > 1 or len(plan["ops"]) > 3)}
