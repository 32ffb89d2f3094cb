"""C02: PD-based explanations equal their definitions whatever the calculator's history."""
from .. import harness as H, pdlib as P, world as W

KINDS = ("raise", "nan", "interrupt", "slow", "clockjump", "stderr")


def gen(rng, tier, kinds=KINDS, pfault=0.45):
    worlds, models = P.gen_base(rng, tier, min_distinct=True, kinds=P.more_kinds(rng), distinct_rows=rng.random() < 0.7, shapes=True)
    kinds = H.swarm(rng, kinds)
    ops = []
    slotw = []
    calcs = []                      # (id, world)
    mids = []                       # (mid, world)
    nid = slots = 0
    nops = rng.choice([2, 4, 6, 9]) if tier == "quick" else rng.choice([3, 6, 10, 16])

    def fit_op(calc, w, m):
        n = W.rows_of(worlds[w])
        b = H.batchsizes(rng, n)
        op = {"op": "fit", "method": rng.choice(["friedman", "friedman", "greenwell", "greenwell", "pdimp", "additivity"]), "calc": calc,
              "world": w, "model": m, "n": rng.choice([None, None, 1, 2, max(2, n // 2), n - 1, n]), "batchsize": b,
              "features": P.gen_features(rng, W.names_of(worlds[w]), minimum=2), "normalized": rng.random() < 0.6, "ova": rng.random() < 0.7,
              "show_progress": rng.random() < 0.15, "random_state": rng.choice([None, 0, 7, 12345]), "mid": None,
              "oid": rng.randrange(2) if rng.random() < 0.4 else None}
        if op["method"] == "pdimp" and rng.random() < 0.3:
            op["features"] = P.gen_features(rng, W.names_of(worlds[w]))
        if op["oid"] is not None:
            op["random_state"], op["normalized"] = None, True
        op["faults"] = H.gen_faults(rng, kinds, pfault, max_call=P.est_calls(worlds, w, b) + 4)
        return op

    for _ in range(nops):
        r = rng.random()
        m = rng.randrange(len(models))
        w = models[m]["world"]
        n = W.rows_of(worlds[w])
        if r < 0.15 or not calcs:
            ops.append({"op": "new", "id": nid, "world": w, "model": m, "batchsize": H.batchsizes(rng, n)})
            calcs.append((nid, w))
            nid += 1
            c, w = calcs[-1]
            ops.append(fit_op(c, w, m))
        elif r < 0.3:
            c, w = rng.choice(calcs)
            names = W.names_of(worlds[w])
            kind = rng.choice(["single", "pairs", "minus"])
            op = {"op": kind, "calc": c, "show_progress": False, "faults": H.gen_faults(rng, kinds, 0.6, max_call=6)}
            if kind == "pairs":
                op["pairs"], op["all"] = P.gen_pairs(rng, names), rng.random() < 0.5
            else:
                op["features"] = P.gen_features(rng, names)
            ops.append(op)
        elif r < 0.36:
            c, w = rng.choice(calcs)
            ops.append({"op": "save", "calc": c, "slot": slots})
            slotw.append(w)
            slots += 1
        elif r < 0.44 and slots:
            s = rng.randrange(slots)
            w = slotw[s]
            ops.append({"op": "restore", "slot": s, "id": nid})
            calcs.append((nid, w))
            nid += 1
            ops.append(fit_op(nid - 1, w, m))
        elif r < 0.5 and mids:
            mid, w = rng.choice(mids)
            ops.append({"op": "share", "mid": mid, "id": nid, "world": w})
            calcs.append((nid, w))
            nid += 1
            ops.append(fit_op(nid - 1, w, m))
        elif r < 0.75:
            c, w = rng.choice(calcs)
            op = fit_op(c, w, m)
            ops.append(op)
            if op["faults"] and rng.random() < 0.7:          # healthy retry right after the fault
                ops.append(dict(op, faults=[]))
        else:
            op = fit_op(None, w, m)
            op["mid"] = len(mids)
            mids.append((op["mid"], w))
            ops.append(op)
    # finally: healthy fits on everything that is left
    for c, w in calcs[-2:]:
        ops.append(dict(fit_op(c, w, 0), faults=[]))
    return {"worlds": worlds, "models": models, "ops": ops}


def step(pd, run, op):
    """Executes one op; returns the fit record if it was a fit."""
    k = op["op"]
    if k == "new":
        pd.new_calc(op)
    elif k == "save":
        if op["calc"] in pd.calcs:
            pd._save(pd.calcs[op["calc"]], op["slot"])
    elif k == "restore":
        pd.restore(op)
    elif k == "deepcopy":
        pd.deepcopy(op)
    elif k == "share":
        pd.share(op)
    elif k == "fit":
        return pd.fit(op)
    else:
        pd.compute(op)
    return None


def execute(plan, run):
    pd = P.PDRun(run)
    checked = after = shared = 0
    faulted = False
    for op in plan["ops"]:
        f = step(pd, run, op)
        if f is None:
            continue
        if f["out"].returned and not any(x == "nan" for x in f["out"].ctx.fired):
            P.check_fit(f, run)
            checked += 1
            run.probe("fit_checked:" + f["kind"])
            if f["calc"] is not None:
                shared += 1
                if faulted:
                    after += 1
                    run.probe("fit_checked_on_used_calculator_after_fault")
        if f["out"].ctx.fired:
            faulted = True
    return {"nontrivial": checked > 0 and (shared > 0 or faulted)}
