"""C09: sampling keeps whole, distinct rows paired with their own targets."""
from collections import Counter

import numpy as np

from .. import harness as H, pdlib as P, perflib as L, world as W
from ..core import Violation


def gen(rng, tier):
    worlds, models = [], []
    for w in range(rng.choice([1, 1, 2])):
        n = rng.choice([3, 5, 6, 8, 10]) if rng.random() < 0.98 else rng.choice([40, 120])
        if rng.random() < 0.5:
            spec = W.gen_world(rng, n, rng.choice([2, 3, 3]), None, ("int", "float", "str"), distinct=n, distinct_rows=True)
            spec["alldistinct"] = True
        else:
            spec = W.gen_world(rng, n, rng.choice([2, 3, 3]), None, ("int", "float", "str", "bool"), distinct_rows=rng.random() < 0.6)
        P.ensure_two(rng, spec)
        spec["y"] = [3 * i + 1 for i in range(n)]
        rng.shuffle(spec["y"])
        spec["labels"] = False
        worlds.append(spec)
        ms = W.gen_model(rng, spec, api=rng.choice(["predict", "proba"]), ret=rng.choice(["array", "array", "series"]))
        ms.update(world=w, keep=True)
        models.append(ms)
    ops = []
    kinds = H.swarm(rng, ("raise", "interrupt"))
    for _ in range(rng.choice([1, 2, 4, 6])):
        m = rng.randrange(len(models))
        w = models[m]["world"]
        n = W.rows_of(worlds[w])
        if rng.random() < 0.55:
            op = L.gen_perf_op(rng, worlds, models, m)
            op["op"] = "sejong"
            op["n_repeat"] = rng.choice([1, 2])
            op["metric"] = "MSE"
        else:
            op = {"op": "fit", "method": rng.choice(P.METHODS), "calc": None, "world": w, "model": m, "batchsize": H.batchsizes(rng, n),
                  "features": P.gen_features(rng, W.names_of(worlds[w]), minimum=2), "ova": rng.random() < 0.7, "show_progress": False,
                  "random_state": rng.choice([None, 0, 11])}
        op["n"] = rng.choice([None, 1, 2, 2, n // 2, n - 1, n])
        if op["n"] is not None:
            op["n"] = max(1, op["n"])
        if n > 40 and op["op"] == "fit":           # partial dependence over hundreds of values takes millions of predictions
            op["n"] = rng.choice([1, 2, 5, 12])
        op["mid"] = rng.choice([None, 0])
        op["faults"] = H.gen_faults(rng, kinds, 0.2, max_call=4)
        ops.append(op)
        if op["faults"]:
            ops.append(dict(op, faults=[]))
    return {"worlds": worlds, "models": models, "ops": ops}


def check_sample(run, w, n, Xs, names, log, what):
    spec = run.plan["worlds"][w]
    I = run.codes[w]
    if Xs is None or list(Xs.columns) != names:
        raise Violation("bad-sample", "%s: sampled data missing or with other columns" % what)
    g = run.grids[w]
    J = g.codes(Xs)
    rows, got = [tuple(r) for r in I.tolist()], [tuple(r) for r in J.tolist()]
    for r in got:
        if r not in rows:
            raise Violation("bad-sample", "%s: sampled row %r is not a row of the caller's data" % (what, list(r)))
    want = len(I) if n is None else n
    extra = Counter(got) - Counter(rows)
    if len(got) != want or extra:
        raise Violation("bad-sample", "%s: %d rows sampled, expected %d; drawn more often than the data has them: %r" % (what, len(got), want, dict(extra)))
    labels = run.worlds[w].index.tolist()
    where = None
    if len(set(rows)) == len(rows):
        where = [rows.index(r) for r in got]
    elif len(set(labels)) == len(labels):
        run.probe("duplicate_rows_by_label")
        where = [labels.index(x) if x in labels else None for x in Xs.index.tolist()]
        if len(set(where)) != len(where) or [rows[i] if i is not None else None for i in where] != got:
            raise Violation("bad-sample", "%s: row labels %r do not belong to the sampled rows" % (what, Xs.index.tolist()))
    else:
        run.probe("duplicate_rows_as_multiset")
    if [str(t) for t in Xs.dtypes] != [str(t) for t in run.worlds[w].dtypes]:
        raise Violation("bad-sample", "%s: column types changed from %r to %r" % (what, list(run.worlds[w].dtypes), list(Xs.dtypes)))
    if where is not None and len(set(labels)) == len(I):
        if [labels[i] for i in where] != Xs.index.tolist():
            raise Violation("bad-sample", "%s: row labels %r do not belong to the sampled rows" % (what, Xs.index.tolist()))
    allowed = [set(J[:, j].tolist()) for j in range(J.shape[1])]
    for k, call in enumerate(log):
        K = g.codes(call.df)
        for j in range(K.shape[1]):
            extra = set(K[:, j].tolist()) - allowed[j]
            if extra:
                raise Violation("outside-sample", "%s: model call %d shows values of %r that no sampled row has" % (what, k + 1, names[j]))
    return where, got


def execute(plan, run):
    pd, pr = P.PDRun(run), L.PerfRun(run)
    sampled = 0
    for op in plan["ops"]:
        w = op["world"]
        names = W.names_of(plan["worlds"][w])
        if op["op"] == "fit":
            f = pd.fit(op)
            if f is None or not f["out"].returned:
                continue
            what = f["kind"]
            obj = f["obj"]
            where, got = check_sample(run, w, f["n"], obj.X_sampled, names, f["out"].ctx.call_log, what)
            if f["n"] is not None:
                sampled += 1
                run.probe("sampled:" + what)
        else:
            f = pr.perform(op)
            if not f["out"].returned:
                continue
            obj = f["obj"]
            where, got = check_sample(run, w, f["n"], obj.X_sampled, names, f["out"].ctx.call_log, "sejong")
            ys = np.asarray(obj.y_sampled).tolist()
            yw = plan["worlds"][w]["y"]
            if where is None:
                pairs = Counter(zip(got, ys)) - Counter(zip([tuple(r) for r in run.codes[w].tolist()], yw))
                if pairs or len(ys) != len(got):
                    raise Violation("wrong-target", "sampled rows are paired with targets that are not theirs: %r" % (list(pairs),))
            else:
                want = [yw[i] for i in where]
                if ys != want:
                    raise Violation("wrong-target", "sampled rows %r are paired with targets %r, their own are %r" % (where, ys, want))
            # the scores must have been computed with those targets as well
            log = f["out"].ctx.call_log
            if f["n"] is not None:
                sampled += 1
                run.probe("sampled:sejong:" + plan["worlds"][w]["index"]["kind"] + ":" + op["y"])
            if plan["worlds"][w].get("alldistinct"):
                L.check_perf(f, run)
                run.probe("scores_recomputed_with_own_targets")
            first = [c for c in log if (run.grids[w].codes(c.df) == run.grids[w].codes(obj.X_sampled)).all()] if log else []
            if not first:
                raise Violation("outside-sample", "the model was never shown the sampled rows themselves")
        run.note("where", len(got))
    return {"nontrivial": sampled > 0}
