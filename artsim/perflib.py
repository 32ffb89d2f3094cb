"""Permutation-based methods: execution and oracle reconstructed from the recorded model calls."""
from itertools import combinations

import numpy as np
import pandas as pd

from . import ref as R, world as W
from .core import Violation
from . import pdlib as P


def sut():
    from artemis._utilities.domain import ProblemType
    from artemis._utilities.performance_metrics import Accuracy, MSE, RMSE, Metric
    from artemis.importance_methods.model_agnostic import PermutationImportance
    from artemis.interactions_methods.model_agnostic import SejongOhMethod

    class MAE(Metric):
        def __init__(self):
            super().__init__(ProblemType.REGRESSION)

        def calculate(self, y_true, y_hat):
            return float(np.mean(np.abs(np.asarray(y_hat) - np.asarray(y_true))))

    class S:
        Perm = PermutationImportance
        Sejong = SejongOhMethod
        metrics = {"RMSE": RMSE, "MSE": MSE, "Accuracy": Accuracy, "MAE": MAE}
    return S


def score(metric, y, out):
    y = np.asarray(y, dtype=float)
    p = np.asarray(out, dtype=float)
    if metric == "RMSE":
        return float(np.sqrt(np.mean((p - y) ** 2)))
    if metric == "MSE":
        return float(np.mean((p - y) ** 2))
    if metric == "MAE":
        return float(np.mean(np.abs(p - y)))
    return float(np.mean(p == y))


def gen_y(rng, rows, labels):
    if labels:
        return [rng.randrange(3) for _ in range(rows)]
    base = rng.choice([0, 0, 10])
    ys = [base + i * 0.5 + rng.choice([0.0, 0.125]) for i in range(rows)]
    rng.shuffle(ys)
    return ys


def build_y(spec, kind):
    y = np.array(spec["y"])
    n = len(y)
    if kind == "array":
        return y
    labels = spec["index"]["labels"]
    if kind == "series_same":
        idx = pd.RangeIndex(n) if labels is None else pd.Index(labels[:n])
        return pd.Series(y, index=idx, name="target")
    if kind == "series_rev":
        return pd.Series(y, index=list(range(n))[::-1])
    if kind == "series_str":
        return pd.Series(y, index=["t%d" % i for i in range(n)])
    return pd.Series(y)


Y_KINDS = ["array", "array", "series_default", "series_same", "series_rev", "series_str"]


def gen_perf_base(rng, tier, rows=None, nworlds=None, distinct=True, labels=None, ncols=(2, 3, 3, 4)):
    """Worlds whose columns hold pairwise distinct values, so that every rearrangement is visible."""
    nworlds = nworlds or rng.choice([1, 1, 2])
    worlds, models = [], []
    names = None
    for w in range(nworlds):
        r = rows or rng.choice([3, 4, 5, 6, 7, 8, 9])
        kinds = ("int", "float", "str")
        k = rng.choice(list(ncols))
        wide = False
        if rows is None and rng.random() < 0.03:
            if rng.random() < 0.5:
                r = rng.choice([20, 40, 60, 60, 300])
            else:
                wide, r, k = True, 4, rng.choice([7, 9])
        if rng.random() < 0.2:
            kinds += ("big", "i8", "f32", "cat", "date") if r < 50 else ("big", "f32", "cat", "date")
        spec = W.gen_world(rng, r, len(names) if names else k,
                           names if names and rng.random() < 0.6 else (W.WIDE_NAMES if wide or (names and len(names) > 6) else None), kinds, distinct=r if distinct else None,
                           distinct_rows=True)
        names = W.names_of(spec)
        lab = labels if labels is not None else rng.random() < 0.35
        spec["y"] = gen_y(rng, r, lab)
        spec["labels"] = lab
        worlds.append(spec)
    for m in range(rng.choice([nworlds, nworlds + 1])):
        w = m % nworlds
        ms = W.gen_model(rng, worlds[w], api=rng.choice(["predict", "predict", "proba"]), ret=rng.choice(["array", "array", "array", "series"]))
        ms.update(world=w, keep=True, labels=worlds[w]["labels"])
        models.append(ms)
    return worlds, models


def gen_perf_op(rng, worlds, models, m=None):
    m = rng.randrange(len(models)) if m is None else m
    w = models[m]["world"]
    names = W.names_of(worlds[w])
    n = W.rows_of(worlds[w])
    lab = worlds[w]["labels"]
    kind = rng.choice(["sejong", "sejong", "permimp"])
    feats = P.gen_features(rng, names, minimum=1 if kind == "permimp" else 2)
    return {"op": kind, "world": w, "model": m, "y": rng.choice(Y_KINDS), "metric": rng.choice(["Accuracy", "Accuracy", "RMSE"]) if lab else rng.choice(["RMSE", "MSE", "MAE"]),
            "n": rng.choice([None, None, 2, max(2, n // 2), n - 1, n]) if kind == "sejong" else None, "n_repeat": rng.choice([1, 1, 2, 3, 5, 10]) if rng.random() < 0.97 else rng.choice([16, 31]),
            "features": feats, "random_state": rng.choice([None, None, 0, 3, 99]), "show_progress": rng.random() < 0.15, "faults": [],
            "metric_obj": rng.choice(["own", "default", "default", "shared"])}


def est_calls(op, k):
    f = len(op["features"]) if op["features"] else k
    c = 1 + op["n_repeat"] * f
    if op["op"] == "sejong":
        c += 1 + 3 * op["n_repeat"] * f * (f - 1) // 2
    return c


class PerfRun:
    def __init__(self, run):
        self.run = run
        self.S = sut()
        self.objs = {}
        self.metric_objs = {}

    def perform(self, op, task=None):
        run = self.run
        w = op["world"]
        spec = run.plan["worlds"][w]
        names = W.names_of(spec)
        model = run.models[op["model"]]
        X = run.worlds[w]
        y = build_y(spec, op["y"])
        feats = None if op["features"] is None else [f for f in op["features"] if f in names]
        n = op.get("n")
        if n is not None:
            n = min(n, len(X))
        mid = op.get("mid")
        key = (op["op"], mid)
        obj = self.objs.get(key) if mid is not None else None
        if obj is None:
            cls = self.S.Sejong if op["op"] == "sejong" else self.S.Perm
            how = op.get("metric_obj", "own")
            if how == "default" and op["metric"] == "RMSE":
                obj = cls(random_state=P.seed(op.get("random_state")))
            else:
                metric = self.S.metrics[op["metric"]]() if how != "shared" else self.metric_objs.setdefault(op["metric"], self.S.metrics[op["metric"]]())
                obj = cls(metric, random_state=P.seed(op.get("random_state")))
            obj._sim_metric = op["metric"]
            if mid is not None:
                self.objs[key] = obj
        if op["op"] == "sejong":
            fn = lambda: obj.fit(model, X, y, n=n, n_repeat=op["n_repeat"], features=feats, show_progress=op["show_progress"])     # noqa: E731
        else:
            fn = lambda: obj.importance(model, X, y, n_repeat=op["n_repeat"], features=feats, show_progress=op["show_progress"])   # noqa: E731
        est = est_calls(op, len(names))
        out = run.attempt(fn, op.get("faults", ()), label=op["op"], call_cap=3 * est + 30, task=task)
        run.note("perf", op["op"], out.kind, out.ctx.calls, tuple(out.ctx.fired))
        run.must(out, op["op"])
        return {"kind": op["op"], "obj": obj, "model": model, "X": X, "y": y, "names": names, "features": feats if feats is not None else names, "n": n,
                "out": out, "op": op, "spec": spec, "metric": obj._sim_metric, "codes": run.codes[w], "est": est}


def y_list(f):
    return f["spec"]["y"]


def base_codes_and_targets(f):
    """The sampled data as level codes, and the target each of its rows must be scored with."""
    I = f["codes"]
    if f["kind"] == "permimp" or f["n"] is None:
        return I, list(y_list(f))
    Xs = f["obj"].X_sampled
    if Xs is None or list(Xs.columns) != f["names"]:
        raise Violation("bad-sample", "X_sampled is missing or has other columns")
    J = f["model"].grid.codes(Xs)
    pos = {tuple(r): i for i, r in enumerate(I.tolist())}
    ys = []
    for r in J.tolist():
        if tuple(r) not in pos:
            raise Violation("bad-sample", "X_sampled has a row that is not a row of the caller's data")
        ys.append(y_list(f)[pos[tuple(r)]])
    if len(J) != f["n"] or len({tuple(r) for r in J.tolist()}) != f["n"]:
        raise Violation("bad-sample", "X_sampled has %d rows, %d distinct, n=%d" % (len(J), len({tuple(r) for r in J.tolist()}), f["n"]))
    return J, ys


def classify(f, call, I):
    """Which columns a call shows rearranged. Raises if it is not a valid rearrangement."""
    df = call.df
    if list(df.columns) != f["names"]:
        raise Violation("invalid-permutation", "model was shown columns %r" % (list(df.columns),))
    J = f["model"].grid.codes(df)
    if J.shape != I.shape:
        raise Violation("invalid-permutation", "model was shown %d rows instead of %d" % (len(J), len(I)))
    diff = [j for j in range(I.shape[1]) if (J[:, j] != I[:, j]).any()]
    if not diff:
        return ()
    if sorted(map(tuple, J[:, diff].tolist())) != sorted(map(tuple, I[:, diff].tolist())):
        raise Violation("invalid-permutation", "columns %r were not rearranged by one common row permutation" % ([f["names"][j] for j in diff],))
    if len(diff) > (2 if f["kind"] == "sejong" else 1):
        raise Violation("invalid-permutation", "columns %r were rearranged at the same time" % ([f["names"][j] for j in diff],))
    bad = [f["names"][j] for j in diff if f["names"][j] not in f["features"]]
    if bad:
        raise Violation("invalid-permutation", "columns %r were rearranged but not requested" % (bad,))
    return tuple(diff)


def check_importance(f, calls, table, base, what):
    """calls: list of (cols, score)."""
    r = f["op"]["n_repeat"]
    names = f["names"]
    by = {j: [] for j in (names.index(x) for x in f["features"])}
    ident = 0
    for cols, s in calls:
        if len(cols) == 1:
            by[cols[0]].append(s)
        elif len(cols) == 0:
            ident += 1
        else:
            raise Violation("invalid-permutation", "%s: a joint permutation among importance scores" % what)
    short = 0
    for j, ss in by.items():
        if len(ss) > r:
            raise Violation("wrong-repeats", "%s: %r scored %d times, n_repeat=%d" % (what, names[j], len(ss), r))
        short += r - len(ss)
    if ident < 1 + short:
        raise Violation("wrong-repeats", "%s: %d scores missing" % (what, 1 + short - ident))
    sign = -1.0 if f["metric"] == "Accuracy" else 1.0
    want = {names[j]: sign * ((sum(ss) + (r - len(ss)) * base) / r - base) for j, ss in by.items()}
    got = table["Feature"].tolist()
    if sorted(got) != sorted(want):
        raise Violation("wrong-rows", "%s lists %r, expected %r" % (what, got, sorted(want)))
    for n, v in zip(got, table["Importance"].tolist()):
        if not R.close(v, want[n]):
            raise Violation("wrong-value", "%s of %r is %r; the observed metric changes average to %r" % (what, n, v, want[n]))
    P.check_order(table["Importance"].tolist(), True, what)


def triples(seq, pairs, r, base):
    """|joint - single - single| of every three consecutive scores, per pair; None if the scores do not come that way."""
    trip = {p: [] for p in pairs}
    for k in range(0, len(seq), 3):
        t = seq[k:k + 3]
        seen = sorted({c for cols, _ in t for c in cols})
        p = tuple(seen) if len(seen) == 2 else pairs[(k // 3) // r]
        if len(seen) > 2 or p not in trip or not set(seen) <= set(p):
            return None
        slots = sorted(cols for cols, _ in t if cols)
        if len(set(slots)) != len(slots):
            return None
        val = 0.0
        for cols, s in t:
            if len(cols) == 2:
                val += s - base
            elif len(cols) == 1:
                val -= s - base
        trip[p].append(abs(val))
    return trip if all(len(v) == r for v in trip.values()) else None


def grouped(seq, pairs, r, base):
    """The same when the scores of a pair come kind by kind (all of one feature, all of the other, all joint)."""
    out = {}
    for k, p in enumerate(pairs):
        part = seq[3 * r * k:3 * r * (k + 1)]
        kinds = [[s for cols, s in part if tuple(sorted(cols)) == c] for c in ((p[0],), (p[1],), p)]
        if any(len(x) != r for x in kinds):
            return None
        out[p] = [abs((j - base) - (a - base) - (b - base)) for a, b, j in zip(*kinds)]
    return out


def other_order(f, toks, pairs, r, base, nt, nimp, judge):
    """Importances first, the unpermuted data last, scores kind by kind: the order is the implementation's business."""
    table = f["obj"].feature_importance
    for ov, imp in ((toks[:1 + nt], toks[1 + nt:]), (toks[nimp:], toks[:nimp])):
        for seq in ([ov[1:]] if not ov[0][0] else []) + ([ov[:-1]] if not ov[-1][0] else []):
            for how in (triples, grouped):
                vals = how(seq, pairs, r, base)
                if vals is None:
                    continue
                try:
                    judge(vals)
                    check_importance(f, imp, table, base, "permutation importance")
                    return True
                except Violation:
                    pass
    return False


def check_perf(f, run):
    """Everything reported must follow from what the model was shown and answered."""
    I, ys = base_codes_and_targets(f)
    log = f["out"].ctx.call_log
    toks = []
    for call in log:
        cols = classify(f, call, I)
        toks.append((cols, score(f["metric"], ys, call.out)))
    bases = [s for cols, s in toks if not cols]
    if not bases:
        raise Violation("no-baseline", "the model was never shown the unpermuted data")
    base = bases[0]
    obj, op = f["obj"], f["op"]
    if f["kind"] == "permimp":
        check_importance(f, toks, f["out"].value, base, "permutation importance")
        if obj.feature_importance is not f["out"].value:
            check_importance(f, toks, obj.feature_importance, base, "permutation importance")
        return "exact"
    r = op["n_repeat"]
    names = f["names"]
    feats = [names.index(x) for x in f["features"]]
    pairs = [tuple(sorted(p)) for p in combinations(feats, 2)]
    nt = 3 * r * len(pairs)
    nimp = 1 + r * len(feats)
    ovo = obj.ovo
    got = [tuple(sorted((names.index(a), names.index(b)))) for a, b in P.table_pairs(ovo)]
    if sorted(got) != sorted(pairs):
        raise Violation("wrong-rows", "performance-based pairs %r, expected %r" % (P.table_pairs(ovo), [(names[a], names[b]) for a, b in pairs]))
    P.check_order([abs(v) for v in ovo[obj.method].tolist()], True, "performance-based pairs")
    joint = {p: 0 for p in pairs}
    for cols, _ in toks:
        if len(cols) == 2:
            joint[tuple(sorted(cols))] += 1
    for p, c in joint.items():
        if c > r:
            raise Violation("wrong-repeats", "pair %r was permuted jointly %d times, n_repeat=%d" % ([names[x] for x in p], c, r))
    exact = False
    if len(toks) == 1 + nt + nimp:
        def judge(vals):
            for (a, b), v in zip(got, ovo[obj.method].tolist()):
                want = sum(vals[(a, b)]) / r
                if not R.close(v, want, 1e-8, 1e-8):
                    raise Violation("wrong-value", "performance-based interaction of (%r, %r) is %r; the observed metric changes give %r" % (
                        names[a], names[b], v, want))
        trip = triples(toks[1:1 + nt], pairs, r, base) if not toks[0][0] else None
        try:
            if trip is not None:
                exact = True
                judge(trip)
                check_importance(f, toks[1 + nt:], obj.feature_importance, base, "permutation importance")
        except Violation as e:
            if not other_order(f, toks, pairs, r, base, nt, nimp, judge):
                raise e
            run.probe("scores_in_another_order")
        if trip is None and other_order(f, toks, pairs, r, base, nt, nimp, judge):
            exact = True
            run.probe("scores_in_another_order")
    if not exact:
        # same scores in another order: every value must at least be reachable from the observed scores
        single = {j: [s - base for cols, s in toks if cols == (j,)] + [0.0] for j in feats}
        for (a, b), v in zip(got, ovo[obj.method].tolist()):
            jj = [s - base for cols, s in toks if tuple(sorted(cols)) == (a, b)] + ([0.0] if joint[(a, b)] < r else [])
            hi = max(jj) - min(single[a]) - min(single[b])
            lo = min(jj) - max(single[a]) - max(single[b])
            m = max(abs(hi), abs(lo))
            lo2 = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
            if not (lo2 - 1e-8 <= v <= m + 1e-8):
                raise Violation("wrong-value", "performance-based interaction of (%r, %r) is %r, outside [%r, %r] reachable from the observed scores" % (
                    names[a], names[b], v, lo2, m))
        if sorted(obj.feature_importance["Feature"].tolist()) != sorted(f["features"]):
            raise Violation("wrong-rows", "importance lists %r" % (obj.feature_importance["Feature"].tolist(),))
        if len(toks) < nt + nimp:          # the unpermuted data may be scored once for both
            raise Violation("wrong-repeats", "%d model calls; %d pairs and %d features with n_repeat=%d need %d" % (len(toks), len(pairs), len(feats), r, nt + nimp))
    for (a, b), v in zip(got, ovo[obj.method].tolist()):
        for x, y in ((a, b), (b, a)):
            q = obj.interaction_value(names[x], names[y])
            if not R.close(q, v):
                raise Violation("wrong-value", "interaction_value(%r, %r) is %r, table says %r" % (names[x], names[y], q, v))
    return "exact" if exact else "loose"
