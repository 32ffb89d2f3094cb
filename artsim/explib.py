"""One interface to all explainers: build one, fit it with the arguments of an operation, look at what it shows."""
from . import harness as H, pdlib as P, perflib as L, treelib as T, world as W
from .core import Violation

PD_KINDS = ("friedman", "greenwell", "additivity", "pdimp")
PERF_KINDS = ("sejong", "permimp")
TREE_KINDS = ("ss", "cmd", "ssimp")
INTERACTION = ("friedman", "greenwell", "sejong", "ss", "cmd")

COMPONENTS = ("ovo", "ova", "feature_importance", "additivity_index", "full_result", "full_ovo", "raw_result_df")


def gen_base(rng, tier, kinds, rows=None, ncols=(2, 3, 3, 4)):
    """Worlds, models and tree models that serve the given explainer kinds."""
    plan = {"worlds": [], "models": [], "tmodels": []}
    if any(k in PD_KINDS + PERF_KINDS for k in kinds):
        labels = False if not any(k in PERF_KINDS for k in kinds) else None
        plan["worlds"], plan["models"] = L.gen_perf_base(rng, tier, rows=rows or rng.choice([4, 5, 6, 7]), distinct=True if labels is None else rng.random() < 0.5, labels=labels, nworlds=rng.choice([1, 2, 2]), ncols=ncols)
        for w in plan["worlds"]:
            P.ensure_two(rng, w)
    if any(k in ("ss", "ssimp") for k in kinds):
        plan["tmodels"].append(T.gen_tree_model(rng, T.GB))
        if rng.random() < 0.7:
            plan["tmodels"].append(T.gen_tree_model(rng, T.GB))
    if "cmd" in kinds:
        plan["tmodels"].append(T.gen_tree_model(rng, T.FOREST))
        if rng.random() < 0.7:
            plan["tmodels"].append(T.gen_tree_model(rng, T.FOREST))
    return plan


def gen_explainer(rng, kind, plan):
    metric = None
    if kind in PERF_KINDS:
        lab = plan["worlds"][0]["labels"]
        metric = "Accuracy" if lab else rng.choice(["RMSE", "MSE", "MAE"])
    return {"kind": kind, "random_state": rng.choice([0, 5, 77, "np5"]), "normalized": rng.random() < 0.7, "metric": metric,
            "metric_obj": rng.choice(["own", "default", "default", "shared"])}


def gen_fit(rng, kind, plan, metric=None):
    """Arguments of one fit."""
    if kind in ("ss", "ssimp", "cmd"):
        idx = [i for i, t in enumerate(plan["tmodels"]) if t["kind"] in (T.FOREST if kind == "cmd" else T.GB)]
        i = rng.choice(idx)
        op = T.gen_tree_op(rng, plan["tmodels"], i)
        op["op"] = kind
        op["handler"] = None
        return op
    ms = [m for m in range(len(plan["models"])) if metric is None or (metric == "Accuracy") == bool(plan["worlds"][plan["models"][m]["world"]]["labels"]) or metric != "Accuracy"]
    m = rng.choice(ms)
    w = plan["models"][m]["world"]
    n = W.rows_of(plan["worlds"][w])
    op = {"op": kind, "world": w, "model": m, "n": rng.choice([None, None, None, max(2, n - 1), n, 2]), "features": P.gen_features(rng, W.names_of(plan["worlds"][w]), minimum=1 if kind in ("permimp", "pdimp") else 2),
          "batchsize": H.batchsizes(rng, n), "ova": rng.random() < 0.6, "show_progress": rng.random() < 0.15, "n_repeat": rng.choice([1, 2, 3]),
          "y": rng.choice(L.Y_KINDS), "faults": []}
    return op


class Bench:
    def __init__(self, run):
        self.run = run
        self.P = P.sut()
        self.L = L.sut()
        self.tr = T.TreeRun(run) if run.plan.get("tmodels") else None
        self.T = T.sut()
        self.metric_objs = {}
        self.original = {}
        self.args = []                 # what the caller passed to the operation bound last

    def make(self, ex):
        k = ex["kind"]
        if k in PD_KINDS:
            return P.make_method(k, ex)
        if k in PERF_KINDS:
            cls = self.L.Sejong if k == "sejong" else self.L.Perm
            how = ex.get("metric_obj", "own")
            if how == "default" and ex["metric"] == "RMSE":
                return cls(random_state=P.seed(ex["random_state"]))
            if how == "shared":        # one metric object for all explainers of the run
                return cls(self.metric_objs.setdefault(ex["metric"], self.L.metrics[ex["metric"]]()), random_state=P.seed(ex["random_state"]))
            return cls(self.L.metrics[ex["metric"]](), random_state=P.seed(ex["random_state"]))
        return {"ss": self.T.SplitScore, "cmd": self.T.CMD, "ssimp": self.T.SSImp}[k]()

    def edit_data(self, w, k):
        """The caller edits the frame in place: its first column is rotated by k rows against the original data."""
        X = self.run.worlds[w]
        if w not in self.original:
            self.original[w] = X.copy()
        col = X.columns[0]
        order = [(i + k) % len(X) for i in range(len(X))]
        if k % 2:
            X.loc[:, col] = self.original[w][col].iloc[order].values
        else:
            X[col] = self.original[w][col].iloc[order].values
        self.run.codes[w] = self.run.grids[w].codes(X)

    def bind(self, obj, ex, op):
        """Returns (callable, verify) or None when the operation does not apply. verify(outcome) judges a completed fit."""
        k = ex["kind"]
        run = self.run
        bad = op.get("bad")
        self.args = []
        if k in TREE_KINDS:
            i = op["model"]
            tm = self.tr.objs[i]
            tk = self.tr.specs[i]["kind"]
            if k == "cmd":
                if bad == "stub":
                    return (lambda: obj.fit(object(), op["show_progress"])), None
                return (lambda: obj.fit(tm, op["show_progress"])), (lambda out: T.check_cmd(obj, self.tr.refs[i]))
            ref = self.tr.refs[i]
            if not ref.usable(op["metric"], op["strict"]):
                return None
            metric, imp = op["metric"], op["imp"]
            if bad == "metric":
                if tk != "lgb":
                    return None
                metric = rng_pick(op, ["sum_cover", "mean_cover"])
                return (lambda: obj.fit(self.tr.arg(i), op["show_progress"], metric, imp, op["strict"])), None
            if bad == "badname":
                if k == "ss":
                    return (lambda: obj.fit(self.tr.arg(i), op["show_progress"], "no_such_metric", imp, op["strict"])), None
            if tk == "lgb":
                metric, imp = metric.replace("cover", "gain"), imp.replace("cover", "gain")
            if k == "ss":
                if not ref.interactions(metric, op["strict"]):
                    return None
                arg = self.tr.arg(i) if not op.get("via_handler") else self.tr.handler(i, ("own", i, self.tr.version[i]))["obj"]
                return (lambda: obj.fit(arg, op["show_progress"], metric, imp, op["strict"])), (lambda out: T.check_ss(obj, ref, metric, imp, op["strict"]))
            h = self.tr.handler(i, ("own", i, self.tr.version[i]))
            if bad == "badname":
                return (lambda: obj.importance(h["obj"], None, "no_such_metric", op["show_progress"])), None
            df = h["obj"].trees_df if op.get("pass_df") else None
            return (lambda: obj.importance(h["obj"], None, imp, op["show_progress"], df)), (lambda out: T.check_ss_imp(obj.feature_importance, ref, imp, None))
        w = op["world"]
        spec = run.plan["worlds"][w]
        names = W.names_of(spec)
        model = run.models[op["model"]]
        if "version" in op and not bad:
            model.version = op["version"]          # retrained in place since
        X = run.worlds[w]
        if "dataver" in op and not bad:
            self.edit_data(w, op["dataver"])
        feats = None if op["features"] is None else [f for f in op["features"] if f in names]
        if feats is not None and len(feats) < (1 if k in ("permimp", "pdimp") else 2):
            feats = None
        n = op.get("n")
        n = None if n is None or (k == "pdimp" and run.plan.get("fixed_sample")) else min(n, len(X))
        if bad == "n_too_big":
            n = len(X) + 3
        if bad == "unknown_feature":
            feats = (feats or names[:2]) + ["no such feature"]
        if k in PERF_KINDS:
            if ex["metric"] == "Accuracy" and not spec["labels"]:
                return None
            y = L.build_y(spec, op["y"])
            self.args = [("data", X), ("targets", y), ("features", feats)]
            if k == "sejong":
                fn = lambda: obj.fit(model, X, y, n=n, n_repeat=op["n_repeat"], features=feats, show_progress=op["show_progress"])       # noqa: E731
            else:
                n = None
                fn = lambda: obj.importance(model, X, y, n_repeat=op["n_repeat"], features=feats, show_progress=op["show_progress"])     # noqa: E731

            def verify(out):
                f = {"kind": k, "obj": obj, "model": model, "X": X, "y": y, "names": names, "features": feats if feats is not None else names, "n": n, "out": out,
                     "op": op, "spec": spec, "metric": ex["metric"], "codes": run.codes[w]}
                L.check_perf(f, run)
            return fn, verify
        self.args = [("data", X), ("features", feats)]
        codes = run.codes[w]
        if k == "greenwell":
            if n is not None and not bad:
                mult = max(max(P.np.bincount(codes[:, j])) for j in range(codes.shape[1]))
                n = max(n, int(mult) + 1)
                if n > len(X):
                    n = None
            if not P.well_spread(codes):
                return None
        kw = dict(n=n, predict_function=W.predict_function_for(model), show_progress=op["show_progress"], batchsize=op["batchsize"])
        if bad == "wrong_calc":
            others = [m for m in run.models if m is not model and m.spec["world"] == model.spec["world"]]
            kw["n"] = n = None
            Y = X.iloc[::-1] if not others else X
            kw["pd_calculator"] = self.P.Calc(others[0] if others else model, Y, kw["predict_function"])
            if not others and Y.equals(X):
                return None
        if k != "additivity":
            kw["features"] = feats
        if k == "friedman":
            kw["calculate_ova"] = op["ova"]
        if k == "pdimp":
            fn = lambda: obj.importance(model, X, **kw)              # noqa: E731
        else:
            fn = lambda: obj.fit(model, X, **kw)                     # noqa: E731

        def verify(out):
            f = {"kind": k, "obj": obj, "calc": None, "model": model, "frame": X, "codes": codes, "names": names, "n": n, "features": feats, "out": out, "op": op,
                 "ova": op["ova"], "normalized": ex["normalized"]}
            P.check_fit(f, run)
        return fn, verify


def rng_pick(op, xs):
    return xs[(len(str(op)) + op.get("model", 0)) % len(xs)]


BADS = {"ss": ["metric", "badname"], "ssimp": ["badname"], "cmd": ["stub"], "sejong": ["n_too_big", "unknown_feature"], "permimp": ["unknown_feature"],
        "friedman": ["n_too_big", "unknown_feature", "wrong_calc"], "greenwell": ["n_too_big", "unknown_feature", "wrong_calc"],
        "additivity": ["n_too_big", "wrong_calc"], "pdimp": ["n_too_big", "unknown_feature", "wrong_calc"]}


def components(obj, kind):
    """What the explainer shows right now; None for what it does not show."""
    out = {}
    for c in COMPONENTS:
        v = getattr(obj, c, None)
        out[c] = None if v is None else H.any_state(v)
    if kind == "ss" and out["ovo"] is not None:
        d = getattr(obj, "_interactions_ascending_order", None)
        out["direction"] = None if d is None else bool(d)
    if kind == "ssimp" and out["feature_importance"] is not None:
        out["direction"] = bool(obj.importance_ascending_order)
    return out


def explained_by(state, snap):
    """Everything shown belongs to the fit with this complete snapshot."""
    return all(v is None or snap.get(c) == v for c, v in state.items())


def is_complete(state, snap):
    return all(state.get(c) == snap.get(c) for c in set(state) | set(snap))


def check_fresh(obj, kind, op):
    if kind == "friedman" and not op["ova"] and getattr(obj, "ova", None) is not None:
        raise Violation("stale-result", "the last fit did not compute one-vs-all values, yet the explainer shows some")
