"""Tree-based methods: real boosted/forest models trained from the plan, reference values read from the trees themselves."""
import numpy as np
import pandas as pd

from . import core, harness as H, ref as R
from .core import Violation
from .pdlib import check_order

NAME_SETS = [["a", "b", "c", "d", "e"], ["x1", "x10", "x2", "x11", "x3"], ["ab", "a", "b", "c", "bc"], ["q", "p", "z", "m", "k"],
             ["f-g", "f", "g", "g-f", "h"], ["Alpha", "beta", "Gamma", "delta", "Eps"]]
INTER = ["sum_gain", "mean_gain", "sum_cover", "mean_cover", "mean_depth"]
IMPORT = INTER + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]
DEFAULTS = {"show_progress": False, "interaction_selected_metric": "mean_gain", "importance_selected_metric": "mean_gain", "only_def_interactions": True,
            "features": None, "trees_df": None}       # SplitScoreImportance documents two different defaults for its metric: not relied on
GB = ("xgb", "lgb")
FOREST = ("rf", "et", "rfc", "etc")


def sut():
    from artemis._utilities._handler import GBTreesHandler
    from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance
    from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod

    class S:
        Handler = GBTreesHandler
        SplitScore = SplitScoreMethod
        SSImp = SplitScoreImportance
        CMD = ConditionalMinimalDepthMethod
        MDImp = MinimalDepthImportance
    return S


def prepare():
    import warnings
    warnings.simplefilter("ignore")
    import lightgbm
    import xgboost
    rs = np.random.RandomState(0)
    X = pd.DataFrame(rs.randint(0, 4, (20, 2)), columns=["a", "b"])
    xgboost.XGBRegressor(n_estimators=1, max_depth=2, n_jobs=1).fit(X, X.a)
    lightgbm.LGBMRegressor(n_estimators=1, min_child_samples=2, n_jobs=1, verbose=-1).fit(X, X.a)


# ----------------------------------------------------------------- models
def gen_tree_model(rng, kinds=GB + FOREST, names=None, wide=False):
    kind = rng.choice(list(kinds))
    names = list(names) if names is not None else rng.choice(NAME_SETS)[:]
    k = rng.choice([3, 3, 4, 5])
    rng.shuffle(names)
    spec = {"kind": kind, "names": names[:k], "data": rng.randrange(10 ** 6), "rows": rng.choice([25, 30, 40]), "trees": rng.choice([2, 2, 3, 4]),
            "depth": rng.choice([2, 3, 3, 4]), "raw": rng.random() < 0.4, "leaf_wise": rng.random() < 0.3, "colsample": rng.choice([1.0, 0.5])}
    if wide:
        r = rng.random()
        if r < 0.15:
            spec.update(rows=rng.choice([80, 120]), leaves=rng.choice([24, 31]), trees=rng.choice([1, 2]), depth=rng.choice([6, 9]))     # the packages' default tree sizes
        elif r < 0.3:
            spec.update(trees=rng.choice([11, 12, 13]), depth=rng.choice([1, 2, 2]))
        elif r < 0.315:
            spec.update(trees=rng.choice([60, 105]), depth=rng.choice([1, 2]))
        if kind in GB:
            spec["task"] = rng.choice(["reg", "reg", "reg", "bin", "multi"])
            spec["scale"] = rng.choice([1, 1, 1, 0.001, 1000])
            spec["ties"] = kind == "lgb" and rng.random() < 0.4
        if rng.random() < 0.35:
            spec["prune"] = rng.choice([0.02, 0.1, 0.3, 0.5])        # some trees end up without any split
    return spec


def train(spec, version=0):
    """Deterministic training of a real model; version > 0 is the same object retrained on other data."""
    rs = np.random.RandomState(spec["data"] + 7919 * version)
    n, names = spec["rows"], spec["names"]
    X = pd.DataFrame(rs.randint(0, 9, (n, len(names))), columns=names)
    c = rs.randint(1, 5, size=len(names))
    y = sum(int(w) * X[nm] for w, nm in zip(c, names)) + X[names[0]] * X[names[1]] + (X[names[-1]] > 4) * X[names[1]] * 3 + rs.rand(n)
    yc = (y > y.median()).astype(int)
    if spec.get("task") == "multi":
        yc = yc + (y > y.quantile(0.8)).astype(int)
    return X, y * spec.get("scale", 1), yc


def prune_at(spec, y, yc, forest=False):
    """A minimal gain that only the better splits reach."""
    if not spec.get("prune"):
        return 0
    if forest:
        return spec["prune"] * (float(np.var(y)) if spec["kind"] in ("rf", "et") else 0.5)
    return spec["prune"] * (float(np.var(y)) * len(y) if spec.get("task", "reg") == "reg" else len(y) / 4.0)


def build_model(spec, version=0, obj=None):
    X, y, yc = train(spec, version)
    k = spec["kind"]
    if k == "xgb":
        import xgboost
        cls = xgboost.XGBRegressor if spec.get("task", "reg") == "reg" else xgboost.XGBClassifier
        m = obj or cls(n_estimators=spec["trees"], max_depth=spec["depth"], n_jobs=1, random_state=spec["data"] % 1000, learning_rate=0.7,
                                        colsample_bynode=spec["colsample"], verbosity=0, gamma=prune_at(spec, y, yc), **(dict(tree_method="hist", grow_policy="lossguide", max_leaves=spec.get("leaves", 6)) if spec["leaf_wise"] else {}))
        return m.fit(X, y if spec.get("task", "reg") == "reg" else yc)
    if k == "lgb":
        import lightgbm
        cls = lightgbm.LGBMRegressor if spec.get("task", "reg") == "reg" else lightgbm.LGBMClassifier
        m = obj or cls(n_estimators=spec["trees"], max_depth=spec["depth"], num_leaves=spec.get("leaves", 8), min_child_samples=2, n_jobs=1, verbose=-1, learning_rate=0.7,
                                          random_state=spec["data"] % 1000, deterministic=True, force_row_wise=True, min_split_gain=prune_at(spec, y, yc))
        m.fit(X, y if spec.get("task", "reg") == "reg" else yc)
        if spec.get("ties"):
            m._Booster = coarse(m.booster_)
        return m
    from sklearn.ensemble import ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor
    cls = {"rf": RandomForestRegressor, "et": ExtraTreesRegressor, "rfc": RandomForestClassifier, "etc": ExtraTreesClassifier}[k]
    m = obj or cls(n_estimators=spec["trees"], max_depth=None if spec["leaf_wise"] else spec["depth"], max_leaf_nodes=7 if spec["leaf_wise"] else None,
                   max_features=spec["colsample"], random_state=spec["data"] % 1000, min_impurity_decrease=prune_at(spec, y, yc, forest=True))
    return m.fit(X, yc if k in ("rfc", "etc") else y)


def coarse(b):
    """The same model loaded from its own text with split gains of one significant digit, so that gains tie."""
    import lightgbm
    lines = []
    for line in b.model_to_string().splitlines():
        if line.startswith("split_gain=") and len(line) > 11:
            line = "split_gain=" + " ".join("%g" % float("%.0e" % float(x)) for x in line[11:].split())
        lines.append(line)
    # tree_sizes in the header no longer fits
    return lightgbm.Booster(model_str="\n".join(x for x in lines if not x.startswith("tree_sizes=")) + "\n")


def booster(model):
    if hasattr(model, "get_booster"):
        return model.get_booster()
    if hasattr(model, "booster_"):
        return model.booster_
    return model


def model_state(model, kind):
    if kind in GB:
        b = booster(model)
        return H.any_state(type(b).trees_to_dataframe(b))
    return tuple((t.tree_.children_left.tobytes(), t.tree_.children_right.tobytes(), t.tree_.feature.tobytes(), t.tree_.threshold.tobytes()) for t in model.estimators_) \
        + (tuple(model.feature_names_in_.tolist()),)


# ----------------------------------------------------------------- reference for boosted trees
class GBRef:
    """Plain-Python reading of the booster's own tree table."""

    def __init__(self, model, kind):
        b = booster(model)
        df = type(b).trees_to_dataframe(b)
        self.kind = kind
        nodes = {}
        rows = df.to_dict("records")
        for r in rows:
            if kind == "xgb":
                leaf = r["Feature"] == "Leaf"
                n = {"tree": int(r["Tree"]), "id": r["ID"], "leaf": leaf, "feature": None if leaf else r["Feature"], "left": None if leaf else r["Yes"],
                     "right": None if leaf else r["No"], "gain": float(r["Gain"]), "cover": float(r["Cover"])}
            else:
                leaf = r["split_feature"] is None
                n = {"tree": int(r["tree_index"]), "id": r["node_index"], "leaf": leaf, "feature": r["split_feature"], "left": r["left_child"],
                     "right": r["right_child"], "gain": float(r["split_gain"]) if not leaf else float("nan"), "cover": None}
            nodes[n["id"]] = n
        child = set()
        for n in nodes.values():
            if not n["leaf"]:
                child.update((n["left"], n["right"]))
        self.nodes = nodes
        self.internal = []
        self.edges = []
        todo = [(n, 0, None) for n in nodes.values() if n["id"] not in child]
        while todo:
            n, d, p = todo.pop()
            n["depth"] = d
            if n["leaf"]:
                continue
            self.internal.append(n)
            if p is not None:
                self.edges.append((p, n))
            todo.append((nodes[n["left"]], d + 1, n))
            todo.append((nodes[n["right"]], d + 1, n))

    def usable(self, metric, strict):
        """Enough structure for the statistics to be defined."""
        return bool(self.edges) and all(n["gain"] > 0 for n in self.internal)

    def interactions(self, metric, strict):
        g = {}
        for p, c in self.edges:
            if strict and not (p["gain"] < c["gain"] and p["feature"] != c["feature"]):
                continue
            g.setdefault((p["feature"], c["feature"]), []).append(c)
        return {k: agg(metric, v) for k, v in g.items()}

    def full(self, strict):
        return {m: self.interactions(m, strict) for m in INTER if self.kind == "xgb" or "cover" not in m}

    def importances(self, metric, features=None):
        nodes = [n for n in self.internal if features is None or n["feature"] in features]
        by = {}
        for n in nodes:
            by.setdefault(n["feature"], []).append(n)
        roots = {f: [n for n in v if n["depth"] == 0] for f, v in by.items()}
        tot = sum(n["gain"] for v in roots.values() for n in v)
        out = {}
        for f, v in by.items():
            if metric == "root_frequency":
                out[f] = float(len(roots[f])) if roots[f] else None
            elif metric == "weighted_root_frequency":
                out[f] = len(roots[f]) * sum(n["gain"] for n in roots[f]) / tot if roots[f] else None
            elif metric == "mean_weighted_depth":
                out[f] = sum(n["depth"] * n["gain"] for n in v) / sum(n["gain"] for n in v)
            else:
                out[f] = agg(metric, v)
        return out


def agg(metric, nodes):
    what = metric.split("_")[1]
    vals = [float(n[what]) for n in nodes]
    return sum(vals) if metric.startswith("sum") else sum(vals) / len(vals)


def same(a, b, tol=1e-6):
    if b is None:
        return a is None or a != a or a == 0
    return a is not None and R.close(a, b, tol, 1e-12)


def isnan(x):
    return x is None or x != x


def check_sorted(vals, descending, what):
    v = [float(x) for x in vals if not isnan(x)]
    check_order(v, descending, what)


# ----------------------------------------------------------------- reference for forests
def forest_ref(model):
    """(root, variable) -> (value or None, occurrences); feature -> mean minimal depth. Computed by walking the trees."""
    names = model.feature_names_in_.tolist()
    k = len(names)
    vals = {(a, b): [] for a in range(k) for b in range(k)}
    occ = {p: 0 for p in vals}
    mind = {f: [] for f in range(k)}
    for est in model.estimators_:
        t = est.tree_
        L, Rt, F = t.children_left.tolist(), t.children_right.tolist(), t.feature.tolist()
        depth = {0: 0}
        order = []
        todo = [0]
        while todo:
            v = todo.pop()
            order.append(v)
            if L[v] >= 0:
                depth[L[v]] = depth[Rt[v]] = depth[v] + 1
                todo += [Rt[v], L[v]]
        by = {}
        for v in order:
            if L[v] >= 0:
                by.setdefault(F[v], []).append(v)
        top = {f: min(depth[v] for v in vs) for f, vs in by.items()}
        for f in by:
            mind[f].append(top[f])

        def below(v):
            out, st = [], [L[v], Rt[v]]
            while st:
                u = st.pop()
                if L[u] >= 0:
                    out.append(u)
                    st += [L[u], Rt[u]]
            return out

        def rightmost(v):
            while L[v] >= 0:
                v = Rt[v]
            return v
        for f1 in by:
            roots = [v for v in by[f1] if depth[v] == top[f1]]
            subs = [(v, below(v)) for v in roots]
            for f2 in by:
                best, hit = None, 0
                for v, sub in subs:
                    ds = [depth[u] for u in sub if F[u] == f2]
                    if ds:
                        hit = 1
                        x = min(ds) - depth[v] - 1
                    else:
                        x = depth[rightmost(v)] - depth[v]
                    best = x if best is None else min(best, x)
                vals[(f1, f2)].append(best)
                occ[(f1, f2)] += hit
    ovo = {(names[a], names[b]): (sum(v) / len(v) if v else None, occ[(a, b)]) for (a, b), v in vals.items() if a != b}
    imp = {names[f]: sum(v) / len(v) for f, v in mind.items() if v}
    return ovo, imp


def sym_cmd(ovo, a, b):
    """Symmetric value of a pair: mean of the directions that are defined."""
    v = [x for x in (ovo[(a, b)][0], ovo[(b, a)][0]) if x is not None]
    return sum(v) / len(v) if v else None


# ----------------------------------------------------------------- oracles
def check_ss(obj, gref, metric, imp_metric, strict):
    m = obj.method
    ovo = obj.ovo
    want = gref.interactions(metric, strict)
    got = list(zip(ovo["Feature 1"].tolist(), ovo["Feature 2"].tolist()))
    if sorted(got) != sorted(want):
        raise Violation("wrong-rows", "split score pairs %r, the trees have %r" % (sorted(got), sorted(want)))
    for p, v in zip(got, ovo[m].tolist()):
        if not same(v, want[p]):
            raise Violation("wrong-value", "split score (%s) of %r is %r, the trees give %r" % (metric, p, v, want[p]))
    check_sorted(ovo[m].tolist(), metric != "mean_depth", "split score table (%s)" % metric)
    if bool(getattr(obj, "_interactions_ascending_order", metric == "mean_depth")) != (metric == "mean_depth"):
        raise Violation("wrong-direction", "ranking direction does not fit metric %s" % metric)
    full = getattr(obj, "full_ovo", None)
    if full is not None:
        fp = list(zip(full["parent_feature"].tolist(), full["child_feature"].tolist()))
        if sorted(fp) != sorted(want):
            raise Violation("wrong-rows", "full split score table lists %r, the trees have %r" % (sorted(fp), sorted(want)))
        for mm, w in gref.full(strict).items():
            for p, v in zip(fp, full[mm].tolist()):
                if not same(v, w[p]):
                    raise Violation("wrong-value", "full split score table: %s of %r is %r, the trees give %r" % (mm, p, v, w[p]))
        if "frequency" in full.columns:
            cnt = {}
            for p, c in gref.edges:
                if not strict or (p["gain"] < c["gain"] and p["feature"] != c["feature"]):
                    cnt[(p["feature"], c["feature"])] = cnt.get((p["feature"], c["feature"]), 0) + 1
            for p, v in zip(fp, full["frequency"].tolist()):
                if int(v) != cnt[p]:
                    raise Violation("wrong-value", "frequency of %r is %r, the trees have %r" % (p, v, cnt[p]))
    for (a, b) in got:
        q = None
        try:
            q = obj.interaction_value(a, b)
        except Exception as e:               # noqa: B902
            raise Violation("wrong-value", "interaction_value(%r, %r) raised %s" % (a, b, H.short(e)))
        ok = [want[p] for p in ((a, b), (b, a)) if p in want]
        if not any(same(float(q), w) for w in ok):
            raise Violation("wrong-value", "interaction_value(%r, %r) is %r, the trees give %r" % (a, b, q, ok))
    check_ss_imp(obj.feature_importance, gref, imp_metric, None)


def check_ss_imp(df, gref, metric, features):
    want = gref.importances(metric, features)
    got = df["Feature"].tolist()
    if sorted(got) != sorted(want):
        raise Violation("wrong-rows", "split score importance lists %r, the trees have %r" % (got, sorted(want)))
    for f, v in zip(got, df["Importance"].tolist()):
        if not same(v, want[f]):
            raise Violation("wrong-value", "split score importance (%s) of %r is %r, the trees give %r" % (metric, f, v, want[f]))
    vals = df["Importance"].tolist()
    if "depth" not in metric:
        check_sorted(vals, True, "split score importance (%s)" % metric)


def check_cmd(obj, fref):
    ovo, imp = fref
    m = obj.method
    df = obj.ovo
    got = list(zip(df["root_variable"].tolist(), df["variable"].tolist()))
    if sorted(got) != sorted(ovo):
        raise Violation("wrong-rows", "conditional minimal depth lists %r, expected %r" % (sorted(got), sorted(ovo)))
    for p, v, o in zip(got, df[m].tolist(), df["n_occurences"].tolist()):
        w, wo = ovo[p]
        if int(o) != wo:
            raise Violation("wrong-value", "%r occurs %r times, the trees give %r" % (p, o, wo))
        if (w is None) != isnan(v) or (w is not None and not R.close(float(v), w, 1e-9, 1e-9)):
            raise Violation("wrong-value", "conditional minimal depth of %r is %r, the trees give %r" % (p, v, w))
    keys = [(-int(o), float("inf") if isnan(v) else float(v)) for v, o in zip(df[m].tolist(), df["n_occurences"].tolist())]
    if keys != sorted(keys):
        raise Violation("wrong-order", "conditional minimal depth is not ordered by occurrences, then depth: %r" % keys)
    for a, b in got:
        w = sym_cmd(ovo, a, b)
        try:
            q = obj.interaction_value(a, b)
        except Exception as e:               # noqa: B902
            raise Violation("wrong-value", "interaction_value(%r, %r) raised %s" % (a, b, H.short(e)))
        if (w is None) != isnan(q) or (w is not None and not R.close(float(q), w, 1e-9, 1e-9)):
            raise Violation("wrong-value", "interaction_value(%r, %r) is %r, the two directions average to %r" % (a, b, q, w))
    fi = obj.feature_importance
    names = fi["Feature"].tolist()
    if sorted(names) != sorted(imp):
        raise Violation("wrong-rows", "minimal depth importance lists %r, expected %r" % (names, sorted(imp)))
    for f, v in zip(names, fi["Importance"].tolist()):
        if not R.close(float(v), imp[f], 1e-9, 1e-9):
            raise Violation("wrong-value", "minimal depth of %r is %r, the trees give %r" % (f, v, imp[f]))
    check_sorted(fi["Importance"].tolist(), False, "minimal depth importance")


# ----------------------------------------------------------------- execution
class TreeParty:
    """The booster as a party that can fail or be slow when asked for its trees."""

    def __init__(self, run, model, kind):
        b = booster(model)
        orig = type(b).trees_to_dataframe

        def asked(*a, **k):
            sim = core.SIM
            ctx = sim.current_ctx() if sim is not None else None
            if ctx is not None:
                ctx.calls += 1
                ctx.since = 0
                sim.event("trees", ctx.label, ctx.calls)
                if ctx.calls > ctx.call_cap:
                    raise core.SimHang("model asked for its trees %d times" % ctx.calls)
                for f in ctx.faults:
                    if f["kind"] == "raise" and not f.get("done") and f["call"] == ctx.calls:
                        f["done"] = True
                        sim.fire(ctx, "raise:" + f["exc"])
                        e = core.EXC_TYPES[f["exc"]]("simulated model failure")
                        ctx.inject(e)
                        raise e
            return orig(b, *a, **k)
        b.trees_to_dataframe = asked


class TreeRun:
    def __init__(self, run):
        self.run = run
        self.S = sut()
        self.specs = run.plan["tmodels"]
        self.objs = [build_model(s) for s in self.specs]
        self.version = [0] * len(self.objs)
        self.refs = {}
        self.handlers = {}
        self.methods = {}
        self.states = {}
        for i in range(len(self.objs)):
            self.refresh(i)

    def refresh(self, i):
        s, m = self.specs[i], self.objs[i]
        if s["kind"] in GB:
            b = booster(m)
            if "trees_to_dataframe" in b.__dict__:
                del b.__dict__["trees_to_dataframe"]
            TreeParty(self.run, m, s["kind"])
            self.refs[i] = GBRef(m, s["kind"])
        else:
            self.refs[i] = forest_ref(m)
        self.states[i] = model_state(m, s["kind"])

    def retrain(self, i):
        self.version[i] += 1
        build_model(self.specs[i], self.version[i], self.objs[i])
        self.refresh(i)
        self.run.note("retrain", i)

    def handler(self, i, key):
        """A handler built once and shared (key) for the model as it was then."""
        h = self.handlers.get(key)
        if h is None:
            out = self.run.attempt(lambda: self.S.Handler(self.arg(i)), label="handler")
            self.run.must(out, "GBTreesHandler()")
            h = self.handlers[key] = {"obj": out.value, "model": i, "ref": self.refs[i], "state": self.hstate(out.value), "kind": self.specs[i]["kind"]}
        return h

    def hstate(self, h):
        return (H.any_state(h.trees_df), h.package)

    def arg(self, i):
        m = self.objs[i]
        return booster(m) if self.specs[i]["raw"] and self.specs[i]["kind"] in GB else m

    def method(self, op, cls):
        mid = op.get("mid")
        key = (op["op"], mid)
        if mid is None:
            return cls()
        if key not in self.methods:
            self.methods[key] = cls()
        return self.methods[key]

    def perform(self, op, task=None):
        """Returns the outcome record; checks completed operations."""
        run = self.run
        i = op["model"]
        kind = self.specs[i]["kind"]
        if op["op"] == "retrain":
            if task is None:
                self.retrain(i)
            return None
        if op["op"] in ("ss", "ssimp"):
            if kind not in GB:
                return None
            h = None
            if op.get("handler") is not None or op["op"] == "ssimp":
                h = self.handler(i, op.get("handler")) if op.get("handler") is not None else None
                if h is None:
                    h = self.handler(i, ("own", i, self.version[i]))
            gref = h["ref"] if h else self.refs[i]
            k2 = h["kind"] if h else kind
            if not gref.usable(op["metric"], op["strict"]):
                return None
            metric, imp = op["metric"], op["imp"]
            if k2 == "lgb":
                metric = metric.replace("cover", "gain")
                imp = imp.replace("cover", "gain")
            arg = h["obj"] if h else self.arg(i)
            if op["op"] == "ss":
                obj = self.method(op, self.S.SplitScore)
                kw = dict(show_progress=op["show_progress"], interaction_selected_metric=metric, importance_selected_metric=imp, only_def_interactions=op["strict"])
                for k, d in DEFAULTS.items():
                    if op.get("defaults") and k in kw and kw[k] == d:
                        del kw[k]
                fn = lambda: obj.fit(arg, **kw)                  # noqa: E731
            else:
                obj = self.method(op, self.S.SSImp)
                feats = op.get("features")
                if feats is not None:
                    feats = [f for f in feats if f in {n["feature"] for n in gref.internal}] or None
                kw = dict(features=feats, selected_metric=imp, show_progress=op["show_progress"], trees_df=arg.trees_df if op.get("pass_df") else None)
                for k, d in DEFAULTS.items():
                    if op.get("defaults") and k in kw and (kw[k] is None if d is None else kw[k] == d):
                        del kw[k]
                fn = lambda: obj.importance(arg, **kw)      # noqa: E731
        elif op["op"] == "cmd":
            if kind not in FOREST:
                return None
            if not self.refs[i][1]:                  # not a single split in the whole forest: nothing is defined
                return None
            h = None
            obj = self.method(op, self.S.CMD)
            arg = self.objs[i]
            fn = lambda: obj.fit(arg, op["show_progress"])                      # noqa: E731
        else:
            raise ValueError(op["op"])
        out = run.attempt(fn, op.get("faults", ()), label=op["op"], call_cap=20, line_cap=30000000, task=task)
        run.note("tree", op["op"], op.get("mid"), out.kind, tuple(out.ctx.fired))
        run.must(out, op["op"])
        rec = {"op": op, "obj": obj, "out": out, "kind": kind}
        if out.returned:
            if op["op"] == "ss":
                check_ss(obj, gref, metric, imp, op["strict"])
                rec["args"] = (metric, imp)
            elif op["op"] == "ssimp":
                check_ss_imp(out.value, gref, imp, feats)
                if obj.feature_importance is not out.value:
                    check_ss_imp(obj.feature_importance, gref, imp, feats)
                if bool(obj.importance_ascending_order) != ("depth" in imp):
                    raise Violation("wrong-direction", "importance direction does not fit metric %s" % imp)
            else:
                check_cmd(obj, self.refs[i])
        if task is None:
            self.check_untouched()
        return rec

    def check_untouched(self):
        for i, m in enumerate(self.objs):
            if model_state(m, self.specs[i]["kind"]) != self.states[i]:
                raise Violation("model-changed", "the trees of model %d changed" % i)
        for k, h in self.handlers.items():
            if self.hstate(h["obj"]) != h["state"]:
                raise Violation("handler-changed", "the shared tree handler %r changed" % (k,))


def gen_tree_op(rng, tmodels, i=None, handlers=2, mids=2):
    i = rng.randrange(len(tmodels)) if i is None else i
    kind = tmodels[i]["kind"]
    names = tmodels[i]["names"]
    if kind in GB:
        op = {"op": rng.choice(["ss", "ss", "ssimp"]), "model": i, "handler": rng.choice([None] + ["h%d" % j for j in range(handlers)]),
              "metric": rng.choice(INTER), "imp": rng.choice(IMPORT), "strict": rng.random() < 0.4, "pass_df": rng.random() < 0.3,
              "features": rng.sample(names, rng.randint(1, len(names))) if rng.random() < 0.3 else None}
    else:
        op = {"op": "cmd", "model": i}
        return finish(rng, op, mids)
    if rng.random() < 0.3:                       # leave out arguments that have their documented default value
        op["defaults"] = True
        for k in ("metric", "imp"):
            if rng.random() < 0.5:
                op[k] = "mean_gain"
        op["strict"] = op["strict"] or rng.random() < 0.5
    return finish(rng, op, mids)


def finish(rng, op, mids):
    op.update(mid=rng.choice([None] + list(range(mids))), show_progress=rng.random() < 0.2, faults=[])
    return op
