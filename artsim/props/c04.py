"""C04: explaining, plotting and comparing never alter what the caller passed in."""
import copy
from itertools import combinations

from .. import core, explib as X, harness as H, pdlib as P, plotlib as V, treelib as T, world as W
from ..core import Violation

prepare = T.prepare
FAULTS = ("raise", "interrupt", "interrupt", "stderr", "nan")


def gen(rng, tier):
    r = rng.random()
    pool = list(X.PD_KINDS + X.PERF_KINDS) if r < 0.6 else list(X.TREE_KINDS) if r < 0.8 else list(X.PD_KINDS + X.PERF_KINDS + X.TREE_KINDS)
    kinds = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))]
    plan = X.gen_base(rng, tier, kinds)
    exs = [X.gen_explainer(rng, k, plan) for k in kinds]
    fk = H.swarm(rng, FAULTS)
    ops = []
    for _ in range(rng.choice([1, 2, 3]) if tier == "quick" else rng.choice([2, 4, 6])):
        e = rng.randrange(len(exs))
        kind = exs[e]["kind"]
        fs = H.gen_faults(rng, fk, 0.5, max_call=8)
        if rng.random() < 0.8 or not plan["worlds"]:
            op = X.gen_fit(rng, kind, plan, exs[e]["metric"])
            op["what"] = "fit"
            op["via_handler"] = rng.random() < 0.6
            op["pass_df"] = rng.random() < 0.5
            if rng.random() < 0.12:
                op["bad"] = rng.choice(X.BADS[kind])
        else:
            m = rng.randrange(len(plan["models"]))
            w = plan["models"][m]["world"]
            names = W.names_of(plan["worlds"][w])
            op = {"what": "calc", "world": w, "model": m, "batchsize": H.batchsizes(rng, 5), "calls": []}
            for _ in range(rng.choice([1, 2])):
                k = rng.choice(["single", "minus", "pairs"])
                c = {"op": k, "all": rng.random() < 0.5}
                c["pairs" if k == "pairs" else "features"] = P.gen_pairs(rng, names) if k == "pairs" else P.gen_features(rng, names)
                op["calls"].append(c)
        op["ex"] = e
        op["faults"] = fs
        ops.append(op)
        if op["what"] == "fit" and kind in X.INTERACTION:
            if op["faults"] and rng.random() < 0.5:
                ops.append(dict(op, faults=[], bad=None))
            for _ in range(rng.choice([0, 1, 2, 3])):
                ops.append(gen_look(rng, kind, e, len(exs), fk))
    return dict(plan, explainers=exs, ops=ops)


def gen_look(rng, kind, e, n, fk):
    what = rng.choice(["plot", "plot", "plot", "query", "compare"] + (["profile", "zenplot"] if kind in ("friedman", "greenwell") else []))
    op = {"what": what, "ex": e, "other": rng.choice([e, rng.randrange(n)]), "show": rng.choice(["corr", "summary", "plot"]), "kindp": rng.choice(["colormesh", "contour"]),
          "x": rng.randrange(20), "faults": []}
    if what == "plot":
        op["plot"] = V.gen_plot(rng, kind)
    if "interrupt" in fk and rng.random() < 0.4:
        op["faults"] = [{"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 6.5)), "exc": "KeyboardInterrupt"}]
    return op


class Ledger:
    """What the caller owns, and how it looked when it was handed over."""

    def __init__(self, run, bench):
        self.run, self.bench = run, bench
        self.items = []
        for w, df in enumerate(run.worlds):
            self.add("data frame %d" % w, df)

    def add(self, label, o):
        if o is None:
            return
        for _, p, _ in self.items:
            if p is o:
                return
        self.items.append((label, o, H.any_state(o)))

    def check(self, when):
        for label, o, st in self.items:
            if H.any_state(o) != st:
                raise Violation("caller-object-changed", "%s: the caller's %s changed: %s, was %s" % (when, label, str(H.any_state(o))[:300], str(st)[:300]))
        if self.bench.tr is not None:
            self.bench.tr.check_untouched()


def execute(plan, run):
    bench = X.Bench(run)
    exs = plan["explainers"]
    objs = [bench.make(e) for e in exs]
    fitted = [False] * len(objs)
    led = Ledger(run, bench)
    import matplotlib.pyplot as plt

    def on_call(ctx, model, df, call):
        run.probe("looked_during_call")
        led.check("during a model call of %s" % ctx.label)
    run.sim.on_call = on_call
    judged = 0
    for op in plan["ops"]:
        e = op["ex"]
        obj, ex = objs[e], exs[e]
        kind = ex["kind"]
        tables = [X.components(o, x["kind"]) if f else None for o, x, f in zip(objs, exs, fitted)]
        what = op["what"]
        skip = None
        if what == "fit":
            b = bench.bind(obj, ex, op)
            if b is None:
                continue
            for label, o in bench.args:
                led.add(label, o)
            out = run.attempt(b[0], op["faults"], label=kind, call_cap=60000, line_cap=30000000)
            fitted[e] = out.returned
            skip = e
        elif what == "calc":
            w = op["world"]
            c = None
            for call in op["calls"]:
                lists = [tuple(p) for p in call["pairs"]] if call.get("pairs") else call.get("features")
                if lists is not None:
                    lists = list(lists)
                led.add("pairs" if call["op"] == "pairs" else "features", lists)
                m = run.models[op["model"]]

                def fn(c=c, call=call, lists=lists, m=m):
                    k = c if c is not None else bench.P.Calc(m, run.worlds[w], W.predict_function_for(m), op["batchsize"])
                    if call["op"] == "single":
                        k.calculate_pd_single(lists)
                    elif call["op"] == "minus":
                        k.calculate_pd_minus_single(lists)
                    else:
                        k.calculate_pd_pairs(lists, call["all"])
                    names = W.names_of(plan["worlds"][w])
                    for a, b in combinations(names, 2):
                        k.get_pd_pairs(a, b, [(x, y) for x, y in zip(run.worlds[w][a].tolist(), run.worlds[w][b].tolist())])
                        k.get_pd_pairs(b, a)
                    return k
                out = run.attempt(fn, op["faults"], label="calc:" + call["op"], call_cap=60000)
                c = out.value if out.returned else None
                led.check("after calculator computation (%s)" % out.kind)
        else:
            if not fitted[e]:
                continue
            kw = copy.deepcopy(op["plot"]["kw"]) if what == "plot" else None
            led.add("plot arguments", kw)
            fn = look(run, obj, kind, op, objs, exs, fitted, kw)
            if fn is None:
                continue
            out = run.attempt(fn, op["faults"], label=what, line_cap=30000000)
            plt.close("all")
            run.probe("%s_%s" % (what, out.kind))
        run.note(what, kind, out.kind, type(out.exc).__name__, tuple(out.ctx.fired))
        judged += 1
        led.check("after %s (%s)" % (what, out.kind))
        for k, t in enumerate(tables):
            if t is not None and k != skip and X.components(objs[k], exs[k]["kind"]) != t:
                now = X.components(objs[k], exs[k]["kind"])
                raise Violation("result-table-changed", "%s (%s) changed %r of a fitted %s explainer" % (
                    what, out.kind, [c for c in t if t[c] != now.get(c)], exs[k]["kind"]))
    return {"nontrivial": judged > 0}


def look(run, obj, kind, op, objs, exs, fitted, kw):
    from artemis.comparison import FeatureInteractionMethodComparator as C
    what = op["what"]
    if what == "plot":
        return lambda: V.plot(obj, op["plot"], kw)
    fs = list(obj.features_included) if obj.features_included is not None else None
    if what == "query":
        t = obj.ovo
        a, b = t.iloc[op["x"] % len(t), :2]
        return lambda: (obj.interaction_value(a, b), obj.interaction_value(b, a))
    if what == "compare":
        o = op["other"]
        if not fitted[o] or exs[o]["kind"] not in X.INTERACTION:
            return None
        other = objs[o]
        if op["show"] == "corr":
            return lambda: C().correlations(obj, other)
        if op["show"] == "summary":
            return lambda: C().summary(obj, other)
        return lambda: C().comparison_plot(obj, other, add_correlation_box=True)
    if kind not in ("friedman", "greenwell") or not fs:
        return None
    if what == "profile":
        a = fs[op["x"] % len(fs)]
        b = fs[(op["x"] // 3) % len(fs)]
        return lambda: obj.plot_profile(a, None if a == b else b, op["kindp"])
    return lambda: obj.plot_zenplot(min(op["x"] % 4 + 1, max(1, len(obj.ovo) - 1)), op["kindp"])
