"""C06: the results an explainer shows always come from one single fit."""
import copy

from .. import core, explib as X, harness as H, treelib as T
from ..core import Violation

KIND_POOL = ["friedman"] * 4 + ["greenwell"] * 2 + ["sejong"] * 3 + ["additivity"] * 2 + ["pdimp", "permimp"] + ["ss"] * 3 + ["cmd"] * 2 + ["ssimp"]
GATES = ["value", "plot", "compare", "compare2", "profile", "zenplot", "summary", "bar"]
prepare = T.prepare


def gen(rng, tier):
    kind = rng.choice(KIND_POOL)
    plan = X.gen_base(rng, tier, [kind])
    ex = X.gen_explainer(rng, kind, plan)
    nfits = rng.choice([2, 3, 3, 4]) if tier == "quick" else rng.choice([3, 4, 5])
    if kind in ("ss", "cmd"):
        nfits = min(nfits, 3)
    ops = []
    retrained, edited = rng.random() < 0.45, rng.random() < 0.4
    for k in range(nfits):
        op = X.gen_fit(rng, kind, plan, ex["metric"])
        if retrained and kind not in X.TREE_KINDS:
            if ops and rng.random() < 0.6:         # the same call again
                op = {c: v for c, v in ops[-1].items() if c not in ("bad", "faults")}
                op["faults"] = []
            if edited:
                op["dataver"] = k if rng.random() < 0.8 else 0
            else:
                op["version"] = k if rng.random() < 0.8 else 0
        r = rng.random()
        if r < 0.5 and not (k == nfits - 1 and rng.random() < 0.3):
            if r < 0.12:
                op["bad"] = rng.choice(X.BADS[kind])
            elif r < 0.26 and kind not in ("cmd", "ssimp"):
                op["faults"] = [{"kind": "raise", "call": None, "frac": rng.choice([0.0, rng.random(), rng.random(), 1.0]), "exc": rng.choice(H.RAISES)}]
            else:
                op["faults"] = [{"kind": "interrupt", "frac": rng.choice([None, rng.random()]), "back": int(2 ** rng.uniform(0, 7)) - 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
        op["gates"] = rng.sample(GATES, rng.choice([1, 2, 3]))
        ops.append(op)
    if rng.random() < 0.3:
        ops.insert(0, {"op": "gate", "gates": rng.sample(GATES, 2)})
    return dict(plan, explainer=ex, ops=ops, fixed_sample=True)      # the importance takes no random_state: its sample cannot be repeated


def concrete(faults, calls, lines):
    """Turn relative fault positions into exact ones, from the length of the healthy execution."""
    out = []
    for f in faults:
        f = dict(f)
        if f["kind"] == "raise" and f.get("call") is None:
            f["call"] = max(1, min(calls, 1 + int(f["frac"] * calls)))
        elif f["kind"] == "interrupt" and "back" in f:
            f["call"] = None
            f["line"] = max(1, lines - f["back"]) if f.get("frac") is None else max(1, int(f["frac"] * lines))
        out.append(f)
    return out


class Story:
    """One explainer and everything that was done to it."""

    def __init__(self, run, bench, ex):
        self.run, self.bench, self.ex = run, bench, ex
        self.obj = bench.make(ex)
        self.done = []

    def step(self, op, faults, label):
        b = self.bench.bind(self.obj, self.ex, op)
        if b is None:
            return None, None
        fn, verify = b
        out = self.run.attempt(fn, faults, label=label, call_cap=60000, line_cap=30000000)
        self.done.append((op, faults))
        return out, verify


def gate(run, obj, kind, g, other):
    """Returns a function that looks at the explainer, or None."""
    if kind not in X.INTERACTION:
        return None
    from artemis.comparison import FeatureInteractionMethodComparator
    if g == "value":
        return lambda: obj.interaction_value("a", "b")
    if g == "plot":
        return lambda: obj.plot("heatmap")
    if g == "bar":
        return lambda: obj.plot("bar_chart")
    if g == "summary":
        return lambda: obj.plot("summary")
    if g == "compare":
        return lambda: FeatureInteractionMethodComparator().correlation(obj, other)
    if g == "compare2":
        return lambda: FeatureInteractionMethodComparator().summary(other, obj)
    if g == "profile" and kind in ("friedman", "greenwell"):
        return lambda: obj.plot_profile(run.plan["worlds"][0]["cols"][0]["name"])
    if g == "zenplot" and kind in ("friedman", "greenwell"):
        return lambda: obj.plot_zenplot(2)
    return None


def check_gates(run, obj, kind, gates, complete, other):
    import matplotlib.pyplot as plt
    from artemis._utilities.exceptions import MethodNotFittedException
    for g in gates:
        fn = gate(run, obj, kind, g, other)
        if fn is None:
            continue
        if complete and g in ("summary", "zenplot"):
            continue
        out = run.attempt(fn, label="gate:" + g, line_cap=30000000)
        plt.close("all")
        run.note("gate", g, complete, type(out.exc).__name__)
        if complete:
            run.probe("gate_open_" + g)
            if isinstance(out.exc, MethodNotFittedException):
                raise Violation("fitted-but-refused", "%s refuses a fitted %s explainer" % (g, kind))
        else:
            run.probe("gate_closed_" + g)
            if not isinstance(out.exc, MethodNotFittedException):
                raise Violation("shown-without-result", "%s on a %s explainer without a complete result: %s" % (
                    g, kind, "no error" if out.exc is None else H.short(out.exc)))


def execute(plan, run):
    bench = X.Bench(run)
    ex = plan["explainer"]
    kind = ex["kind"]
    main = Story(run, bench, ex)
    snaps = []                     # complete snapshots of all fits so far
    complete = False
    failed = judged = 0
    other = None
    for op in plan["ops"]:
        if op["op"] == "gate":
            check_gates(run, main.obj, kind, op["gates"], complete, make_other(run, bench) if other is None else other)
            continue
        faults = op.get("faults", [])
        # what this fit shows when nothing disturbs it: the same story told again without the last fault or bad argument
        twin = Story(run, bench, ex)
        for o, fs in main.done:
            twin.step(o, fs, "twin")
        healthy = {k: v for k, v in op.items() if k != "bad"}
        out, verify = twin.step(healthy, [], "twin")
        if out is None:
            continue
        run.must(out, kind + " fit")
        snap = X.components(twin.obj, kind)
        if kind == "friedman" and not op["ova"]:
            snap["ova"] = None
        faults = concrete(faults, out.ctx.calls, out.ctx.lines)
        out, verify = main.step(op, faults, kind)
        if out is None:
            continue
        run.note("fit", kind, op.get("bad"), out.kind, tuple(out.ctx.fired))
        if op.get("bad"):
            if out.returned:
                return {"nontrivial": False}          # accepted after all: nothing to judge it by
        else:
            run.must(out, kind + " fit")
        snaps.append(snap)
        state = X.components(main.obj, kind)
        if out.returned:
            judged += 1
            verify(out)
            X.check_fresh(main.obj, kind, op)
            if not X.is_complete(state, snap):
                bad = [c for c in set(state) | set(snap) if state.get(c) != snap.get(c)]
                raise Violation("mixed-results", "after a successful %s fit, %s differ from what the same calls show without the earlier disturbances" % (kind, bad))
            complete = True
        else:
            failed += 1
            cands = snaps
            shown = [c for c, v in state.items() if v is not None and c != "direction"]
            if shown and not any(X.explained_by(state, s) for s in cands):
                raise Violation("mixed-results", "after a failed %s fit (%s) the explainer shows %s, which do not stem from one single fit" % (
                    kind, op.get("bad") or ",".join(out.ctx.fired), shown))
            complete = bool(shown) and any(X.is_complete(state, s) for s in cands)
            if shown and not complete and not any(f["kind"] == "interrupt" for f in faults) and not X.explained_by(state, snap):
                raise Violation("stale-result", "after a %s fit that failed (%s) the explainer still shows %s of an earlier fit, but not that fit's other results" % (
                    kind, op.get("bad") or ",".join(out.ctx.fired), shown))
            run.probe("failed_kept_complete" if complete else "failed_shows_nothing" if not shown else "failed_shows_part")
        if kind in X.INTERACTION:
            if other is None:
                other = make_other(run, bench)
            check_gates(run, main.obj, kind, op.get("gates", ()), complete, other)
    return {"nontrivial": judged > 0 and failed > 0 or judged > 1}


class Fitted:
    """A fitted counterpart for comparisons."""


def make_other(run, bench):
    import pandas as pd
    S = bench.P
    o = S.Friedman()
    names = None
    if run.plan.get("worlds"):
        m = run.models[0]
        w = run.plan["models"][0]["world"]
        o.fit(m, run.worlds[w])
    else:
        o.ovo = pd.DataFrame({"Feature 1": ["a"], "Feature 2": ["b"], o.method: [1.0]})
    return o
