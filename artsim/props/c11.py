"""C11: a comparison of two methods reflects their current results only."""
import math

import numpy as np

from .. import core, explib as X, harness as H, treelib as T, world as W
from ..core import Violation

prepare = T.prepare
CORRS = ("pearson", "kendall", "spearman")


def gen(rng, tier):
    if rng.random() < 0.65:
        kinds = [rng.choice(["friedman", "greenwell", "sejong"]) for _ in range(rng.choice([2, 2, 3]))]
        plan = X.gen_base(rng, tier, kinds, ncols=(2, 3, 3, 3, 4, 4, 5))
        for w in plan["worlds"][1:]:                       # the same features everywhere, so that all fits can be compared
            for c, c0 in zip(w["cols"], plan["worlds"][0]["cols"]):
                c["name"] = c0["name"]
        # mutual relabelling: sometimes features whose names sort against their column order
    else:
        kinds = [rng.choice(["ss", "cmd"]) for _ in range(2)]
        plan = {"worlds": [], "models": [], "tmodels": []}
        names = rng.choice(T.NAME_SETS)[:]
        rng.shuffle(names)
        names = names[:rng.choice([3, 4, 4, 5])]
        for k in kinds:
            tm = T.gen_tree_model(rng, T.GB if k == "ss" else T.FOREST, names)
            tm["names"] = list(names)
            tm["depth"] = max(3, tm["depth"])
            plan["tmodels"].append(tm)
    exs = [X.gen_explainer(rng, k, plan) for k in kinds]
    ops = []
    nc = rng.choice([1, 1, 2])
    for e in range(len(exs)):
        ops.append(gen_fit(rng, e, exs, plan))
    # half of the stories keep comparing the same two methods with the same comparator, with refits in between
    pin = [rng.randrange(len(exs)), rng.randrange(len(exs))] if rng.random() < 0.5 else None
    if pin and pin[0] == pin[1]:
        pin[1] = (pin[1] + 1) % len(exs)
    what = rng.choice(["summary", "plot", None])
    for i in range(rng.choice([2, 3, 4, 5]) if tier == "quick" else rng.choice([4, 6, 9])):
        if i % 2 if pin else rng.random() < 0.3:
            op = gen_fit(rng, rng.choice(pin) if pin else rng.randrange(len(exs)), exs, plan)
            if rng.random() < (0.15 if pin else 0.35):
                op["faults"] = [{"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 10)), "exc": "KeyboardInterrupt"}]
        else:
            a, b = rng.randrange(len(exs)), rng.randrange(len(exs))
            op = {"what": rng.choice(["summary", "summary", "corrs", "corr", "plot", "plot", "plot"]), "a": a, "b": b, "cmp": rng.randrange(nc), "corr": rng.choice(CORRS),
                  "box": rng.random() < 0.7, "n_labels": rng.choice([3, 0, 1, 2, 20]), "faults": []}
            if pin:
                op.update(a=pin[0], b=pin[1], cmp=0)
                if what:
                    op["what"] = what
            if rng.random() < 0.3:
                op["faults"] = [{"kind": "interrupt", "call": None, "frac": rng.random(), "line": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
        ops.append(op)
        if op["what"] == "fit" and op["faults"] and rng.random() < 0.6:
            ops.append(dict(op, faults=[]))
    return dict(plan, explainers=exs, ops=ops, ncmp=nc, fixed_sample=True)


def gen_fit(rng, e, exs, plan):
    op = X.gen_fit(rng, exs[e]["kind"], plan, exs[e]["metric"])
    if op.get("features") is not None and rng.random() < 0.85 and exs[e]["kind"] in ("friedman", "greenwell", "sejong"):
        op["features"] = None
    if op.get("strict") and rng.random() < 0.6:
        op["strict"] = False
    op.update(what="fit", ex=e)
    return op


# ----------------------------------------------------------------- reference
def ranks(v):
    s = sorted(v)
    first, cnt = {}, {}
    for i, x in enumerate(s):
        first.setdefault(x, i)
        cnt[x] = cnt.get(x, 0) + 1
    return [first[x] + (cnt[x] + 1) / 2 for x in v]


def pearson(a, b):
    n = len(a)
    if n < 2:
        return None
    ma, mb = sum(a) / n, sum(b) / n
    sa = sum((x - ma) ** 2 for x in a)
    sb = sum((y - mb) ** 2 for y in b)
    if sa == 0 or sb == 0:
        return None
    return sum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def kendall(a, b):
    n = len(a)
    c = ta = tb = 0
    for i in range(n):
        for j in range(i):
            da = (a[i] > a[j]) - (a[i] < a[j])
            db = (b[i] > b[j]) - (b[i] < b[j])
            c += da * db
            ta += da == 0
            tb += db == 0
    t = n * (n - 1) / 2
    if t == ta or t == tb:
        return None
    return c / math.sqrt((t - ta) * (t - tb))


class Strengths:
    """What a fitted method holds right now."""

    def __init__(self, obj, kind):
        self.kind = kind
        self.name = obj.method
        self.ascending = kind == "cmd" or (kind == "ss" and obj.metric == "mean_depth")
        t = obj.ovo
        f1, f2 = ("root_variable", "variable") if kind == "cmd" else ("Feature 1", "Feature 2")
        rows = list(zip(t[f1].tolist(), t[f2].tolist(), [float("nan") if v is None else float(v) for v in t[obj.method].tolist()]))
        self.rows = rows
        self.pairs = {}
        for a, b, v in rows:
            key = frozenset((a, b))
            q = float(obj.interaction_value(a, b))
            alts = [x for c, d, x in rows if {c, d} == {a, b}]
            if kind == "cmd":
                alts = [x for x in alts if x == x]
                ok = (q != q and not alts) or (alts and abs(q - sum(alts) / len(alts)) < 1e-9)
            elif kind == "ss":
                ok = q == (min(alts) if self.ascending else max(alts))
            else:
                ok = q == v
            if not ok:
                raise Violation("wrong-value", "interaction_value(%r, %r) is %r, the table of %s says %r" % (a, b, q, kind, alts))
            self.pairs[key] = q


def reference(s1, s2):
    keys = [k for k in s1.pairs if k in s2.pairs and s1.pairs[k] == s1.pairs[k] and s2.pairs[k] == s2.pairs[k]]
    a = [(-1 if s1.ascending else 1) * s1.pairs[k] for k in keys]
    b = [(-1 if s2.ascending else 1) * s2.pairs[k] for k in keys]
    sp = pearson(ranks(a), ranks(b))
    return {"pearson": sp, "spearman": sp, "kendall": kendall(a, b)}, len(keys)


def judge(got, want, what, tol=1e-9):
    g = float(got)
    if want is None:
        if g == g:
            raise Violation("wrong-correlation", "%s is %r where the ranks have no variation" % (what, g))
    elif not abs(g - want) <= tol:
        raise Violation("wrong-correlation", "%s is %r, the rank correlation of the two methods' strengths is %r" % (what, g, want))


def check_df(df, want, what):
    got = dict(zip(df["method"].tolist(), df["value"].tolist()))
    if sorted(got) != sorted(CORRS):
        raise Violation("wrong-rows", "%s lists %r" % (what, sorted(got)))
    for m in CORRS:
        judge(got[m], want[m], "%s: %s" % (what, m))


def points_of(ax):
    out = []
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), dtype=float)
        out += [tuple(p) for p in np.ma.filled(np.ma.asarray(off), np.nan).tolist()]
    return out


def canon(ps):
    return sorted(tuple(round(v, 9) if v == v else 1e300 for v in p) for p in ps)


def check_plot(fig, ax, s1, s2, want, op, what, box):
    if ax.figure is not fig or ax not in fig.axes:
        raise Violation("wrong-plot", "%s: the returned axes do not lie on the returned figure" % what)
    rows = [(a, b, v) for a, b, v in s1.rows]
    if s1.kind == "cmd":
        rows = [(min(k), max(k), v) for k, v in s1.pairs.items()]
    full = [(v, s2.pairs[frozenset((a, b))]) for a, b, v in rows]
    dedup = [(v, s2.pairs[k]) for k, v in s1.pairs.items()]
    got = points_of(ax)
    seen = canon(got)
    if seen not in (canon(full), canon(dedup)):
        keep = canon([p for p in full if all(v == v for v in p)])
        if [p for p in seen if 1e300 not in p] != keep:
            raise Violation("wrong-plot", "%s shows points %r, the methods hold %r" % (what, seen, canon(full)))
    if ax.get_xlabel() != s1.name or ax.get_ylabel() != s2.name:
        raise Violation("wrong-plot", "%s labels its axes %r and %r" % (what, ax.get_xlabel(), ax.get_ylabel()))
    if bool(ax.xaxis_inverted()) != s1.ascending or bool(ax.yaxis_inverted()) != s2.ascending:
        raise Violation("wrong-plot", "%s: axis direction does not fit the methods' ranking direction" % what)
    ann = [t for t in ax.texts if hasattr(t, "xyann")]
    nb = len(full)
    if len(ann) != min(op["n_labels"] if op else 3, nb):
        raise Violation("wrong-plot", "%s labels %d pairs, %d were asked for" % (what, len(ann), op["n_labels"] if op else 3))
    for t in ann:
        ok = False
        for (a, b, v), p in zip(rows, full):
            if t.get_text() in (a + "-" + b, b + "-" + a) and canon([tuple(map(float, t.xy))]) == canon([p]):
                ok = True
        if not ok:
            raise Violation("wrong-plot", "%s: label %r points at %r" % (what, t.get_text(), t.xy))
    lab = sorted((float(t.xy[0]) for t in ann), reverse=not s1.ascending)
    top = sorted((v for _, _, v in rows if v == v), reverse=not s1.ascending)[:len(ann)]
    if all(x == x for x in lab) and len(top) == len(lab) and any(abs(x - y) > 1e-9 for x, y in zip(lab, top)):
        raise Violation("wrong-plot", "%s labels pairs with values %r, the strongest are %r" % (what, lab, top))
    boxes = [t.get_text() for t in ax.texts if not hasattr(t, "xyann")]
    if not box:
        if boxes:
            raise Violation("wrong-plot", "%s shows %r without being asked to" % (what, boxes))
        return
    vals = {}
    for t in boxes:
        for ln in t.split("\n"):
            if "=" in ln:
                k, v = ln.rsplit("=", 1)
                vals[k.strip().lower()] = v
    if sorted(vals) != sorted(CORRS):
        raise Violation("wrong-plot", "%s: correlation box shows %r" % (what, boxes))
    for m in CORRS:
        judge(vals[m], want[m], "%s: correlation box, %s" % (what, m), 0.00051)


def execute(plan, run):
    from artemis.comparison import FeatureInteractionMethodComparator as C
    import matplotlib.pyplot as plt
    bench = X.Bench(run)
    exs = plan["explainers"]
    objs = [bench.make(e) for e in exs]
    fitted = [False] * len(objs)
    cmps = [C() for _ in range(plan["ncmp"])]
    kept = [{"df": [], "plot": []} for _ in cmps]            # what summaries of this comparator have produced: (state of df, id of figure) per summary
    judged = 0
    for op in plan["ops"]:
        if op["what"] == "fit":
            e = op["ex"]
            b = bench.bind(objs[e], exs[e], op)
            if b is None:
                run.probe("fit_impossible:" + exs[e]["kind"])
                continue
            out = run.attempt(b[0], op["faults"], label=exs[e]["kind"], call_cap=60000, line_cap=30000000)
            run.must(out, exs[e]["kind"] + " fit")
            fitted[e] = out.returned
            run.note("fit", e, out.kind)
            continue
        a, b = op["a"], op["b"]
        if not (fitted[a] and fitted[b]):
            run.probe("skipped_not_fitted")
            continue
        s1, s2 = Strengths(objs[a], exs[a]["kind"]), Strengths(objs[b], exs[b]["kind"])
        want, n = reference(s1, s2)
        if n < 2:
            run.probe("skipped_few_pairs:%s:%s" % (exs[a]["kind"], exs[b]["kind"]))
            continue
        missing = any(k not in s2.pairs for k in s1.pairs)
        if missing and op["what"] in ("summary", "plot"):
            run.probe("pair_missing")
            continue
        c = cmps[op["cmp"]]
        m1, m2 = objs[a], objs[b]
        what = op["what"]
        if what == "summary":
            fn = lambda: c.summary(m1, m2)                     # noqa: E731
        elif what == "corrs":
            fn = lambda: c.correlations(m1, m2)                # noqa: E731
        elif what == "corr":
            fn = lambda: c.correlation(m1, m2, op["corr"])     # noqa: E731
        else:
            fn = lambda: c.comparison_plot(m1, m2, op["n_labels"], op["box"])       # noqa: E731
        fs = op["faults"]
        if fs:
            dry = run.attempt(twin(C, what, m1, m2, op), [], label="dry", line_cap=30000000)
            plt.close("all")
            fs = [dict(f, line=max(1, int(f["frac"] * dry.ctx.lines) + 1)) for f in fs]
        out = run.attempt(fn, fs, label=what, line_cap=30000000)
        run.must(out, "comparator " + what)
        run.note(what, a, b, out.kind)
        k = kept[op["cmp"]]
        if out.returned:
            judged += 1
            run.probe("checked_" + what)
            if what == "corr":
                judge(out.value, want[op["corr"]], op["corr"])
            elif what == "corrs":
                check_df(out.value, want, "correlations()")
            elif what == "plot":
                fig, ax = out.value
                check_plot(fig, ax, s1, s2, want, op, "comparison plot", op["box"])
            else:
                check_df(c.correlations_df, want, "summary correlations")
                fig, ax = c.ovo_profiles_comparison_plot
                check_plot(fig, ax, s1, s2, want, None, "summary plot", True)
                k["df"].append(H.any_state(c.correlations_df))
                k["plot"].append(ax)
        elif what == "summary":
            # an aborted summary shows nothing, an earlier summary or itself, but never a mixture
            df, pl = c.correlations_df, c.ovo_profiles_comparison_plot
            run.probe("aborted_summary")
            if df is not None and pl is not None:
                st = H.any_state(df)
                ok = any(st == d and pl[1] is p for d, p in zip(k["df"], k["plot"]))
                if not ok and not any(pl[1] is p for p in k["plot"]):
                    check_df(df, want, "correlations of an aborted summary")
                    ok = True
                if not ok:
                    raise Violation("mixed-comparison", "after an aborted summary the comparator shows correlations and a plot of two different comparisons")
        if len(k["plot"]) < 1:
            plt.close("all")
    return {"nontrivial": judged > 0}


def twin(C, what, m1, m2, op):
    c = C()
    if what == "summary":
        return lambda: c.summary(m1, m2)
    if what == "corrs":
        return lambda: c.correlations(m1, m2)
    if what == "corr":
        return lambda: c.correlation(m1, m2, op["corr"])
    return lambda: c.comparison_plot(m1, m2, op["n_labels"], op["box"])
