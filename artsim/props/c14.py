"""C14: plots show the latest fit, whatever was drawn before, and only on figures of their own."""
import copy

from .. import explib as X, harness as H, plotcheck as K, plotlib as V, ref as R, treelib as T, world as W
from ..core import Violation

prepare = T.prepare
HIST = ("new", "grid", "sca", "old", "close", "closeall", "twin", "rc")


def gen(rng, tier):
    kind = rng.choice(["friedman", "friedman", "greenwell", "sejong", "ss", "ss", "cmd", "cmd"])
    kinds = [kind] + ([rng.choice(["friedman", "greenwell", "sejong"]) if kind in ("friedman", "greenwell", "sejong") else rng.choice(["ss", "cmd"])] if rng.random() < 0.3 else [])
    plan = X.gen_base(rng, tier, kinds)
    exs = [X.gen_explainer(rng, k, plan) for k in kinds]
    ops = [gen_fit(rng, e, exs, plan) for e in range(len(exs))]
    for _ in range(rng.choice([2, 3, 4]) if tier == "quick" else rng.choice([4, 6, 9])):
        r = rng.random()
        if r < 0.2:
            op = gen_fit(rng, rng.randrange(len(exs)), exs, plan)
            if rng.random() < 0.3:
                op["faults"] = [{"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 10)), "exc": "KeyboardInterrupt"}]
            ops.append(op)
            continue
        if r < 0.45:
            ops.append({"what": "pyplot", "do": rng.choice(HIST), "x": rng.randrange(10)})
        if plan["models"] and rng.random() < 0.08:
            op = gen_pdv(rng, plan)
            if op is not None:
                ops.append(op)
                continue
        e = rng.randrange(len(exs))
        kind = exs[e]["kind"]
        if kind in ("friedman", "greenwell") and rng.random() < 0.25:
            op = {"what": "profile", "ex": e, "x": rng.randrange(20), "kindp": rng.choice(["colormesh", "colormesh", "contour"])}
            if rng.random() < 0.4:
                op.update(what="zenplot", length=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))
        else:
            p = V.gen_plot(rng, kind)
            if p["vis"] in ("graph", "summary") and rng.random() < 0.4:
                thr = rng.choice([0.0, 0.01, 0.2, 0.5])
                if p["vis"] == "graph":
                    p["kw"] = dict(p["kw"], threshold_relevant_interaction=thr)
                else:
                    p["kw"] = dict(p["kw"], graph=dict(p["kw"].get("graph", {}), threshold_relevant_interaction=thr))
            op = {"what": "plot", "ex": e, "plot": p}
        op["faults"] = []
        if rng.random() < 0.25:
            op["faults"] = [{"kind": "interrupt", "call": None, "frac": rng.random(), "line": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
            ops.append(op)
            if rng.random() < 0.6:
                ops.append(dict(op, faults=[]))
            continue
        ops.append(op)
    return dict(plan, explainers=exs, ops=ops)


def gen_pdv(rng, plan):
    """scikit-learn's partial dependence of a model, drawn by PartialDependenceVisualizer."""
    m = rng.randrange(len(plan["models"]))
    w = plan["models"][m]["world"]
    num = [c["name"] for c in plan["worlds"][w]["cols"] if c["kind"] in ("int", "float") and len(set(c["vals"])) > 1 and max(abs(v) for v in c["vals"]) < 2 ** 40
           and c["vals"] and min(abs(u - v) for u in set(c["vals"]) for v in set(c["vals"]) if u != v) > 1e-6]
    if not num:
        return None
    feats = [rng.choice(num) for _ in range(rng.choice([1, 1, 2]))]
    if len(num) > 1 and rng.random() < 0.4:
        feats.append(rng.sample(num, 2))
    faults = H.gen_faults(rng, ("raise",), 0.25, max_call=6)
    for f in faults:
        if f["exc"] in ("StopIteration", "GeneratorExit", "StopAsyncIteration"):     # scikit-learn calls the model from inside a generator
            f["exc"] = "ValueError"
    n = W.rows_of(plan["worlds"][w])
    rows = list(range(n)) + [rng.randrange(n) for _ in range(rng.choice([0, 1, 3]))] if rng.random() < 0.5 else None       # some rows more than once
    return {"what": "pdv", "ex": 0, "rows": rows, "model": m, "features": feats, "title": rng.choice([None, "my title"]), "res": rng.choice([100, 40]), "faults": faults}


def gen_fit(rng, e, exs, plan):
    op = X.gen_fit(rng, exs[e]["kind"], plan, exs[e]["metric"])
    op.update(what="fit", ex=e)
    return op


def meddle(plt, op, mine):
    """What else the user does with pyplot."""
    do = op["do"]
    if do == "new":
        fig = plt.figure(figsize=(3, 2))
        fig.suptitle("mine")
        ax = fig.add_subplot(1, 1, 1)
        ax.plot([0, 1, op["x"]], [1, 2, 0])
        ax.set_title("mine")
    elif do == "grid":
        fig, ax = plt.subplots(2, 2, figsize=(3, 3))
        ax[0][1].barh([0, 1], [2, op["x"]])
        plt.sca(ax[op["x"] % 2][0])
    elif do == "twin":
        fig, ax = plt.subplots()
        ax.twinx().plot([3, 1])
    elif do == "rc":
        plt.rcParams["figure.figsize"] = [5, 3 + op["x"] % 3]
        plt.rcParams["axes.grid"] = bool(op["x"] % 2)
    else:
        figs = plt.get_fignums()
        if not figs:
            return
        n = figs[op["x"] % len(figs)]
        if do == "old":
            plt.figure(n)
        elif do == "sca":
            fig = plt.figure(n)
            if fig.axes:
                plt.sca(fig.axes[op["x"] % len(fig.axes)])
        elif do == "close":
            plt.close(n)
        else:
            plt.close("all")


def execute(plan, run):
    import matplotlib.pyplot as plt
    plt.close("all")
    bench = X.Bench(run)
    exs = plan["explainers"]
    objs = [bench.make(e) for e in exs]
    fits = [None] * len(objs)
    judged = plots = 0
    for op in plan["ops"]:
        what = op["what"]
        if what == "pyplot":
            meddle(plt, op, None)
            continue
        if what == "pdv":
            before = snapshot(plt)
            pdv(run, plt, op, before)
            judged += bool(before)
            continue
        e = op["ex"]
        obj, ex = objs[e], exs[e]
        kind = ex["kind"]
        if what == "fit":
            b = bench.bind(obj, ex, op)
            if b is None:
                continue
            out = run.attempt(b[0], op["faults"], label=kind, call_cap=60000, line_cap=30000000)
            run.must(out, kind + " fit")
            fits[e] = op if out.returned else None
            if out.kind == "ok" and b[1] is not None:
                b[1](out)
            run.note("fit", e, out.kind)
            continue
        if fits[e] is None:
            continue
        t = K.Tables(obj, kind, fits[e].get("imp"))
        if what == "plot":
            p = op["plot"]
            if not drawable(p, t):
                run.probe("undrawable_" + p["vis"])
                continue
            fn = lambda: V.plot(obj, p, copy.deepcopy(p["kw"]), (8, 6))           # noqa: E731
        elif what == "zenplot":
            rows = [(str(x), str(y), float(v)) for x, y, v in obj.ovo.iloc[:, :3].itertuples(index=False)]
            top = [v for _, _, v in rows[:op["length"] + 1]]
            if any(abs(u - v) <= 1e-9 * (abs(u) + abs(v)) for u, v in zip(top, top[1:])) or \
                    (op["kindp"] != "colormesh" and min(obj.X_sampled[f].nunique() for r in rows for f in r[:2]) < 2):
                run.probe("undrawable_zenplot")            # ties leave the path open
                continue
            path = K.zenpath(rows, op["length"])
            fn = lambda: obj.plot_zenplot(op["length"], op["kindp"], figsize=(6, 5))           # noqa: E731
        else:
            fs = [str(f) for f in obj.features_included]
            a, c = fs[op["x"] % len(fs)], fs[(op["x"] // 3) % len(fs)]
            c = None if a == c else c
            if c is not None and op["kindp"] != "colormesh" and min(obj.X_sampled[a].nunique(), obj.X_sampled[c].nunique()) < 2:
                run.probe("undrawable_contour")            # matplotlib draws no contours of a single value
                continue
            fn = lambda: obj.plot_profile(a, c, op["kindp"])                       # noqa: E731
        faults = op["faults"]
        if faults:
            cur = plt.gcf().number if plt.get_fignums() else None
            was = set(plt.get_fignums())
            dry = run.attempt(fn, [], label="dry", line_cap=30000000)
            for n in plt.get_fignums():
                if n not in was:
                    plt.close(n)
            if cur is not None:
                plt.figure(cur)
            faults = [dict(f, line=max(1, int(f["frac"] * dry.ctx.lines) + 1)) for f in faults]
        before = snapshot(plt)
        out = run.attempt(fn, faults, label=what, line_cap=30000000)
        label = op["plot"]["vis"] if what == "plot" else what
        run.note(label, e, out.kind, type(out.exc).__name__ if out.exc is not None else None)
        new = judge_figures(run, plt, out, before, "%s of %s" % (label, kind))
        if out.returned:
            if what == "plot":
                K.check_figure(new[0], label, t, op["plot"]["kw"], op["plot"]["title"])
            elif what == "zenplot":
                K.check_zenplot(new[0], path, {p: surface(run, obj, kind, fits[e], *p) for p in path}, op["kindp"], "zenplot of %s" % kind)
            else:
                profile(run, new[0], obj, kind, fits[e], a, c, op["kindp"])
            run.probe("checked_" + label)
            plots += 1
            judged += plots > 1 or bool(before) or len(run.sig) > 2
        else:
            run.probe("interrupted_" + label)
    plt.close("all")
    return {"nontrivial": judged > 0}


def judge_figures(run, plt, out, before, what):
    """Nobody else's figure may have changed; a finished plot has opened exactly one."""
    for fig, fp in before.values():
        now = K.fingerprint(fig)
        if now != fp:
            diff = [(x, y) for x, y in zip(fp, now) if x != y] or (len(fp), len(now))
            raise Violation("foreign-figure-changed", "%s (%s) changed a figure it did not create: %s" % (what, out.kind, str(diff)[:400]))
    if any(n not in plt.get_fignums() for n in before):
        raise Violation("foreign-figure-changed", "%s (%s) closed a figure it did not create" % (what, out.kind))
    run.must(out, what)
    new = [f for n, f in figures(plt) if n not in before]
    new = [f for f in new if f.axes]
    if out.returned and len(new) != 1:
        raise Violation("wrong-plot", "%s opened %d figures" % (what, len(new)))
    return new


def pdv(run, plt, op, before):
    from artemis.visualizer import PartialDependenceVisualizer
    from sklearn.base import BaseEstimator, RegressorMixin
    ms = run.plan["models"][op["model"]]
    w = ms["world"]
    sim = W.SimModel(dict(ms, api="predict", ret="array", labels=False, latency=0.0), run.plan["worlds"][w], ident=90 + op["model"])

    class Estimator(BaseEstimator, RegressorMixin):
        def __sklearn_is_fitted__(self):
            return True

        def fit(self, X, y):
            return self

        def predict(self, X):
            return sim.predict(X)

    X_ = W.build_frame(run.plan["worlds"][w])
    if op.get("rows"):
        X_ = X_.iloc[[r for r in op["rows"] if r < len(X_)]]
    names = W.names_of(run.plan["worlds"][w])
    keep = X_.copy()
    feats = [f if isinstance(f, str) else tuple(f) for f in op["features"]]
    kw = {} if op["title"] is None else {"title": op["title"]}
    out = run.attempt(lambda: PartialDependenceVisualizer(Estimator(), X_).plot(feats, grid_resolution=op["res"], **kw), op["faults"], label="pdv")
    run.note("pdv", op["model"], out.kind)
    what = "partial dependence display of %r" % (feats,)
    new = judge_figures(run, plt, out, before, what)
    if out.kind == "swallowed":
        raise Violation("swallowed", what + ": the model failed, the plot was drawn all the same")
    if not out.returned:
        run.probe("failed_pdv")
        return
    if not X_.equals(keep):
        raise Violation("caller-object-changed", what + " changed the data")
    fig = new[0]
    title = op["title"] or "Partial Dependence"
    if title not in [a.get_title() for a in fig.axes]:
        raise Violation("wrong-plot", "%s: titles %r, expected %r" % (what, [a.get_title() for a in fig.axes], title))
    codes = run.grids[w].codes(X_)
    ref = R.RefPD(sim, codes)
    panels = [a for a in fig.axes if a.get_xlabel()]
    if len(panels) != len(feats):
        raise Violation("wrong-plot", "%s: %d panels" % (what, len(panels)))
    for ax, f in zip(panels, feats):
        if not isinstance(f, str):
            if (ax.get_xlabel(), ax.get_ylabel()) != f:
                raise Violation("wrong-plot", "%s: axes are labelled %r" % (what, (ax.get_xlabel(), ax.get_ylabel())))
            continue
        pts = [(v, ref.single(names.index(f), k)) for v, k in levels(X_, codes, names.index(f))]
        if ax.get_xlabel() != f or not any(K.same_line(ln, pts) for ln in ax.lines if len(ln.get_ydata()) == len(pts)):
            raise Violation("wrong-plot", "%s: panel %r shows %r, the partial dependence is %r" % (
                what, ax.get_xlabel(), [list(zip(list(ln.get_xdata()), list(ln.get_ydata()))) for ln in ax.lines], pts))
    run.probe("checked_pdv")


def snapshot(plt):
    return {n: (f, K.fingerprint(f)) for n, f in figures(plt)}


def figures(plt):
    from matplotlib import _pylab_helpers as ph
    return sorted((n, m.canvas.figure) for n, m in ph.Gcf.figs.items())


def drawable(p, t):
    """Plots without content are left alone: nothing says what they look like."""
    vals = [v for _, _, v in t.rows if v == v]
    if not vals:
        return False
    return not (p["vis"] == "bar_chart_ova" and t.ova is None)


def reference(run, obj, fit):
    w = fit["world"]
    X_ = obj.X_sampled
    codes = run.grids[w].codes(X_)
    return X_, W.names_of(run.plan["worlds"][w]), codes, R.RefPD(run.models[fit["model"]], codes)


def levels(X_, codes, j):
    return sorted({v: int(k) for v, k in zip(X_.iloc[:, j].tolist(), codes[:, j])}.items())


def surface(run, obj, kind, fit, a, c):
    """Values of both features, partial dependence at each combination, and the combinations the fit had to compute."""
    X_, names, codes, ref = reference(run, obj, fit)
    ja, jc = names.index(a), names.index(c)
    la, lc = levels(X_, codes, ja), levels(X_, codes, jc)
    pd = {(v, u): ref.pair(ja, jc, k, m) for v, k in la for u, m in lc}
    needed = set(pd) if kind == "greenwell" else set(zip(X_.iloc[:, ja].tolist(), X_.iloc[:, jc].tolist()))
    return [v for v, _ in la], [u for u, _ in lc], pd, needed


def profile(run, fig, obj, kind, fit, a, c, kindp):
    X_, names, codes, ref = reference(run, obj, fit)
    if c is None:
        j = names.index(a)
        K.check_profile(fig, names, (a, [(v, ref.single(j, k)) for v, k in levels(X_, codes, j)]), None, kindp, "profile of %s" % a)
        return
    K.check_profile(fig, names, None, (a, c) + surface(run, obj, kind, fit, a, c), kindp, "profile of %s and %s" % (a, c))
