"""Reads drawn figures back and compares them with the result tables they have to show."""
import math

import numpy as np
import pandas as pd

from .core import Violation


def bad(msg, *a):
    raise Violation("wrong-plot", msg % a)


def num(v):
    return float("nan") if v is None else float(v)


def near(a, b, tol=1e-7):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ----------------------------------------------------------------- tables
class Tables:
    """The result tables of a fitted explainer."""

    def __init__(self, obj, kind, imp_metric=None):
        self.kind = kind
        self.method = obj.method
        self.directed = kind == "cmd"
        self.ascending = kind == "cmd" or (kind == "ss" and obj.metric == "mean_depth")
        f1, f2 = ("root_variable", "variable") if kind == "cmd" else ("Feature 1", "Feature 2")
        t = obj.ovo
        self.rows = list(zip(t[f1].tolist(), t[f2].tolist(), [num(v) for v in t[obj.method].tolist()]))
        self.occ = t["n_occurences"].tolist() if kind == "cmd" else None
        fi = obj.feature_importance
        self.imp_ascending = kind == "cmd" or (kind == "ss" and "depth" in imp_metric)
        self.imp = dict(zip(fi["Feature"].tolist(), [num(v) for v in fi["Importance"].tolist()]))
        ova = getattr(obj, "ova", None)
        self.ova = None if ova is None else list(zip(ova["Feature"].tolist(), [num(v) for v in ova[obj.method].tolist()]))
        self.full = getattr(obj, "full_result", None)
        self.names = sorted({f for r in self.rows for f in r[:2]})

    def cell(self, r, c):
        """Value a matrix cell has to show: the row (r, c), otherwise (for undirected methods) (c, r)."""
        if r == c:
            return self.imp.get(r, float("nan"))
        for a, b, v in self.rows:
            if (a, b) == (r, c) and v == v:
                return v
        if not self.directed:
            for a, b, v in self.rows:
                if (a, b) == (c, r) and v == v:
                    return v
        return float("nan")


def main_axes(fig):
    return [a for a in fig.axes if a.get_label() != "<colorbar>"]


def finite_rects(ax):
    from matplotlib.patches import Rectangle
    return [p for p in ax.patches if isinstance(p, Rectangle)]


def ticks(axis_ticks, labels):
    return [(float(t), l.get_text()) for t, l in zip(axis_ticks, labels) if l.get_text() != ""]


def at(tk, pos, tol=0.26):
    best = [(abs(t - pos), l) for t, l in tk if abs(t - pos) < tol]
    return min(best)[1] if best else None


def is_heatmap(ax):
    from matplotlib.collections import QuadMesh
    return any(isinstance(c, QuadMesh) for c in ax.collections)


# ----------------------------------------------------------------- single panels
def check_heatmap(ax, t, fmt, what="heatmap", colours=True):
    xt, yt = ticks(ax.get_xticks(), ax.get_xticklabels()), ticks(ax.get_yticks(), ax.get_yticklabels())
    need = {f for f in t.names if any(np.isfinite(t.cell(f, g)) or np.isfinite(t.cell(g, f)) for g in t.names)}
    lx, ly = [l for _, l in xt], [l for _, l in yt]
    if sorted(lx) != sorted(ly) or len(set(lx)) != len(lx) or not need <= set(lx) <= set(t.names):
        bad("%s: axes list %r and %r, the fit has %r", what, [l for _, l in xt], [l for _, l in yt], t.names)
    seen = {}
    for x in ax.texts:
        if x.get_text() in ("", "--", "nan"):        # seaborn writes "--" into masked cells under some matplotlib versions
            continue
        px, py = x.get_position()
        c, r = at(xt, px), at(yt, py)
        if c is None or r is None:
            bad("%s: text %r lies in no cell", what, x.get_text())
        if (r, c) in seen:
            bad("%s: cell (%s, %s) is written twice: %r and %r", what, r, c, seen[r, c], x.get_text())
        seen[r, c] = x.get_text()
    from matplotlib.collections import QuadMesh
    k = len(lx)
    cells = {}
    diag, off = [], []
    for m in ax.collections:
        if not isinstance(m, QuadMesh):
            continue
        arr = np.ma.asarray(m.get_array(), dtype=float)
        arr = np.ma.masked_where(np.isnan(np.ma.filled(arr, np.nan)), arr)
        if arr.size != k * k:
            bad("%s: %d cells for %d features", what, arr.size, k)
        arr = arr.reshape(k, k)
        for i in range(k):
            for j in range(k):
                if not np.ma.is_masked(arr[i, j]):
                    r, c = at(yt, i + 0.5), at(xt, j + 0.5)
                    if (r, c) in cells:
                        bad("%s: cell (%s, %s) is drawn twice", what, r, c)
                    cells[r, c] = float(arr[i, j])
                    (diag if r == c else off).append(m)
    for ms, up, lab in ((off, t.ascending, "interactions"), (diag, t.imp_ascending, "importances")):
        for m in ms[:1]:
            dark = sum(m.get_cmap()(1.0)[:3]) < sum(m.get_cmap()(0.0)[:3])
            if colours and dark == up:
                bad("%s: the colours of the %s run against their ranking", what, lab)
    for r in t.names:
        for c in t.names:
            v = t.cell(r, c)
            v = float("nan") if v in (float("inf"), -float("inf")) else v           # drawn as blank
            s = seen.get((r, c))
            w = cells.get((r, c), float("nan"))
            if not near(v, w):
                bad("%s: cell (%s, %s) is coloured for %r, the fit has %r", what, r, c, w, v)
            if s is not None and s not in ("inf", "-inf") and (v != v or not shown_as(s, v, fmt)):
                bad("%s: cell (%s, %s) shows %r, the fit has %r", what, r, c, s, v)
    check_order(lx, ly, t, what)
    return True


def check_order(lx, ly, t, what):
    """Features in the order of their combined strength: importance and strongest interaction, each relative to the largest."""
    if lx != ly:
        bad("%s: columns in the order %r, rows in the order %r", what, lx, ly)
    vals = {(r, c): t.cell(r, c) for r in lx for c in lx}
    if t.ascending != t.imp_ascending or len(lx) < 2 or not all(np.isfinite(v) for v in vals.values()):
        return
    top_imp, top = max(vals[f, f] for f in lx), max(vals.values())
    if top_imp <= 0 or top <= 0:
        return
    score = [vals[f, f] / top_imp + max(vals[g, f] for g in lx if g != f) / top for f in lx]
    for a, b, f, g in zip(score, score[1:], lx, lx[1:]):
        if (a > b + 1e-9) if t.ascending else (a < b - 1e-9):
            bad("%s: %s comes before %s, their strengths are %r and %r", what, f, g, a, b)


def shown_as(s, v, fmt):
    if s == format(v, fmt):
        return True
    try:
        x = float(s)
    except ValueError:
        return False
    q = float(format(v, fmt))
    d = len(fmt_digits(s))
    e = 0
    if "e" in s:
        e = int(s.split("e")[1])
    return abs(x - q) <= 1.01 * 10.0 ** (e - d) if abs(v - (x + q) / 2) <= 0.51 * 10.0 ** (e - d) else x == q


def fmt_digits(s):
    m = s.split("e")[0]
    return m.split(".")[1] if "." in m else ""


def bars(ax, horizontal):
    """[(name, value)] from first to last in reading order (top to bottom, left to right)."""
    tk = ticks(ax.get_yticks(), ax.get_yticklabels()) if horizontal else ticks(ax.get_xticks(), ax.get_xticklabels())
    out = {}
    for p in finite_rects(ax):
        v = p.get_width() if horizontal else p.get_height()
        pos = p.get_y() + p.get_height() / 2 if horizontal else p.get_x() + p.get_width() / 2
        base = p.get_x() if horizontal else p.get_y()
        if v == v and abs(base) > 1e-9:
            bad("bar at %r starts at %r", pos, base)
        if not horizontal and v != v:
            continue
        name = at(tk, pos, 0.45)
        out.setdefault(pos, []).append((name, v))
    inv = bool(ax.yaxis_inverted()) if horizontal else not ax.xaxis_inverted()
    flat = []
    for pos in sorted(out, reverse=not inv):
        flat += out[pos]
    return flat, tk


def names_of(a, b, directed):
    return {a + ":" + b} if directed else {a + ":" + b, b + ":" + a}


def match_rows(got, rows, k, what, ascending):
    """got [(label, value)] are the first k of rows [(labels, value)], in order up to ties."""
    exp = rows[:k]
    if len(got) != len(exp):
        bad("%s: %d bars, expected %d of %d rows", what, len(got), len(exp), len(rows))
    for (l, v), (_, w) in zip(got, exp):
        if not near(v, w):
            bad("%s: bars show %r, the fit has %r", what, got, [(sorted(a)[0], b) for a, b in exp])
    pool = list(rows)
    for l, v in got:
        for i, (ls, w) in enumerate(pool):
            if l in ls and near(v, w):
                del pool[i]
                break
        else:
            bad("%s: bar %r shows %r, the fit has %r", what, l, v, [(sorted(a)[0], b) for a, b in rows])


def check_bars_ovo(ax, t, k, what="bar chart"):
    got, tk = bars(ax, True)
    rows = [(names_of(a, b, t.directed or t.kind == "ss"), v) for a, b, v in t.rows]
    nan = [r for r in rows if r[1] != r[1]]
    if nan:
        got = [g for g in got if g[1] == g[1] and not (g[1] == 0 and any(g[0] in n[0] for n in nan))]
        rows = [r for r in rows[:k] if r[1] == r[1]]
    match_rows(got, rows, k, what, t.ascending)


def check_bars_ova(ax, t, k, what="one-vs-all bar chart"):
    got, tk = bars(ax, True)
    match_rows(got, [({a}, v) for a, v in t.ova], k, what, t.ascending)


def node_positions(ax, names, what):
    pos = {}
    for x in ax.texts:
        if x.get_text() in names and x.get_text() not in pos:
            pos[x.get_text()] = np.asarray(x.get_position(), dtype=float)
    if sorted(pos) != sorted(names):
        bad("%s: nodes %r, the fit has %r", what, sorted(pos), sorted(names))
    return pos


def check_graph(ax, t, kw, what="graph"):
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch
    names = sorted(set(t.names) | set(t.imp))
    if any(_isnum(n) for n in names):
        return
    other = [x for x in ax.texts if x.get_text() not in names and x.get_text() != ""]
    pos = node_positions(ax, names, what)
    # edges
    want = sorted({(a, b) if t.directed else tuple(sorted((a, b))) for a, b, _ in t.rows})
    n = sum(len(c.get_segments()) for c in ax.collections if isinstance(c, LineCollection))
    m = sum(isinstance(p, FancyArrowPatch) for p in ax.patches)
    if len(want) not in (n, m, n + m):             # loops may be drawn both as a segment and as an arrow
        bad("%s: %d edges for %d pairs", what, n, len(want))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                if len(s) == 2:
                    ends = [nm for p in (s[0], s[-1]) for nm in names if np.allclose(p, pos[nm])]
                    if len(set(ends)) == 2 and tuple(sorted(ends)) not in {tuple(sorted(w)) for w in want}:
                        bad("%s: an edge joins %r", what, ends)
    check_widths(ax, t, kw, names, pos, what)
    # node sizes follow the importances
    dots = [(o, s) for c in ax.collections if isinstance(c, PathCollection) for o, s in zip(np.asarray(c.get_offsets()), np.resize(c.get_sizes(), len(c.get_offsets())))]
    top = max(t.imp.values()) if t.imp else 0
    if top > 0 and dots:
        size = {}
        for o, s in dots:
            for nm in names:
                if np.allclose(o, pos[nm]):
                    size[nm] = float(s)
        if not set(t.imp) <= set(size):
            bad("%s: dots for %r, nodes are %r", what, sorted(size), names)
        big = max(s for s in size.values() if s == s)
        for nm, v in t.imp.items():
            if v > 0 and not near(size[nm] / big, v / top, 1e-6):
                bad("%s: node %s has relative size %r, its relative importance is %r", what, nm, size[nm] / big, v / top)
    # edge labels
    nh = kw.get("n_highest_with_labels", 5)
    if t.ascending:
        if other:
            bad("%s: labels %r on a graph whose pairs are ranked ascending", what, [x.get_text() for x in other])
        return
    rows = sorted([r for r in t.rows if r[2] == r[2] and r[2] > 0], key=lambda r: -r[2])
    if len(other) > nh:
        bad("%s: %d edge labels, %d asked for", what, len(other), nh)
    thr = kw.get("threshold_relevant_interaction")
    if thr is not None:
        # a label needs its value at or above the threshold; those within rounding of it may go either way
        sure = [r for r in rows if r[2] >= thr]
        if len(other) != min(nh, len(sure)):
            bad("%s: %d edge labels, expected %d", what, len(other), min(nh, len(sure)))
    top_vals = [r[2] for r in rows[:len(other)]]
    if len(top_vals) < len(other):
        bad("%s: labels %r, positive values %r", what, [x.get_text() for x in other], top_vals)
    if not same_texts([x.get_text() for x in other], top_vals):
        bad("%s: edge labels %r, the strongest pairs have %r", what, sorted(x.get_text() for x in other), top_vals)
    for x in other:
        p = np.asarray(x.get_position(), dtype=float)
        cand = [v for a, b, v in t.rows if np.allclose(p, (pos[a] + pos[b]) / 2, atol=1e-6)]
        if not any(rounded(x.get_text(), v) for v in cand):
            bad("%s: label %r lies on pairs with values %r", what, x.get_text(), cand)


def check_widths(ax, t, kw, names, pos, what):
    """A pair is never drawn thinner than a weaker one."""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch
    strength = {}
    for a, b, v in t.rows:
        if a == b:
            continue
        k = (a, b) if t.directed else tuple(sorted((a, b)))
        if k in strength or not np.isfinite(v):
            return                                  # split scores may list both directions of a pair
        strength[k] = -v if t.ascending else v
    if not t.directed and any((b, a) in strength for a, b in strength):
        return
    drawn = {}

    def node(p):
        return next((nm for nm in names if np.allclose(p, pos[nm], atol=1e-6)), None)
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs = c.get_segments()
            for s, w in zip(segs, np.resize(np.asarray(c.get_linewidths(), dtype=float), len(segs))):
                if len(s) == 2:
                    a, b = node(s[0]), node(s[-1])
                    if a is not None and b is not None and a != b:
                        drawn[(a, b) if t.directed else tuple(sorted((a, b)))] = float(w)
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and getattr(p, "_posA_posB", None) is not None:
            a, b = (node(q) for q in p._posA_posB)
            if a is not None and b is not None and a != b:
                drawn[(a, b) if t.directed else tuple(sorted((a, b)))] = float(p.get_linewidth())
    if set(drawn) != set(strength):
        return
    for k, w in drawn.items():
        if not np.isfinite(w) or w < 0:
            bad("%s: the edge of %r has width %r", what, k, w)
    order = sorted(drawn, key=lambda k: -strength[k])
    for i, k in enumerate(order):
        for m in order[i + 1:]:
            if strength[k] > strength[m] + 1e-12 * abs(strength[m]) and drawn[k] < drawn[m] - 1e-9:
                bad("%s: %r (%r) is drawn with width %r, %r (%r) with width %r", what, k, strength[k], drawn[k], m, strength[m], drawn[m])
    thr = kw.get("threshold_relevant_interaction")
    if thr is not None and order:
        best = strength[order[0]]
        if (-best <= thr if t.ascending else best >= thr and best > 0) and drawn[order[0]] <= 0:
            bad("%s: the strongest pair %r (%r) has no visible edge", what, order[0], best)


def _isnum(s):
    try:
        float(s)
        return True
    except (TypeError, ValueError):
        return False


def rounded(s, v):
    try:
        return abs(float(s) - v) <= 0.00501
    except ValueError:
        return False


def same_texts(texts, vals):
    a = sorted(float(s) if _isnum(s) else math.inf for s in texts)
    return len(a) == len(vals) and all(abs(x - v) <= 0.00501 for x, v in zip(a, sorted(vals)))


def check_conditional(ax, t, k, what="conditional bar chart"):
    got, tk = bars(ax, False)
    rows = [({a + ":" + b}, v) for a, b, v in t.rows][:k]
    live = [r for r in rows if r[1] == r[1]]
    got = [g for g in got if g[1] != 0 or any(g[0] in r[0] and r[1] == 0 for r in live)]
    if len(set(x for r in rows for x in r[0])) != len(rows):
        return
    exp = {next(iter(r[0])): r[1] for r in live}
    shown = {}
    for l, v in got:
        if l in shown and not near(shown[l], v):
            bad("%s: two bars for %r: %r and %r", what, l, shown[l], v)
        shown[l] = v
    for l, v in exp.items():
        if v != 0 and (l not in shown or not near(shown[l], v)):
            bad("%s: bar %r shows %r, the fit has %r", what, l, shown.get(l), v)
    for l in shown:
        if l not in exp:
            bad("%s: a bar %r, rows are %r", what, l, sorted(exp))
    labels = [l for _, l in sorted(tk)]
    if labels != [next(iter(r[0])) for r in rows]:
        if sorted(labels) != sorted(next(iter(r[0])) for r in rows):
            bad("%s: lists %r, the first rows are %r", what, labels, [sorted(r[0])[0] for r in rows])
    from matplotlib.collections import PathCollection
    dots = {}
    for c in ax.collections:
        if isinstance(c, PathCollection):
            for o in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan):
                dots[at(tk, o[0], 0.3)] = float(o[1])
    for a, b, v in t.rows[:k]:
        if not near(dots.get(a + ":" + b, float("nan")), t.imp.get(b, float("nan"))):
            bad("%s: dot of %s:%s at %r, the importance of %s is %r", what, a, b, dots.get(a + ":" + b), b, t.imp.get(b))


def check_lollipop(ax, t, kw, what="lollipop"):
    from matplotlib.collections import PathCollection
    frac, depth, thr = kw.get("max_trees", 0.2), kw.get("max_depth", 1), kw.get("label_threshold", 0.1)
    f = t.full
    recs = [dict(zip(f.columns, r)) for r in f.itertuples(index=False, name=None)]
    inner = [r for r in recs if not r["leaf"]]
    roots = {int(r["tree"]): r for r in inner if r["depth"] == 0}
    nodes = [r for r in inner if 0 < r["depth"] <= depth]
    dots = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            dots += [(float(o[0]), float(o[1])) for o in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)]
    alltrees = sorted({int(r["tree"]) for r in recs})
    lo, hi = frac * max(alltrees), frac * len(alltrees)
    allowed = [(r["tree"] + 1, num(r["gain"])) for r in list(roots.values()) + nodes if r["tree"] < hi + 1e-9]
    must = [(r["tree"] + 1, num(r["gain"])) for r in roots.values() if r["tree"] < frac * max(roots, default=0)]
    nt = max((int(r["tree"]) for r in nodes), default=0)
    must += [(r["tree"] + 1, num(r["gain"])) for r in nodes if r["tree"] < min(frac * nt, lo)]
    left = list(allowed)
    for d in dots:
        for i, a in enumerate(left):
            if near(a[0], d[0]) and near(a[1], d[1], 1e-6):
                del left[i]
                break
        else:
            bad("%s: a dot at %r, the fit has %r", what, d, sorted(allowed))
    rest = list(dots)
    for m in must:
        for i, a in enumerate(rest):
            if near(a[0], m[0]) and near(a[1], m[1], 1e-6):
                del rest[i]
                break
        else:
            bad("%s: no dot for %r", what, m)
    ann = [x for x in ax.texts if x.get_text() != ""]
    used = set()
    for x in ann:
        p = [float(v) for v in getattr(x, "xy", x.get_position())]
        ok = None
        for i, r in enumerate(list(roots.values()) + nodes):
            if i in used or not (near(r["tree"] + 1, p[0]) and near(num(r["gain"]), p[1], 1e-6)):
                continue
            name = r["split_feature"] if r["depth"] == 0 else "%s:%s" % (r["parent_name"], r["split_feature"])
            if x.get_text() == name and (r["depth"] == 0 or r["interaction"] is True or bool(r["interaction"])):
                ok = i
                break
        if ok is None:
            bad("%s: label %r at %r belongs to no such node", what, x.get_text(), p)
        used.add(ok)
    shown_roots = [r for r in roots.values() if r["tree"] < frac * max(roots, default=0)]
    best = max((num(r["gain"]) for r in shown_roots), default=0)
    if kw.get("labels", True):
        for r in shown_roots:
            if num(r["gain"]) >= thr * best and not any(x.get_text() == r["split_feature"] and near(float(getattr(x, "xy", x.get_position())[0]), r["tree"] + 1) for x in ann):
                bad("%s: root %r of tree %d is not labelled", what, r["split_feature"], r["tree"])


# ----------------------------------------------------------------- whole figures
def check_figure(fig, vis, t, kw, title):
    axes = main_axes(fig)
    if vis == "summary":
        hm = [a for a in axes if is_heatmap(a)]
        bar = [a for a in axes if a not in hm and finite_rects(a)]
        rest = [a for a in axes if a not in hm and a not in bar]
        if len(hm) != 1 or len(rest) != 1 or len(bar) != (1 if t.ova is None else 2):
            bad("summary: %d matrices, %d graphs, %d bar charts", len(hm), len(rest), len(bar))
        check_heatmap(hm[0], t, kw.get("heatmap", {}).get("annot_fmt", ".3f"), "summary: heatmap")
        check_graph(rest[0], t, kw.get("graph", {}), "summary: graph")
        feats = set() if t.ova is None else {a for a, _ in t.ova}
        for a in bar:
            labs = {l.get_text() for l in a.get_yticklabels()}
            if labs & feats:
                check_bars_ova(a, t, kw.get("bar_chart_ova", {}).get("top_k", 10), "summary: one-vs-all bar chart")
                feats = set()
            else:
                check_bars_ovo(a, t, kw.get("bar_chart_ovo", {}).get("top_k", 10), "summary: bar chart")
        st = fig._suptitle.get_text() if fig._suptitle is not None else ""
        if title != "default" and st != title:
            bad("summary: title %r, asked for %r", st, title)
        return
    if len(axes) != 1:
        bad("%s: %d panels", vis, len(axes))
    ax = axes[0]
    if vis == "heatmap":
        check_heatmap(ax, t, kw.get("annot_fmt", ".3f"))
    elif vis == "bar_chart":
        check_bars_ovo(ax, t, kw.get("top_k", 10))
    elif vis == "bar_chart_ova":
        check_bars_ova(ax, t, kw.get("top_k", 10))
    elif vis == "graph":
        check_graph(ax, t, kw)
    elif vis == "bar_chart_conditional":
        check_conditional(ax, t, kw.get("top_k", 15))
    elif vis == "lollipop":
        check_lollipop(ax, t, kw)
    if title != "default" and ax.get_title() != title:
        bad("%s: title %r, asked for %r", vis, ax.get_title(), title)


def check_zenplot(fig, path, surfaces, kindp, what):
    """path: the pairs in the order of the panels; surfaces: pair -> (values1, values2, {(v1, v2): pd}, needed)."""
    axes = [ax for ax in fig.axes if ax.collections or ax.images]
    panels = [ax for ax in axes if ax.get_title() != "PD value"]
    if len(panels) != len(path):
        bad("%s: %d panels for a path of %d pairs", what, len(panels), len(path))
    for i, (ax, (a, b)) in enumerate(zip(panels, path)):
        w = "%s, panel %d (%s, %s)" % (what, i + 1, a, b)
        title, left = ax.get_title(), ax.get_ylabel()
        ends = i + 1 == len(path) or path[i + 1][0] != b
        v1, v2, pd_, needed = surfaces[(a, b)]
        want = np.array([[pd_[x, y] for y in v2] for x in v1])
        must = np.array([[(x, y) in needed for y in v2] for x in v1])
        if i % 2 == 0:                         # entered from above: the first feature runs along x
            if title != a or (ends and left != b) or (not ends and left not in ("", b)):
                bad("%s: labelled %r above and %r at the left", w, title, left)
            check_surface(ax, want.T, must.T, v1, v2, kindp, w)
        else:
            if left != a or (ends and title != b) or (not ends and title not in ("", b)):
                bad("%s: labelled %r above and %r at the left", w, title, left)
            check_surface(ax, want, must, v2, v1, kindp, w)


def zenpath(rows, length):
    """The pairs a zenpath visits: strongest first, then the strongest remaining one that shares the last feature, else the strongest remaining."""
    left = list(rows[:length + 1])
    a, b, _ = left.pop(0)
    path = [(a, b)]
    while len(path) < min(length, len(rows)):
        nxt = next((r for r in left if path[-1][1] in r[:2]), None)
        if nxt is not None:
            path.append((path[-1][1], nxt[1] if nxt[0] == path[-1][1] else nxt[0]))
        else:
            nxt = left[0]
            path.append(nxt[:2])
        left.remove(nxt)
    return path


def check_profile(fig, names, single, pair, kindp, what):
    """single: (feature, [(value, pd)]) or pair: (f1, f2, values1, values2, {(v1, v2): pd}, cells the fit certainly needed)."""
    from matplotlib.collections import QuadMesh
    axes = main_axes(fig)
    if len(axes) != 1:
        bad("%s: %d panels", what, len(axes))
    ax = axes[0]
    if single is not None:
        f, pts = single
        if ax.get_xlabel() != f:
            bad("%s: x axis is labelled %r, asked for %r", what, ax.get_xlabel(), f)
        lines = [ln for ln in ax.lines if len(ln.get_ydata()) == len(pts)]
        if not any(same_line(ln, pts) for ln in lines):
            bad("%s: curve %r, the partial dependence is %r", what, [list(zip(list(ln.get_xdata()), list(ln.get_ydata()))) for ln in ax.lines], pts)
        return
    f1, f2, v1, v2, pd, needed = pair
    if {ax.get_xlabel(), ax.get_ylabel()} != {f1, f2}:
        bad("%s: axes are labelled %r and %r, asked for %r and %r", what, ax.get_xlabel(), ax.get_ylabel(), f1, f2)
    want = np.array([[pd[a, b] for b in v2] for a in v1])
    must = np.array([[(a, b) in needed for b in v2] for a in v1])
    vx, vy = v2, v1
    if ax.get_ylabel() == f2:
        want, must, vx, vy = want.T, must.T, v1, v2
    check_surface(ax, want, must, vx, vy, kindp, what)


def check_surface(ax, want, must, vx, vy, kindp, what):
    """The mesh or contours of one panel; rows are the y axis."""
    from matplotlib.collections import QuadMesh
    if kindp != "colormesh":
        sets = [c for c in ax.collections if hasattr(c, "zmin") and hasattr(c, "zmax")]
        for c in sets:                  # the extremes contoured are partial-dependence values (cells the fit did not need stay blank)
            for z in (c.zmin, c.zmax):
                if not any(near(float(z), x, 1e-6) for x in want.reshape(-1)):
                    bad("%s: contours reach %r, which is no value of the partial dependence %r", what, float(z), want.tolist())
        return
    mesh = [c for c in ax.collections if isinstance(c, QuadMesh)]
    if len(mesh) != 1:
        bad("%s: %d meshes", what, len(mesh))
    arr = np.ma.filled(np.ma.asarray(mesh[0].get_array(), dtype=float), np.nan).reshape(-1)
    # cells the fit did not need stay blank
    if arr.size != want.size or not all((x != x and not m) or near(x, y, 1e-6) for x, y, m in zip(arr, want.reshape(-1), must.reshape(-1))):
        bad("%s: mesh shows %r, the partial dependence is %r", what, arr.tolist(), want.tolist())
    xy = mesh[0].get_coordinates()
    if all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in list(vx) + list(vy)) and xy.shape[:2] == (len(vy) + 1, len(vx) + 1):
        for i, v in enumerate(vx):
            if not min(xy[0, i, 0], xy[0, i + 1, 0]) - 1e-9 <= v <= max(xy[0, i, 0], xy[0, i + 1, 0]) + 1e-9:
                bad("%s: column %d covers %r..%r, the value of %s is %r", what, i, xy[0, i, 0], xy[0, i + 1, 0], ax.get_xlabel(), v)
        for i, v in enumerate(vy):
            if not min(xy[i, 0, 1], xy[i + 1, 0, 1]) - 1e-9 <= v <= max(xy[i, 0, 1], xy[i + 1, 0, 1]) + 1e-9:
                bad("%s: row %d covers %r..%r, the value of %s is %r", what, i, xy[i, 0, 1], xy[i + 1, 0, 1], ax.get_ylabel(), v)


def same_line(ln, pts):
    xs, ys = list(ln.get_xdata()), list(ln.get_ydata())
    for x, y, (v, p) in zip(xs, ys, pts):
        if not near(float(y), p, 1e-6):
            return False
        if isinstance(v, str) != isinstance(x, str) or (isinstance(v, str) and x != v):
            return False
        if isinstance(v, pd.Timestamp):
            if pd.Timestamp(x) != v:
                return False
        elif not isinstance(v, str) and not near(float(x), float(v)):
            return False
    return True


# ----------------------------------------------------------------- figures the plot must leave alone
def fingerprint(fig):
    out = [tuple(np.round(fig.get_size_inches(), 6)), fig._suptitle.get_text() if fig._suptitle is not None else None, len(fig.axes), len(fig.texts), len(fig.artists)]
    for a in fig.axes:
        out.append((a.get_label(), a.get_title(), a.get_xlabel(), a.get_ylabel(), tuple(a.get_xlim()), tuple(a.get_ylim()), a.get_xscale(), a.get_yscale(), len(a.patches), len(a.lines),
                    len(a.collections), tuple(x.get_text() for x in a.texts), a.axison, a.get_legend() is not None, bool(a.xaxis.get_gridlines()[0].get_visible()) if a.xaxis.get_gridlines() else None,
                    tuple(repr(ln.get_ydata().tolist()) if hasattr(ln.get_ydata(), "tolist") else repr(ln.get_ydata()) for ln in a.lines)))
    return out
