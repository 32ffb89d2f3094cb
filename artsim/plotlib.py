"""Plots: which exist, how to ask for one, what is on a figure."""
import numpy as np

VIS = {"friedman": ["heatmap", "bar_chart_ova", "bar_chart", "graph", "summary"], "greenwell": ["heatmap", "bar_chart", "graph", "summary"],
       "sejong": ["heatmap", "bar_chart", "graph", "summary"], "ss": ["heatmap", "bar_chart", "graph", "summary", "lollipop"],
       "cmd": ["heatmap", "bar_chart", "graph", "summary", "bar_chart_conditional"]}


def names():
    """Plot names of this tree, keyed by what they are."""
    from artemis._utilities.domain import VisualizationType as V
    return {"heatmap": V.HEATMAP, "bar_chart": V.BAR_CHART_OVO, "bar_chart_ova": V.BAR_CHART_OVA, "graph": V.INTERACTION_GRAPH, "summary": V.SUMMARY,
            "lollipop": V.LOLLIPOP, "bar_chart_conditional": V.BAR_CHART_CONDITIONAL}


def gen_plot(rng, kind):
    vis = rng.choice(VIS[kind] + VIS[kind][:1] * 2)
    kw = {}
    if rng.random() < 0.5:
        if vis in ("bar_chart", "bar_chart_ova", "bar_chart_conditional"):
            kw = {"top_k": rng.choice([1, 2, 3, 50])}
        elif vis == "heatmap":
            kw = {"annot_fmt": rng.choice([".2f", ".4f", ".3e"]), "linewidths": 1.0}
        elif vis == "graph":
            kw = {"n_highest_with_labels": rng.choice([1, 2, 50]), "font_size": 7}
        elif vis == "lollipop":
            kw = {"max_trees": rng.choice([0.5, 1.5]), "max_depth": rng.choice([1, 2, 3]), "label_threshold": rng.choice([0.0, 0.1, 0.9]),
                  "colors": ["red", "blue", "green", "black", "grey"], "shapes": ["o", "v", "^", "<", ">"]}
        elif vis == "summary":
            kw = {"heatmap": {"annot_fmt": ".2f"}, "graph": {"n_highest_with_labels": 2}, "bar_chart_ovo": {"top_k": 2}, "bar_chart_ova": {"top_k": 1}}
    return {"vis": vis, "title": rng.choice(["default", "default", "my title"]), "kw": kw}


def plot(obj, p, kw=None, figsize=(4, 3)):
    return obj.plot(names()[p["vis"]], p["title"], figsize, **(p["kw"] if kw is None else kw))
