"""C13: a calculator is accepted only for the model and data it was built on."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import harness as H, pdlib as P, world as W
from ..core import Violation
from .c03 import Pre
from itertools import combinations

CHANGES = ["none", "copy", "deepcopy", "rebuilt", "other_model", "cell", "swap_rows", "drop_row", "extra_row", "rename", "swap_cols", "swap_values",
           "inplace_cell", "inplace_all", "inplace_last", "inplace_and_back", "restored_model", "inplace_drop", "other_world", "reorder",
           "relabel", "retype", "sampled", "sampled_all", "presampled", "presampled"]


def gen(rng, tier):
    tall = rng.random() < 0.02
    worlds, models = P.gen_base(rng, tier, min_distinct=True, nworlds=rng.choice([1, 2]), rows=rng.choice([40, 130]) if tall else None, ncols=2 if tall else None)
    # a second, equal model object over every world: same predictions, different object
    for w in range(len(worlds)):
        models.append(copy.deepcopy([m for m in models if m["world"] == w][0]))
    ops = []
    nid = 0
    for _ in range(rng.choice([2, 4, 6, 9])):
        if nid == 0 or rng.random() < 0.2:
            m = rng.randrange(len(models))
            ops.append({"op": "new", "id": nid, "world": models[m]["world"], "model": m, "batchsize": H.batchsizes(rng, 6)})
            nid += 1
            continue
        c = rng.randrange(nid)
        if rng.random() < 0.3:
            ops.append({"op": rng.choice(["single", "minus"]), "calc": c, "features": None,
                        "faults": H.gen_faults(rng, ("raise", "interrupt"), 0.4, max_call=3)})
        else:
            ops.append({"op": "try", "calc": c, "change": rng.choice(CHANGES), "row": rng.randrange(5040), "col": rng.randrange(8), "method": rng.choice(P.METHODS),
                        "ova": rng.random() < 0.5, "normalized": True, "reuse": rng.random() < 0.3, "pre": rng.random() < 0.5})
    return {"worlds": worlds, "models": models, "ops": ops}


def other_value(c, j, r):
    """a different value of column j, taken from the same column"""
    n = c.names[j]
    cur = c.frame[n].tolist()[r]
    for v, _ in c.levels[n]:
        if v != cur:
            return v
    return None


def try_op(runner, run, op, k):
    c = runner.calcs.get(op["calc"])
    if c is None:
        return None
    r, j = op["row"] % c.N, op["col"] % len(c.names)
    X = c.frame.copy()
    model = c.model
    ch = op["change"]
    expect = "reject"
    undo = None
    n = None
    if ch in ("none", "copy", "deepcopy", "rebuilt"):
        expect = "accept"
        if ch == "none":
            X = c.frame
        elif ch == "deepcopy":
            X = copy.deepcopy(c.frame)
        elif ch == "rebuilt":
            X = pd_rebuild(c.frame)
    elif ch == "other_model":
        others = [m for m in run.models if m is not model and m.spec["world"] == model.spec["world"]]
        if not others:
            return None
        model = others[op["row"] % len(others)]
        X = c.frame
    elif ch == "restored_model":
        try:
            model = pickle.loads(pickle.dumps(model))
        except Exception:                         # noqa: B902
            return None
        X = c.frame
    elif ch == "other_world":
        ws = [w for w in range(len(run.worlds)) if w != c.w]
        if not ws or run.worlds[ws[0]].equals(c.frame):
            return None
        X = run.worlds[ws[0]]
    elif ch in ("cell", "inplace_cell", "inplace_last", "inplace_and_back"):
        if ch == "inplace_last":
            r, j = c.N - 1, len(c.names) - 1
        v = other_value(c, j, r)
        if v is None:
            return None
        if ch == "cell":
            X.iloc[r, j] = v
        else:
            X = c.frame
            old = X.iloc[r, j]
            X.iloc[r, j] = v
            if ch == "inplace_and_back":
                X.iloc[r, j] = old
                expect = "accept"
            else:
                undo = (X, r, j, old)
    elif ch == "inplace_all":
        v = other_value(c, j, 0)
        if v is None:
            return None
        X = c.frame
        old = X.iloc[:, j].copy()
        X[c.names[j]] = np.array([v] * c.N, dtype=X.dtypes.iloc[j])
        undo = (X, None, j, old)
    elif ch == "inplace_drop":
        if c.N < 2:
            return None
        X = c.frame
        keep = c.frame.copy()
        lab = X.index[r]
        X.drop(index=[lab], inplace=True)
        undo = (X, "restore", None, keep)
    elif ch == "reorder":                        # same labelled rows in another order
        r2 = (r + 1) % c.N
        order = list(range(c.N))
        order[r], order[r2] = order[r2], order[r]
        X = X.iloc[order]
        if X.equals(c.frame):
            return None
    elif ch == "swap_rows":
        r2 = (r + 1) % c.N
        order = list(range(c.N))
        order[r], order[r2] = order[r2], order[r]
        idx = X.index
        X = X.iloc[order]
        X.index = idx
        if X.equals(c.frame):
            return None
    elif ch == "swap_values":
        r2 = (r + 1) % c.N
        a, b = X.iloc[r, j], X.iloc[r2, j]
        if a == b:
            return None
        X.iloc[r, j], X.iloc[r2, j] = b, a
    elif ch == "drop_row":
        if c.N < 3:
            return None
        X = X.iloc[[i for i in range(c.N) if i != r]]
    elif ch == "extra_row":
        X = pd_concat(X, r)
    elif ch == "rename":
        X = X.rename(columns={c.names[j]: c.names[j] + "_x"})
    elif ch == "relabel":                        # the same rows under other labels
        X.index = ["row %d" % (i + 1) for i in range(c.N)]
    elif ch == "retype":
        if not pd.api.types.is_integer_dtype(X.dtypes.iloc[j]) or X.dtypes.iloc[j] == bool:
            return None
        X[c.names[j]] = X[c.names[j]].astype("float64" if op["row"] % 2 else "object")
    elif ch in ("sampled", "sampled_all"):       # the method is asked to sample, the calculator holds all rows
        n = c.N if ch == "sampled_all" else 1 + op["row"] % max(1, c.N - 1)
        if c.N < 2:
            return None
        X = c.frame
    elif ch == "presampled":                     # the calculator holds the very sample the method will draw
        if op["method"] == "pdimp" or c.N < 4 or (op["method"] == "greenwell" and not P.well_spread(c.I)):
            return None
        return presampled(run, op, c)
    elif ch == "swap_cols":
        if len(c.names) < 2:
            return None
        cols = list(X.columns)
        cols[0], cols[-1] = cols[-1], cols[0]
        X = X[cols]
    before = H.any_state([np.asarray(c.obj.get_pd_single(n)).copy() for n in c.names] + [np.asarray(c.obj.get_pd_minus_single(n)).copy() for n in c.names]
                         + [np.asarray(c.obj.get_pd_pairs(a, b)).copy() for a, b in combinations(c.names, 2)])
    pre = Pre(c)
    obj = P.make_method(op["method"], op)
    if op["method"] == "greenwell" and not P.well_spread(c.I):
        return None
    kw = dict(predict_function=W.predict_function_for(model), pd_calculator=c.obj)
    if op["method"] == "friedman":
        kw["calculate_ova"] = op["ova"]
    if n is not None:
        kw["n"] = n
    fn = (lambda: obj.importance(model, X, **kw)) if op["method"] == "pdimp" else (lambda: obj.fit(model, X, **kw))
    out = run.attempt(fn, label="try:" + ch, call_cap=60000)
    run.note("try", ch, op["method"], out.kind, out.ctx.calls)
    after_state = None
    if ch == "sampled_all" and getattr(obj, "X_sampled", None) is not None and obj.X_sampled.equals(c.frame):
        run.probe("sample_is_the_data")
        if out.kind != "ok":
            raise Violation("wrongly-rejected", "%s fit: the sample equals the calculator's data, yet it raised %s" % (op["method"], H.short(out.exc)))
        return None
    if expect == "reject":
        after_state = H.any_state([np.asarray(c.obj.get_pd_single(n)) for n in c.names] + [np.asarray(c.obj.get_pd_minus_single(n)) for n in c.names]
                                  + [np.asarray(c.obj.get_pd_pairs(a, b)) for a, b in combinations(c.names, 2)])
    if undo is not None:
        F, r0, j0, old = undo
        if r0 == "restore":
            new = old
            runner.replace_frame(c, new)
        elif r0 is None:
            F[c.names[j0]] = old
        else:
            F.iloc[r0, j0] = old
    what = "%s fit with change %r" % (op["method"], ch)
    if expect == "accept":
        run.probe("accepted:" + ch)
        if out.kind != "ok":
            raise Violation("wrongly-rejected", "%s raised %s" % (what, H.short(out.exc)))
        f = {"kind": op["method"], "obj": obj, "calc": c, "model": model, "frame": X, "codes": c.I, "names": c.names, "n": None, "features": None, "out": out,
             "op": op, "ova": op["ova"], "normalized": True}
        P.check_fit(f, run)
        asked = [("single", n, None) for n in c.names]
        if op["method"] in ("friedman", "greenwell"):
            asked += [("pairs", p, op["method"] == "greenwell") for p in combinations(c.names, 2)]
        preds = 1 if op["method"] == "additivity" or (op["method"] == "friedman" and op["ova"]) else 0
        if op["method"] == "friedman" and op["ova"]:
            asked += [("minus", n, None) for n in c.names]
        need = sum(pre.need(*a) for a in asked)
        if out.ctx.rows > need + preds * c.N:
            raise Violation("not-used", "%s asked the model for %d rows although the calculator was missing only %d" % (what, out.ctx.rows, need))
    else:
        run.probe("rejected:" + ch)
        if out.kind == "ok":
            raise Violation("wrongly-accepted", "%s succeeded" % what)
        if not isinstance(out.exc, ValueError):
            raise Violation("wrong-error", "%s raised %s instead of ValueError" % (what, H.short(out.exc)))
        if out.ctx.calls:
            raise Violation("model-asked-first", "%s called the model %d times before rejecting" % (what, out.ctx.calls))
        if after_state != before:
            raise Violation("calculator-touched", "%s changed the calculator's values" % what)
    return expect


def presampled(run, op, c):
    """Two explainers with the same random_state draw the same sample; a calculator built on the first one's sample fits the second."""
    n = max(3, c.N - 1 - op["row"] % 2)
    fits = []
    for given in (None, 1):
        obj = P.make_method(op["method"], dict(op, random_state=5))
        kw = dict(predict_function=W.predict_function_for(c.model), n=n)
        if op["method"] == "friedman":
            kw["calculate_ova"] = op["ova"]
        if given is not None:
            S = fits[0][0].X_sampled
            codes = c.model.grid.codes(S)
            calc = P.CalcRef(P.sut().Calc(c.model, S.copy(), kw["predict_function"], 100), c.w, c.model, S, codes, c.names)
            kw["pd_calculator"] = calc.obj
        out = run.attempt(lambda: obj.fit(c.model, c.frame, **kw), label="presampled", call_cap=60000)
        if given is None and op["method"] == "greenwell" and out.kind != "ok":
            return None                          # a sample in which a feature is constant
        run.must(out, "presampled fit")
        run.note("presampled", op["method"], out.kind, n)
        fits.append((obj, out))
    if out.kind != "ok":
        raise Violation("wrongly-rejected", "%s fit whose sample equals the calculator's data raised %s" % (op["method"], H.short(out.exc)))
    run.probe("accepted:presampled")
    P.check_tables(calc)
    P.check_fit({"kind": op["method"], "obj": obj, "calc": calc, "model": c.model, "frame": S, "codes": codes, "names": c.names, "n": None, "features": None, "out": out, "op": op,
                 "ova": op["ova"], "normalized": True}, run)
    return "accept"


def pd_rebuild(df):
    return pd.DataFrame({n: df[n].to_numpy().copy() for n in df.columns}, index=df.index.copy())


def pd_concat(df, r):
    return pd.concat([df, df.iloc[[r]]])


class Runner(P.PDRun):
    def replace_frame(self, c, frame):
        for o in self.calcs.values():
            if o.frame is c.frame and o is not c:
                o.frame = frame
        c.frame = frame


def execute(plan, run):
    pd_ = Runner(run)
    acc = rej = 0
    for k, op in enumerate(plan["ops"]):
        if op["op"] == "new":
            # every calculator gets its own caller frame, which may later be changed in place
            w = op["world"]
            saved = run.worlds[w]
            run.worlds[w] = saved.copy()
            pd_.new_calc(op)
            run.worlds[w] = saved
        elif op["op"] == "try":
            e = try_op(pd_, run, op, k)
            acc += e == "accept"
            rej += e == "reject"
        else:
            pd_.compute(op)
    for c in pd_.calcs.values():
        P.check_tables(c)
    return {"nontrivial": rej > 0}
