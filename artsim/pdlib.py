"""Operations on partial-dependence calculators and the methods built on them: plan generation, execution, oracles."""
import copy
import pickle
from itertools import combinations

import numpy as np

from . import harness as H, ref as R, world as W
from .core import Violation

METHODS = ("friedman", "greenwell", "pdimp", "additivity")


def sut():
    from artemis._utilities.pd_calculator import PartialDependenceCalculator
    from artemis.additivity import AdditivityMeter
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod

    class S:
        Calc = PartialDependenceCalculator
        Friedman = FriedmanHStatisticMethod
        Greenwell = GreenwellMethod
        PDImp = PartialDependenceBasedImportance
        Additivity = AdditivityMeter
    return S


def seed(v):
    """"np5" stands for a seed that came out of numpy."""
    return np.int64(int(v[2:])) if isinstance(v, str) else v


def make_method(kind, opt):
    S = sut()
    rs = seed(opt.get("random_state"))
    if kind == "friedman":
        return S.Friedman(random_state=rs, normalized=opt.get("normalized", True))
    if kind == "greenwell":
        return S.Greenwell(random_state=rs)
    if kind == "pdimp":
        return S.PDImp()
    return S.Additivity(random_state=rs)


class CalcRef:
    """A calculator in the run together with what it must answer."""

    def __init__(self, obj, w, model, frame, codes, names):
        self.obj = obj
        self.w = w
        self.model = model
        self.frame = frame                    # data it was built on (caller's object)
        self.I = codes
        self.names = names
        self.N = len(codes)
        self.ref = R.RefPD(model, codes)
        self.levels = {}                      # name -> list of (value, code), sorted by value
        for j, n in enumerate(names):
            vals = frame.iloc[:, j].tolist()
            d = {}
            for v, c in zip(vals, codes[:, j]):
                d[v] = int(c)
            self.levels[n] = sorted(d.items())
        self.requested = {}                   # C03 ledger
        self.bound = 0
        self.delivered = 0
        self.exact = True                     # ledger still meaningful (no NaN / interruption so far)

    def col(self, n):
        return self.names.index(n)

    def clone_ledger(self, other):
        other.requested = copy.deepcopy(self.requested)
        other.bound = self.bound
        other.delivered = self.delivered
        other.exact = self.exact
        return other


class PDRun:
    def __init__(self, run):
        self.run = run
        self.S = sut()
        self.calcs = {}
        self.slots = {}
        self.methods = {}
        self.explainers = {}
        self.mid_batch = {}
        run.sim.on_call = self._on_call
        self.call_hooks = []
        self.ckpt = None

    def _on_call(self, ctx, model, df, call):
        for f in ctx.faults:
            if f["kind"] == "checkpoint" and not f.get("done") and f["call"] == ctx.calls:
                f["done"] = True
                if self.ckpt is not None:
                    self.run.sim.fire(ctx, "checkpoint")
                    self._save(self.ckpt, f["slot"])
        for h in self.call_hooks:
            h(ctx, model, df, call)

    # ---- calculators
    def _save(self, c, slot):
        try:
            data = pickle.dumps(c.obj)
            pickle.loads(data)
        except Exception:                     # noqa: B902  not picklable: nothing to check
            self.run.probe("not_picklable")
            return
        frozen = copy.copy(c)
        self.slots[slot] = (data, c.clone_ledger(frozen))

    def new_calc(self, op):
        run = self.run
        w, m = op["world"], op["model"]
        model = run.models[m]
        frame = run.worlds[w]
        out = run.attempt(lambda: self.S.Calc(model, frame, W.predict_function_for(model), op["batchsize"]), label="new")
        run.must(out, "PartialDependenceCalculator()")
        c = CalcRef(out.value, w, model, frame, run.codes[w], W.names_of(run.plan["worlds"][w]))
        c.batchsize = op["batchsize"]
        self.calcs[op["id"]] = c
        return c

    def edit(self, op):
        """The caller edits its own frame in place (one column rotated): no business of the calculators built on it before."""
        run = self.run
        w = op["world"]
        X = run.worlds[w]
        held = [c for c in list(self.calcs.values()) + [c for _, c in self.slots.values()] if c.frame is X]
        if held:
            before = X.copy()
            for c in held:
                c.frame = before
            run.probe("data_edited_under_a_calculator")
        col = X.columns[op["col"] % len(X.columns)]
        vals = X[col].iloc[[(i + op["by"]) % len(X) for i in range(len(X))]].values
        if op.get("cells"):                   # cell by cell, in the memory the frame was built with
            X.loc[:, col] = vals
        else:                                 # a new column in the place of the old one
            X[col] = vals
        run.codes[w] = run.grids[w].codes(X)
        run.note("edit", w)

    def restore(self, op):
        if op["slot"] not in self.slots:
            return None
        data, c0 = self.slots[op["slot"]]
        obj = pickle.loads(data)
        self.run.probe("restored")
        return self._adopt(obj, c0, op["id"])

    def deepcopy(self, op):
        c0 = self.calcs.get(op["calc"])
        if c0 is None:
            return None
        try:
            obj = copy.deepcopy(c0.obj)
        except Exception:                     # noqa: B902
            return None
        self.run.probe("deepcopied")
        return self._adopt(obj, c0, op["id"])

    def _adopt(self, obj, c0, key):
        c = CalcRef(obj, c0.w, obj.model, c0.frame, c0.I, c0.names)
        c.batchsize = c0.batchsize
        c0.clone_ledger(c)
        self.calcs[key] = c
        return c

    def compute(self, op):
        """single / pairs / minus directly on a calculator. Returns (CalcRef, Outcome) or None."""
        c = self.calcs.get(op["calc"])
        if c is None:
            return None
        asked = [f for p in (op.get("pairs") or []) for f in p] + list(op.get("features") or [])
        if any(f not in c.names for f in asked):
            return None
        kw = {"show_progress": op.get("show_progress", False)}
        kind = op["op"]
        if kind == "single":
            fn = lambda: c.obj.calculate_pd_single(op["features"], **kw)                 # noqa: E731
        elif kind == "minus":
            fn = lambda: c.obj.calculate_pd_minus_single(op["features"], **kw)           # noqa: E731
        else:
            pairs = None if op["pairs"] is None else [tuple(p) for p in op["pairs"]]
            fn = lambda: c.obj.calculate_pd_pairs(pairs, op["all"], **kw)                # noqa: E731
        self.ckpt = c
        out = self.run.attempt(fn, op.get("faults", ()), label=kind, call_cap=cap_for(c))
        self.ckpt = None
        self.run.note("compute", kind, op["calc"], out.kind, out.ctx.calls, tuple(out.ctx.fired))
        self.run.must(out, "calculate_pd_" + kind)
        return c, out

    # ---- fits
    def fit(self, op):
        """Returns dict with everything the oracles need, or None when the op does not apply."""
        run = self.run
        kind = op["method"]
        c = None
        S = self.S
        if op.get("calc") is not None:
            c = self.calcs.get(op["calc"])
            if c is None:
                return None
            model, frame, codes, names = c.model, c.frame, c.I, c.names
        else:
            w = op["world"]
            model, frame, codes, names = run.models[op["model"]], run.worlds[w], run.codes[w], W.names_of(run.plan["worlds"][w])
        mid = op.get("mid")
        obj = self.methods.get(mid)
        if op.get("oid") is not None and mid is None:          # the same explainer object fitted again
            key = (op["oid"], kind, op.get("normalized"), op.get("random_state"))
            obj = self.explainers.get(key)
            if obj is None:
                obj = self.explainers[key] = (kind, make_method(kind, op))
            else:
                run.probe("explainer_refitted")
        if obj is None or obj[0] != kind:
            obj = (kind, make_method(kind, op))
            if mid is not None:
                self.methods[mid] = obj
        if mid is not None:
            self.mid_batch[mid] = op.get("batchsize", 2000) if c is None else c.batchsize
        obj = obj[1]
        feats = op.get("features")
        feats = None if feats is None else [f for f in feats if f in names]
        if feats is not None and len(feats) < (1 if kind == "pdimp" else 2):
            feats = None
        n = op.get("n")
        if c is not None:
            n = None
        if n is not None:
            n = min(n, len(frame))
            if kind == "greenwell":           # keep the statistic defined: at least two distinct values of every feature
                mult = max(max(np.bincount(codes[:, j])) for j in range(codes.shape[1]))
                n = max(n, int(mult) + 1)
                if n > len(frame):
                    return None
        if kind == "greenwell" and not well_spread(codes):
            return None
        kw = dict(n=n, predict_function=W.predict_function_for(model), show_progress=op.get("show_progress", False),
                  batchsize=op.get("batchsize", 2000), pd_calculator=None if c is None else c.obj)
        if kind != "additivity":
            kw["features"] = feats
        if kind == "friedman":
            kw["calculate_ova"] = op.get("ova", True)
        if kind == "pdimp":
            fn = lambda: obj.importance(model, frame, **kw)          # noqa: E731
        else:
            fn = lambda: obj.fit(model, frame, **kw)                 # noqa: E731
        self.ckpt = c
        out = run.attempt(fn, op.get("faults", ()), label=kind, call_cap=60000)
        self.ckpt = None
        run.note("fit", kind, op.get("calc"), out.kind, out.ctx.calls, tuple(out.ctx.fired))
        run.must(out, kind + " fit")
        return {"kind": kind, "obj": obj, "calc": c, "model": model, "frame": frame, "codes": codes, "names": names, "n": n,
                "features": feats, "out": out, "op": op, "ova": op.get("ova", True), "normalized": op.get("normalized", True)}

    def share(self, op):
        """Adopt the calculator a fitted method built, so later operations can use it."""
        m = self.methods.get(op["mid"])
        if m is None:
            return None
        obj = m[1]
        calc = getattr(obj, "pd_calculator", None)
        Xs = getattr(obj, "X_sampled", None)
        src = op["world"]
        names = W.names_of(self.run.plan["worlds"][src])
        if calc is None or Xs is None or list(Xs.columns) != names or not isinstance(calc.model, W.SimModel):
            return None
        g = self.run.grids[src]
        codes = g.codes(Xs)
        if (codes < 0).any() or calc.model.grid.names != names:
            return None
        c = CalcRef(calc, src, calc.model, Xs, calc.model.grid.codes(Xs), names)
        if (c.I < 0).any():
            return None
        c.batchsize = self.mid_batch[op["mid"]]
        c.exact = False
        self.calcs[op["id"]] = c
        self.run.probe("calculator_shared_from_method")
        return c


def cap_for(c):
    k = len(c.names)
    cells = sum(len(v) for v in c.levels.values()) * c.N + c.N * c.N * k * k + 50
    return 4 * cells + 100


# ----------------------------------------------------------------- C01 oracle
def check_value(got, want, what):
    got = float(got)
    if got != got:
        return False
    if not R.close(got, want):
        raise Violation("wrong-pd-value", "%s serves %r, the model's mean prediction is %r" % (what, got, want))
    return True


def agree(have, want, what):
    if bool(have) != bool(want):
        raise Violation("reads-disagree", "%s is %s although the table of all values %s it" % (what, "served" if have else "missing", "has" if want else "lacks"))


def check_tables(c, rng=None, deep=True):
    """Every value served is NaN or right. Returns dict of filled cells."""
    o, names = c.obj, c.names
    filled = {"single": {}, "pairs": {}, "minus": {}}
    for n in names:
        lv = c.levels[n]
        j = c.col(n)
        arr = np.asarray(o.get_pd_single(n), dtype=float)
        if arr.shape != (len(lv),):
            raise Violation("wrong-pd-shape", "get_pd_single(%r) has shape %r for %d distinct values" % (n, arr.shape, len(lv)))
        filled["single"][n] = [check_value(arr[i], c.ref.single(j, code), "single PD of %r at %r" % (n, v)) for i, (v, code) in enumerate(lv)]
        arr = np.asarray(o.get_pd_minus_single(n), dtype=float)
        if arr.shape != (c.N,):
            raise Violation("wrong-pd-shape", "get_pd_minus_single(%r) has shape %r for %d rows" % (n, arr.shape, c.N))
        filled["minus"][n] = [check_value(arr[r], c.ref.minus(j, r), "all-but-%r PD of row %d" % (n, r)) for r in range(c.N)]
    for a, b in combinations(names, 2):
        ja, jb = c.col(a), c.col(b)
        la, lb = c.levels[a], c.levels[b]
        M = np.asarray(o.get_pd_pairs(a, b), dtype=float)
        if M.shape != (len(la), len(lb)):
            raise Violation("wrong-pd-shape", "get_pd_pairs(%r, %r) has shape %r" % (a, b, M.shape))
        filled["pairs"][(a, b)] = [[check_value(M[x, y], c.ref.pair(ja, jb, la[x][1], lb[y][1]), "pair PD of (%r, %r) at (%r, %r)" % (a, b, la[x][0], lb[y][0]))
                                    for y in range(len(lb))] for x in range(len(la))]
    if deep and rng is not None:
        for n in rng.sample(names, min(2, len(names))):
            j = c.col(n)
            ask = [rng.choice(c.levels[n]) for _ in range(4)]
            got = o.get_pd_single(n, [v for v, _ in ask])
            pos = {code: i for i, (_, code) in enumerate(c.levels[n])}
            for (v, code), g in zip(ask, got):
                agree(check_value(g, c.ref.single(j, code), "single PD of %r asked for value %r" % (n, v)), filled["single"][n][pos[code]], "single PD of %r asked for value %r" % (n, v))
            col = c.frame[n].values
            got = o.get_pd_single(n, col)
            if len(got) != c.N:
                raise Violation("wrong-pd-shape", "get_pd_single(%r, column) returned %d values" % (n, len(got)))
            for r in range(c.N):
                agree(check_value(got[r], c.ref.single(j, c.I[r, j]), "single PD of %r for row %d" % (n, r)), filled["single"][n][pos[int(c.I[r, j])]], "single PD of %r for row %d" % (n, r))
        if len(names) > 1:
            a, b = rng.sample(names, 2)          # either order
            ja, jb = c.col(a), c.col(b)
            pa = {code: i for i, (_, code) in enumerate(c.levels[a])}
            pb = {code: i for i, (_, code) in enumerate(c.levels[b])}

            def there(x, y):
                return filled["pairs"][(a, b)][pa[x]][pb[y]] if ja < jb else filled["pairs"][(b, a)][pb[y]][pa[x]]
            asks = [[(rng.choice(c.levels[a]), rng.choice(c.levels[b])) for _ in range(5)]]
            va, vb = dict((y, x) for x, y in c.levels[a]), dict((y, x) for x, y in c.levels[b])
            asks.append([((va[int(c.I[r, ja])], int(c.I[r, ja])), (vb[int(c.I[r, jb])], int(c.I[r, jb]))) for r in range(c.N)])      # the rows of the data: what the methods ask
            for ask in asks:
                got = o.get_pd_pairs(a, b, [(x[0], y[0]) for x, y in ask])
                for (x, y), g in zip(ask, got):
                    what = "pair PD of (%r, %r) asked for (%r, %r)" % (a, b, x[0], y[0])
                    agree(check_value(g, c.ref.pair(ja, jb, x[1], y[1]), what), there(x[1], y[1]), what)
    return filled


def check_complete(c, op, filled):
    """After a healthy computation nothing it was asked for is missing."""
    kind = op["op"]
    if kind in ("single", "minus"):
        for n in (op["features"] if op["features"] is not None else c.names):
            if not all(filled[kind][n]):
                raise Violation("missing-after-success", "%s PD of %r still missing after a completed computation" % (kind, n))
    else:
        pairs = op["pairs"] if op["pairs"] is not None else list(combinations(c.names, 2))
        for a, b in pairs:
            if c.col(a) > c.col(b):
                a, b = b, a
            M = filled["pairs"][(a, b)]
            if op["all"]:
                ok = all(all(r) for r in M)
            else:
                pa = {code: i for i, (_, code) in enumerate(c.levels[a])}
                pb = {code: i for i, (_, code) in enumerate(c.levels[b])}
                ok = all(M[pa[int(c.I[r, c.col(a)])]][pb[int(c.I[r, c.col(b)])]] for r in range(c.N))
            if not ok:
                raise Violation("missing-after-success", "pair PD of (%r, %r) still missing after a completed computation" % (a, b))


# ----------------------------------------------------------------- C02 oracle
def sampled_codes(fit, run):
    """Level codes of the data the method says it sampled."""
    Xs = getattr(fit["obj"], "X_sampled", None)
    if fit["n"] is None:
        return fit["codes"]
    if Xs is None or list(Xs.columns) != fit["names"] or len(Xs) != fit["n"]:
        raise Violation("bad-sample", "X_sampled is not a sample of n=%r rows" % fit["n"])
    return fit["model"].grid.codes(Xs)


def well_spread(I):
    return all(len(set(I[:, j].tolist())) >= 2 for j in range(I.shape[1]))


def numeric_cols(spec, names):
    num = W.numeric_names(spec)
    return {j for j, n in enumerate(names) if n in num}


def table_pairs(df, f1="Feature 1", f2="Feature 2"):
    return list(zip(df[f1].tolist(), df[f2].tolist()))


def check_order(values, descending, what):
    v = [float(x) for x in values]
    for a, b in zip(v, v[1:]):
        if (a < b) if descending else (a > b):
            raise Violation("wrong-order", "%s is not ordered strongest first: %r" % (what, v))


def check_feature_table(df, col, want, what):
    """want: name -> (value, well_conditioned)"""
    names = df["Feature"].tolist()
    if sorted(names) != sorted(want):
        raise Violation("wrong-rows", "%s lists %r, expected %r" % (what, names, sorted(want)))
    for n, v in zip(names, df[col].tolist()):
        w, ok = want[n]
        if ok and not R.close(v, w, 1e-7, 1e-7):
            raise Violation("wrong-value", "%s of %r is %r, definition gives %r" % (what, n, v, w))
    check_order(df[col].tolist(), True, what)


def check_fit(fit, run, codes=None):
    """Compare a successful fit with the definitions."""
    obj, kind, names, model = fit["obj"], fit["kind"], fit["names"], fit["model"]
    I = sampled_codes(fit, run) if codes is None else codes
    if (I < 0).any():
        raise Violation("bad-sample", "sampled data contains values that are not in the caller's data")
    ref = fit["calc"].ref if fit["calc"] is not None else R.RefPD(model, I)
    spec = model.world
    num = numeric_cols(spec, names)
    feats = fit["features"] if fit["features"] is not None else names
    cols = [names.index(f) for f in feats]

    def imp_table(df, what):
        check_feature_table(df, "Importance", {names[c]: (R.pd_importance(ref, c, num), True) for c in cols}, what)

    if kind == "pdimp":
        imp_table(fit["out"].value, "PD importance")
        if obj.feature_importance is not fit["out"].value:
            imp_table(obj.feature_importance, "PD importance")
        return
    if kind == "additivity":
        idx, ok, eff, cp = R.additivity(ref)
        if ok:
            for got, what in ((fit["out"].value, "returned"), (obj.additivity_index, "stored")):
                if not R.close(got, idx, 1e-7, 1e-7):
                    raise Violation("wrong-value", "additivity index %s %r, definition gives %r" % (what, got, idx))
        fr = obj.full_result
        for c, n in enumerate(names):
            got = fr[n].tolist()
            if len(got) != len(I) or any(not R.close(g, w, 1e-7, 1e-7) for g, w in zip(got, eff[:, c])):
                raise Violation("wrong-value", "additivity effects of %r are %r, definition gives %r" % (n, got, eff[:, c].tolist()))
        got = fr["centered_prediction"].tolist()
        if any(not R.close(g, w, 1e-7, 1e-7) for g, w in zip(got, cp)):
            raise Violation("wrong-value", "centred predictions are %r, expected %r" % (got, cp.tolist()))
        return
    ovo = obj.ovo
    method = obj.method
    got_pairs = table_pairs(ovo)
    want_pairs = sorted(tuple(sorted(p)) for p in combinations(feats, 2))
    if sorted(tuple(sorted(p)) for p in got_pairs) != want_pairs:
        raise Violation("wrong-rows", "%s pairs %r, expected %r" % (kind, got_pairs, want_pairs))
    for (a, b), v in zip(got_pairs, ovo[method].tolist()):
        ca, cb = names.index(a), names.index(b)
        if kind == "friedman":
            want, ok = R.friedman_pair(ref, ca, cb, fit["normalized"])
        else:
            want = R.greenwell_pair(ref, ca, cb, num)
            ok = want is not None
        if ok and not R.close(v, want, 1e-7, 1e-7):
            raise Violation("wrong-value", "%s interaction of (%r, %r) is %r, definition gives %r" % (kind, a, b, v, want))
        if ok:
            for x, y in ((a, b), (b, a)):
                q = obj.interaction_value(x, y)
                if not R.close(q, want, 1e-7, 1e-7):
                    raise Violation("wrong-value", "interaction_value(%r, %r) is %r, definition gives %r" % (x, y, q, want))
    check_order(ovo[method].tolist(), True, kind + " pairs")
    imp_table(obj.feature_importance, kind + " feature importance")
    if kind == "friedman" and fit["ova"]:
        want = {names[c]: R.friedman_ova(ref, c, fit["normalized"]) for c in cols}
        check_feature_table(obj.ova, method, want, "one-vs-all H-statistic")


# ----------------------------------------------------------------- generation
def gen_features(rng, names, allow_none=True, minimum=1):
    r = rng.random()
    if allow_none and r < 0.4:
        return None
    k = rng.randint(min(minimum, len(names)), len(names))
    return rng.sample(names, k)


def gen_pairs(rng, names):
    if rng.random() < 0.4:
        return None
    allp = [list(p) for p in combinations(names, 2)]
    k = rng.randint(1, len(allp))
    ps = rng.sample(allp, k)
    return [p if rng.random() < 0.6 else p[::-1] for p in ps]


def gen_base(rng, tier, nworlds=None, kinds=("int", "float", "bool", "str"), same_names=None, min_distinct=False, ret=None, rows=None, ncols=None,
             distinct_rows=True, shapes=False):
    """Worlds and models of one run. Often two worlds with the same column names and different contents."""
    nworlds = nworlds or rng.choice([1, 1, 2])
    worlds, models = [], []
    names = None
    shape = rng.choice(["tall", "wide"]) if shapes and rng.random() < 0.04 else None
    if shape == "tall":
        rows, ncols, nworlds = rng.choice([20, 33, 50]), 2, 1
    elif shape == "wide":
        rows, ncols, nworlds = 3, rng.choice([8, 10]), 1
    if shapes and shape is None and rng.random() < 0.004:
        shape, rows, ncols, nworlds, kinds = "long", rng.choice([258, 300]), 2, 1, ("int", "float", "str")
    for w in range(nworlds):
        big = tier == "thorough" and rng.random() < 0.2
        r = rows or (rng.choice([10, 12]) if big else None)
        if names is not None and (same_names if same_names is not None else rng.random() < 0.6):
            spec = W.gen_world(rng, r, len(names), names, kinds, distinct_rows=distinct_rows)
        else:
            spec = W.gen_world(rng, r, ncols or (rng.choice([5, 6]) if big else None), W.WIDE_NAMES if shape == "wide" else None, kinds,
                               distinct_rows=distinct_rows)
        names = W.names_of(spec)
        if shape == "long":                     # one column with more than 256 values, one with few
            spec["cols"][0]["vals"] = W.gen_column(rng, spec["cols"][0]["kind"], rows, rows)
            spec["cols"][1]["vals"] = W.gen_column(rng, spec["cols"][1]["kind"], rows, rng.choice([2, 3]))
        if min_distinct:
            ensure_two(rng, spec)
        worlds.append(spec)
    nm = rng.choice([nworlds, nworlds, nworlds + 1])
    for m in range(nm):
        w = m % nworlds
        ms = W.gen_model(rng, worlds[w], ret=ret)
        ms["world"] = w
        models.append(ms)
    return worlds, models


def ensure_two(rng, spec):
    for c in spec["cols"]:
        if len(set(c["vals"])) < 2:
            c["vals"] = W.gen_column(rng, c["kind"], len(c["vals"]), 2)


def est_calls(worlds, w, b):
    n = len(worlds[w]["cols"][0]["vals"])
    k = len(worlds[w]["cols"])
    return int(min(24, 1 + (n * n * k) / max(1, b)))


def more_kinds(rng):
    """Column kinds of one run: usually the common ones, sometimes also rarer dtypes."""
    return W.MORE_KINDS if rng.random() < 0.2 else ("int", "float", "bool", "str")
