"""Simulated data and the simulated model (the second party every model-agnostic operation talks to).

Everything is described by small JSON specs so that a replay file is self-contained.
The model is an arbitrary function on the grid of values present in the data: tables over single features, pairs and
triples with dyadic values, so means over rows are exact and every corrupted or misplaced cell shows.
"""
import threading

import numpy as np
import pandas as pd

from . import core

UNSEEN = -1


# ----------------------------------------------------------------- data
NAMES_POOL = [
    ["a", "b", "c", "d", "e", "f"],
    ["x1", "x2", "x10", "x11", "x3", "x12"],
    ["age", "income", "a-b", "b-a", "a", "b"],
    ["Alpha", "beta", "Gamma", "delta", "Eps", "zeta"],
    ["f", "ff", "fff", "F", "fF", "Ff"],
    ["sepal length (cm)", "sepal width (cm)", "petal length", "petal width", "ż ółw", "x y"],
    ["q", "p", "z", "m", "c", "k"],
    ["Feature", "Importance", "index", "0", "model", "values"],
]
WIDE_NAMES = ["v%d" % i for i in (1, 10, 11, 2, 12, 3, 21, 22, 100, 31)]
MORE_KINDS = ("int", "float", "bool", "str", "big", "i8", "f32", "cat", "date")


def gen_column(rng, kind, rows, distinct=None):
    u = distinct if distinct is not None else rng.choice([rows, rows, max(2, rows // 2), 2, 3])
    u = max(1, min(u, rows))
    if kind == "int":
        base = rng.choice([0, 1, -3, 100, 2 ** 40])
        step = rng.choice([1, 1, 2, 5])
        pool = [base + i * step for i in range(u)]
    elif kind == "float":
        style = rng.randrange(4)
        if style == 0:
            pool = [round(rng.uniform(-5, 5), 3) + i * 11 for i in range(u)]
        elif style == 1:                        # nearly equal values
            pool = [1.0 + i * 1e-9 for i in range(u)]
        elif style == 2:
            pool = [(i - u // 2) * 0.1 for i in range(u)]
        else:
            pool = [float(i) for i in range(u)]
    elif kind == "big":                         # beyond 2**53: not representable as floats
        pool = [2 ** 60 + 1 + i for i in range(u)]
    elif kind == "i8":
        pool = [i * 5 - 100 for i in range(u)]
    elif kind == "f32":
        pool = [(i - u // 2) * 0.3 for i in range(u)]
    elif kind == "date":
        pool = ["2020-%02d-%02d" % (1 + i // 28, 1 + i % 28) for i in range(u)]
    elif kind == "bool":
        pool = [False, True][:max(1, min(u, 2))]
        if u >= 2:
            pool = [False, True]
    else:
        base = [["u", "v", "w", "t", "s", "r"], ["lo", "mid", "hi", "LO", "Hi", "l"], ["a", "aa", "aaa", "b", "ab", "ba"],
                ["0", "", " ", "00", "nan", "None"], ["1", "1.0", "01", "1 ", "+1", "1e0"]][rng.choice([0, 0, 1, 1, 2, 2, 3, 4])]
        pool = [base[i % len(base)] + ("" if i < len(base) else str(i)) for i in range(u)]
    pool = list(dict.fromkeys(pool))
    assert kind == "bool" or len(pool) == u
    rng.shuffle(pool)
    vals = list(pool[:rows])
    while len(vals) < rows:
        vals.append(rng.choice(pool))
    rng.shuffle(vals)
    return vals


def gen_index(rng, rows, kind=None):
    kind = kind or rng.choice(["range", "range", "shuffled", "offset", "str", "dup", "neg", "float"])
    if kind == "range":
        return {"kind": kind, "labels": None}
    if kind == "shuffled":
        lab = list(range(rows))
        rng.shuffle(lab)
    elif kind == "offset":
        lab = [1000 + 3 * i for i in range(rows)]
    elif kind == "str":
        lab = ["r%d" % ((i * 7) % rows if rows else 0) + "_%d" % i for i in range(rows)]
    elif kind == "dup":
        lab = [rng.randrange(max(1, rows // 2)) for _ in range(rows)]
    elif kind == "neg":
        lab = [-(i + 1) for i in range(rows)]
        rng.shuffle(lab)
    else:
        lab = [i + 0.5 for i in range(rows)]
    return {"kind": kind, "labels": lab}


def gen_world(rng, rows=None, ncols=None, names=None, kinds=("int", "float", "bool", "str"), index=None, distinct=None,
              distinct_rows=False):
    rows = rows if rows is not None else rng.choice([4, 4, 5, 6, 7, 8, 8, 9])
    ncols = ncols if ncols is not None else rng.choice([2, 3, 3, 4, 4, 5])
    names = list(names) if names is not None else list(rng.choice(NAMES_POOL))
    names = names[:]
    rng.shuffle(names)
    names = names[:ncols]
    cols = []
    for i, n in enumerate(names):
        k = rng.choice(list(kinds))
        cols.append({"name": n, "kind": k, "vals": gen_column(rng, k, rows, distinct)})
    if distinct_rows:
        k = [c for c in cols if c["kind"] in ("int", "float", "str")]
        if not k:
            cols[0]["kind"] = "int"
            k = [cols[0]]
        k[0]["vals"] = gen_column(rng, k[0]["kind"], rows, rows)
    spec = {"cols": cols, "index": gen_index(rng, rows, index)}
    if rng.random() < 0.2:
        spec["meta"] = rng.choice(["feature", "attrs", "both"])
    return spec


DTYPES = {"int": "int64", "float": "float64", "bool": "bool", "str": object, "big": "int64", "i8": "int8", "f32": "float32",
          "cat": object, "date": "datetime64[ns]"}


def build_values(c):
    arr = np.array(c["vals"], dtype=DTYPES[c["kind"]])
    return pd.Categorical(arr) if c["kind"] == "cat" else arr


def build_frame(spec):
    data = {}
    for c in spec["cols"]:
        data[c["name"]] = build_values(c)
    n = len(spec["cols"][0]["vals"])
    labels = spec["index"]["labels"]
    idx = pd.RangeIndex(n) if labels is None else pd.Index(labels[:n])
    if spec["index"]["kind"] in ("offset", "str"):
        idx.name = "row id"
    df = pd.DataFrame(data, index=idx)
    if spec.get("meta") in ("feature", "both"):
        df.columns.name = "feature"
    if spec.get("meta") in ("attrs", "both"):
        df.attrs = {"source": "survey"}
    return df


def rows_of(spec):
    return len(spec["cols"][0]["vals"])


def names_of(spec):
    return [c["name"] for c in spec["cols"]]


def numeric_names(spec):
    return {c["name"] for c in spec["cols"] if c["kind"] not in ("str", "cat", "date")}


def drop_row(spec, i):
    s = {"cols": [dict(c, vals=c["vals"][:i] + c["vals"][i + 1:]) for c in spec["cols"]], "index": dict(spec["index"])}
    if s["index"]["labels"] is not None:
        s["index"]["labels"] = s["index"]["labels"][:i] + s["index"]["labels"][i + 1:]
    return s


# ----------------------------------------------------------------- model function
def gen_model(rng, world, api=None, ret=None):
    k = len(world["cols"])
    terms = []
    for c in range(k):
        if rng.random() < 0.8:
            terms.append([[c], rng.randrange(1, 97)])
    npairs = rng.randrange(0, 3) if k > 1 else 0
    for _ in range(npairs + (1 if k > 1 else 0)):
        p = sorted(rng.sample(range(k), 2))
        terms.append([p, rng.randrange(1, 97)])
    if k > 2 and rng.random() < 0.5:
        terms.append([sorted(rng.sample(range(k), 3)), rng.randrange(1, 97)])
    if not terms:
        terms.append([[0], 5])
    api = api or rng.choice(["predict", "predict", "proba", "func"])
    ret = ret or rng.choice(["array", "array", "array", "series"])
    if api == "proba":
        ret = "array"
    spec = {"terms": terms, "mode": rng.choice(["named", "positional"]), "api": api, "ret": ret,
            "latency": rng.choice([0.0, 0.001, 0.5, 30.0])}
    if rng.random() < 0.2:
        spec["ro"] = True                       # answers in memory the model does not give away
    r = rng.random()
    if r < 0.4:                                 # signed predictions, some of them exactly zero
        spec["shift"] = -rng.choice([8.0, 15.25, 4.5])
        if api != "proba" and rng.random() < 0.5:
            I = Grid(world).codes(build_frame(world))
            I[:, rng.randrange(k)] = 0          # one partial-dependence value becomes (nearly) zero
            spec["shift"] = -float(np.round(np.mean(eval_idx(terms, I)) * 64) / 64)
    elif r < 0.5:
        spec["scale"] = rng.choice([2.0 ** -16, 4096.0])
    return spec


def eval_idx(terms, I):
    """I: (rows, cols) integer level codes -> predictions, exact dyadic floats. Unseen levels give absurd values."""
    out = np.zeros(len(I), dtype=float)
    for cols, salt in terms:
        h = np.full(len(I), salt, dtype=np.int64)
        bad = np.zeros(len(I), dtype=bool)
        for j, c in enumerate(cols):
            v = I[:, c].astype(np.int64)
            bad |= v < 0
            h = h * 31 + (v + 2) * (7 + 6 * j)
        val = ((h * h + 3 * h) % 61).astype(float) / (4.0 if len(cols) < 3 else 8.0)
        val[bad] = -4096.0
        out += val
    return out


class Grid:
    """Maps values of a world to level codes; the model's and the reference's common notion of identity."""

    def __init__(self, world):
        self.names = names_of(world)
        self.maps = []
        for c in world["cols"]:
            arr = pd.Series(build_values(c)).tolist()
            m = {}
            for v in arr:
                if v not in m:
                    m[v] = len(m)
            self.maps.append(m)

    def codes_col(self, j, values):
        m = self.maps[j]
        g = m.get
        return [g(v, UNSEEN) if _hashable(v) else UNSEEN for v in values]

    def codes(self, df, positional=False):
        out = np.empty((len(df), len(self.names)), dtype=np.int64)
        for j, n in enumerate(self.names):
            col = df.iloc[:, j] if positional else df[n]
            out[:, j] = self.codes_col(j, col.tolist())
        return out


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


class Call:
    """One model call as seen by the model."""
    __slots__ = ("df", "out", "rows", "fn", "failed", "nan")

    def __init__(self, df, rows, fn):
        self.df = df
        self.rows = rows
        self.fn = fn
        self.out = None
        self.failed = False
        self.nan = False


class SimModel:
    """Simulated model. Real pandas frames in, predictions out; counts, fails, returns NaN, takes simulated time."""

    def __init__(self, spec, world, keep_frames=False, ident=0):
        self.spec = spec
        self.world = world
        self.grid = Grid(world)
        self.keep_frames = keep_frames
        self.ident = ident
        self.version = 0                # raised when the model object is retrained in place
        if spec["api"] == "proba":
            self.predict_proba = self._predict_proba     # only then does the attribute exist

    def __getstate__(self):
        return {"spec": self.spec, "world": self.world, "keep_frames": self.keep_frames, "ident": self.ident, "version": self.version}

    def __setstate__(self, d):
        self.__init__(d["spec"], d["world"], d["keep_frames"], d["ident"])
        self.version = d["version"]

    # -- pure function
    def f(self, I):
        terms = self.spec["terms"] if self.version == 0 else [[c, salt + 11 * self.version] for c, salt in self.spec["terms"]]
        return eval_idx(terms, I) * self.spec.get("scale", 1.0) + self.spec.get("shift", 0.0)

    def proba(self, I):
        return np.mod(self.f(I), 64.0) / 64.0

    def label(self, I):
        return (np.floor(self.f(I) * 8).astype(np.int64)) % 3

    def values(self, I):
        """What an explanation method is supposed to see for rows coded I."""
        if self.spec["api"] == "proba":
            return self.proba(I)
        if self.spec.get("labels") and self.spec["api"] == "predict":
            return self.label(I).astype(float)
        return self.f(I)

    # -- seam
    def _call(self, df, fn):
        sim = core.SIM
        ctx = sim.current_ctx() if sim is not None else None
        rows = len(df)
        call = Call(None, rows, fn)
        nan = None
        if ctx is not None:
            if ctx.injected is not None:
                ctx.calls_after_raise += 1
            ctx.calls += 1
            ctx.since = 0
            ctx.rows += rows
            sim.stats["model_calls"] += 1
            sim.stats["model_rows"] += rows
            sim.event("call", ctx.label, self.ident, fn, ctx.calls, rows)
            sim.advance(self.spec.get("latency", 0.0))
            if self.keep_frames:
                call.df = df.copy()
            ctx.call_log.append(call)
            if sim.on_call is not None:
                sim.on_call(ctx, self, df, call)
            if sim.sched is not None:
                sim.sched.yield_point()
            if ctx.calls > ctx.call_cap:
                raise core.SimHang("operation exceeded %d model calls" % ctx.call_cap)
            for f in ctx.faults:
                if f.get("done") or f.get("call") != ctx.calls:
                    continue
                if f["kind"] == "raise":
                    f["done"] = True
                    call.failed = True
                    sim.fire(ctx, "raise:" + f["exc"])
                    e = core.EXC_TYPES[f["exc"]]("simulated model failure")
                    ctx.inject(e)
                    raise e
                if f["kind"] == "nan":
                    f["done"] = True
                    sim.fire(ctx, "nan")
                    nan = f
                elif f["kind"] == "slow":
                    f["done"] = True
                    sim.fire(ctx, "slow")
                    sim.advance(f["dt"])
                elif f["kind"] == "clockjump":
                    f["done"] = True
                    sim.fire(ctx, "clockjump")
                    sim.jump(f["dt"])
        I = self.grid.codes(df, self.spec["mode"] == "positional")
        if ctx is not None and nan is not None:
            call.nan = True
        return I, call, ctx, nan

    def _finish(self, y, call, ctx, nan, df):
        if nan is not None and len(y):
            y = y.astype(float)
            lo = int(nan["lo"] * len(y))
            hi = max(lo + 1, int(nan["hi"] * len(y)))
            y[lo:hi] = np.nan
        call.out = y.copy()
        if ctx is not None:
            ctx.delivered_rows += len(y)
            ctx.delivered_calls += 1
            ctx.since = 0
            if core.SIM.sched is not None:
                core.SIM.sched.yield_point()
        r = self.spec["ret"]
        if r == "series":
            return pd.Series(y, index=df.index)
        if r == "list":
            return y.tolist()
        y.flags.writeable = not self.spec.get("ro")
        return y

    def predict(self, df):
        I, call, ctx, nan = self._call(df, "predict")
        y = self.label(I).astype(np.int64) if self.spec.get("labels") else self.f(I)
        if self.spec["api"] == "func":
            y = y + 1024                 # a user-supplied predict_function must win over .predict
        return self._finish(y, call, ctx, nan, df)

    def _predict_proba(self, df):
        I, call, ctx, nan = self._call(df, "predict_proba")
        p = self._finish(self.proba(I), call, ctx, nan, df)
        p = np.asarray(p, dtype=float)
        if self.spec.get("nclass", 2) == 3:
            p = np.column_stack([(1 - p) / 2, p, (1 - p) / 2])
        else:
            p = np.column_stack([1 - p, p])
        p.flags.writeable = not self.spec.get("ro")
        return p

    def score_rows(self, df):
        I, call, ctx, nan = self._call(df, "func")
        return self._finish(self.f(I), call, ctx, nan, df)


def sim_predict_function(model, df):
    """A user-supplied predict_function."""
    return model.score_rows(df)


def predict_function_for(model):
    return sim_predict_function if model.spec["api"] == "func" else None
