"""C07: concurrent callers get the results they would get alone."""
from .. import explib as X, harness as H, pdlib as P, treelib as T, world as W
from ..core import Violation

prepare = T.prepare


def gen(rng, tier):
    r = rng.random()
    pool = list(X.PD_KINDS) * 2 + list(X.PERF_KINDS) if r < 0.65 else list(X.TREE_KINDS) if r < 0.8 else list(X.PD_KINDS + X.PERF_KINDS + X.TREE_KINDS)
    nt = rng.choice([2, 2, 3, 3, 4])
    kinds = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
    if rng.random() < 0.35:                      # all threads do the same kind of thing
        k = rng.choice(X.PD_KINDS + X.PERF_KINDS * 2 + X.TREE_KINDS)
        kinds = [[k] * len(t) for t in kinds]
    plan = X.gen_base(rng, tier, [k for t in kinds for k in t], rows=rng.choice([3, 4, 5]))
    calcs = []
    if plan["models"]:
        for _ in range(rng.choice([0, 1, 1, 2])):
            m = rng.randrange(len(plan["models"]))
            calcs.append({"model": m, "world": plan["models"][m]["world"], "batchsize": H.batchsizes(rng, 4),
                          "pre": rng.choice([None, None, "single", "minus", "pairs"])})
    faulty = rng.random() < 0.5
    common = {"metric_obj": rng.choice(["default", "shared"])} if rng.random() < 0.6 else None       # the threads use one metric object
    if common is not None and plan["worlds"] and not plan["worlds"][0]["labels"]:
        common["metric"] = "RMSE" if common["metric_obj"] == "default" else rng.choice(["RMSE", "MSE"])
    threads = []
    for ks in kinds:
        th = []
        for k in ks:
            ex = X.gen_explainer(rng, k, plan)
            ex["normalized"] = True
            if common is not None and k in X.PERF_KINDS:
                ex.update(common)
            op = X.gen_fit(rng, k, plan, ex["metric"])
            op["ex"] = ex
            op["via_handler"] = rng.random() < 0.7
            op["pass_df"] = rng.random() < 0.5
            op["shared"] = rng.randrange(len(calcs)) if k in X.PD_KINDS and calcs and rng.random() < 0.75 else None
            if faulty and rng.random() < 0.3:
                op["faults"] = [{"kind": "raise", "call": H.low(rng, 6), "exc": rng.choice(H.RAISES)}]
                if rng.random() < 0.5:
                    th.append(op)
                    op = dict(op, faults=[])
            th.append(op)
        threads.append(th)
    sched = {"mode": "random", "seed": rng.getrandbits(32), "rate": rng.choice([0.005, 0.03, 0.1, 0.3, 0.6])}
    if rng.random() < 0.4:
        sched.update(hot=rng.choice([6, 15, 40]), rate=0.002)
    return dict(plan, calcs=calcs, threads=threads, sched=sched)


class Shared:
    """A calculator several threads use."""

    def __init__(self, run, S, spec):
        m = run.models[spec["model"]]
        w = spec["world"]
        self.c = P.CalcRef(S.Calc(m, run.worlds[w], W.predict_function_for(m), spec["batchsize"]), w, m, run.worlds[w], run.codes[w], W.names_of(run.plan["worlds"][w]))
        if spec["pre"] == "single":
            self.c.obj.calculate_pd_single(self.c.names[:1])
        elif spec["pre"] == "minus":
            self.c.obj.calculate_pd_minus_single(self.c.names[-1:])
        elif spec["pre"] == "pairs":
            self.c.obj.calculate_pd_pairs([tuple(self.c.names[:2])], False)


def bind_shared(run, op, c):
    k = op["op"]
    if k == "greenwell" and not P.well_spread(c.I):
        return None
    obj = P.make_method(k, op["ex"])
    feats = None if op["features"] is None else [f for f in op["features"] if f in c.names]
    if feats is not None and len(feats) < 2:
        feats = None
    kw = dict(predict_function=W.predict_function_for(c.model), show_progress=op["show_progress"], pd_calculator=c.obj)
    if k != "additivity":
        kw["features"] = feats
    if k == "friedman":
        kw["calculate_ova"] = op["ova"]
    fn = (lambda: obj.importance(c.model, c.frame, **kw)) if k == "pdimp" else (lambda: obj.fit(c.model, c.frame, **kw))

    def verify(out):
        P.check_fit({"kind": k, "obj": obj, "calc": c, "model": c.model, "frame": c.frame, "codes": c.I, "names": c.names, "n": None, "features": feats, "out": out, "op": op,
                     "ova": op["ova"], "normalized": True}, run)
    return obj, fn, verify


def execute(plan, run):
    bench = X.Bench(run)
    shared = [Shared(run, bench.P, s) for s in plan["calcs"]]
    frames = [H.frame_state(f) for f in run.worlds]
    alone = {}
    # what each call gives when nobody else is there
    for t, th in enumerate(plan["threads"]):
        for i, op in enumerate(th):
            if op["shared"] is not None:
                continue
            obj = bench.make(op["ex"])
            b = bench.bind(obj, op["ex"], op)
            if b is None:
                continue
            out = run.attempt(b[0], [], label="alone", call_cap=60000, line_cap=30000000)
            run.must(out, op["op"])
            alone[(t, i)] = X.components(obj, op["op"])
    done = []

    def body(ops, task):
        t = task.tid
        for i, op in enumerate(ops):
            if op["shared"] is not None:
                b = bind_shared(run, op, shared[op["shared"]].c)
                if b is None:
                    continue
                obj, fn, verify = b
            else:
                if (t, i) not in alone:
                    continue
                obj = bench.make(op["ex"])
                fn, verify = bench.bind(obj, op["ex"], op)
            out = run.attempt(fn, op["faults"], label="t%d:%s" % (t, op["op"]), call_cap=60000, line_cap=30000000, task=task)
            done.append((t, i, op, obj, out, verify))
    H.run_threads(run, plan, body)
    good = 0
    for t, i, op, obj, out, verify in done:
        what = "%s in thread %d" % (op["op"], t)
        run.note("done", t, i, op["op"], op["shared"] is not None, out.kind)
        if out.kind == "error" or (out.kind == "fault" and out.ctx.injected is None):
            raise Violation("foreign-failure", "%s raised %s although %s" % (what, H.short(out.exc), "its model did not fail" if out.ctx.injected is None else "its model raised " + H.short(out.ctx.injected)))
        if not out.returned:
            continue
        good += 1
        run.probe("checked_" + op["op"])
        verify(out)
        if (t, i) in alone:
            now = X.components(obj, op["op"])
            if op["op"] == "pdimp" and op["n"] is not None:
                continue
            if now != alone[(t, i)]:
                raise Violation("differs-from-alone", "%s: %r differ from the result of the same call alone" % (what, [c for c in now if now[c] != alone[(t, i)].get(c)]))
        else:
            run.probe("shared_calculator")
    for s in shared:
        P.check_tables(s.c)
    for w, f in enumerate(run.worlds):
        if H.frame_state(f) != frames[w]:
            raise Violation("caller-object-changed", "data frame %d changed" % w)
    if bench.tr is not None:
        bench.tr.check_untouched()
    return {"nontrivial": good > 1}
