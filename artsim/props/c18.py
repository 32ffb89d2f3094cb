"""C18: a saved explainer is as good as the one that was saved.

The story of 1-2 explainers is told twice. First without any interruption of the process. Then with cuts: at a cut the
explainers are pickled and the process ends; a process that knows nothing of the story (it was forked before it began)
loads them and goes on; or they are copied (pickle, deepcopy) inside the process, and originals and copies go different ways.
Everything shown after each step has to be the same to the last bit.
"""
import copy
import os
import pickle
import select
import signal

from .. import explib as X, harness as H, plotcheck as K, plotlib as V, treelib as T
from ..core import Violation

prepare = T.prepare
KIND_POOL = ["friedman"] * 3 + ["greenwell"] * 2 + ["sejong"] * 4 + ["additivity"] * 2 + ["pdimp", "permimp", "permimp"] + ["ss"] * 2 + ["cmd"] * 2 + ["ssimp"]
SHOW = X.COMPONENTS + ("X_sampled", "y_sampled", "features_included", "pairs")


def gen(rng, tier):
    kinds = [rng.choice(KIND_POOL)]
    if rng.random() < 0.4:
        agn = [k for k in KIND_POOL if (k in X.TREE_KINDS) == (kinds[0] in X.TREE_KINDS)]
        kinds.append(rng.choice(agn))
    plan = X.gen_base(rng, tier, kinds)
    exs = [X.gen_explainer(rng, k, plan) for k in kinds]
    for e in exs:
        if e["metric"] == "MAE":        # our own metric class is not importable by pickle
            e["metric"] = "MSE"
    ops = []
    cuts = 0
    for i in range(rng.choice([2, 3, 4, 6]) if tier == "quick" else rng.choice([3, 5, 8])):
        if i == 1 or (i > 0 and rng.random() < 0.35):
            how = rng.choice(["restart", "restart", "restart", "pickle", "deepcopy"]) if cuts < 3 else "pickle"
            cuts += how == "restart"
            cut = {"what": "cut", "how": how, "together": rng.random() < 0.5, "aside": []}
            if how != "restart" and rng.random() < 0.7:
                e = rng.randrange(len(exs))
                cut["aside"].append(gen_fit(rng, e, exs, plan))
            ops.append(cut)
        e = rng.randrange(len(exs))
        r = rng.random()
        if i == 0 and rng.random() < 0.15:
            continue                    # saved before it was ever fitted
        if i == 0 or r < 0.45:
            op = gen_fit(rng, e, exs, plan)
            q = rng.random()
            if q < 0.2:
                op["faults"] = [H.gen_fault(rng, ("raise",), max_call=8)]
            elif q < 0.3 and not any(o["what"] == "cut" for o in ops):
                op["faults"] = [{"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 11)), "exc": "KeyboardInterrupt"}]
            ops.append(op)
        elif r < 0.6:
            ops.append({"what": "values", "ex": e})
        elif r < 0.75:
            ops.append({"what": "plot", "ex": e, "plot": V.gen_plot(rng, exs[e]["kind"]) if exs[e]["kind"] in V.VIS else None})
        elif r < 0.85:
            ops.append({"what": "compare", "ex": e, "other": rng.randrange(len(exs))})
        else:
            ops.append({"what": "reuse", "ex": e, "method": rng.choice(["friedman", "greenwell", "additivity", "pdimp"])})
    ops.append({"what": "values", "ex": rng.randrange(len(exs))})
    return dict(plan, explainers=exs, ops=ops, fixed_sample=True)


def gen_fit(rng, e, exs, plan):
    op = X.gen_fit(rng, exs[e]["kind"], plan, exs[e]["metric"])
    op.update(what="fit", ex=e, via_handler=rng.random() < 0.4)
    return op


def shown(obj):
    out = []
    for k in SHOW:
        v = getattr(obj, k, None)
        if k in ("features_included", "pairs") and v is not None:
            v = [str(x) for x in v]
        out.append((k, H.any_state(v)))
    return out


def served(calc, names):
    """Everything the explainer's calculator serves."""
    out = [("single", f, H.any_state(calc.get_pd_single(f))) for f in names] + [("minus", f, H.any_state(calc.get_pd_minus_single(f))) for f in names]
    return out + [("pair", f, g, H.any_state(calc.get_pd_pairs(f, g))) for i, f in enumerate(names) for g in names[i + 1:]]


class Teller:
    """One process telling (part of) the story."""

    def __init__(self, run, bench):
        self.run, self.bench = run, bench
        self.exs = run.plan["explainers"]
        self.objs = None
        self.verified = 0

    def do(self, op):
        """One step; returns what everybody can see of it."""
        import matplotlib.pyplot as plt
        run, e = self.run, op["ex"]
        obj, kind = self.objs[e], self.exs[e]["kind"]
        what = op["what"]
        if what == "fit":
            b = self.bench.bind(obj, self.exs[e], op)
            if b is None:
                return ["skipped"]
            out = run.attempt(b[0], op["faults"], label=kind, call_cap=60000)
            if out.kind == "ok":
                self.verified += 1
                if b[1] is not None:
                    b[1](out)
            rec = ["fit", out.kind, type(out.exc).__name__, shown(obj) if out.returned else None]
        elif what == "values":
            rec = ["values", self.values(obj)]
        elif what == "plot":
            if op["plot"] is None:
                return ["skipped"]
            out = run.attempt(lambda: V.plot(obj, op["plot"], copy.deepcopy(op["plot"]["kw"])), label="plot")
            rec = ["plot", out.kind, type(out.exc).__name__, [K.fingerprint(plt.figure(n)) for n in plt.get_fignums()] if out.returned else None]
            plt.close("all")
        elif what == "compare":
            from artemis.comparison import FeatureInteractionMethodComparator
            if kind not in X.INTERACTION or self.exs[op["other"]]["kind"] not in X.INTERACTION:
                return ["skipped"]
            out = run.attempt(lambda: FeatureInteractionMethodComparator().correlations(obj, self.objs[op["other"]]), label="compare")
            rec = ["compare", out.kind, type(out.exc).__name__, H.any_state(out.value) if out.returned else None]
        else:
            calc = getattr(obj, "pd_calculator", None)
            model = getattr(obj, "model", None)
            if calc is None or model is None or getattr(obj, "ovo", getattr(obj, "additivity_index", None)) is None:
                return ["skipped"]
            from .. import pdlib as P
            other = P.make_method(op["method"], {"kind": op["method"], "random_state": 1, "normalized": True})
            if op["method"] == "greenwell" and min(obj.X_sampled[c].nunique() for c in obj.X_sampled.columns) < 2:
                return ["skipped"]
            fn = (lambda: other.importance(model, obj.X_sampled, pd_calculator=calc)) if op["method"] == "pdimp" else (lambda: other.fit(model, obj.X_sampled, pd_calculator=calc))
            out = run.attempt(fn, label="reuse")
            rec = ["reuse", out.kind, type(out.exc).__name__, shown(other) if out.returned else None]
            run.must(out, "%s on the calculator of %s" % (op["method"], kind))
        run.note(what, e, rec[1] if what != "values" else None)
        return rec

    def values(self, obj):
        out = shown(obj)
        calc = getattr(obj, "pd_calculator", None)
        if calc is not None and hasattr(calc, "get_pd_single"):
            out.append(("partial dependence values", served(calc, list(obj.X_sampled.columns)) if getattr(obj, "X_sampled", None) is not None else None))
        ovo = getattr(obj, "ovo", None)
        if ovo is not None and hasattr(obj, "interaction_value"):
            pairs = [(str(r[0]), str(r[1])) for r in ovo.iloc[:, :2].itertuples(index=False)]
            out.append(("interaction values", [repr(float(obj.interaction_value(a, b))) for a, b in pairs[:6]]))
        return out


def dump(objs, together):
    try:
        return [pickle.dumps(objs)] if together else [pickle.dumps(o) for o in objs]
    except BaseException as e:      # noqa: B902
        raise Violation("cannot-save", "saving an explainer raised %s" % H.short(e))


def load(data, together):
    try:
        return pickle.loads(data[0]) if together else [pickle.loads(d) for d in data]
    except BaseException as e:      # noqa: B902
        raise Violation("cannot-restore", "restoring a saved explainer raised %s" % H.short(e))


def tell(t, ops, saved, together):
    """Tells ops up to and including the next restart. Returns records and, at a restart, what was saved."""
    t.objs = [t.bench.make(e) for e in t.exs] if saved is None else load(saved, together)
    recs = []
    aside = []
    for i, op in enumerate(ops):
        if op["what"] != "cut":
            recs.append(t.do(op))
            continue
        t.run.probe("cut_" + op["how"])
        if op["how"] == "restart":
            return recs, i + 1, dump(t.objs, op["together"]), op["together"], aside_ok(t, aside)
        old = t.objs
        try:
            new = copy.deepcopy(old) if op["how"] == "deepcopy" and op["together"] else [copy.deepcopy(o) for o in old] if op["how"] == "deepcopy" else None
        except BaseException as e:      # noqa: B902
            raise Violation("cannot-save", "copying an explainer raised %s" % H.short(e))
        if new is None:
            new = load(dump(old, op["together"]), op["together"])
        t.objs = old
        for a in op["aside"]:           # the original goes its own way
            t.do(a)
        aside.append((old, [shown(o) for o in old]))
        t.objs = new
    return recs, len(ops), None, False, aside_ok(t, aside)


def aside_ok(t, aside):
    for old, was in aside:
        if [shown(o) for o in old] != was:
            raise Violation("copies-share-state", "working with a copy changed what the original explainer shows")


class Machine:
    """A process forked before the story begins; wakes up with the saved explainers."""

    def __init__(self, run, bench):
        ra, wa = os.pipe()
        rb, wb = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(wa)
                os.close(rb)
                write_all(wb, self.work(run, bench, *read_all(ra)))
            except BaseException:       # noqa: B902
                code = 3
            finally:
                os._exit(code)
        os.close(ra)
        os.close(wb)
        self.w, self.r = wa, rb

    @staticmethod
    def work(run, bench, ops, saved, together):
        t = Teller(run, bench)
        sim = run.sim
        try:
            recs, n, data, tog, _ = tell(t, ops, saved, together)
            return {"recs": recs, "n": n, "data": data, "together": tog, "hash": sim.log_hash.hexdigest(), "stats": dict(sim.stats), "violation": None, "sig": run.sig}
        except Violation as v:
            return {"violation": (v.rule, str(v.detail))}
        except Exception as e:          # noqa: B902
            import traceback
            return {"violation": ("malformed-result", "%s\n%s" % (H.short(e), traceback.format_exc()[-1200:]))}

    def ask(self, *payload):
        write_all(self.w, payload)
        try:
            return read_all(self.r, 240)
        except EOFError:
            raise Violation("process-died", "the restarted process died")
        except TimeoutError:
            raise Violation("liveness", "the restarted process did not end")
        finally:
            self.stop()

    def stop(self):
        if self.pid is None:
            return
        os.close(self.w)
        os.close(self.r)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.pid = None


def read_all(fd, wait=None):
    data, need = b"", 8
    while len(data) < need:
        if wait is not None and not select.select([fd], [], [], wait)[0]:
            raise TimeoutError
        b = os.read(fd, min(1 << 16, need - len(data)))
        if not b:
            raise EOFError
        data += b
        if need == 8 and len(data) == 8:
            need += int.from_bytes(data, "big")
    return pickle.loads(data[8:])


def write_all(fd, obj):
    data = pickle.dumps(obj)
    data = len(data).to_bytes(8, "big") + data
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:off + 65536])


def execute(plan, run):
    bench = X.Bench(run)
    ops = plan["ops"]
    n = 1 + sum(o["what"] == "cut" and o["how"] == "restart" for o in ops)
    machines = [Machine(run, bench) for _ in range(n)]
    try:
        t = Teller(run, bench)
        t.objs = [bench.make(e) for e in t.exs]
        steps = [o for o in ops if o["what"] != "cut"]
        want = [t.do(o) for o in steps]
        got = []
        rest, saved, together = ops, None, False
        cuts = sum(o["what"] == "cut" for o in ops)
        while rest:
            m = machines.pop(0)
            r = m.ask(rest, saved, together)
            if r["violation"]:
                raise Violation(*r["violation"])
            run.sim.event("machine", r["hash"], len(r["recs"]))
            for k, v in r["stats"].items():
                if k.startswith(("probe:cut", "fault")):
                    run.sim.stats[k] += v
            for rec in r["recs"]:
                if rec != want[len(got)]:
                    raise Violation("restored-differs", "step %d (%s) with an explainer that was saved and restored: %s" % (len(got), steps[len(got)]["what"], diff(want[len(got)], rec)))
                got.append(rec)
            rest, saved, together = rest[r["n"]:], r["data"], r["together"]
    finally:
        for m in machines:
            m.stop()
    return {"nontrivial": t.verified > 0 and cuts > 0 and any(r[0] != "skipped" for r in want[1:])}


def diff(a, b):
    if a[0] != b[0] or a[1:-1] != b[1:-1] or a[-1] is None or b[-1] is None:
        return "%s, without %s" % (str(b[:3])[:300], str(a[:3])[:300])
    for x, y in zip(a[-1], b[-1]):
        if x != y:
            return "%s, without %s" % (str(y)[:400], str(x)[:400])
    return "%s, without %s" % (str(b)[:300], str(a)[:300])
