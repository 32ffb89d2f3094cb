"""C12: model failures reach the caller unchanged; the next healthy call succeeds; calls are bounded."""
from .. import harness as H, pdlib as P, perflib as L, world as W
from ..core import Violation
from . import c02


def gen(rng, tier):
    if rng.random() < 0.6:
        plan = c02.gen(rng, tier, kinds=("raise", "raise", "slow"), pfault=0.65)
        ops = []
        for op in plan["ops"]:
            ops.append(op)
            if op.get("faults"):
                if rng.random() < 0.3:
                    extra = H.gen_faults(rng, ("raise",), 1.0, max_call=4)
                    ops.append(dict(op, faults=extra))
                if op["op"] == "fit" and op.get("mid") is None and op.get("calc") is None:
                    op["mid"] = "r%d" % len(ops)
                ops.append(dict(op, faults=[]))
        plan["ops"] = ops
        return plan
    worlds, models = L.gen_perf_base(rng, tier)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = L.gen_perf_op(rng, worlds, models)
        op["mid"] = "m%d" % len(ops)
        mc = L.est_calls(op, len(worlds[op["world"]]["cols"]))
        op["faults"] = H.gen_faults(rng, ("raise",), 0.9, max_call=mc)
        ops.append(op)
        if rng.random() < 0.25:
            ops.append(dict(op, faults=H.gen_faults(rng, ("raise",), 1.0, max_call=mc)))
        ops.append(dict(op, faults=[]))
    return {"worlds": worlds, "models": models, "ops": ops}


def judge(run, out, what, hit):
    """hit: the planned failure fired"""
    if out.kind == "swallowed":
        raise Violation("error-swallowed", "%s returned although the model raised %s" % (what, H.short(out.ctx.injected)))
    if out.ctx.calls_after_raise:
        raise Violation("calls-after-failure", "%s called the model %d more times after it had raised %s" % (
            what, out.ctx.calls_after_raise, H.short(out.ctx.injected)))
    if out.kind == "fault":
        exc = out.exc
        if isinstance(exc, RuntimeError) and isinstance(exc.__cause__, StopIteration):      # Python's own doing, see harness
            exc = exc.__cause__
        if len(out.ctx.all_injected) != 1 or exc is not out.ctx.all_injected[0]:
            raise Violation("error-replaced", "%s raised another error than the model's" % what)
        if exc.__cause__ is not None:
            raise Violation("error-replaced", "%s changed the model's error" % what)
        run.probe("failure_delivered")


def nominal_calls(f):
    """upper bound on calls of one PD fit"""
    N = f["n"] or len(f["frame"])
    k = len(f["names"])
    rows = N * N * k * k + 2 * N * N * k + 2 * N
    return rows + 10


def execute(plan, run):
    pd = P.PDRun(run)
    pr = None
    fails = ok_after = 0
    pending = False
    for op in plan["ops"]:
        k = op["op"]
        if k in ("sejong", "permimp"):
            pr = pr or L.PerfRun(run)
            f = pr.perform(op)
            out = f["out"]
            judge(run, out, k, None)
            if out.ctx.calls > f["est"] + 3:
                raise Violation("liveness", "%s made %d model calls, %d are needed" % (k, out.ctx.calls, f["est"]))
            if out.kind == "ok":
                L.check_perf(f, run)
                ok_after += pending
                pending = False
            else:
                fails += 1
                pending = True
        elif k == "fit":
            f = pd.fit(op)
            if f is None:
                continue
            out = f["out"]
            judge(run, out, f["kind"], None)
            if out.ctx.calls > nominal_calls(f):
                raise Violation("liveness", "%s made %d model calls" % (f["kind"], out.ctx.calls))
            if out.kind == "ok":
                P.check_fit(f, run)
                ok_after += pending
                pending = False
            elif out.kind == "fault":
                fails += 1
                pending = True
        elif k in ("single", "pairs", "minus"):
            r = pd.compute(op)
            if r is None:
                continue
            c, out = r
            judge(run, out, "calculate_pd_" + k, None)
            if out.kind == "ok":
                P.check_complete(c, op, P.check_tables(c))
            elif out.kind == "fault":
                fails += 1
                pending = True
        else:
            c02.step(pd, run, op)
    if ok_after:
        run.probe("verified_success_after_failure")
    return {"nontrivial": fails > 0 and ok_after > 0}
