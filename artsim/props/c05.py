"""C05: a fixed random_state makes results bit-for-bit repeatable.

The same script is driven twice on equal inputs: once undisturbed, once while everything that is not part of the script
(entropy, global generators, clock, progress display, other explainers, their failures) differs. Results must be identical to
the last bit. Each plan also runs in two interpreters with different hash seeds, whose results must agree.
"""
import copy
import hashlib
import random

import numpy as np

from .. import core, harness as H, pdlib as P, perflib as L, world as W
from ..core import Violation

CROSS_PROCESS = True
SEEDS = [0, 1, 3, 42, 2 ** 31 - 1, 99, "np3"]


def gen_op(rng, worlds, models):
    if rng.random() < 0.5:
        op = L.gen_perf_op(rng, worlds, models)
        op["n_repeat"] = min(op["n_repeat"], 3)
        w = op["world"]
        if op["op"] == "sejong" and rng.random() < 0.6:
            op["n"] = rng.randint(2, W.rows_of(worlds[w]))
    else:
        m = rng.randrange(len(models))
        w = models[m]["world"]
        n = W.rows_of(worlds[w])
        op = {"op": "fit", "method": rng.choice(["friedman", "greenwell", "additivity"]), "calc": None, "world": w, "model": m,
              "n": rng.choice([None, 2, max(2, n // 2), n - 1, n - 1, n]), "batchsize": H.batchsizes(rng, n), "ova": rng.random() < 0.5,
              "features": P.gen_features(rng, W.names_of(worlds[w]), minimum=2), "normalized": True, "show_progress": False, "faults": []}
    op["random_state"] = rng.choice(SEEDS)
    return op


def gen(rng, tier):
    worlds, models = L.gen_perf_base(rng, tier, rows=rng.choice([4, 6, 7, 8]), distinct=rng.random() < 0.6)
    for w in worlds:
        P.ensure_two(rng, w)
    kinds = H.swarm(rng, ("raise",))
    ops = []
    nmid = rng.choice([1, 2, 3])
    proto = [gen_op(rng, worlds, models) for _ in range(nmid)]
    for _ in range(rng.choice([1, 2, 3, 4]) if tier == "quick" else rng.choice([2, 4, 6])):
        k = rng.randrange(nmid)
        op = copy.deepcopy(gen_op(rng, worlds, models))
        # keep the explainer's class and seed, vary everything else
        base = proto[k]
        for _ in range(20):
            if op["op"] == base["op"] and op.get("method") == base.get("method") and (op["op"] == "fit" or worlds[op["world"]]["labels"] == worlds[base["world"]]["labels"]):
                break
            op = gen_op(rng, worlds, models)
        else:
            op = copy.deepcopy(base)
        op["random_state"] = base["random_state"]
        if op["op"] != "fit":
            op["metric"] = base["metric"]
        op["mid"] = k
        op["faults"] = H.gen_faults(rng, kinds, 0.25, max_call=6)
        ops.append(op)
    noise = []
    for _ in range(rng.choice([1, 3, 5])):
        kind = rng.choice(["np_seed", "np_draw", "py_seed", "entropy", "clock", "fit", "fit", "twin"])
        nz = {"at": rng.randrange(len(ops) + 1), "noise": kind, "x": rng.randrange(10 ** 6), "faults": []}
        if kind == "fit":
            nz["what"] = gen_op(rng, worlds, models)
            nz["what"]["mid"] = None
            nz["what"]["random_state"] = rng.choice([None] + SEEDS)
            nz["what"]["faults"] = H.gen_faults(rng, ("raise", "interrupt"), 0.5, max_call=6)
        elif kind == "twin":            # another explainer with the very same seed, same calls
            nz["what"] = copy.deepcopy(rng.choice(ops))
            nz["what"]["mid"] = None
        noise.append(nz)
    return {"worlds": worlds, "models": models, "ops": ops, "noise": noise, "progress": rng.random() < 0.4, "inmodel": rng.random() < 0.5}


SHOW = ("ovo", "ova", "feature_importance", "X_sampled", "y_sampled", "features_included", "pairs", "additivity_index", "full_result")


def snapshot(obj):
    out = []
    for k in SHOW:
        v = getattr(obj, k, None)
        if k == "features_included" and v is not None:
            v = list(v)
        out.append((k, H.any_state(v)))
    return tuple(out)


class Script:
    def __init__(self, run):
        self.run = run
        self.pd = P.PDRun(run)
        self.pf = L.PerfRun(run)

    def do(self, op):
        if op["op"] == "fit":
            f = self.pd.fit(op)
        else:
            f = self.pf.perform(op)
        return f


def rec_of(f):
    if f is None:
        return ("skipped",)
    out = f["out"]
    val = H.any_state(out.value) if out.returned else type(out.exc).__name__
    # what a failed fit leaves behind is not a result; the explainer's later results are
    return (out.kind, out.ctx.calls, val, snapshot(f["obj"]) if out.returned else None)


def execute(plan, run):
    sim = run.sim
    a = Script(run)
    first = [rec_of(a.do(op)) for op in plan["ops"]]

    # the same script again, in a disturbed world
    sim.entropy = random.Random("other-%s" % plan["env"])
    run.worlds = [W.build_frame(s) for s in plan["worlds"]]
    b = Script(run)
    other = Script(run)
    jit = random.Random("jitter-%s" % plan["env"])
    if plan["inmodel"]:
        def disturb(ctx, model, df, call):
            r = jit.random()
            if r < 0.4:
                np.random.seed(jit.getrandbits(32))
                random.seed(jit.getrandbits(32))
            elif r < 0.6:
                np.random.rand(3)
                random.random()
            elif r < 0.8:
                sim.jump(jit.choice([-1e6, 1e5, 0.01]))
            sim.stats["probe:disturbed_in_model"] += 1
        sim.on_call = disturb
    for i, op in enumerate(plan["ops"]):
        for nz in plan["noise"]:
            if nz["at"] == i:
                make_noise(run, other, nz)
        op2 = dict(op, show_progress=op.get("show_progress", False) != plan["progress"])
        got = rec_of(b.do(op2))
        if got != first[i]:
            raise Violation("not-repeatable", "operation %d (%s) with the same random_state and the same calls: %s" % (i, op.get("method") or op["op"], diff(first[i], got)))
    digest = hashlib.sha1(repr(first).encode()).hexdigest()
    return {"nontrivial": any(r[0] == "ok" for r in first), "digest": digest}


def diff(a, b):
    if a[0] != b[0]:
        return "outcome %s, then %s" % (a[0], b[0])
    if a[3] is None or b[3] is None:
        return "%r, then %r" % (a[1:3], b[1:3])
    for (k, x), (_, y) in zip(a[3], b[3]):
        if x != y:
            return "%s was %s, then %s" % (k, str(x)[:300], str(y)[:300])
    return "returned value or model calls differ: %s / %s" % (str(a[:3])[:300], str(b[:3])[:300])


def make_noise(run, other, nz):
    k = nz["noise"]
    run.probe("noise_" + k)
    if k == "np_seed":
        np.random.seed(nz["x"])
    elif k == "np_draw":
        np.random.rand(nz["x"] % 7 + 1)
    elif k == "py_seed":
        random.seed(nz["x"])
    elif k == "entropy":
        np.random.default_rng().random(2)
    elif k == "clock":
        run.sim.jump((nz["x"] - 5e5) * 10)
    else:
        cb = run.sim.on_call
        other.do(nz["what"])
        run.sim.on_call = cb
