"""C03: PD values are requested once and in bounded batches."""
from itertools import combinations

import numpy as np

from .. import harness as H, pdlib as P, world as W
from ..core import Violation
from . import c02


def gen(rng, tier):
    kinds = ("raise", "slow", "clockjump") if rng.random() < 0.7 else ("raise", "nan", "interrupt", "stderr")
    plan = c02.gen(rng, tier, kinds=kinds, pfault=0.4)
    out = []
    for op in plan["ops"]:
        out.append(op)
        if op["op"] in ("fit", "single", "pairs", "minus") and op.get("calc") is not None and rng.random() < 0.45:
            out.append(dict(op, faults=[]))         # ask again
    plan["ops"] = out
    return plan


class Pre:
    """Which values were still missing before an operation."""

    def __init__(self, c):
        self.c = c
        o = c.obj
        self.single = {n: np.isnan(np.asarray(o.get_pd_single(n), dtype=float)) if o is not None else np.ones(len(c.levels[n]), bool) for n in c.names}
        self.minus = {n: np.isnan(np.asarray(o.get_pd_minus_single(n), dtype=float)) if o is not None else np.ones(c.N, bool) for n in c.names}
        self.pairs = {}
        for a, b in combinations(c.names, 2):
            self.pairs[(a, b)] = (np.isnan(np.asarray(o.get_pd_pairs(a, b), dtype=float)) if o is not None
                                  else np.ones((len(c.levels[a]), len(c.levels[b])), bool))

    def cells(self, a, b, every):
        """value cells of pair a,b one computation covers, with multiplicity"""
        c = self.c
        if every:
            return [(x[1], y[1]) for x in c.levels[a] for y in c.levels[b]]
        return [(int(c.I[r, c.col(a)]), int(c.I[r, c.col(b)])) for r in range(c.N)]

    def missing(self, a, b, cell):
        c = self.c
        pa = [x[1] for x in c.levels[a]].index(cell[0])
        pb = [x[1] for x in c.levels[b]].index(cell[1])
        return bool(self.pairs[(a, b)][pa, pb])

    def need(self, kind, item, every=None):
        """rows at most needed for `item` given what is missing (a feature with a missing value is one block)"""
        c = self.c
        if kind == "single":
            return len(c.levels[item]) * c.N if self.single[item].any() else 0
        if kind == "minus":
            return c.N * c.N if self.minus[item].any() else 0
        a, b = order(c, item)
        return sum(1 for cell in self.cells(a, b, every) if self.missing(a, b, cell)) * c.N

    def account(self, kind, item, every=None):
        """life-long ledger: adds what `item` may cost on top of everything requested before"""
        c = self.c
        if kind in ("single", "minus"):
            if (kind, item) in c.requested:
                return 0
            c.requested[(kind, item)] = True
            inc = (len(c.levels[item]) if kind == "single" else c.N) * c.N
        else:
            a, b = order(c, item)
            seen = c.requested.setdefault(("pair", a, b), {})
            cells = self.cells(a, b, every)
            inc = 0
            for cell in sorted(set(cells)):
                m = cells.count(cell)
                if cell in seen and not self.missing(a, b, cell):
                    continue
                inc += max(0, m - seen.get(cell, 0)) * c.N
                seen[cell] = max(m, seen.get(cell, 0))
        c.bound += inc
        return inc


def order(c, item):
    a, b = item
    return (b, a) if c.col(a) > c.col(b) else (a, b)


def block(c, kind, items):
    if kind == "single":
        return max([len(c.levels[n]) for n in items] or [1]) * c.N
    if kind == "minus":
        return c.N * c.N
    return c.N


def check_calls(ctx, batchsize, blk, what, computations):
    for i, call in enumerate(ctx.call_log):
        if call.rows == 0:
            raise Violation("empty-call", "%s: model call %d carried no rows" % (what, i + 1))
        if call.rows > batchsize + blk:
            raise Violation("oversized-call", "%s: model call %d carried %d rows (batch size %d, largest block %d)" % (what, i + 1, call.rows, batchsize, blk))
    if ctx.rows and ctx.calls > (ctx.rows / float(batchsize)) + computations:
        raise Violation("too-many-calls", "%s: %d model calls for %d rows at batch size %d" % (what, ctx.calls, ctx.rows, batchsize))


def settle(c, out, what, need, preds=0):
    """preds: calls that predict the data itself (N rows each), which are not PD values."""
    ctx = out.ctx
    if ctx.rows > need + preds * c.N and not any(f == "nan" for f in ctx.fired):
        raise Violation("re-requested", "%s asked the model for %d rows; the values still missing need at most %d%s" % (
            what, ctx.rows, need, " plus %d for the predictions" % c.N if preds else ""))
    c.delivered += max(0, ctx.delivered_rows - (preds * c.N if ctx.delivered_rows >= c.N else 0))
    if any(f == "nan" or f.startswith(("interrupt", "stderr")) for f in ctx.fired):
        c.exact = False
    if c.exact and c.delivered > c.bound:
        raise Violation("re-requested", "%s: the model delivered %d rows to this calculator although everything ever requested of it needs at most %d" % (
            what, c.delivered, c.bound))


def execute(plan, run):
    pd = P.PDRun(run)
    repeat = retry = 0
    for op in plan["ops"]:
        k = op["op"]
        if k in ("single", "pairs", "minus"):
            c = pd.calcs.get(op["calc"])
            if c is None:
                continue
            if k == "pairs":
                items = [tuple(p) for p in op["pairs"]] if op["pairs"] is not None else list(combinations(c.names, 2))
            else:
                items = list(op["features"]) if op["features"] is not None else c.names
            if any(f not in c.names for it in items for f in (it if k == "pairs" else [it])):
                continue
            pre = Pre(c)
            need = sum(pre.need(k, it, op.get("all")) for it in items)
            for it in items:
                pre.account(k, it, op.get("all"))
            _, out = pd.compute(op)
            what = "calculate_pd_%s(%r)" % (k, items)
            check_calls(out.ctx, c.batchsize, block(c, k, items), what, 1)
            settle(c, out, what, need)
        elif k == "fit":
            c = pd.calcs.get(op["calc"]) if op.get("calc") is not None else None
            if op.get("calc") is not None and c is None:
                continue
            pre = Pre(c) if c is not None else None
            f = pd.fit(op)
            if f is None:
                continue
            out = f["out"]
            if c is None:
                Xs = getattr(f["obj"], "X_sampled", None)
                if f["n"] is not None and (Xs is None or len(Xs) != f["n"] or list(Xs.columns) != f["names"]):
                    continue
                fr = f["frame"] if f["n"] is None else Xs
                codes = f["codes"] if f["n"] is None else f["model"].grid.codes(fr)
                c = P.CalcRef(None, None, f["model"], fr, codes, f["names"])
                c.batchsize = op["batchsize"]
                pre = Pre(c)
            feats = f["features"] if f["features"] is not None else f["names"]
            asked = [("single", n, None) for n in c.names]
            comps = 2
            blk = block(c, "single", c.names)
            preds = 0
            if f["kind"] in ("friedman", "greenwell"):
                asked += [("pairs", p, f["kind"] == "greenwell") for p in combinations(feats, 2)]
                comps += 1
            if f["kind"] == "friedman" and f["ova"]:
                asked += [("minus", n, None) for n in feats]
                comps += 1
                blk = max(blk, c.N * c.N)
                preds = 1
            if f["kind"] == "additivity":
                preds = 1
            need = sum(pre.need(*a) for a in asked)
            for a in asked:
                pre.account(*a)
            what = "%s fit" % f["kind"]
            check_calls(out.ctx, c.batchsize, max(blk, c.N), what, comps + preds + 1)      # one computation more than needed: nothing is requested twice for it
            settle(c, out, what, need, preds)
        else:
            c02.step(pd, run, op)
            continue
        if need == 0 and out.kind == "ok":
            repeat += 1
            run.probe("repeat_on_filled_tables")
        if out.kind == "fault" and out.ctx.delivered_rows:
            retry += 1
            run.probe("failed_after_partial_delivery")
    return {"nontrivial": repeat + retry > 0}
