#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from artsim import specs  # noqa: E402,F401
from artsim.engine import SPECS  # noqa: E402

NA = {
    "C15": "A pure arithmetic range claim about one function of model and data: no schedule, fault, clock, randomness or history enters, so simulation adds nothing to plain input generation.",
    "C16": "Static validation tables (supported plot types, metrics, model families): a finite pure input check with no concurrency, time, I/O or second party.",
    "C17": "A relational property of a pure computation over two inputs; no nondeterminism or fault can influence it that C02/C08/C10 do not already cover (they recompute every value under arbitrary names and orders).",
}
NOTE = "Seeded search over %s; every value is judged by an independent reference. Evidence over the explored runs, not proof; interleavings and interruptions at artemis source lines and model calls."
WHAT = {
    "C01": "operation histories, model failures, NaN answers, interruptions, checkpoints and restores of partial-dependence calculators",
    "C02": "fit histories over shared, partly filled and restored calculators with model failures and interruptions",
    "C03": "operation histories with model failures, with a per-calculator ledger of rows requested and delivered",
    "C04": "all operations with model failures, interruptions and aliasing of caller-owned objects, compared at each model call and afterwards",
    "C05": "identical scripts under different entropy, clocks, global random state, hash seeds and foreign activity",
    "C06": "histories of fits on one explainer with failures and interruptions at any line, compared with fresh explainers",
    "C07": "thread interleavings of concurrent callers sharing frames, models, calculators and handlers, with failures in some threads",
    "C08": "random permutation draws, failed and repeated fits, reconstructed from every data set the model was shown",
    "C09": "random draws over row labels and target containers, with failures, reconstructed from every data set the model was shown",
    "C10": "histories, interruptions and thread interleavings of tree-based fits over real boosted and forest models",
    "C11": "histories of fits, refits, comparisons and interrupted comparisons",
    "C12": "model failures of 17 kinds at every call position, followed by healthy repeats",
    "C13": "calculator/model/data mismatches including in-place changes, after partial and failed computations",
    "C14": "histories of plots, foreign figures, current-axes changes and interrupted plots",
    "C18": "process ends and copies at any point of histories of fits, failures, interruptions, queries and plots, only the pickled explainers surviving",
}


def main():
    checks = []
    for pid in sorted(SPECS):
        checks.append({"property": pid, "quick_cmd": "./check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference-model oracle, replayable traces)",
                       "level": "exploration", "level_note": NOTE % WHAT[pid]})
    have = set(SPECS)
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        for line in f:
            i = json.loads(line)["id"]
            if i not in have and i not in NA:
                na.append({"property": i, "reason": "Check under construction."})
    m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
