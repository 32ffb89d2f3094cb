"""Seeded search: generate plans, execute each in its own forked process, minimise, write replay and evidence files."""
import copy
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
RUN_WALL = 300            # real seconds for one simulated run before it counts as hung
NOW = core.REAL_MONO


def prop_module(pid):
    return importlib.import_module("artsim.props." + pid.lower())


def plan_for(pid, seed, i, tier):
    rng = random.Random("plan-%s-%s-%s" % (pid, seed, i))
    plan = prop_module(pid).gen(rng, tier)
    plan["prop"] = pid
    plan.setdefault("env", rng.getrandbits(48))
    return json.loads(json.dumps(plan))       # what is executed is exactly what a replay file stores


# ----------------------------------------------------------------- one run
def _execute(plan):
    if os.environ.get("ARTSIM_DUMP"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["ARTSIM_DUMP"]))
    """In-process execution. Returns a JSON-able result. Pure function of (plan, code, PYTHONHASHSEED)."""
    from . import harness
    mod = prop_module(plan["prop"])
    sim = core.Sim(plan["env"])
    core.set_sim(sim)
    harness.reseed_globals(sim)
    run = None
    viol = None
    out = {}
    try:
        run = harness.Run(plan, sim)
        out = mod.execute(plan, run) or {}
    except core.Violation as v:
        viol = {"rule": v.rule, "detail": str(v.detail)[:2000]}
    except core.SimDeadlock as e:
        viol = {"rule": "deadlock", "detail": str(e)}
    except core.SimHang as e:
        viol = {"rule": "liveness", "detail": str(e)}
    except (KeyError, TypeError, ValueError, IndexError, AttributeError, AssertionError, ZeroDivisionError) as e:
        # the oracle could not read what the code produced: a malformed result (never happens on a sound tree)
        viol = {"rule": "malformed-result", "detail": "%s\n%s" % (harness.short(e), traceback.format_exc()[-1500:])}
    core.set_sim(None)
    sig = hashlib.sha1(repr(run.sig if run else None).encode()).hexdigest()[:16]
    res = {"violation": viol, "hash": sim.log_hash.hexdigest(), "events": sim.n_events, "stats": dict(sim.stats),
           "simtime": sim.clock - sim.t0 - sim.jumped, "sig": sig, "nontrivial": bool(out.get("nontrivial", True)),
           "digest": out.get("digest"), "switches": out.get("switches"), "key": out.get("key", sig)}
    if viol:
        res["tail"] = sim.tail[-60:]
        if run is not None and getattr(run, "switches", None) is not None:
            res["switches"] = run.switches
    return res


def execute(plan, wall=RUN_WALL):
    """Execute in a forked child, so nothing one run leaves behind in the process can reach another."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = _execute(plan)
            except BaseException as e:      # noqa: B902
                res = {"harness_error": "%s\n%s" % (type(e).__name__, traceback.format_exc()[-3000:])}
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:               # noqa: B902
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = NOW() + wall
    hung = False
    while True:
        left = deadline - NOW()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        return {"violation": {"rule": "liveness", "detail": "run did not end within %d s of real time" % wall}, "hash": "hung",
                "stats": {}, "simtime": 0, "sig": "hung", "nontrivial": True, "digest": None, "key": "hung", "events": 0}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            return {"harness_error": "child killed (out of memory?)"}
        return {"violation": {"rule": "process-died", "detail": "status %s" % status}, "hash": "died", "stats": {}, "simtime": 0,
                "sig": "died", "nontrivial": True, "digest": None, "key": "died", "events": 0}


# ----------------------------------------------------------------- minimisation
def _same(res, rule):
    return bool(res.get("violation")) and res["violation"]["rule"] == rule


def generic_shrinks(plan):
    """Yield smaller plans, biggest cuts first."""
    for key in ("ops", "noise", "threads"):
        ops = plan.get(key)
        if not ops:
            continue
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if size >= n:
                    continue
                q = copy.deepcopy(plan)
                q[key] = ops[:a] + ops[a + size:]
                if q[key] or key == "noise":
                    yield q
            size //= 2
    for ti, th in enumerate(plan.get("threads") or []):
        for a in range(len(th)):
            if len(th) > 1:
                q = copy.deepcopy(plan)
                del q["threads"][ti][a]
                yield q
    sw = (plan.get("sched") or {}).get("switches")
    if sw:
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                q = copy.deepcopy(plan)
                q["sched"]["switches"] = sw[:a] + sw[a + size:]
                yield q
            size //= 2

    def op_lists(p):
        yield p.get("ops") or []
        yield p.get("noise") or []
        for t in p.get("threads") or []:
            yield t
    for li, ops in enumerate(op_lists(plan)):
        for a, op in enumerate(ops):
            for fi in range(len(op.get("faults") or [])):
                q = copy.deepcopy(plan)
                del list(op_lists(q))[li][a]["faults"][fi]
                yield q
    for wi, w in enumerate(plan.get("worlds") or []):
        n = len(w["cols"][0]["vals"])
        if n > 3:
            for i in range(n):
                q = copy.deepcopy(plan)
                q["worlds"][wi] = drop_row(w, i)
                yield q
    for li, ops in enumerate(op_lists(plan)):
        for a, op in enumerate(ops):
            for k, simple in (("show_progress", False), ("batchsize", 2000), ("n", None), ("features", None), ("n_repeat", 1)):
                if k in op and op[k] != simple:
                    q = copy.deepcopy(plan)
                    list(op_lists(q))[li][a][k] = simple
                    yield q
            for fi, f in enumerate(op.get("faults") or []):
                for k, simple in (("exc", "ModelDown" if f["kind"] == "raise" else "KeyboardInterrupt"), ("call", 1), ("line", 1)):
                    if k in f and f[k] != simple:
                        q = copy.deepcopy(plan)
                        list(op_lists(q))[li][a]["faults"][fi][k] = simple
                        yield q


def drop_row(w, i):
    q = copy.deepcopy(w)
    for c in q["cols"]:
        del c["vals"][i]
    if q["index"]["labels"] is not None:
        del q["index"]["labels"][i]
    if q.get("y") is not None:
        del q["y"][i]
    return q


def minimise(plan, rule, budget_s=60, budget_n=500, run=execute):
    t0 = NOW()
    n = 0
    res0 = run(plan)
    if not _same(res0, rule):
        return plan, res0, 1
    if res0.get("switches") is not None and plan.get("sched", {}).get("mode") == "random":
        q = copy.deepcopy(plan)
        q["sched"] = {"mode": "explicit", "switches": res0["switches"]}
        r = run(q)
        n += 1
        if _same(r, rule):
            plan, res0 = q, r
    improved = True
    best = res0
    while improved and NOW() - t0 < budget_s and n < budget_n:
        improved = False
        mod = prop_module(plan["prop"])
        gens = [generic_shrinks(plan)]
        if hasattr(mod, "shrinks"):
            gens.insert(0, mod.shrinks(plan))
        for g in gens:
            for q in g:
                if NOW() - t0 > budget_s or n >= budget_n:
                    break
                n += 1
                r = run(q)
                if _same(r, rule):
                    plan, best = q, r
                    improved = True
                    break
            if improved:
                break
    return plan, best, n


# ----------------------------------------------------------------- worker
def worker(pid, tier, seed, wid, nworkers, total, wall, out_path):
    """Runs indices wid, wid+nworkers, ... < total; writes one JSON result file."""
    t0 = NOW()
    agg = {"runs": 0, "stats": Counter(), "simtime": 0.0, "sigs": set(), "keys": set(), "nontrivial": 0, "digests": {},
           "violation": None, "error": None, "samples": [], "switches_sigs": set(), "stopped_early": False, "events": 0}
    mod = prop_module(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    import gc
    gc.collect()
    gc.freeze()
    twice = getattr(mod, "CROSS_PROCESS", False)
    idx = []
    i = wid
    while i < total:
        idx.append(i)
        if twice:
            idx.append((i // nworkers) * nworkers + (i + 1) % nworkers)
        i += nworkers
    for i in idx:
        if i >= total:
            continue
        if NOW() - t0 > wall:
            agg["stopped_early"] = True
            break
        try:
            plan = plan_for(pid, seed, i, tier)
        except Exception:                    # noqa: B902
            agg["error"] = "plan generation failed for run %d\n%s" % (i, traceback.format_exc()[-2000:])
            break
        res = execute(plan)
        if res.get("harness_error"):
            agg["error"] = "run %d: %s" % (i, res["harness_error"])
            break
        agg["runs"] += 1
        for k, v in res["stats"].items():
            agg["stats"][k] += v
        agg["simtime"] += max(0.0, res["simtime"])
        agg["events"] += res["events"]
        if res["nontrivial"]:
            agg["nontrivial"] += 1
            agg["keys"].add(res["key"])
        agg["sigs"].add(res["hash"])
        if res.get("digest") is not None:
            agg["digests"].setdefault(str(i), res["digest"])
        if len(agg["samples"]) < 2 and res["nontrivial"]:
            agg["samples"].append({"run": i, "plan": compact(plan), "events": res["events"]})
        if res["violation"]:
            rule = res["violation"]["rule"]
            small, best, tried = minimise(plan, rule)
            agg["violation"] = {"run": i, "rule": rule, "detail": best["violation"]["detail"] if best.get("violation") else res["violation"]["detail"],
                                "first_detail": res["violation"]["detail"], "plan": small, "hash": best.get("hash"), "original_plan": plan, "original_hash": res["hash"],
                                "tail": best.get("tail"), "shrink_runs": tried, "hashseed": os.environ.get("PYTHONHASHSEED"),
                                "original_ops": len(plan.get("ops") or []), "ops": len(small.get("ops") or [])}
            break
    agg["wall"] = NOW() - t0
    for k in ("sigs", "keys"):
        agg[k] = sorted(agg[k])
    del agg["switches_sigs"]
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(agg, f)
    os.replace(tmp, out_path)


def compact(plan):
    s = json.dumps(plan)
    if len(s) < 2500:
        return plan
    return {"prop": plan["prop"], "env": plan["env"], "ops": (plan.get("ops") or [])[:6], "n_ops": len(plan.get("ops") or []),
            "truncated": True}


# ----------------------------------------------------------------- parent
def hashseed(seed, wid):
    return str(1 + int(hashlib.sha1(("hs-%s-%s" % (seed, wid)).encode()).hexdigest()[:7], 16) % 4000000000)


def check(pid, tier, seed, nworkers=None, runs=None, wall=None, quiet=False):
    """Returns exit code."""
    mod_spec = SPECS[pid]
    t0 = NOW()
    nworkers = nworkers or max(2, min(8, os.cpu_count() or 2))
    total = runs or mod_spec[tier]
    wall = wall or (300 if tier == "quick" else 5400)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    tmpd = tempfile.mkdtemp(prefix="artsim-%s-" % pid)
    results = []
    err = None
    try:
        procs = []
        for w in range(nworkers):
            env = dict(os.environ, PYTHONHASHSEED=hashseed(seed, w), PYTHONDONTWRITEBYTECODE="1")
            out = os.path.join(tmpd, "w%d.json" % w)
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), "--worker", pid, tier, str(seed), str(w), str(nworkers),
                                  str(total), str(wall), out], env=env, stdin=subprocess.DEVNULL, start_new_session=True,
                                 stderr=open(os.path.join(tmpd, "w%d.err" % w), "w"))
            procs.append((p, out))
        pending = dict(enumerate(procs))
        deadline = NOW() + wall + 420
        found = False
        while pending:
            for w in list(pending):
                p, out = pending[w]
                if p.poll() is None:
                    continue
                del pending[w]
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if r["violation"]:
                        found = True
                    elif r["error"]:
                        err = err or r["error"]
                else:
                    with open(os.path.join(tmpd, "w%d.err" % w)) as f:
                        err = err or "worker %d died (status %s): %s" % (w, p.returncode, f.read()[-1500:])
            if found or (err and not found and not pending) or NOW() > deadline:
                break
            core.REAL_SLEEP(0.05)
        for w, (p, out) in pending.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if pending and not found:
            err = err or "workers exceeded the wall limit"
    finally:
        import shutil
        shutil.rmtree(tmpd, True)

    viols = [r["violation"] for r in results if r["violation"]]
    if not viols and SPECS[pid].get("cross"):
        v = cross_compare(pid, tier, seed, results, nworkers)
        if v:
            viols.append(v)
    code = 0
    replay_path = None
    note = None
    if viols:
        code = 1
        best = None
        for v in sorted(viols, key=lambda x: (x.get("ops", 0), x["run"])):
            path = os.path.join(EVID, "replay", "%s-seed%s-run%s.json" % (pid, seed, v["run"]))
            write_replay(path, pid, tier, seed, v)
            rc, text = replay_subprocess(path)
            if rc not in (1, 4) and v.get("original_plan") is not None:
                # the minimised plan only failed by chance of something the simulator does not own: keep the plan as found
                w = dict(v, plan=v["original_plan"], hash=v["original_hash"])
                write_replay(path, pid, tier, seed, w)
                rc, text = replay_subprocess(path)
                if rc in (1, 4):
                    v = w
            rank = {1: 0, 4: 1}.get(rc, 2)
            if best is None or rank < best[0]:
                best = (rank, v, path, rc, text)
            if rank == 0:
                break
        rank, chosen, replay_path, rc, text = best
        if rank == 1:
            note = "the same violation occurs on replay, with a different event log: the code under test uses randomness the simulator does not own"
        elif rank == 2:
            note = ("the violation was observed but its replay in a fresh process ended with %s: the code under test depends on something the "
                    "simulator does not own (%s)" % (rc, text[-500:]))
    elif err:
        code = 2
    done = sum(r["runs"] for r in results)
    if code == 0 and done < min(total, SPECS[pid].get("min_runs", 40)):
        code, err = 2, "only %d runs completed" % done
    ev = evidence(pid, tier, seed, results, total, nworkers, NOW() - t0, viols, replay_path, note)
    path = os.path.join(EVID, "%s.json" % pid)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(path + ".tmp", path)
    if code == 1:
        if not quiet:
            print("rule=%s run=%s\n%s" % (chosen["rule"], chosen["run"], chosen["detail"]))
            if note:
                print("note: " + note)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
    elif code == 2:
        print("ERROR %s: %s" % (pid, err))
    else:
        c = ev["coverage"]
        print("OK %s: %d runs, %d distinct nontrivial, %.0f runs/h, faults fired %s, %.1f s" % (
            pid, c["evaluations"], c["distinct_nontrivial"], c["runs_per_hour"], sum(c["faults_fired"].values()), ev["wall_s"]))
    sys.stdout.flush()
    return code


def write_replay(path, pid, tier, seed, v):
    rec = {"property": pid, "tier": tier, "verif_seed": seed, "run": v["run"], "rule": v["rule"], "detail": v["detail"],
           "pythonhashseed": v.get("hashseed"), "pythonhashseed_2": v.get("hashseed2"), "event_log_hash": v.get("hash"),
           "last_events": v.get("tail"), "shrink_runs": v.get("shrink_runs"), "ops_before_minimisation": v.get("original_ops"),
           "how_to_replay": "cd /verif && /opt/venv/bin/python check.py --replay %s" % path, "plan": v["plan"]}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)


def replay_subprocess(path):
    with open(path) as f:
        rec = json.load(f)
    env = dict(os.environ, PYTHONHASHSEED=str(rec.get("pythonhashseed") or 0), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay-inner", path], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=RUN_WALL + 120)
    return p.returncode, p.stdout.decode(errors="replace")


def replay_inner(path):
    """Exit 1 if the recorded violation happens again, with the same event log."""
    with open(path) as f:
        rec = json.load(f)
    if rec["rule"] == "hash-seed":
        a = digest_under(rec["plan"], rec["pythonhashseed"])
        b = digest_under(rec["plan"], rec["pythonhashseed_2"])
        if a != b and a is not None and b is not None:
            print("replayed: results differ between PYTHONHASHSEED=%s and %s" % (rec["pythonhashseed"], rec["pythonhashseed_2"]))
            return 1
        print("not reproduced")
        return 0
    mod = prop_module(rec["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = execute(rec["plan"])
    if res.get("harness_error"):
        print(res["harness_error"])
        return 2
    if _same(res, rec["rule"]):
        same = res["hash"] == rec["event_log_hash"]
        print("replayed: rule=%s event log %s" % (rec["rule"], "identical" if same else "DIFFERENT"))
        print(res["violation"]["detail"])
        return 1 if same or rec["rule"] == "liveness" else 4
    print("not reproduced: %s" % res.get("violation"))
    return 0


def digest_under(plan, hs):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(plan, f)
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--digest", f.name], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=RUN_WALL + 60)
        for line in p.stdout.decode().splitlines():
            if line.startswith("DIGEST "):
                return line[7:]
        return None
    finally:
        os.unlink(f.name)


def cross_compare(pid, tier, seed, results, nworkers):
    """Same plan executed in two interpreters with different PYTHONHASHSEED: digests must agree."""
    seen = {}
    for r in results:
        for k, d in r["digests"].items():
            seen.setdefault(int(k), set()).add(d)
    bad = sorted(k for k, s in seen.items() if len(s) > 1)
    for run in bad[:3]:
        plan = plan_for(pid, seed, run, tier)
        for w in range(nworkers):
            hs1, hs2 = hashseed(seed, w), hashseed(seed, (w + 1) % nworkers)
            if digest_under(plan, hs1) != digest_under(plan, hs2):
                def differs(p):
                    a, b = digest_under(p, hs1), digest_under(p, hs2)
                    return a is not None and b is not None and a != b
                t0 = NOW()
                for q in _ops_cuts(plan):
                    if NOW() - t0 > 60:
                        break
                    if differs(q):
                        plan = q
                return {"run": run, "rule": "hash-seed", "detail": "results differ between two interpreters that differ only in hash randomisation",
                        "plan": plan, "hashseed": hs1, "hashseed2": hs2, "hash": None, "tail": None, "ops": len(plan["ops"])}
    return None


def _ops_cuts(plan):
    for a in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            q = copy.deepcopy(plan)
            q["ops"] = [plan["ops"][a]]
            yield q


def evidence(pid, tier, seed, results, total, nworkers, wall, viols, replay, note):
    st = Counter()
    sigs, keys = set(), set()
    runs = simtime = nontriv = events = 0
    samples = []
    early = 0
    for r in results:
        for k, v in r["stats"].items():
            st[k] += v
        sigs.update(r["sigs"])
        keys.update(r["keys"])
        runs += r["runs"]
        simtime += r["simtime"]
        nontriv += r["nontrivial"]
        events += r["events"]
        samples += r["samples"]
        early += bool(r["stopped_early"])
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(st.items()) if not k.startswith(("fault:", "probe:"))}
    spec = SPECS[pid]
    return {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(viols),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(keys),
            "rule": spec["rule"],
            "samples": samples[:4],
            "runs_planned": total, "runs_nontrivial": nontriv, "workers": nworkers, "workers_stopped_by_wall_limit": early,
            "runs_per_hour": round(runs * 3600.0 / max(wall, 1e-9)), "seeds_per_hour": round(len(sigs) * 3600.0 / max(wall, 1e-9)),
            "simulated_seconds": round(simtime, 3), "simulator_events": events,
            "distinct_event_logs": len(sigs),
            "faults_fired": faults, "probes": probes, "counters": other,
            "components_real": spec.get("real", REAL), "components_stubbed": spec.get("stub", STUB),
            "replay": replay, "note": note,
        },
        "assumptions": spec.get("assumptions", ASSUME),
    }


REAL = ["all artemis code from /repo's working tree", "pandas, numpy, scikit-learn, matplotlib, seaborn, networkx, tqdm as installed"]
STUB = ["the explained model (table-driven simulated model with recorded calls)", "clock, OS entropy, stderr, thread choice, interruption points (simulator)"]
ASSUME = ["interleavings and interruptions happen at artemis source-line boundaries and at model calls, not inside numpy/pandas",
          "sampled search: a clean batch is evidence, not proof"]
SPECS = {}


def register(pid, quick, thorough, rule, **kw):
    SPECS[pid] = dict(quick=quick, thorough=thorough, rule=rule, **kw)
