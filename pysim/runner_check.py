"""Check bodies of C03 and C04."""
import json
import multiprocessing as mp
import os

from simlib import core
from simlib.core import ddmin, HarnessError
from . import runner_sim

_root = None


def _job(args):
    seed, prop, lo, hi = args
    out = {"bad": [], "stats": {}, "sigs": set(), "steps": 0, "now": 0.0, "preempt": 0, "n": 0, "modes": {}, "dig": [], "skip": 0}
    for i in range(lo, hi):
        spec = runner_sim.generate(seed, prop, i)
        r = runner_sim.execute(spec, _root, f"{os.getpid()}-{i}")
        out["n"] += 1
        if r["bad"] and r["bad"][0] in FOREIGN[prop]:
            out["skip"] += 1
        elif r["bad"]:
            out["bad"].append((i, r["bad"], r["switches"]))
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        out["sigs"].add((r["sig"], core.digest(spec["mode"])))
        out["dig"].append((i, r["sig"], r["steps"], r["bad"]))
        for k in ("steps", "now", "preempt"):
            out[k] += r[k]
        m = f"{spec['mode']}/{spec['impl']}/{spec['sched']['strategy']}/{spec['sched']['granularity']}"
        out["modes"][m] = out["modes"].get(m, 0) + 1
    return out


# What one check sees but the other property owns.
FOREIGN = {
    "C03": {"search-path-changed", "wrong-config", "config-error", "load-failed", "bad-load-succeeded", "setup-failed"},
    "C04": {"ready-too-early", "generated-twice", "failure-swallowed", "ready-refused", "not-true", "disabled-not-ready",
            "generated-while-disabled", "test-without-data", "request-error"},
}


def _same(r, kind):
    return r["bad"] is not None and r["bad"][0] == kind


def minimise(args):
    spec, switches, bad, tag = args
    kind = bad[0]

    def run(s, sw):
        try:
            return runner_sim.execute(s, _root, f"min-{tag}")
        except HarnessError:
            return {"bad": None}

    def attempt(s, sw):
        try:
            r = runner_sim.execute(s, _root, f"min-{tag}", sw)
        except HarnessError:
            return None
        return r if _same(r, kind) else None

    best = attempt(spec, switches)
    if best is None:
        return {"spec": spec, "switches": switches, "note": "not reproducible"}, bad
    if spec["mode"] == "direct":
        flat = [(t, a) for t, acts in enumerate(spec["threads"]) for a in acts]
        items = list(range(len(flat)))

        def build(keep):
            s = json.loads(json.dumps(spec))
            s["threads"] = [[] for _ in spec["threads"]]
            for k in keep:
                s["threads"][flat[k][0]].append(flat[k][1])
            return s

        def fails(keep):
            s = build(keep)
            return attempt(s, switches) is not None or attempt(s, None) is not None
        items = ddmin(items, fails, 120)
        spec2 = build(items)
        r = attempt(spec2, switches)
        if r is None:
            r = attempt(spec2, None)
        if r is not None:
            spec, switches, best = spec2, r["switches"], r
            # Unused scripts and idle threads at the end go, the tids of the others stay.
            s = json.loads(json.dumps(spec))
            used = {a["script"] for acts in s["threads"] for a in acts}
            used |= {v["gen"]["wait"] for v in s["scripts"].values() if v["gen"]["wait"]}
            keep = {k: v for k, v in s["scripts"].items() if k in used}
            if keep and len(keep) < len(s["scripts"]):
                s["scripts"] = keep
                s["order"] = [n for n in s["order"] if n in keep]
                if s["prepath"] not in keep:
                    s["prepath"] = None
                r = attempt(s, switches)
                if r is not None:
                    spec, best, switches = s, r, r["switches"]
    if attempt(spec, []) is not None:
        switches = []
    elif len(switches) > 1:
        switches = ddmin(switches, lambda sw: attempt(spec, sw) is not None, 150)
    final = attempt(spec, switches)
    return {"spec": spec, "switches": switches, "trace": (final or best)["log"]}, (final or best)["bad"]


def prepare(check):
    global _root
    _root = check.mkscratch()
    # Heavy imports once, before forking.
    import sys
    sys.path.insert(0, core.PY_MODEL)
    import numpy  # noqa: F401
    import runpy, inspect, argparse, importlib.util  # noqa: F401,E401


def run(check, prop, n):
    prepare(check)
    chunk = 40
    jobs = [(check.seed, prop, lo, min(n, lo + chunk)) for lo in range(0, n, chunk)]
    tot = {"stats": {}, "modes": {}, "n": 0, "steps": 0, "now": 0.0, "preempt": 0, "skip": 0}
    sigs, bad, dig = set(), [], []
    with mp.get_context("fork").Pool(check.workers) as pool:
        for r in pool.imap(_job, jobs):
            for k in ("n", "steps", "now", "preempt", "skip"):
                tot[k] += r[k]
            for g in ("stats", "modes"):
                for k, v in r[g].items():
                    tot[g][k] = tot[g].get(k, 0) + v
            sigs |= r["sigs"]
            dig += r["dig"]
            bad += r["bad"]
            if len(bad) > 30:
                break
        seen = {}
        for i, b, sw in bad:
            seen.setdefault(b[0], (i, b, sw))
        for i, b, sw in list(seen.values())[:3]:
            obj, b2 = pool.apply(minimise, ((runner_sim.generate(check.seed, prop, i), sw, b, i),))
            obj["origin"] = {"run": i}
            check.violation(b2[0], b2[1], obj)
    spec = runner_sim.generate(check.seed, prop, 0)
    check.cov = {
        "evaluations": tot["n"], "distinct_nontrivial": len(sigs),
        "rule": "one run = one seeded scenario (threads x loads/requests/configuration queries, faults) under one seeded thread schedule; "
                "distinct = different sequence of (thread switch, code location); runs without any switch count once",
        "samples": [{"threads": spec.get("threads"), "sched": spec["sched"]}],
        "scheduling_steps": tot["steps"], "preemptions": tot["preempt"], "simulated_seconds": round(tot["now"], 3),
        "faults_injected": tot["stats"], "runs_by_mode": tot["modes"], "runs_set_aside_other_property": tot["skip"],
        "seeds": tot["n"], "seeds_per_hour": int(tot["n"] / max(check.elapsed(), 1e-9) * 3600), "log_digest": core.digest(dig),
        "real_components": ["sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py", "sim/run.py and lib/en_tb/sim/run.py (suite runs)", "runpy",
                            "module level of the shipped cosim.py scripts (suite runs)"],
        "stub_components": ["threading/time primitives (simulated)", "VUnit (stand-in that collects and calls pre_config)",
                            "data generation bodies (synthetic scripts, injected failures)"],
    }
    check.assumptions = ["threads switch at Python lines or byte codes of the runner, runpy and the scripts, and at lock, sleep and wait operations",
                         "VUnit calls pre_config before each simulation and starts it only if it returns True"]


def replay(check, obj):
    prepare(check)
    r = runner_sim.execute(obj["spec"], _root, "replay", obj["switches"])
    return r["bad"]
