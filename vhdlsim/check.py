"""Common body of the C06 check and of the VHDL half of the C07 check."""
import multiprocessing as mp
import os
import sys

from simlib import core
from . import fileio

_exe = None
_root = None


def prepare(check):
    global _exe, _root
    _root = check.mkscratch()
    sys.path.insert(0, core.PY_MODEL)
    _exe = fileio.compile_sim(os.path.join(_root, "build"))


def _job(a):
    seed, profile, i = a
    h = fileio.gen_history(seed, i, profile)
    bad, st = fileio.verdict(_exe, h, os.path.join(_root, f"h{os.getpid()}"))
    ops = {}
    for o in h["ops"][:st["ops"]]:
        ops[o["op"]] = ops.get(o["op"], 0) + 1
    vals = sum(1 for o in h["ops"][:st["ops"]] if o["op"] in ("LR", "XLR", "MLR", "FR", "XFR", "MFR", "RF", "XRF", "MRF"))
    marks = {}
    for d in h["foreign"].values():
        for k, v in (("foreign file without final newline", not d["final"] and d["rows"]), ("foreign file with carriage returns", d["eol"] != "\n"),
                     ("file of the Python model", d.get("python"))):
            if v:
                marks[k] = marks.get(k, 0) + 1
    sig = core.digest([[o[k] for k in ("c", "f", "l", "op")] + [o.get("ty"), o.get("mode"), o.get("n")] for o in h["ops"]] + [st["stop"]]) if vals else None
    return {"i": i, "bad": bad, "ops": ops, "vals": vals, "st": st, "sig": sig, "marks": marks, "clients": len({o["c"] for o in h["ops"]}),
            "files": len({o["name"] for o in h["ops"] if "name" in o}), "digest": core.digest((st, bad))}


def _minjob(a):
    seed, profile, i, kind = a
    h = fileio.gen_history(seed, i, profile)
    return fileio.minimise(_exe, h, kind, os.path.join(_root, f"m{os.getpid()}"))


def histories(check, profile, n):
    """Run n histories; returns the totals. Violations are recorded in the check."""
    tot = {"ops": {}, "faults": {}, "vals": 0, "ns": 0, "clients": {}, "runs": 0, "files": 0, "crlf": 0}
    sigs, digs, bad = set(), [], []
    with mp.get_context("fork").Pool(check.workers) as pool:
        for r in pool.imap(_job, [(check.seed, profile, i) for i in range(n)], chunksize=4):
            for k, v in r["ops"].items():
                tot["ops"][k] = tot["ops"].get(k, 0) + v
            if r["st"]["stop"] != "none":
                tot["faults"][r["st"]["stop"]] = tot["faults"].get(r["st"]["stop"], 0) + 1
            for k, v in r["marks"].items():
                tot["faults"][k] = tot["faults"].get(k, 0) + v
            tot["clients"][r["clients"]] = tot["clients"].get(r["clients"], 0) + 1
            tot["vals"] += r["vals"]
            tot["ns"] += r["st"]["ns"]
            tot["files"] += r["files"]
            tot["runs"] += 1
            if r["sig"]:
                sigs.add(r["sig"])
            digs.append(r["digest"])
            if r["bad"]:
                bad.append((r["i"], r["bad"][0]))
                if len(bad) > 12:
                    break
        first = {}
        for i, kind in bad:
            first.setdefault(kind, i)
        for kind, i in list(first.items())[:4]:
            h, d = pool.apply(_minjob, ((check.seed, profile, i, kind),))
            check.violation(d[0], d[1], {"history": h, "origin": {"history": i, "profile": profile}})
    tot["sigs"], tot["digest"] = sigs, core.digest(digs)
    return tot


def coverage(check, tot, profile):
    h = fileio.gen_history(check.seed, 0, profile)
    secs = max(check.elapsed(), 1e-9)
    return {
        "evaluations": tot["runs"], "distinct_nontrivial": len(tot["sigs"]),
        "rule": "one run = one history of timed file operations of 1-3 simulated VHDL clients on a shared directory, ending normally, in a crash or in a "
                "read that cannot succeed; distinct = different sequence of (client, slots, operation, type, radix, width) and ending; non-trivial = at least one value read back",
        "samples": [{"ops": [fileio.describe(o) for o in h["ops"][:8]], "fault": h["fault"], "files_present": sorted(h["foreign"])}],
        "operations": tot["ops"], "reads_checked": tot["vals"], "files_used": tot["files"], "runs_by_clients": tot["clients"],
        "faults_injected": tot["faults"], "simulated_seconds": tot["ns"] * 1e-9, "seeds": tot["runs"],
        "seeds_per_hour": int(tot["runs"] / secs * 3600), "log_digest": tot["digest"],
        "real_components": ["lib/en_tb/hdl/*.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd", "hdl/en_cl_fix_pkg.vhd", "VUnit core", "GHDL file layer",
                            "cl_fix_write_formats (foreign format lists)"],
        "stub_components": ["clients (generated test bench executing command files)", "foreign text files of other programs"],
    }


ASSUMPTIONS = ["GHDL 4.1 implements std.textio", "the executable file model in vhdlsim/fileio.py",
               "a row cut inside a number or cut in the first row (which defines the number of columns) cannot be told from a shorter valid file",
               "one radix per row; numbers of a row are separated as the writer's separators do",
               "format fields stay within -(2**31-1) .. 2**31-1, the range every VHDL integer has"]


def run(check, profile, n):
    prepare(check)
    tot = histories(check, profile, n)
    check.cov = coverage(check, tot, profile)
    check.assumptions = list(ASSUMPTIONS)


def replay(check, obj):
    prepare(check)
    return fileio.verdict(_exe, obj["history"], os.path.join(_root, "replay"))[0]
