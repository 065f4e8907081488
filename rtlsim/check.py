"""Common body of the C01 and C02 checks."""
import multiprocessing as mp
import os
import sys
import warnings

from simlib import core
from simlib.core import ddmin, rng_for, sub_seed
from . import rtl

_exe = None
_root = None


def flat(cycles):
    return [e for c in cycles for e in c]


def _solo(cfg, cycles, tag):
    """Simulate one node alone and return its deviation (or None)."""
    wd = os.path.join(_root, f"solo-{tag}")
    ev = flat(cycles)
    rc, logs, err = rtl.run_nodes(_exe, [(cfg, ev)], wd, timeout=120)
    return rtl.compare(cfg, ev, logs[0])


def python_model(cfg, pairs):
    """Compare the Python reference model with the exact expectation on all delivered inputs."""
    import numpy as np
    import en_cl_fix_pkg as m
    a, r = m.FixFormat(*cfg["a"]), m.FixFormat(*cfg["r"])
    k = cfg["kind"] % 3
    if k == 0 and not cfg["chk"]:
        return None
    keys = sorted(pairs)
    if not keys:
        return None
    ints = [rtl.from_bits(s, cfg["a"][0] == 1) for s in keys]
    if m.cl_fix_is_wide(a):
        x = np.empty(len(ints), dtype=object)
        x[:] = ints
    else:
        x = np.array([float(i) for i in ints]) * 2.0 ** -a.F
    rnd, sat = m.FixRound(cfg["rnd"]), m.FixSaturate(cfg["sat"])
    want = [rtl.from_bits(pairs[s], cfg["r"][0] == 1) for s in keys]
    names = {0: ("cl_fix_round", "round", (rnd,)), 1: ("cl_fix_saturate", "saturate", (sat,)), 2: ("cl_fix_resize", "resize", (rnd, sat))}
    func, method, modes = names[k]
    wide_r = m.cl_fix_is_wide(r)

    def ints_of(y):
        return [int(v) for v in np.ravel(y)] if wide_r else [v * 2.0 ** r.F for v in np.ravel(np.asarray(y, dtype=float)).tolist()]

    def call(v):
        return ints_of(getattr(m, func)(v, a, r, *modes))

    # The same values through every interface of the model, and in several array shapes.
    ways = [("", lambda: call(x))]
    obj = np.empty(len(ints), dtype=object)
    obj[:] = ints
    ways.append(("WideFix method: ", lambda: [int(v) for v in getattr(m.WideFix(obj, a), method)(r, *modes).data]))
    mid = rtl.round_fmt(cfg["a"], cfg["r"][2], cfg["rnd"])
    if max(rtl.width(cfg["a"]), rtl.width(mid), rtl.width(cfg["r"])) <= m.NarrowFix.MAX_WIDTH:
        ways.append(("NarrowFix method: ", lambda: ints_of(getattr(m.NarrowFix(x, a), method)(r, *modes).data)))
    ways.append(("two-dimensional: ", lambda: call(x.reshape((1, -1)))))
    ways.append(("reversed view: ", lambda: call(x[::-1])[::-1]))
    for j in sorted({0, len(ints) // 2, len(ints) - 1}):
        ways.append((f"single value {j}: ", lambda j=j: call(x[j].item() if isinstance(x[j], np.generic) else x[j])))
        ways.append((f"array of one {j}: ", lambda j=j: call(x[j:j + 1])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for way, f in ways:
            exp, at = want, ints
            if "value" in way or "one" in way:
                j = int(way.split()[-1][:-1])
                exp, at = want[j:j + 1], ints[j:j + 1]
            try:
                got = f()
            except Exception as e:  # noqa: BLE001 - any exception of the model is the finding
                return "python-model", f"{way}reference model raised {type(e).__name__}: {e} for {rtl.describe(cfg)}"
            if len(got) != len(exp):
                return "python-model", f"{way}reference model returned {len(got)} values for {len(exp)} ({rtl.describe(cfg)})"
            for i, g, e in zip(at, got, exp):
                if g != e:
                    return "python-model", f"{way}reference model gives {g}, expected {e} for input {i} ({rtl.describe(cfg)})"
    return None


def python_pairs(cfg, pairs, rng):
    """Inputs for the model comparison: everything the hardware delivered plus this configuration's corner values."""
    aw, rw = rtl.width(cfg["a"]), rtl.width(cfg["r"])
    out = dict(pairs)
    for x in rtl.value_pool(rng, cfg) + [rng.randint(rtl.fmin(cfg["a"]), rtl.fmax(cfg["a"])) for _ in range(20)]:
        if cfg["kind"] % 3 or cfg["chk"]:
            out[rtl.to_bits(x, aw)] = rtl.to_bits(rtl.expected(cfg, x), rw)
    return out


def _batch(job):
    seed, profile, b, n_nodes, beats, with_python = job
    nodes = []
    for n in range(n_nodes):
        rng = rng_for(seed, profile, b, n)
        nodes.append(rtl.gen_node(rng, profile, rng.choice([beats // 4, beats, beats])))
    evs = [flat(n["cycles"]) for n in nodes]
    wd = os.path.join(_root, f"b{b}")
    rc, logs, err = rtl.run_nodes(_exe, [(n["cfg"], e) for n, e in zip(nodes, evs)], wd)
    out = {"batch": b, "nodes": n_nodes, "bad": [], "stats": {}, "delivered": 0, "flushed": 0, "edges": 0, "reset_edges": 0,
           "time_ps": 0, "sigs": [], "rc": rc, "beats": 0, "py_values": 0, "modes": {}, "digest": core.digest(logs)}
    aborted = any(not l or l[-1] != "END" for l in logs)
    for i, (n, e) in enumerate(zip(nodes, evs)):
        if aborted:
            # One node can stop the whole simulation: judge each alone.
            dev = _solo(n["cfg"], n["cycles"], f"{b}-{i}")
            info = rtl.model_log(n["cfg"], e)[1]
        else:
            info = {}
            dev = rtl.compare(n["cfg"], e, logs[i], info)
        if dev is None and with_python:
            pairs = python_pairs(n["cfg"], info["pairs"], rng_for(seed, profile, b, i, "pool"))
            dev = python_model(n["cfg"], pairs)
            out["py_values"] += len(pairs)
        if dev is not None:
            out["bad"].append((i, dev))
        for k in ("delivered", "flushed", "edges", "reset_edges", "time_ps"):
            out[k] += info[k]
        out["beats"] += n["beats"]
        for k, v in n["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        c = n["cfg"]
        key = f"{['round', 'saturate', 'resize'][c['kind'] % 3]}/latency{rtl.latency(c)}"
        out["modes"][key] = out["modes"].get(key, 0) + 1
        if info["delivered"]:
            out["sigs"].append(core.digest((rtl.cfg_line(c), [x[2:5] for x in e])))
    return out


def minimise(cfg, cycles, dev, pool_rng):
    kind = dev[0]
    if kind == "python-model":
        pairs = python_pairs(cfg, rtl.model_log(cfg, flat(cycles))[1]["pairs"], pool_rng)
        keys = ddmin(sorted(pairs), lambda ks: bool((python_model(cfg, {k: pairs[k] for k in ks}) or ("",))[0] == kind), 60)
        sub = {k: pairs[k] for k in keys}
        return {"cfg": cfg, "python_pairs": sub}, python_model(cfg, sub) or dev

    def fails(cs):
        try:
            d = _solo(cfg, cs, "min")
        except core.HarnessError:
            return False
        return d is not None and d[0] == kind

    if not fails(cycles):
        return {"cfg": cfg, "cycles": cycles, "note": "not reproducible alone"}, dev
    small = ddmin(cycles, fails, 250)
    # Drop single events inside the remaining cycles where possible (never the clock edges).
    for ci in range(len(small)):
        ei = 0
        while ei < len(small[ci]) and len(small) < 30:
            e = small[ci][ei]
            if len(small[ci]) > 1 and e[2] == small[ci][ei - 1][2] and ei > 0:
                trial = [list(c) for c in small]
                del trial[ci][ei]
                if fails(trial):
                    small = trial
                    continue
            ei += 1
    return {"cfg": cfg, "cycles": small}, _solo(cfg, small, "min") or dev


def _minjob(args):
    seed, profile, b, i, dev, n_nodes, beats, with_python = args
    rng = rng_for(seed, profile, b, i)
    node = rtl.gen_node(rng, profile, rng.choice([beats // 4, beats, beats]))
    return minimise(node["cfg"], node["cycles"], dev, rng_for(seed, profile, b, i, "pool"))


def prepare(check):
    global _exe, _root
    _root = check.mkscratch()
    sys.path.insert(0, core.PY_MODEL)
    _exe = rtl.compile_rtl(os.path.join(_root, "build"))


def run(check, profile, with_python, batches, n_nodes, beats):
    prepare(check)
    if with_python:
        import en_cl_fix_pkg  # noqa: F401 - import once, before forking
    jobs = [(check.seed, profile, b, n_nodes, beats, with_python) for b in range(batches)]
    tot = {"stats": {}, "modes": {}}
    sigs, bad, digs = set(), [], []
    with mp.get_context("fork").Pool(check.workers) as pool:
        for r in pool.imap(_batch, jobs):
            for k in ("delivered", "flushed", "edges", "reset_edges", "time_ps", "nodes", "beats", "py_values"):
                tot[k] = tot.get(k, 0) + r[k]
            for g in ("stats", "modes"):
                for k, v in r[g].items():
                    tot[g][k] = tot[g].get(k, 0) + v
            sigs.update(r["sigs"])
            digs.append(r["digest"])
            bad += [(r["batch"], i, d) for i, d in r["bad"]]
            if len(bad) > 20:
                break
        seen = {}
        for b, i, d in bad:
            seen.setdefault(d[0], (b, i, d))
        for b, i, d in list(seen.values())[:4]:
            obj, dev = pool.apply(_minjob, ((check.seed, profile, b, i, d, n_nodes, beats, with_python),))
            obj["origin"] = {"batch": b, "node": i, "profile": profile}
            check.violation(dev[0], dev[1], obj)
    samples = []
    rng = rng_for(check.seed, profile, 0, 0)
    n0 = rtl.gen_node(rng, profile, rng.choice([beats // 4, beats, beats]))
    samples.append({"node": rtl.describe(n0["cfg"]), "first_events": [" ".join(map(str, e)) for e in flat(n0["cycles"])[:6]]})
    secs = max(check.elapsed(), 1e-9)
    check.cov = {
        "evaluations": tot["nodes"], "distinct_nontrivial": len(sigs),
        "rule": "one run = one stage instance with random generics driven by a seeded waveform schedule; distinct = different "
                "(configuration, clock/reset/valid waveform); non-trivial = at least one beat delivered",
        "samples": samples,
        "beats_offered": tot["beats"], "beats_delivered_and_checked": tot["delivered"], "beats_flushed_by_reset": tot["flushed"],
        "clock_edges": tot["edges"], "reset_edges": tot["reset_edges"], "simulated_seconds": tot["time_ps"] * 1e-12,
        "faults_injected": {k: v for k, v in tot["stats"].items()}, "configurations_by_stage": tot["modes"],
        "python_model_values_compared": tot["py_values"],
        "seeds": batches * n_nodes, "seeds_per_hour": int(tot["nodes"] / secs * 3600),
        "log_digest": core.digest(digs),
        "real_components": ["hdl/*.vhd under GHDL"] + (["Python model (value comparison)"] if with_python else []),
        "stub_components": ["producer and consumer of the stream (harness)"],
    }
    check.assumptions = ["GHDL 4.1 implements VHDL signal semantics", "valid, reset and clock are driven 0/1 at clock edges once reset has been applied",
                         "the exact value model in rtlsim/rtl.py (integers only)"]


def replay(check, obj):
    prepare(check)
    cfg = obj["cfg"]
    cfg["a"], cfg["r"] = tuple(cfg["a"]), tuple(cfg["r"])
    if "python_pairs" in obj:
        return python_model(cfg, obj["python_pairs"])
    return _solo(cfg, obj["cycles"], "replay")
