"""Long single-thread histories for C08, C09, C10 and C12: thousands of calls over hundreds of formats in one process.

Whatever a long history fills, evicts, wraps around or exhausts must show in the result of a call that was made before, or of the same call in
a fresh process, in a result kept since, in the state of the process, or in its warning.
"""
import json
import os
import random

from simlib.core import HarnessError, ddmin, rng_for
from . import forkrun, model_ops as mo, model_sim as ms


def _inline(x, objs):
    if isinstance(x, dict):
        if "o" in x and len(x) == 1:
            return _inline(objs[x["o"]], objs)
        if x.get("t") == "refs":
            return {"t": "seq", "v": [_inline(e, objs) for e in x["v"]]}
        return {k: _inline(v, objs) for k, v in x.items()}
    if isinstance(x, list):
        return [_inline(e, objs) for e in x]
    return x


def generate(seed, prop, i):
    """{"calls": distinct calls, "steps": [[call, mode, scribble, mutate operands]]}"""
    r = rng_for(seed, prop, "marathon", i)
    opts = {"big": 0.0, "err": {"C10": r.choice([0.1, 0.5]), "C12": 0.01}.get(prop, 0.03), "literal": 0.5}
    if prop == "C12":
        opts.update(table=mo.WARN_CALLS, prefer=("sat",), sats=r.choice([[1, 3], [1, 3, 3, 0, 2]]))
    table = opts.get("table", mo.CALLS)
    rate = 0.1
    if prop == "C10" and r.random() < 0.4:
        # Many calls that fail by a warning turned into an error.
        rate, opts["sats"] = 0.7, [1, 3, 3]
        table = opts["table"] = mo.WARN_CALLS
    k = r.random()
    if k < 0.35:
        opts["table"] = [r.choice(table)]
    elif k < 0.7:
        opts["table"] = [x for x in table if r.random() < 0.4] or table
    n = r.choice([200, 600, 1500, 4000])
    shapes = [(3,), (1,), (), (2, 2), (5,)] if r.random() < 0.5 else [r.choice([(3,), (3,), (1,), (4,), (2, 2)])]
    fresh = r.choice([0.2, 0.5, 0.9])
    calls, steps, hot = [], [], []
    while len(steps) < n:
        if not calls or r.random() < fresh:
            if not calls or len(calls) % 12 == 0:
                g = mo.Gen(r, opts)
                g.shapes = [r.choice(shapes)]
            op = g.call()
            calls.append(json.loads(json.dumps({"fn": op["fn"], "a": _inline(op["a"], g.objs), "kw": _inline(op["kw"], g.objs), "bad": op.get("bad", 0)})))
            c = len(calls) - 1
            if r.random() < 0.1:
                hot = (hot + [c])[-12:]
        else:
            c = r.choice(hot) if hot and r.random() < 0.4 else r.randrange(max(0, len(calls) - r.choice([5, 50, 5000])), len(calls))
        mode = "always"
        if prop in ("C10", "C12") and r.random() < rate:
            mode = r.choice(["error", "error", "ignore"])
        steps.append([c, mode, int(prop == "C09" and r.random() < 0.4), int(prop == "C09" and r.random() < 0.3)])
    return {"calls": calls, "steps": steps, "fresh": sorted(r.sample(range(len(calls)), min(len(calls), 15)) + list(range(max(0, len(calls) - 5), len(calls))))}


def _mutate(x):
    """The owner of an operand overwrites it after the call."""
    import numpy as np
    if isinstance(x, np.ndarray):
        ms._scribble(x)
        if x.base is not None and isinstance(x.base, np.ndarray):
            ms._scribble(x.base)
    elif isinstance(x, ms.P.FixFormat):
        ms._scribble(x)
    elif isinstance(x, list):
        for e in x:
            _mutate(e)


def run(spec, prop):
    """Executes the history in this process. Returns (problem or None, first results by call)."""
    import warnings
    import numpy as np
    P = ms.P
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    random.seed(5)
    np.random.seed(5)
    caught = []
    warnings.showwarning = lambda message, category, *a, **k: caught.append((category.__name__, str(message)))
    warnings.resetwarnings()
    warnings.simplefilter("always")
    st0 = ms.proc_state()
    first, held = {}, []
    want = {}
    n_warned = n_failed = 0
    for k, (c, mode, scrib, mutate) in enumerate(spec["steps"]):
        if c is None:
            continue
        op = spec["calls"][c]
        try:
            args, kw = [mo.build(v, P) for v in op["a"]], {n: mo.build(v, P) for n, v in op["kw"].items()}
        except Exception as e:  # noqa: BLE001
            if c in first and first[c]:
                return ("operand-unbuildable", f"step {k}: an operand of {op['fn']} can no longer be made: {type(e).__name__}: {e}"), {}
            continue
        pre = [mo.snap(x, P) for x in args + list(kw.values())] if prop in ("C09", "C10") else None
        if mode != "always":
            warnings.resetwarnings()
            warnings.simplefilter(mode)
        del caught[:]
        out = exc = None
        try:
            out = mo.OPS[op["fn"]](P, *args, **kw)
        except Exception as e:  # noqa: BLE001
            exc = e
        if mode != "always":
            warnings.resetwarnings()
            warnings.simplefilter("always")
        can = mo.canon_exc(exc) if exc is not None else mo.canon(out, P)
        n_failed += exc is not None
        if pre is not None:
            for x, b in zip(args + list(kw.values()), pre):
                now = mo.snap(x, P)
                if now != b:
                    return ("operand-changed", f"step {k}: {op['fn']} changed its operand: {b[:160]} -> {now[:160]}"), {}
        if prop == "C12" and mode == "always" and exc is None:
            if c not in want:
                want[c] = mo.expected_warning(op["fn"], op["a"], op["kw"])
            sats = [w for w in caught if ms.is_saturation_warning(w)]
            n_warned += bool(sats)
            if want[c] is True and not sats:
                return ("missing-warning", f"step {k}: {op['fn']}: a value is clipped or wrapped to fit, but no warning was issued"), {}
            if want[c] is False and sats:
                return ("spurious-warning", f"step {k}: {op['fn']}: every value fits or the mode asks for no warning, but it warned: {sats[0][1][:120]}"), {}
        if mode == "error" and exc is not None and isinstance(exc, Warning):
            continue
        per = first.setdefault(c, {})
        if not per:
            per.update(canon=can, step=k)
        elif per["canon"] != can:
            kind = "value-depends-on-warnings" if prop == "C12" else "differs-from-earlier"
            return (kind, f"step {k}: {op['fn']} returned {can[:200]}, at step {per['step']} {per['canon'][:200]}"), {}
        if exc is None and not op["bad"]:
            # (what an invalid call returns instead of failing may be anything, e.g. its operand)
            if scrib and ms._scribble(out):
                if not isinstance(out, (P.NarrowFix, P.WideFix)):
                    out = None
            if mutate:
                for x in args + list(kw.values()):
                    _mutate(x)
            if out is not None:
                held.append((k, op["fn"], out, can))
        if k % 500 == 499 or k == len(spec["steps"]) - 1:
            for j, fn, o, was in held:
                now = mo.canon(o, P)
                if now != was:
                    return ("result-changed", f"the result of {fn} (step {j}) has changed by step {k}: {was[:160]} -> {now[:160]}"), {}
    warnings.resetwarnings()
    warnings.simplefilter("always")
    st1 = ms.proc_state()
    if prop == "C10":
        for n in st0:
            if st0[n] != st1[n]:
                return ("process-state", f"after the history the {n} is changed"), {}
    return None, {"first": {c: v["canon"] for c, v in first.items() if v}, "failed": n_failed, "warned": n_warned}


MINE = {"C08": ("differs-from-earlier", "result-changed", "operand-unbuildable"), "C09": ("operand-changed", "result-changed", "differs-from-earlier"),
        "C10": ("operand-changed", "process-state", "differs-from-earlier", "operand-unbuildable"),
        "C12": ("missing-warning", "spurious-warning", "value-depends-on-warnings")}


def _raw(spec, prop):
    try:
        p, r = forkrun.call(run, spec, prop, timeout=300.0)
    except (forkrun.ChildFailed, forkrun.ChildStuck) as e:
        raise HarnessError(f"marathon: {e}")
    if p is None:
        for c in spec["fresh"]:
            if c in r["first"]:
                op = spec["calls"][c]
                want = ms.alone(json.dumps([op["fn"], op["a"], op["kw"], "always"]))
                if r["first"][c] != want and not want.startswith("unbuildable"):
                    return ("differs-from-earlier", f"{op['fn']} returned {r['first'][c][:200]}, alone in a fresh process {want[:200]}"), {}
    return p, r


def verdict(spec, prop):
    p, r = _raw(spec, prop)
    if p is None or p[0] not in MINE[prop]:
        return None, r
    if p[0] == "differs-from-earlier" and prop in ("C09", "C10"):
        # Caused by the modifications, or the failures, of this property, or present without them?
        s = json.loads(json.dumps(spec))
        if prop == "C09":
            s["steps"] = [[c, m, 0, 0] for c, m, _, _ in s["steps"]]
        else:
            bad = {c for c in range(len(s["calls"])) if ms.alone(json.dumps([s["calls"][c]["fn"], s["calls"][c]["a"], s["calls"][c]["kw"], "always"])).startswith("raises")}
            s["steps"] = [[None if c in bad else c, "always" if m == "error" else m, x, y] for c, m, x, y in s["steps"]]
        p2, _ = _raw(s, prop)
        if p2 is not None and p2[0] == p[0]:
            return None, r
    return p, r


def minimise(seed, prop, i, kind):
    spec = generate(seed, prop, i)
    p, _ = verdict(spec, prop)
    if p is None or p[0] != kind:
        return {"part": "marathon", "spec": spec}, (kind, "not reproducible")

    def build(keep):
        keep = set(keep)
        return dict(spec, steps=[s for k, s in enumerate(spec["steps"]) if k in keep])

    def bad(keep):
        try:
            q, _ = verdict(build(keep), prop)
        except HarnessError:
            return False
        return q is not None and q[0] == kind
    keep = ddmin(list(range(len(spec["steps"]))), bad, 150)
    small = build(keep)
    used = sorted({s[0] for s in small["steps"]})
    new = {c: j for j, c in enumerate(used)}
    small = {"calls": [spec["calls"][c] for c in used], "steps": [[new[c], m, x, y] for c, m, x, y in small["steps"]], "fresh": [new[c] for c in spec["fresh"] if c in new]}
    q, _ = verdict(small, prop)
    if q is None or q[0] != kind:
        small, q = spec, p
    return {"part": "marathon", "spec": small}, q[:2]


def job(args):
    seed, prop, i = args
    spec = generate(seed, prop, i)
    p, r = verdict(spec, prop)
    return i, p, len(spec["steps"]), len(spec["calls"]), r.get("failed", 0), r.get("warned", 0), json.dumps(sorted(r.get("first", {}).items()))
