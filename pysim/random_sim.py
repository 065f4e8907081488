"""C11: random data. (1) sessions with other calls, failures and threads around the random calls, compared with the random calls alone;
(2) simulated entropy that reaches every extreme; (3) distribution of seeded draws;
(4) long histories of kept arrays."""
import json
import math
import multiprocessing as mp
import random

from simlib import core
from simlib.core import HarnessError, ddmin, rng_for
from . import forkrun, model_ops as mo, model_sim as ms

SPECIAL = [(0, 0, 0), (0, -5, 5), (1, 0, 0), (1, -5, 5), (0, 1, 0), (0, 53, 0), (1, 52, 0), (0, 54, 0), (1, 53, 0), (1, 0, 52), (0, 0, 53),
           (1, 63, 0), (0, 64, 0), (1, -3, 60), (0, 70, -6), (1, 31, 0), (0, 32, 0), (0, 31, 0), (1, 60, -20)]


# ---------------------------------------------------------------------------------------------------
# 1. Sessions
# ---------------------------------------------------------------------------------------------------


def generate(seed, i):
    r = rng_for(seed, "C11", "session", i)
    g = mo.Gen(r, {"err": r.choice([0.05, 0.2]), "big": 0.0})
    n = r.choice([1, 1, 2, 2, 3])
    pool = [g.call() for _ in range(r.choice([3, 8, 16]))]
    fmts = [mo.gen_fmt(r) if r.random() < 0.85 else r.choice(SPECIAL) for _ in range(r.randint(1, 3))]
    threads = []
    for t in range(n):
        ops = []
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if t == 0 and k < 0.55:
                sh = r.choice([mo.vpy(r.randint(1, 8)), {"t": "tup", "v": [mo.vpy(r.randint(1, 3)), mo.vpy(r.randint(1, 4))]}, {"t": "tup", "v": []},
                               {"t": "tup", "v": [mo.vpy(2), mo.vpy(1), mo.vpy(2)]}, mo.vpy(40)])
                ops.append({"fn": "cl_fix_random", "a": [sh, mo.vfmt(r.choice(fmts))]})
            elif t == 0 and k < 0.62:
                ops.append({"act": "draw"})
            elif t == 0 and k < 0.68:
                ops.append({"act": "seed", "v": r.randint(0, 3)})
            else:
                op = json.loads(json.dumps(r.choice(pool)))
                if r.random() < 0.2:
                    op["scrib"] = 1
                if r.random() < 0.12:
                    op["inj"] = [r.choice([1, 2, 4, 8, 15, 30, 60]), r.choice(list(ms.EXC))]
                ops.append(op)
        threads.append(ops)
    sched = ms.gen_sched(r)
    if any(o.get("inj") for t in threads for o in t):
        sched["granularity"] = "line"
    return {"objs": g.objs, "threads": threads, "warn": "ignore", "sched": sched, "rseed": r.randint(0, 10 ** 6)}


def only_random(spec):
    s = json.loads(json.dumps(spec))
    s["threads"] = [[o if o.get("fn") == "cl_fix_random" or o.get("act") in ("draw", "seed") else {"act": "skip"} for o in s["threads"][0]]]
    return s


def since_reseed(spec):
    """The random calls after the last re-seeding alone, or None if there were none before it."""
    ops = spec["threads"][0]
    at = max((k for k, o in enumerate(ops) if o.get("act") == "seed"), default=0)
    if not any(o.get("fn") == "cl_fix_random" for o in ops[:at]):
        return None
    s = only_random(spec)
    s["threads"] = [[{"act": "skip"} if k < at else o for k, o in enumerate(s["threads"][0])]]
    return s


def session_verdict(spec, switches=None):
    r = ms.execute(spec, switches)
    for p in r["problems"]:
        if p[0] in ("random-range", "random-failed"):
            return tuple(p[:2]), r
        if p[0] == "result-changed" and "earlier result of cl_fix_random" in p[1]:
            return tuple(p[:2]), r
    ref = ms.execute(only_random(spec))
    want = {(x[0], x[1]): x[4] for x in ref["recs"]}
    for x in r["recs"]:
        if (x[0], x[1]) in want and x[4] != want[x[0], x[1]]:
            return ("sequence-changed", f"random array #{x[1]} is {x[4][:160]}; the same random calls alone give {want[x[0], x[1]][:160]}"), r
    again = since_reseed(spec)
    if again is not None:
        ref = ms.execute(again)
        want = {(x[0], x[1]): x[4] for x in ref["recs"] if again["threads"][0][x[1]].get("act") != "skip" and x[0] == 0}
        for x in r["recs"]:
            if (x[0], x[1]) in want and x[4] != want[x[0], x[1]]:
                return ("sequence-changed", f"random array #{x[1]} after re-seeding is {x[4][:160]}; the same calls right after seeding give {want[x[0], x[1]][:160]}"), r
    return None, r


def minimise(spec, kind):
    def attempt(s, sw):
        try:
            d, r = session_verdict(s, sw)
        except HarnessError:
            return None
        return (d, r) if d is not None and d[0] == kind else None
    best = attempt(spec, None)
    if best is None:
        return {"part": "session", "spec": spec, "switches": None}, (kind, "not reproducible")
    switches = best[1]["switches"]
    flat = [(t, k) for t, ops in enumerate(spec["threads"]) for k in range(len(ops))]

    def build(keep):
        keep = set(keep)
        s = json.loads(json.dumps(spec))
        s["threads"] = [[o if (t, k) in keep else {"act": "skip"} for k, o in enumerate(ops)] for t, ops in enumerate(s["threads"])]
        return s
    keep = ddmin(flat, lambda ks: attempt(build(ks), switches) is not None or attempt(build(ks), None) is not None, 120)
    s = build(keep)
    b = attempt(s, switches) or attempt(s, None)
    if b is not None:
        spec, best, switches = s, b, b[1]["switches"]
    if switches and attempt(spec, []) is not None:
        switches = []
    elif switches and len(switches) > 1:
        switches = ddmin(switches, lambda sw: attempt(spec, sw) is not None, 80)
    best = attempt(spec, switches) or best
    return {"part": "session", "spec": spec, "switches": switches}, best[0]


# ---------------------------------------------------------------------------------------------------
# 2. Simulated entropy
# ---------------------------------------------------------------------------------------------------


def untemper(y):
    """Inverse of the MT19937 output function: the state word whose output is y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


def feed(words):
    """The next outputs of both global generators are these 624 words."""
    import numpy as np
    key = [untemper(w) for w in words]
    st = list(np.random.get_state())
    st[1], st[2], st[3], st[4] = np.array(key, dtype=np.uint32), 0, 0, 0.0
    np.random.set_state(tuple(st))
    random.setstate((3, tuple(key) + (0,), None))


def pattern_words(r, size):
    words = []
    while len(words) < 624:
        k = r.randrange(11)
        if k == 0:
            rec = [0] * size
        elif k == 1:
            rec = [0xFFFFFFFF] * size
        elif k == 2:
            rec = [0xFFFFFFFF] * (size - 1) + [0x7FFFFFFF]
        elif k == 3:
            rec = [0] * (size - 1) + [0x80000000]
        elif k == 4:
            rec = [0x7FFFFFFF] + [0xFFFFFFFF] * (size - 1)
        elif k in (5, 6):
            rec = [0xFFFFFFFF] * size
            rec[0 if k == 5 else -1] -= r.randint(1, 3)
        elif k in (7, 8):
            rec = [0] * size
            rec[0 if k == 7 else -1] = r.randint(1, 3)
        else:
            rec = [r.getrandbits(32) for _ in range(size)]
        words += rec
    return words[:624]


def check_value(x, fmt):
    """Problem with a value of a random array, or None."""
    if mo.is_wide(fmt):
        if isinstance(x, bool) or not isinstance(x, int):
            return f"element {x!r} of type {type(x).__name__}"
        n = x
    else:
        if not math.isfinite(x):
            return f"element {x!r}"
        n = math.ldexp(x, fmt[2])
        if n != int(n):
            return f"element {x!r} is not a multiple of the resolution"
        n = int(n)
    lo, hi = mo.lim(fmt)
    if not lo <= n <= hi:
        return f"element {x!r} is out of range"
    return None


def check_random(out, shape, fmt):
    """Shape, element type and range of the result of a random call."""
    import numpy as np
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    if np.shape(out) != shape:
        return f"shape {np.shape(out)} instead of {shape}"
    for x in np.asarray(out).ravel().tolist():
        p = check_value(x, fmt)
        if p:
            return f"{p} for format {fmt}"
    return None


def as_ints(out, fmt):
    import numpy as np
    v = np.asarray(out).ravel().tolist()
    return v if mo.is_wide(fmt) else [int(math.ldexp(x, fmt[2])) for x in v]


def entropy_job(seed, i):
    """One format under patterned entropy. Returns (problem or None, stats)."""
    r = rng_for(seed, "C11", "entropy", i)
    fmt = SPECIAL[i] if i < len(SPECIAL) else mo.gen_fmt(r)
    return _entropy(fmt, r.getrandbits(40))


def _entropy(fmt, eseed):
    r = random.Random(eseed)
    P = ms.P
    w = sum(fmt)
    f = P.FixFormat(*fmt)
    lo, hi = mo.lim(fmt)
    seen_lo = seen_hi = False
    draws = 0
    sizes = sorted({1, 2, max(1, (w + 31) // 32), (w + 32) // 32})
    for _ in range(3):
        for size in sizes:
            feed(pattern_words(r, size))
            n = max(1, 200 // max(2, size))
            try:
                out = P.cl_fix_random((n,), f)
            except Exception as e:  # noqa: BLE001
                return ("random-failed", f"cl_fix_random(({n},), {fmt}) raised {type(e).__name__}: {e}"), None
            p = check_random(out, (n,), fmt)
            if p:
                return ("random-range", p), None
            v = as_ints(out, fmt)
            draws += n
            seen_lo |= lo in v
            seen_hi |= hi in v
    if seen_lo != seen_hi:
        return ("extreme-unreachable", f"format {fmt}: the {'maximum' if seen_lo else 'minimum'} is never drawn, the other extreme is"), None
    return None, {"draws": draws, "both": seen_lo and seen_hi}


# ---------------------------------------------------------------------------------------------------
# 3. Distribution
# ---------------------------------------------------------------------------------------------------


def chi2_bad(counts, n):
    """Chi-square statistic beyond any plausible value (about 1e-10)."""
    k = len(counts)
    e = n / k
    x = sum((c - e) ** 2 for c in counts) / e
    df = k - 1
    z = ((x / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))
    return z > 6.6, x


def distribution_job(seed, i):
    r = rng_for(seed, "C11", "distribution", i)
    fmt = SPECIAL[i] if i < len(SPECIAL) else mo.gen_fmt(r)
    return _distribution(fmt, r.getrandbits(30))


def _distribution(fmt, dseed):
    import numpy as np
    P = ms.P
    w = sum(fmt)
    f = P.FixFormat(*fmt)
    lo, hi = mo.lim(fmt)
    random.seed(dseed)
    np.random.seed(dseed & 0xFFFFFFFF)
    vals = []
    if w <= 10:
        per = max(2000, 64 << w)
        shapes = [(per // 4,), (per // 8, 2), (per // 4,), (per // 4,)]
    else:
        shapes = [(1500,), (20, 50), (1500,), 1] + [3] * 20
    calls = []
    for sh in shapes:
        try:
            out = P.cl_fix_random(sh, f)
        except Exception as e:  # noqa: BLE001
            return ("random-failed", f"cl_fix_random({sh}, {fmt}) raised {type(e).__name__}: {e}"), 0
        p = check_random(out, sh, fmt)
        if p:
            return ("random-range", p), 0
        v = as_ints(out, fmt)
        calls.append(v)
        vals += v
    n = len(vals)
    off = [v - lo for v in vals]
    if w == 0:
        return None, n
    if w <= 10:
        counts = [0] * (1 << w)
        for v in off:
            counts[v] += 1
        if min(counts) == 0:
            return ("not-uniform", f"format {fmt}: value {lo + counts.index(0)} (in units) never drawn in {n} draws"), n
        bad, x = chi2_bad(counts, n)
        if bad:
            return ("not-uniform", f"format {fmt}: chi-square {x:.0f} over {len(counts)} values, {n} draws"), n
    else:
        for name, key in (("high", lambda v: v >> (w - 6)), ("low", lambda v: v & 63)):
            counts = [0] * 64
            for v in off:
                counts[key(v)] += 1
            bad, x = chi2_bad(counts, n)
            if bad:
                return ("not-uniform", f"format {fmt}: chi-square {x:.0f} of the six {name} bits in {n} draws"), n
        for b in range(w):
            c = sum((v >> b) & 1 for v in off)
            if abs(c - n / 2) > 4 * math.sqrt(n):
                return ("not-uniform", f"format {fmt}: bit {b} is one in {c} of {n} draws"), n
            if b + 1 < w:
                c = sum(((v >> b) ^ (v >> (b + 1))) & 1 for v in off)
                if abs(c - n / 2) > 4 * math.sqrt(n):
                    return ("not-uniform", f"format {fmt}: bits {b} and {b + 1} agree in {n - c} of {n} draws"), n
    # Successive draws, within and across calls, are unrelated.
    for lag in (1, 2, 50, 1500):
        if n <= lag or w > 60 and lag == 50:
            continue
        for b in {0, w - 1, w // 2}:
            m = n - lag
            c = sum(((off[k] ^ off[k + lag]) >> b) & 1 for k in range(m))
            if abs(c - m / 2) > 4 * math.sqrt(m):
                return ("not-independent", f"format {fmt}: bit {b} agrees with the draw {lag} before in {m - c} of {m} cases"), n
    if w >= 54:
        if len(set(vals)) != n:
            return ("not-independent", f"format {fmt}: repeated values in {n} draws"), n
    return None, n


# ---------------------------------------------------------------------------------------------------
# 4. Long histories of kept arrays
# ---------------------------------------------------------------------------------------------------


def kept_job(seed, i):
    """Hundreds of random arrays are kept while more are drawn; some are overwritten by their owner and some are dropped. No array may
    change but the one its owner writes to, and the draws are those of a history in which nothing is kept. Returns (problem or None, arrays)."""
    import numpy as np
    r = rng_for(seed, "C11", "kept", i)
    P = ms.P
    fmts = [SPECIAL[r.randrange(len(SPECIAL))] if r.random() < 0.3 else mo.gen_fmt(r) for _ in range(r.choice([1, 1, 2, 6]))]
    shapes = [r.choice([(r.randint(1, 12),), (r.randint(1, 4), r.randint(1, 5)), (), 1, (r.randint(13, 300),)]) for _ in range(r.choice([1, 2, 5]))]
    if r.random() < 0.2:
        shapes.append((r.randint(2000, 9000),))
    plan = [(r.choice(fmts), r.choice(shapes), r.random()) for _ in range(r.choice([150, 400, 1200]))]
    gseed = r.getrandbits(32)

    def history(keep):
        random.seed(gseed)
        np.random.seed(gseed)
        held, vals = [], []
        for k, (fmt, sh, what) in enumerate(plan):
            out = P.cl_fix_random(sh, P.FixFormat(*fmt))
            p = check_random(out, sh, fmt)
            if p:
                return p, vals
            vals.append(np.asarray(out).ravel().tolist())
            if keep:
                if what < 0.8:
                    held.append([k, out, vals[-1]])
                if what > 0.9 and held and isinstance(out, np.ndarray):
                    j = int((what - 0.9) * 9.99 * len(held))
                    if isinstance(held[j][1], np.ndarray) and held[j][1].flags.writeable:
                        held[j][1][...] = 0
                        held[j][2] = [0] * held[j][1].size
                if what < 0.02 and held:
                    del held[int(what * 49 * len(held))]
                if k % 50 == 49 or k == len(plan) - 1:
                    for j, a, v in held:
                        if np.asarray(a).ravel().tolist() != v:
                            return f"array #{j} {plan[j][:2]} has changed by draw #{k}", vals
        return None, vals
    p, vals = history(True)
    if p:
        return ("result-changed" if "changed" in p else "random-range", p), 0
    p, again = history(False)
    if p or vals != again:
        k = next((k for k in range(len(again)) if vals[k] != again[k]), None)
        return ("sequence-changed", f"random array #{k} depends on what happened to the arrays drawn before ({p})"), 0
    return None, len(plan)


# ---------------------------------------------------------------------------------------------------
# Check body
# ---------------------------------------------------------------------------------------------------


PARTS = {"entropy": entropy_job, "distribution": distribution_job, "kept": kept_job}


def _session_jobs(args):
    seed, lo, hi = args
    out = {"bad": [], "stats": {}, "sigs": set(), "steps": 0, "preempt": 0, "calls": 0, "n": 0, "dig": [], "random": 0}
    for i in range(lo, hi):
        spec = generate(seed, i)
        try:
            d, r = session_verdict(spec)
        except HarnessError as e:
            raise HarnessError(f"session {i}: {e}")
        out["n"] += 1
        if d is not None:
            out["bad"].append((i, d))
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        out["calls"] += len(r["recs"])
        out["random"] += sum(x[2] == "cl_fix_random" for x in r["recs"])
        out["steps"] += r["steps"]
        out["preempt"] += r["preempt"]
        h = core.digest([(x[0], x[1], x[2], x[4]) for x in r["recs"]])
        out["sigs"].add((r["sig"], h))
        out["dig"].append((i, r["sig"], h, d and d[0]))
    return out


def _stat_jobs(args):
    part, seed, lo, hi = args

    def go():
        fn = PARTS[part]
        return [(i,) + fn(seed, i) for i in range(lo, hi)]
    return part, forkrun.call(go, timeout=800.0)


def _minimise_job(args):
    return minimise(*args)


def run(check, n_sess, n_ent, n_dist, n_kept):
    jobs = [(check.seed, lo, min(n_sess, lo + 10)) for lo in range(0, n_sess, 10)]
    sjobs = [("entropy", check.seed, lo, min(n_ent, lo + 25)) for lo in range(0, n_ent, 25)]
    sjobs += [("distribution", check.seed, lo, min(n_dist, lo + 5)) for lo in range(0, n_dist, 5)]
    sjobs += [("kept", check.seed, lo, min(n_kept, lo + 5)) for lo in range(0, n_kept, 5)]
    tot = {"n": 0, "steps": 0, "preempt": 0, "calls": 0, "random": 0}
    stats, sigs, dig, bad = {}, set(), [], []
    ent = {"formats": 0, "draws": 0, "both_extremes_reached": 0}
    dist = {"formats": 0, "draws": 0}
    kept = {"histories": 0, "arrays": 0}
    import numpy  # noqa: F401
    with mp.get_context("fork").Pool(check.workers, ms.init_worker) as pool:
        stat_bad = {}
        it = pool.imap(_stat_jobs, sjobs)
        for r in pool.imap(_session_jobs, jobs):
            for k in tot:
                tot[k] += r[k]
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
            sigs |= r["sigs"]
            dig += r["dig"]
            bad += r["bad"]
            if len(bad) > 20:
                break
        for part, res in it:
            for i, p, s in res:
                dig.append((part, i, p, s))
                if p is not None:
                    stat_bad.setdefault(p[0], (part, i, p))
                elif part == "entropy":
                    ent["formats"] += 1
                    ent["draws"] += s["draws"]
                    ent["both_extremes_reached"] += s["both"]
                elif part == "kept":
                    kept["histories"] += 1
                    kept["arrays"] += s
                else:
                    dist["formats"] += 1
                    dist["draws"] += s
        seen = {}
        for i, d in bad:
            seen.setdefault(d[0], (i, d))
        for i, d in list(seen.values())[:3]:
            obj, d2 = pool.apply(_minimise_job, ((generate(check.seed, i), d[0]),))
            check.violation(d2[0], d2[1], obj)
    for part, i, p in stat_bad.values():
        check.violation(p[0], p[1], {"part": part, "seed": check.seed, "i": i})
    check.cov = {
        "evaluations": tot["n"] + ent["formats"] + dist["formats"] + kept["histories"], "distinct_nontrivial": len(sigs) + ent["formats"] + dist["formats"] + kept["histories"],
        "rule": "one run = one seeded session of random and non-random calls under one schedule, or one format under one simulated entropy stream; "
                "distinct = different (thread-switch sequence, calls and results), resp. format and stream",
        "samples": [{"calls": generate(check.seed, 1)["threads"][0][:3]}],
        "sessions": tot["n"], "calls": tot["calls"], "random_calls": tot["random"], "scheduling_steps": tot["steps"],
        "preemptions": tot["preempt"], "faults_injected": stats, "entropy": ent, "distribution": dist, "kept": kept,
        "seeds": tot["n"], "seeds_per_hour": int(tot["n"] / max(check.elapsed(), 1e-9) * 3600), "simulated_seconds": 0,
        "log_digest": core.digest(dig),
        "real_components": ["bittrue/models/python/en_cl_fix_pkg", "numpy and Python random generators"],
        "stub_components": ["threading primitives (simulated)", "generator state in the entropy part (chosen words)"],
    }
    check.assumptions = ["both global generators are Mersenne Twisters whose state can be set (numpy legacy and Python random)",
                         "statistical thresholds are beyond 6 sigma, so a uniform generator is not reported for any seed in practice"]


def replay(check, obj):
    def go():
        ms.init_worker()
        if obj["part"] == "session":
            return session_verdict(obj["spec"], obj["switches"])[0]
        fn = PARTS[obj["part"]]
        return fn(obj["seed"], obj["i"])[0]
    return forkrun.call(go, timeout=600.0)
