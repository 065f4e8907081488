"""C07, Python half: histories of format-list writes by 1-3 threads on a simulated disk that fails, fills up, loses data or kills.

The real cl_fix_write_formats runs under pysim/fsshim.c (every file operation is an event at which the seeded fault fires) and,
with more than one writer, under the deterministic thread scheduler.
"""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import sys

from simlib import core
from simlib.core import HarnessError, ddmin, rng_for
from . import dataset_sim as ds, forkrun
from .sched import Sched, patch_primitives

PKG = None
_root = None
FMT = re.compile(r"\(\s*([01])\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)$")
FAULTS = [("error", 6), ("disk-full", 4), ("short-write", 2), ("eintr", 2), ("late-error", 4), ("sigint", 2)]
NAMES = [["AFmt"], ["AFmt", "BFmt"], ["a_fmt.S", "a_fmt.I", "a_fmt.F"], [], ["x"] * 9]
KINDS = ["list", "list", "list", "tuple", "array", "scalar"]


def prepare(check):
    global PKG, _root
    _root = check.mkscratch()
    sys.path.insert(0, core.PY_MODEL)
    import en_cl_fix_pkg
    import numpy  # noqa: F401
    PKG = os.path.dirname(os.path.abspath(en_cl_fix_pkg.__file__)) + os.sep


# -- generation --------------------------------------------------------------------------------------
def gen_fmt(r):
    k = r.random()
    if k < 0.6:
        i = r.randint(-4, 20)
        return [r.randint(0, 1), i, r.randint(-i, 30)]
    if k < 0.85:
        i = r.choice([-1, 1]) * r.choice([9, 10, 99, 100, 999, 12345, 10 ** 6])
        return [r.randint(0, 1), i, -i + r.choice([0, 1, 7, 1000])]
    i = r.choice([2 ** 31 - 1, -(2 ** 31 - 1), 2 ** 30])
    return [r.randint(0, 1), i, min(-i + r.randint(0, 3), 2 ** 31 - 1)]


def gen_fmts(r, n):
    pool = [gen_fmt(r) for _ in range(r.choice([1, 2, 5, 40]))]
    return [list(r.choice(pool)) for _ in range(n)]


def gen_len(r, n_thr):
    if n_thr > 1:
        return r.choice([0, 1, 1, 2, 3, 7, 20, 60, r.randint(0, 30)])
    return r.choice([0, 1, 1, 2, 3, 7, 20, 60, 200, r.randint(0, 30), r.choice([900, 2500, 5000]) if r.random() < 0.6 else 4])


def gen_fault(r, n):
    mode = r.choices([f for f, _ in FAULTS], [w for _, w in FAULTS])[0]
    ev = 3 + n * 11 // 8192
    return {"mode": mode, "at": r.choice([0, 1, 2, r.randrange(ev + 1), r.randrange(ev + 1)]), "err": r.randrange(4), "arg": r.randrange(1 << 20)}


def generate(seed, i):
    r = rng_for(seed, "C07", "writers", i)
    n_thr = r.choice([1, 1, 1, 2, 2, 3])
    spec = {"threads": [], "fault": None, "sched": {"seed": r.getrandbits(48), "strategy": r.choice(["random", "random", "pct"]),
            "p": r.choice([0.02, 0.1, 0.3, 0.7]), "depth": r.choice([1, 2, 4]), "est": r.choice([60, 300, 1500]),
            "granularity": "opcode" if r.random() < 0.2 else "line"}}
    for t in range(n_thr):
        n_lists = r.choice([1, 2, 3])
        lists = []
        for _ in range(n_lists):
            kind = r.choice(KINDS)
            n = 1 if kind == "scalar" else gen_len(r, n_thr)
            lists.append([kind, gen_fmts(r, n), r.randrange(3)])
        ops = []
        for _ in range(r.randint(1, 10)):
            k = r.random()
            j = r.randrange(n_lists)
            f = r.randrange(3)
            if k < 0.68:
                o = {"op": "write", "file": f, "list": j, "names": r.randrange(len(NAMES)), "rel": r.random() < 0.2}
                if n_thr == 1 and r.random() < 0.35:
                    o["fault"] = gen_fault(r, len(lists[j][1]))
                ops.append(o)
            elif k < 0.85:
                ops.append({"op": "change", "list": j, "how": r.choice(["append", "pop", "replace", "reverse", "swap", "field", "rebuild"]),
                            "fmt": gen_fmt(r), "k": r.randrange(1 << 16)})
            elif k < 0.93:
                ops.append({"op": "junk", "file": f, "n": r.choice([0, 1, 30, 9000]), "eol": r.random() < 0.5})
            else:
                ops.append({"op": "unlink", "file": f})
        if n_thr == 1 and r.random() < 0.12:
            ops.append({"op": "write", "file": r.randrange(3), "list": 0, "names": 0, "rel": False,
                        "fault": dict(gen_fault(r, len(lists[0][1])), mode=r.choice(["kill-before", "kill-after", "torn-write"]))})
        spec["threads"].append({"lists": lists, "ops": ops})
    if n_thr > 1 and r.random() < 0.6:
        spec["fault"] = dict(gen_fault(r, 3000), at=r.randrange(25))
        if spec["fault"]["mode"] == "sigint":
            spec["fault"]["mode"] = "error"
    return spec


# -- execution ----------------------------------------------------------------------------------------
def wrong(path, fmts):
    """Why the file is not exactly the list of formats (None: it is)."""
    try:
        with open(path, newline="") as f:
            t = f.read()
    except FileNotFoundError:
        return "the file does not exist"
    lines = t.split("\n")
    if lines[-1] == "":
        lines.pop()        # the final newline is optional for the readers
    if not lines:
        return "the file is empty"
    if len(lines) - 1 != len(fmts):
        return f"{len(lines) - 1} formats instead of {len(fmts)}"
    if FMT.match(lines[0].strip()):
        return "no header line"
    for k, (ln, f) in enumerate(zip(lines[1:], fmts)):
        m = FMT.match(ln.strip())
        if not m or [int(x) for x in m.groups()] != list(f):
            return f"format {k} is written as {ln[:60]!r}, expected {tuple(f)}"
    return None


def session(spec, d, switches):
    """Runs in a forked child: all threads of one history. Returns problems and statistics."""
    import numpy as np
    import en_cl_fix_pkg as m
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import signal
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.chdir(d)
    lib = ds.lib()
    lib.fs_arm(d.encode(), 0, 1 << 40, 0, 0, 1)      # forget the faults of an earlier history of this worker
    lib.fs_disarm()
    multi = len(spec["threads"]) > 1
    problems, stats = [], {}
    n_fault = [0]
    s = spec["sched"]
    sched = Sched(random.Random(s["seed"]), s["strategy"], s["p"], s["depth"], s["est"], s["granularity"], (PKG,), switches, max_steps=30000000) if multi else None
    if multi:
        patch_primitives()

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def problem(kind, detail, tid, k):
        if len(problems) < 5:
            problems.append((kind, detail.replace(d, ""), tid, k))

    def arm(f):
        lib.fs_arm(d.encode(), ds.M[f["mode"]], f["at"], f["err"], f["arg"], 1)

    armed = [False]

    def pause(on):
        if multi and armed[0]:
            lib.fs_pause(on)

    def fired():
        return bool(lib.fs_get(1))

    def make(fmts, how):
        if how == 1:
            return [m.FixFormat(np.int64(a), np.int32(b), np.int64(c)) for a, b, c in fmts]
        if how == 2:
            seen = {}
            return [seen.setdefault(tuple(f), m.FixFormat(*f)) for f in fmts]     # shared objects
        return [m.FixFormat(*f) for f in fmts]

    def container(kind, objs):
        if kind == "tuple":
            return tuple(objs)
        if kind == "array":
            a = np.empty(len(objs), dtype=object)
            a[:] = objs
            return a
        if kind == "scalar":
            return objs[0]
        return list(objs)

    def fields(x):
        return [x.S, x.I, x.F]

    def content(kind, cur):
        return [fields(cur)] if kind == "scalar" else [fields(x) for x in cur]

    def body(tid, th):
        lists = [[kind, container(kind, make(f, how)), how] for kind, f, how in th["lists"]]
        want = {}             # file name -> formats, or None when unknown (a failed write)
        junk = {}             # file name -> bytes that must stay

        def others(tid, k, but):
            for name, f in want.items():
                if name != but and f is not None:
                    w = wrong(os.path.join(d, name), f)
                    if w:
                        problem("other-file-changed", f"{name}, written before: {w}", tid, k)
            for name, b in junk.items():
                if name != but:
                    try:
                        with open(os.path.join(d, name), "rb") as h:
                            if h.read() == b:
                                continue
                    except FileNotFoundError:
                        pass
                    problem("other-file-changed", f"{name}, not a file of this writer, has changed", tid, k)

        def change(o):
            L = lists[o["list"]]
            kind, cur, how = L
            new = make([o["fmt"]], how)[0]
            if o["how"] == "rebuild":
                L[1] = container(kind, make([list(f) for f in content(kind, cur)] if kind == "scalar" else
                                            [list(f) for f in content(kind, cur)][:max(1, o["k"] % 40)], how))
            elif o["how"] == "field":
                x = cur if kind == "scalar" else cur[o["k"] % len(cur)] if len(cur) else None
                if x is not None:
                    x.I, x.F = o["fmt"][1], o["fmt"][2]
            elif kind == "list":
                k = o["k"]
                if o["how"] == "append":
                    cur.append(new)
                elif o["how"] == "pop" and cur:
                    cur.pop(k % len(cur))
                elif o["how"] == "replace" and cur:
                    cur[k % len(cur)] = new
                elif o["how"] == "reverse":
                    cur.reverse()
                elif o["how"] == "swap" and len(cur) > 1:
                    cur[0], cur[-1] = cur[-1], cur[0]
            elif kind == "array" and len(cur):
                cur[o["k"] % len(cur)] = new
            elif kind == "scalar":
                L[1] = new

        def write(o, k, retry=False):
            kind, cur, how = lists[o["list"]]
            name = f"t{tid}f{o['file']}.txt"
            before = content(kind, cur)
            junk.pop(name, None)
            fault = None if retry else o.get("fault")
            if fault and fault["mode"] in ("kill-before", "kill-after", "torn-write"):
                with open(os.path.join(d, "progress.json"), "w") as h:
                    json.dump({n: f for n, f in want.items() if n != name and f is not None}, h)
            err = None
            if fault:
                arm(fault)
            try:
                m.cl_fix_write_formats(cur, NAMES[o["names"]], name if o["rel"] else os.path.join(d, name))
            except BaseException as e:  # noqa: BLE001 - judged
                if type(e).__name__ == "Abort":
                    raise
                err = f"{type(e).__name__}: {e}"
            hit = fired()
            pause(1)
            if fault:
                lib.fs_disarm()
                if hit:
                    n_fault[0] += 1
                    count("fault " + fault["mode"])
                    count("raised" if err else "survived")
            old = sys.gettrace()
            sys.settrace(None)
            try:
                after = content(kind, cur)
                if after != before:
                    problem("list-changed", f"the list of {len(before)} formats was changed by writing it", tid, k)
                if err is None:
                    w = wrong(os.path.join(d, name), before)
                    if w:
                        problem("shortened-list" if hit else "wrong-content", f"writing {len(before)} formats to {name} reported success"
                                + (f" although a file operation failed ({fault or spec['fault']})" if hit else "") + f", but {w}", tid, k)
                    want[name] = before
                    count("writes")
                else:
                    if not hit:
                        problem("raised", f"writing {len(before)} formats raised {err} on a healthy disk", tid, k)
                    want[name] = None
                others(tid, k, name)
            finally:
                sys.settrace(old)
                pause(0)

        def run():
            for k, o in enumerate(th["ops"]):
                if o["op"] == "write":
                    write(o, k)
                elif o["op"] == "change":
                    change(o)
                else:
                    name = f"t{tid}f{o['file']}.txt"
                    want.pop(name, None)
                    junk.pop(name, None)
                    path = os.path.join(d, name)
                    pause(1)
                    try:
                        if o["op"] == "junk":
                            b = b"(1, 2, 3)\n" * o["n"] + (b"" if o["eol"] else b"(1, ")
                            with open(path, "wb") as h:
                                h.write(b)
                            junk[name] = b
                        elif os.path.exists(path):
                            os.unlink(path)
                    finally:
                        pause(0)

        def settle():
            # The faults have stopped: writing must succeed again.
            for k, o in enumerate(th["ops"]):
                if o["op"] == "write":
                    write(o, k, True)
        return run, settle

    bodies = [body(t, th) for t, th in enumerate(spec["threads"])]
    if not multi:
        bodies[0][0]()
    else:
        for b in bodies:
            sched.spawn(b[0])
        if spec["fault"]:
            arm(spec["fault"])
            armed[0] = True
        v = sched.run()
        armed[0] = False
        if spec["fault"] and fired():
            count("fault " + spec["fault"]["mode"])
        if v:
            problem("no-progress", f"{v}: {sched.deadlock}", 0, 0)
    lib.fs_disarm()
    hard = lib.fs_get(3)
    if hard:
        raise HarnessError("write outside of the scratch directory")
    lib.fs_arm(d.encode(), 0, 1 << 40, 0, 0, 1)
    for b in bodies:
        b[1]()
    lib.fs_disarm()
    for t in (sched.threads if sched else []):
        if t.error is not None:
            raise HarnessError(f"thread {t.tid}: {t.error!r}")
    return {"problems": problems, "stats": stats, "switches": sched.switches if sched else [], "steps": sched.step if sched else 0,
            "sig": sched.sig if sched else 0}


def execute(spec, switches=None, tag="w"):
    lib = ds.lib()
    lib.fs_disarm()
    d = os.path.join(_root, f"{tag}{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return forkrun.call(session, spec, d, switches, timeout=120.0)
    except forkrun.ChildStuck as e:
        return {"problems": [("no-progress", str(e), 0, 0)], "stats": {}, "switches": [], "steps": 0, "sig": 0}
    except forkrun.ChildFailed as e:
        p = os.path.join(d, "progress.json")
        last = spec["threads"][0]["ops"][-1]
        if "wait status 35072" not in str(e) or not os.path.exists(p):
            raise HarnessError(str(e))
        problems = []
        with open(p) as h:
            for name, f in json.load(h).items():
                w = wrong(os.path.join(d, name), f)
                if w:
                    problems.append(("other-file-changed", f"{name}, complete before the process was killed while writing another file: {w}", 0, 0))
        return {"problems": problems, "stats": {"fault " + last["fault"]["mode"]: 1}, "switches": [], "steps": 0, "sig": 0}
    finally:
        lib.fs_disarm()
        shutil.rmtree(d, ignore_errors=True)


def verdict(spec, switches=None, tag="w"):
    r = execute(spec, switches, tag)
    p = r["problems"]
    return (p[0][0], p[0][1]) if p else None, r


def _init():
    ds._lib = None
    ds.lib()


def _job(a):
    seed, i = a
    spec = generate(seed, i)
    bad, r = verdict(spec)
    n_ops = sum(len(t["ops"]) for t in spec["threads"])
    sig = core.digest([[(o["op"], o.get("file"), o.get("list"), o.get("fault", {}).get("mode") if o.get("fault") else None) for o in t["ops"]] for t in spec["threads"]]
                      + [spec["fault"], r["sig"]])
    return i, bad, r["stats"], len(spec["threads"]), n_ops, sig if r["stats"].get("writes") else None, r["steps"], core.digest((bad, r["stats"], r["sig"]))


def _minjob(a):
    seed, i, kind = a
    spec = generate(seed, i)
    d, r = verdict(spec, None, "m")
    if d is None or d[0] != kind:
        return {"spec": spec, "note": "not reproduced"}, (kind, "")
    flat = [(t, k) for t, th in enumerate(spec["threads"]) for k in range(len(th["ops"]))]

    def build(keep):
        s = json.loads(json.dumps(spec))
        for t, th in enumerate(s["threads"]):
            th["ops"] = [o for k, o in enumerate(spec["threads"][t]["ops"]) if (t, k) in keep]
        s["threads"] = [th for th in s["threads"] if th["ops"]]
        return s

    def fails(keep, sw=None):
        s = build(set(keep))
        if not s["threads"]:
            return False
        try:
            d = verdict(s, sw, "m")[0]
        except HarnessError:
            return False
        return d is not None and d[0] == kind
    keep = ddmin(flat, fails, 120)
    s = build(set(keep))
    for th in s["threads"]:
        for L in th["lists"]:
            while len(L[1]) > 1:
                old = L[1]
                L[1] = L[1][:len(L[1]) // 2]
                try:
                    d = verdict(s, None, "m")[0]
                except HarnessError:
                    d = None
                if d is None or d[0] != kind:
                    L[1] = old
                    break
    d, r = verdict(s, None, "m")
    sw = r["switches"]
    if sw and len(sw) > 1:
        def fails_sw(x):
            try:
                d = verdict(s, x, "m")[0]
            except HarnessError:
                return False
            return d is not None and d[0] == kind
        if fails_sw(sw):
            sw = [] if fails_sw([]) else ddmin(sw, fails_sw, 80)
        d = verdict(s, sw, "m")[0] or d
    return {"spec": s, "switches": sw}, d


def histories(check, n):
    tot = {"faults": {}, "threads": {}, "ops": 0, "runs": 0, "writes": 0, "steps": 0}
    sigs, digs, bad = set(), [], []
    with mp.get_context("fork").Pool(check.workers, _init) as pool:
        for i, b, stats, nt, n_ops, sig, steps, dig in pool.imap(_job, [(check.seed, i) for i in range(n)], chunksize=8):
            for k, v in stats.items():
                if k.startswith("fault "):
                    tot["faults"][k[6:]] = tot["faults"].get(k[6:], 0) + v
            tot["writes"] += stats.get("writes", 0)
            tot["threads"][nt] = tot["threads"].get(nt, 0) + 1
            tot["ops"] += n_ops
            tot["steps"] += steps
            tot["runs"] += 1
            if sig:
                sigs.add(sig)
            digs.append(dig)
            if b:
                bad.append((i, b[0]))
                if len(bad) > 12:
                    break
        first = {}
        for i, kind in bad:
            first.setdefault(kind, i)
        for kind, i in list(first.items())[:4]:
            obj, d = pool.apply(_minjob, ((check.seed, i, kind),))
            obj["origin"] = {"writers": i}
            check.violation(d[0], d[1], obj)
    tot["sigs"], tot["digest"] = sigs, core.digest(digs)
    return tot


def replay(check, obj):
    _init()
    return verdict(obj["spec"], obj.get("switches"), "r")[0]
