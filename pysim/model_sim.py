"""Sessions of calls on the Python model (C08, C09, C10, C12): several threads under the scheduler, faults, attribution."""
import ast
import glob
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys

from simlib import core
from simlib.core import HarnessError, ddmin, rng_for, REPO, PY_MODEL
from . import forkrun, model_ops as mo
from .sched import Sched, patch_primitives

PKG = os.path.join(REPO, "bittrue/models/python/en_cl_fix_pkg")
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit, "FloatingPointError": FloatingPointError}
P = None


def init_worker():
    """Imports the package in a process whose thread primitives are already the simulated ones; nothing in it is called here."""
    global P
    if P is not None:
        return
    import numpy, threading, warnings, random as _r, copy, enum  # noqa: F401,E401
    numpy.random.get_state()
    patch_primitives()
    sys.dont_write_bytecode = True
    sys.path.insert(0, PY_MODEL)
    import en_cl_fix_pkg
    P = en_cl_fix_pkg
    if not os.path.abspath(P.__file__).startswith(PKG):
        raise HarnessError(f"wrong package: {P.__file__}")
    forbidden_lines()


# ---------------------------------------------------------------------------------------------------
# Where an exception may be injected
# ---------------------------------------------------------------------------------------------------

_forbid = None


def forbidden_lines():
    """Lines at which an asynchronous exception cannot be cleaned up after by any code: with/try headers, clean-up blocks,
    lines that directly precede a try (acquire; try: ... finally: release), context-manager functions."""
    global _forbid
    if _forbid is not None:
        return _forbid
    _forbid = {}
    for f in glob.glob(os.path.join(PKG, "**", "*.py"), recursive=True):
        bad = set()
        with open(f) as fh:
            tree = ast.parse(fh.read())

        def span(n):
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.update(range(n.lineno, max(i.context_expr.end_lineno for i in n.items) + 1))
            elif isinstance(n, ast.Try):
                bad.add(n.lineno)
                for x in n.finalbody + n.handlers:
                    span(x)
            elif isinstance(n, ast.FunctionDef):
                yields = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
                if yields or n.name in ("__enter__", "__exit__", "__del__"):
                    span(n)
            for field in ("body", "orelse"):
                body = getattr(n, field, None)
                if isinstance(body, list):
                    for k in range(1, len(body)):
                        if isinstance(body[k], ast.Try) and body[k].finalbody:
                            # Everything since the state was changed: the statements before the try.
                            for x in body[:k]:
                                if not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                                    span(x)
        _forbid[f] = bad
    return _forbid


class Injector:
    """Raises at the n-th eligible line executed by the call."""

    def __init__(self, n, exc):
        self.left, self.exc, self.fired = n, exc, None

    def __call__(self, frame):
        if self.fired is not None:
            return
        f = frame.f_code.co_filename
        if frame.f_lineno in _forbid.get(f, ()) or f not in _forbid:
            return
        # A caller may be setting up or cleaning up further up.
        fr = frame.f_back
        while fr is not None and fr.f_code.co_filename in _forbid:
            if fr.f_lineno in _forbid[fr.f_code.co_filename]:
                return
            fr = fr.f_back
        self.left -= 1
        if self.left <= 0:
            self.fired = (os.path.basename(f), frame.f_code.co_name, frame.f_lineno)
            raise self.exc("injected")


# ---------------------------------------------------------------------------------------------------
# Session
# ---------------------------------------------------------------------------------------------------


class Held:
    __slots__ = ("tid", "k", "obj", "canon", "fn")

    def __init__(self, tid, k, obj, canon, fn):
        self.tid, self.k, self.obj, self.canon, self.fn = tid, k, obj, canon, fn


def _scribble(x):
    """Modifies a result in place as its owner may. Returns what was modified, or None."""
    import numpy as np
    if isinstance(x, np.ndarray) and x.size:
        if not x.flags.writeable:
            return None
        if x.dtype == object:
            x[...] = -987654321987654321987
        elif x.dtype == bool:
            x[...] = ~x
        else:
            x[...] = 77 if x.dtype.kind in "iu" else -77.125
        return "array"
    if isinstance(x, P.FixFormat):
        x.S, x.I, x.F = 1 - int(bool(x.S)), x.I + 3, x.F + 2
        return "format"
    if isinstance(x, (P.NarrowFix, P.WideFix)):
        d, f = x.data, x.fmt
        _scribble(d)
        _scribble(f)
        return "accessors"
    if isinstance(x, list):
        w = [_scribble(e) for e in x]
        x.append(None)
        return "list" if w is not None else None
    return None


def proc_state():
    import warnings
    import numpy as np
    return {"np.geterr": np.geterr(), "np.geterrcall": np.geterrcall(), "warning filters": list(warnings.filters),
            "showwarning": id(warnings.showwarning), "search path": list(sys.path), "working directory": os.getcwd(),
            "random state": hash(random.getstate()), "np.random state": hashlib.sha256(repr(np.random.get_state()).encode()).hexdigest()}


def run_session(spec, root, switches):
    import gc
    import warnings
    import numpy as np
    gc.disable()
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    random.seed(spec.get("rseed", 5))
    np.random.seed(spec.get("rseed", 5))
    warnings.resetwarnings()
    warnings.simplefilter(spec["warn"])
    caught = {}
    import _thread

    def hook(message, category, filename, lineno, file=None, line=None):
        caught.setdefault(_thread.get_ident(), []).append((category.__name__, str(message)))
    warnings.showwarning = hook
    threads = spec["threads"]
    multi = len(threads) > 1
    any_inj = any(o.get("inj") for t in threads for o in t)
    s = spec["sched"]
    sched = Sched(random.Random(s["seed"]), s["strategy"], s["p"], s["depth"], s["est"], s["granularity"], (PKG,), switches,
                  max_steps=3000000) if multi or any_inj else None
    objs = []
    for o in spec["objs"]:
        try:
            objs.append(mo.build(o, P))
        except Exception:  # noqa: BLE001 - nothing has happened yet: not a matter of history
            objs.append(None)
    ospec = [json.loads(json.dumps(o)) for o in spec["objs"]]
    osnap = [mo.snap(o, P) for o in objs]
    held, recs, problems = [], [], []
    stats = {}
    res = [{} for _ in threads]
    inside = [0]
    modes = {"warn": spec["warn"]}

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def problem(kind, detail, tid, k):
        if len(problems) < 5:
            problems.append((kind, detail, tid, k))

    def guard(fn, *a):
        """Harness work: no tracing of the package under test while it runs."""
        old = sys.gettrace()
        sys.settrace(None)
        try:
            return fn(*a)
        finally:
            sys.settrace(old)

    def check_objs(tid, k, when, only=None):
        for i in (range(len(objs)) if only is None else only):
            now = mo.snap(objs[i], P)
            if now != osnap[i]:
                problem("operand-changed", f"{when} changed operand object {i}: {osnap[i][:160]} -> {now[:160]}", tid, k)
                osnap[i] = now
                ospec[i] = mo.to_spec(objs[i], P)

    def check_held(tid, k, when):
        for h in held:
            now = mo.canon(h.obj, P)
            if now != h.canon:
                problem("result-changed", f"{when} changed the earlier result of {h.fn} (t{h.tid} #{h.k}): {h.canon[:160]} -> {now[:160]}", tid, k)
                h.canon = now

    def resolve(ref, tid):
        if "o" in ref:
            if objs[ref["o"]] is None:
                raise LookupError
            return objs[ref["o"]], ospec[ref["o"]], [ref["o"]]
        if "r" in ref:
            if ref["r"] not in res[tid]:
                raise LookupError
            x = res[tid][ref["r"]].obj
            return x, mo.to_spec(x, P), []
        if ref["t"] == "refs":
            parts = [resolve(x, tid) for x in ref["v"]]
            return [p[0] for p in parts], {"t": "seq", "v": [p[1] for p in parts]}, sum((p[2] for p in parts), [])
        try:
            return mo.build(ref, P), ref, []
        except Exception as e:  # noqa: BLE001 - compared with a fresh process
            recs.append((tid, -1, "@build", json.dumps(["@build", [ref], {}, modes["warn"]]), f"unbuildable {type(e).__name__}: {e}", [], False, True))
            raise LookupError

    def one(tid, k, op):
        if op.get("act") == "mut":
            i = op["o"]
            if objs[i] is None:
                return
            check_objs(tid, k, "a call", [i])
            mo.apply_mut(objs[i], op["m"])
            if ospec[i]["t"] in ("arr", "list"):
                ospec[i].setdefault("mut", []).append(op["m"])
            osnap[i] = mo.snap(objs[i], P)
            count("operand_modified_by_caller")
            check_held(tid, k, f"modifying operand object {i} in place")
            check_objs(tid, k, f"modifying operand object {i} in place")
            return
        if op.get("act") == "warn":
            modes["warn"] = op["mode"]
            warnings.resetwarnings()
            warnings.simplefilter(op["mode"])
            count("warn_mode_" + op["mode"])
            return
        if op.get("act") == "seed":
            random.seed(op["v"])
            np.random.seed(op["v"])
            count("reseeded")
            return
        if op.get("act") == "draw":
            v = (random.random(), int(np.random.randint(0, 1 << 30)), random.getrandbits(70))
            recs.append((tid, k, "draw", "[]", repr(v), [], False, False))
            return
        if op.get("act"):
            return
        try:
            rs = [resolve(a, tid) for a in op["a"]]
            ks = {n: resolve(a, tid) for n, a in op.get("kw", {}).items()}
        except LookupError:
            return
        except Exception as e:  # noqa: BLE001 - a value that cannot become an operand (broken result)
            problem("unusable-result", f"{op['fn']}: an earlier result cannot be used as operand: {type(e).__name__}: {e}", tid, k)
            return
        args, kw = [r[0] for r in rs], {n: r[0] for n, r in ks.items()}
        used = sorted(set(sum([r[2] for r in rs] + [r[2] for r in ks.values()], [])))
        key = json.dumps([op["fn"], [r[1] for r in rs], {n: r[1] for n, r in ks.items()}, modes["warn"]])
        pre = [mo.snap(x, P) for x in args + list(kw.values())]
        before = proc_state() if not multi else None
        caught[_thread.get_ident()] = []
        inj = None
        t = sched.me() if sched else None
        if op.get("inj") and t is not None:
            inj = t.inject = Injector(op["inj"][0], EXC[op["inj"][1]])
        inside[0] += 1
        exc = None
        out = None
        fn = mo.OPS[op["fn"]]
        if sched:
            sys.settrace(sched.tracer)
        try:
            out = fn(P, *args, **kw)
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == "Abort":
                raise
            exc = e
        finally:
            sys.settrace(None)
        inside[0] -= 1
        if t is not None:
            t.inject = None
        warns = list(caught.get(_thread.get_ident(), ()))
        if exc is not None:
            can = mo.canon_exc(exc)
        else:
            can = mo.canon(out, P)
        fired = inj is not None and inj.fired is not None
        if fired:
            count(f"injected_{op['inj'][1]}")
        if exc is not None and not fired:
            count("warning_as_error" if isinstance(exc, Warning) else "failing_call")
        for x, b in zip(args + list(kw.values()), pre):
            now = mo.snap(x, P)
            if now != b:
                problem("operand-changed", f"{op['fn']} changed its operand: {b[:160]} -> {now[:160]}", tid, k)
        check_objs(tid, k, op["fn"], used)
        if before is not None:
            after = proc_state()
            for n in before:
                if before[n] != after[n] and not (op["fn"] == "cl_fix_random" and "random" in n):
                    problem("process-state", f"{op['fn']} {'failed and ' if exc is not None else ''}left the {n} changed"
                            + (f" (exception at {inj.fired})" if fired else ""), tid, k)
        recs.append((tid, k, op["fn"], key, can, warns, bool(fired), exc is not None))
        if op["fn"] == "cl_fix_random" and not fired:
            from . import random_sim
            if exc is not None:
                problem("random-failed", f"cl_fix_random{tuple(args)} {can[:200]}", tid, k)
            else:
                p = random_sim.check_random(out, args[0], (args[1].S, args[1].I, args[1].F))
                if p:
                    problem("random-range", f"cl_fix_random: {p}", tid, k)
        if exc is None:
            h = Held(tid, k, out, can, op["fn"])
            if not op.get("bad"):
                held.append(h)
            res[tid][k] = h
            if op.get("scrib") and not op.get("bad"):
                what = _scribble(out)
                if what:
                    count("result_scribbled_" + what)
                    new = mo.canon(out, P)
                    if what == "accessors":
                        if new != can:
                            problem("result-changed", f"modifying what .data/.fmt of the result of {op['fn']} returned changed the number", tid, k)
                        h.canon = new
                    else:
                        h.canon = new
                        del res[tid][k]
                    check_held(tid, k, f"modifying the result of {op['fn']} in place")
                    check_objs(tid, k, f"modifying the result of {op['fn']} in place")

    def body(tid):
        def fn():
            sys.settrace(None)
            for k, op in enumerate(threads[tid]):
                one(tid, k, op)
                if sched:
                    sched.point(3)
        return fn

    st0 = proc_state()
    if sched:
        for tid in range(len(threads)):
            sched.spawn(body(tid))
        v = sched.run()
        if v == "stuck":
            return {"stuck": True}
        if v is None:
            for t in sched.threads:
                if t.error is not None:
                    raise t.error
        else:
            problem("no-progress", f"{v}: {sched.deadlock}", 0, 0)
    else:
        body(0)()
    check_held(-1, -1, "later or concurrent calls")
    check_objs(-1, -1, "the session")
    st1 = proc_state()
    for n in st0:
        if st0[n] != st1[n] and "random" not in n and not (n == "warning filters" and any(o.get("act") == "warn" for t in threads for o in t)):
            problem("process-state", f"after the session the {n} is changed", -1, -1)
    return {"recs": recs, "problems": problems, "stats": stats, "switches": sched.switches if sched else [],
            "sig": sched.sig if sched else 0, "steps": sched.step if sched else 0, "preempt": sched.n_preempt if sched else 0}


def execute(spec, switches=None):
    try:
        r = forkrun.call(run_session, spec, None, switches, timeout=240.0)
    except (forkrun.ChildFailed, forkrun.ChildStuck) as e:
        if "wait status 11" in str(e) and spec["sched"]["granularity"] == "opcode":
            return execute(dict(spec, sched=dict(spec["sched"], granularity="line")), switches)
        raise HarnessError(str(e))
    if r.get("stuck"):
        raise HarnessError("a simulated thread blocked outside the simulated primitives")
    return r


# -- the same call alone in a fresh process --------------------------------------------------------------

_memo = {}


def _alone(key):
    import warnings
    fn, a, kw, mode = json.loads(key)
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    warnings.resetwarnings()
    warnings.simplefilter(mode)
    warnings.showwarning = lambda *x, **k: None
    try:
        args, kwargs = [mo.build(v, P) for v in a], {n: mo.build(v, P) for n, v in kw.items()}
    except Exception as e:  # noqa: BLE001 - e.g. a number whose operand was corrupted earlier in the session
        return f"unbuildable {type(e).__name__}: {e}"
    if fn == "@build":
        return "built"
    try:
        out = mo.OPS[fn](P, *args, **kwargs)
    except BaseException as e:  # noqa: BLE001
        return mo.canon_exc(e)
    return mo.canon(out, P)


def alone(key):
    v = _memo.get(key)
    if v is None:
        if len(_memo) > 60000:
            _memo.clear()
        try:
            v = forkrun.call(_alone, key, timeout=60.0)
        except (forkrun.ChildFailed, forkrun.ChildStuck) as e:
            raise HarnessError(str(e))
        _memo[key] = v
    return v


# -- judging one session -------------------------------------------------------------------------------------


def is_saturation_warning(w):
    cat, msg = w
    if cat in ("RuntimeWarning", "DeprecationWarning", "FutureWarning", "VisibleDeprecationWarning", "SyntaxWarning", "ImportWarning",
               "ResourceWarning", "PendingDeprecationWarning"):
        return False
    return "precision" not in msg


def judge(prop, spec, r):
    """First deviation of the session from the property, or None: (kind, detail, tid, k)."""
    mine = {"C08": ("result-changed", "no-progress", "unusable-result"), "C09": ("operand-changed", "result-changed"),
            "C10": ("process-state", "operand-changed"), "C12": ()}[prop]
    for p in r["problems"]:
        if p[0] in mine:
            return tuple(p)
    if prop in ("C08", "C09", "C10"):
        for tid, k, fn, key, can, warns, fired, failed in r["recs"]:
            if fired and failed:
                continue
            want = alone(key)
            if can != want and not want.startswith("unbuildable"):
                return ("differs-from-fresh", f"{fn} returned {can[:200]}, alone in a fresh process {want[:200]}", tid, k)
        return None
    for tid, k, fn, key, can, warns, fired, failed in r["recs"]:
        name, a, kw, mode = json.loads(key)
        if name == "@build":
            continue
        exp = mo.expected_warning(name, a, kw)
        sats = [w for w in warns if is_saturation_warning(w)]
        if mode == "error":
            alone_quiet = alone(json.dumps([name, a, kw, "ignore"]))
            if alone_quiet.startswith("raises "):
                continue
            if can.startswith("raises "):
                if exp is False and ("recision" not in can):
                    return ("spurious-warning", f"{fn}: every value fits or the mode asks for no warning, but with warnings as errors it {can[:160]}", tid, k)
            else:
                if exp is True:
                    return ("missing-warning", f"{fn}: a value is clipped or wrapped, but no warning is raised as error", tid, k)
                if can != alone_quiet:
                    return ("value-depends-on-warnings", f"{fn} returned {can[:160]}, with warnings ignored {alone_quiet[:160]}", tid, k)
            continue
        if failed:
            continue
        if mode == "always":
            if exp is True and not sats:
                return ("missing-warning", f"{fn}: a value is clipped or wrapped to fit, but no warning was issued", tid, k)
            if exp is False and sats:
                return ("spurious-warning", f"{fn}: every value fits or the mode asks for no warning, but it warned: {sats[0][1][:120]}", tid, k)
        other = alone(json.dumps([name, a, kw, "ignore" if mode == "always" else "always"]))
        if can != other:
            return ("value-depends-on-warnings", f"{fn} returned {can[:160]}, with warnings {'ignored' if mode == 'always' else 'on'} {other[:160]}", tid, k)
    return None


def strip(spec, prop):
    """The session without what the property is about; a deviation that stays belongs to another property."""
    s = json.loads(json.dumps(spec))
    for t in s["threads"]:
        for o in t:
            o.pop("scrib", None)
            o.pop("inj", None)
    if prop == "C09":
        s["threads"] = [[o for o in t if o.get("act") != "mut"] for t in s["threads"]]
    return s


def verdict(prop, spec, switches=None):
    r = execute(spec, switches)
    d = judge(prop, spec, r)
    if d is not None and prop in ("C09", "C10") and d[0] == "differs-from-fresh":
        # Caused by the scribbles or faults of this property, or present without them?
        if prop == "C10":
            s2 = strip(spec, prop)
            bad = set()
            for tid, k, fn, key, can, warns, fired, failed in r["recs"]:
                if failed:
                    bad.add((tid, k))
            for tid, t in enumerate(s2["threads"]):
                for k, o in enumerate(t):
                    if (tid, k) in bad:
                        o.clear()
                        o.update({"act": "nop"})
            r2 = execute(s2)
        else:
            r2 = execute(strip(spec, prop), None)
        if judge("C08", spec, r2) is not None:
            d = None
    return d, r


# ---------------------------------------------------------------------------------------------------
# Session generation
# ---------------------------------------------------------------------------------------------------


def gen_sched(rng):
    return {"seed": rng.getrandbits(48), "strategy": rng.choice(["random", "random", "pct"]), "p": rng.choice([0.01, 0.05, 0.2, 0.6]),
            "depth": rng.choice([1, 2, 3, 5]), "est": rng.choice([200, 800, 3000]),
            "granularity": "opcode" if rng.random() < 0.2 else "line"}


def generate(seed, prop, i):
    r = rng_for(seed, prop, "session", i)
    opts = {}
    if prop == "C12":
        opts = {"table": mo.WARN_CALLS, "err": 0.01, "prefer": ("sat",), "sats": r.choice([[1, 3], [1, 3, 3, 0, 2]])}
    elif prop == "C10":
        opts = {"err": r.choice([0.0, 0.1, 0.4])}
    elif prop == "C09":
        opts = {"err": 0.04}
    if r.random() < 0.5:
        # Swarm: only some kinds of calls in this session.
        table = opts.get("table", mo.CALLS)
        opts["table"] = [x for x in table if r.random() < 0.5] or table
    g = mo.Gen(r, opts)
    n_threads = {"C08": [1, 1, 2, 2, 3, 4], "C09": [1, 1, 1, 1, 2], "C10": [1, 1, 1, 2], "C12": [1, 1, 2, 3]}[prop]
    n = r.choice(n_threads)
    long = r.random() < 0.06
    g.n_threads = n
    pool = [g.call() for _ in range(r.choice([3, 6, 12, 20]) if not long else 60)]
    threads = []
    for t in range(n):
        ops = []
        m = r.randint(2, 14 if n > 1 else 24) if not long else r.choice([150, 300]) // n
        for k in range(m):
            op = r.choice(pool) if r.random() < 0.75 else g.call()
            op = json.loads(json.dumps(op))
            # Chain: the result of an earlier call of this thread, used with the format it was made for.
            cand = [j for j, o in enumerate(ops) if o.get("rf") and o["fn"].startswith("cl_fix_")]
            if cand and r.random() < 0.25 and op["fn"].startswith("cl_fix_") and len(op["a"]) > 1 and isinstance(op["a"][0], dict) \
                    and op["fn"] in ("cl_fix_resize", "cl_fix_neg", "cl_fix_abs", "cl_fix_to_integer", "cl_fix_to_real", "cl_fix_add", "cl_fix_sub",
                                     "cl_fix_mult", "cl_fix_in_range"):
                j = r.choice(cand)
                op["a"][0], op["a"][1] = {"r": j}, mo.vfmt(ops[j]["rf"])
                op.pop("rf", None) if op.get("rf") is None else None
            if prop == "C09":
                if r.random() < 0.5:
                    op["scrib"] = 1
            if prop == "C10" and r.random() < 0.35:
                op["inj"] = [r.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 22, 30, 40, 60, 90]), r.choice(list(EXC))]
            ops.append(op)
            if prop in ("C08", "C09") and n == 1 and r.random() < 0.12 and g.objs:
                c = [x for x, o in enumerate(g.objs) if o["t"] in ("arr", "list") and o.get("lay") != "ro" and o.get("dt") != "?"]
                if c:
                    x = r.choice(c)
                    v = g.objs[x]["v"]
                    while isinstance(v, list) and v and isinstance(v[0], list):
                        v = v[0]
                    ops.append({"act": "mut", "o": x, "m": [r.randrange(8), r.choice(v)]})
            if prop in ("C10", "C12") and n == 1 and r.random() < 0.12:
                ops.append({"act": "warn", "mode": r.choice(["error", "always", "ignore"])})
        threads.append(ops)
    warn = r.choice(["always", "always", "always", "error", "ignore"]) if prop == "C12" else r.choice(["always", "ignore"])
    sched = gen_sched(r)
    if any(o.get("inj") for t in threads for o in t):
        # CPython 3.12 crashes when a trace function raises from an opcode event of some generator expressions.
        sched["granularity"] = "line"
    return {"objs": g.objs, "threads": threads, "warn": warn, "sched": sched}


# ---------------------------------------------------------------------------------------------------
# Check body
# ---------------------------------------------------------------------------------------------------


def _job(args):
    seed, prop, lo, hi = args
    out = {"bad": [], "stats": {}, "sigs": set(), "steps": 0, "preempt": 0, "calls": 0, "n": 0, "fns": {}, "threads": {}, "dig": [], "warned": 0,
           "decided": 0, "failed": 0}
    for i in range(lo, hi):
        spec = generate(seed, prop, i)
        try:
            d, r = verdict(prop, spec)
        except HarnessError as e:
            raise HarnessError(f"session {i}: {e}")
        out["n"] += 1
        if d is not None:
            out["bad"].append((i, d[:2]))
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        out["calls"] += len(r["recs"])
        for rec in r["recs"]:
            out["fns"][rec[2]] = out["fns"].get(rec[2], 0) + 1
            out["failed"] += rec[7]
            out["warned"] += any(is_saturation_warning(w) for w in rec[5])
        for k in ("steps", "preempt"):
            out[k] += r[k]
        n = str(len(spec["threads"]))
        out["threads"][n] = out["threads"].get(n, 0) + 1
        h = core.digest([(x[0], x[1], x[2], x[4]) for x in r["recs"]])
        out["sigs"].add((r["sig"], h))
        out["dig"].append((i, r["sig"], h, d and d[0]))
    return out


def minimise(args):
    prop, spec, want, i = args
    kind = want[0]

    def attempt(s, sw):
        try:
            d, r = verdict(prop, s, sw)
        except HarnessError:
            return None
        return (d, r) if d is not None and d[0] == kind else None
    best = attempt(spec, None)
    if best is None:
        return {"spec": spec, "switches": None, "note": "not reproducible"}, want
    switches = best[1]["switches"]
    flat = [(t, k) for t, ops in enumerate(spec["threads"]) for k in range(len(ops))]

    def build(keep):
        keep = set(keep)
        s = json.loads(json.dumps(spec))
        s["threads"] = []
        for t, ops in enumerate(spec["threads"]):
            # Positions are kept for result references: dropped calls become no-operations.
            s["threads"].append([o if (t, k) in keep else {"act": "skip"} for k, o in enumerate(json.loads(json.dumps(ops)))])
        return s

    keep = ddmin(flat, lambda ks: attempt(build(ks), switches) is not None or attempt(build(ks), None) is not None, 150)
    s = build(keep)
    b = attempt(s, switches) or attempt(s, None)
    if b is not None:
        spec, best = s, b
        switches = b[1]["switches"]
    if any(o.get("inj") for t in spec["threads"] for o in t):
        for t in spec["threads"]:
            for o in t:
                if "inj" in o:
                    x = o.pop("inj")
                    b = attempt(spec, switches)
                    if b is None:
                        o["inj"] = x
                    else:
                        best = b
    if switches and attempt(spec, []) is not None:
        switches = []
    elif switches and len(switches) > 1:
        switches = ddmin(switches, lambda sw: attempt(spec, sw) is not None, 120)
    best = attempt(spec, switches) or best
    while spec["threads"] and len(spec["threads"]) > 1 and all(o.get("act") == "skip" for o in spec["threads"][-1]):
        s = json.loads(json.dumps(spec))
        s["threads"].pop()
        b = attempt(s, switches)
        if b is None:
            break
        spec, best = s, b
    return {"spec": spec, "switches": switches}, best[0][:2]


def _minimise_marathon(a):
    from . import marathon
    return marathon.minimise(*a)


def run(check, prop, n, n_long=0):
    from . import marathon
    chunk = 10
    jobs = [(check.seed, prop, lo, min(n, lo + chunk)) for lo in range(0, n, chunk)]
    tot = {"stats": {}, "fns": {}, "threads": {}, "n": 0, "steps": 0, "preempt": 0, "calls": 0, "warned": 0, "failed": 0}
    sigs, bad, dig = set(), [], []
    import numpy  # noqa: F401 - once, before forking
    with mp.get_context("fork").Pool(check.workers, init_worker) as pool:
        for r in pool.imap(_job, jobs):
            for k in ("n", "steps", "preempt", "calls", "warned", "failed"):
                tot[k] += r[k]
            for g in ("stats", "fns", "threads"):
                for k, v in r[g].items():
                    tot[g][k] = tot[g].get(k, 0) + v
            sigs |= r["sigs"]
            dig += r["dig"]
            bad += r["bad"]
            if len(bad) > 20:
                break
        long, lbad = {"histories": 0, "steps": 0, "distinct_calls": 0, "failed": 0, "warned": 0}, []
        for i, p, steps, calls, failed, warned, what in pool.imap(marathon.job, [(check.seed, prop, i) for i in range(n_long)]):
            long["histories"] += 1
            long["steps"] += steps
            long["distinct_calls"] += calls
            long["failed"] += failed
            long["warned"] += warned
            dig.append((i, p, core.digest(what)))
            if p is not None:
                lbad.append((i, p))
                if len(lbad) > 5:
                    break
        seen = {}
        for i, p in lbad:
            seen.setdefault(p[0], (i, p))
        for i, p in list(seen.values())[:2]:
            obj, b2 = pool.apply(_minimise_marathon, ((check.seed, prop, i, p[0]),))
            check.violation(b2[0], b2[1], obj)
        seen = {}
        for i, b in bad:
            seen.setdefault(b[0], (i, b))
        for i, b in list(seen.values())[:3]:
            obj, b2 = pool.apply(minimise, ((prop, generate(check.seed, prop, i), b, i),))
            obj["origin"] = {"session": i}
            check.violation(b2[0], b2[1], obj)
    ex = generate(check.seed, prop, 0)
    check.cov = {
        "evaluations": tot["n"] + long["histories"], "distinct_nontrivial": len(sigs) + long["histories"],
        "rule": "one run = one seeded session (threads x calls, shared operands, faults) under one seeded schedule, or one long single-thread "
                "history; distinct = different (thread-switch sequence, sequence of calls and results)", "long_histories": long,
        "samples": [{"first_calls": ex["threads"][0][:3], "warn": ex["warn"], "sched": ex["sched"]}],
        "calls": tot["calls"], "calls_failing": tot["failed"], "calls_that_warned": tot["warned"], "functions_called": tot["fns"],
        "scheduling_steps": tot["steps"], "preemptions": tot["preempt"], "sessions_by_threads": tot["threads"], "faults_injected": tot["stats"],
        "seeds": tot["n"], "seeds_per_hour": int(tot["n"] / max(check.elapsed(), 1e-9) * 3600), "simulated_seconds": 0,
        "log_digest": core.digest(dig),
        "real_components": ["bittrue/models/python/en_cl_fix_pkg", "numpy"], "stub_components": ["threading primitives (simulated)"],
    }
    check.assumptions = ["threads switch at Python lines or byte codes of the package (numpy calls are atomic, as under the GIL)",
                         "a fresh process is a fork of one that has imported the package and called nothing"]


def replay(check, obj):
    def go():
        init_worker()
        if obj.get("part") == "marathon":
            from . import marathon
            d, _ = marathon.verdict(obj["spec"], check.prop)
            return d and d[:2]
        d, _ = verdict(check.prop, obj["spec"], obj["switches"])
        return d and d[:2]
    return forkrun.call(go, timeout=600.0)
