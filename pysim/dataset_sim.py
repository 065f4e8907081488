"""C05: co-simulation datasets under crashes, file-operation failures and histories of earlier generations.

The real co-simulation scripts run through the real runner in a scratch copy of the tree. pysim/fsshim.c is
the file-system seam: it numbers every file operation below the scratch root, and the seeded history
decides at which of them the generation is killed, failed, cut short, interrupted, ... and in which order
directory listings come back. What is on disk afterwards is judged (a) against the dataset of an undisturbed
generation in an empty tree and (b) with a model of what the testbenches read.
"""
import ctypes
import enum
import json
import multiprocessing as mp
import os
import pickle
import re
import runpy
import shutil
import signal
import subprocess
import sys
import types

from simlib import core
from simlib.core import ddmin, HarnessError, REPO, rng_for, sub_seed

MODES = ["none", "kill-before", "kill-after", "torn-write", "error", "disk-full", "short-write", "eintr", "sigint",
         "raced", "late-error"]
M = {n: i for i, n in enumerate(MODES)}
OPS = ["open-read", "create", "write", "close", "unlink", "rmdir", "mkdir", "rename", "list", "truncate", "sync"]
FAULTS = [("kill-before", 5), ("kill-after", 3), ("torn-write", 4), ("error", 7), ("disk-full", 3), ("short-write", 2),
          ("eintr", 1), ("sigint", 2), ("raced", 1), ("late-error", 3)]
N_VARIANTS = 3
MAX_FILES = 110

# What each testbench reads: (index files of formats, index files of integers, files per test).
TB = {
    "cl_fix_abs": (["a_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_add": (["a_fmt", "b_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_addsub": (["a_fmt", "b_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_compare": (["a_fmt", "b_fmt"], [], ["eq", "neq", "less", "greater", "leq", "geq"]),
    "cl_fix_from_real": (["a_fmt", "r_fmt"], ["sat"], ["output"]),
    "cl_fix_mult": (["a_fmt", "b_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_neg": (["a_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_resize": (["a_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
    "cl_fix_round": (["a_fmt", "r_fmt"], ["rnd"], ["output"]),
    "cl_fix_saturate": (["a_fmt", "r_fmt"], ["sat"], ["output"]),
    "cl_fix_shift": (["a_fmt", "r_fmt"], ["shift", "rnd", "sat"], ["output"]),
    "cl_fix_sub": (["a_fmt", "b_fmt", "r_fmt"], ["rnd", "sat"], ["output"]),
}
EN_TB = "en_tb_fileio"
EN_TB_FILES = [f"ascii_{m}_data_{s}" for m in ("bin", "dec", "hex") for s in ("signed", "unsigned")]

_lib = None
_root = None      # scratch
_whole = set()    # scripts which do not work on a part of their parameters
_refs = None      # (script, variant) -> {"files", "events", "n"}


# -- seam ------------------------------------------------------------------------------------------
def build_shim(dirname):
    so = os.path.join(dirname, "fsshim.so")
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fsshim.c")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, src, "-ldl"], check=True)
    return so


def reexec_with_shim(prop="C05"):
    """Restarts the check under the shim; returns the scratch directory of the restarted check."""
    so = os.environ.get("ENCLFIX_SHIM")
    if so:
        return os.path.dirname(so)
    d = core.scratch(f"enclfix-{prop}-")
    so = build_shim(d)
    env = dict(os.environ, ENCLFIX_SHIM=so, LD_PRELOAD=so)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["ENCLFIX_SHIM"])
        _lib.fs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_int64, ctypes.c_uint64]
        _lib.fs_get.restype = ctypes.c_int64
        _lib.fs_str.restype = ctypes.c_char_p
        _lib.fs_fresh()
    return _lib


# -- scripts ---------------------------------------------------------------------------------------
def scripts():
    out = sorted(d for d in os.listdir(os.path.join(REPO, "bittrue/cosim"))
                 if d in TB and os.path.exists(os.path.join(REPO, "bittrue/cosim", d, "cosim.py")))
    if os.path.exists(os.path.join(REPO, "lib/en_tb/bittrue/cosim", EN_TB, "cosim.py")):
        out.append(EN_TB)
    if len(out) < 13:
        raise HarnessError(f"co-simulation scripts missing: {out}")
    return out


def script_dir(tree, script):
    return os.path.join(tree, "lib/en_tb/bittrue/cosim" if script == EN_TB else "bittrue/cosim", script)


def data_dir(tree, script):
    return os.path.join(script_dir(tree, script), "data")


def make_tree(tree, script):
    """A fresh copy of the sources which this script's generation needs (no data directory)."""
    ign = shutil.ignore_patterns("data", "__pycache__", "*.pyc", "tests", "matlab")
    top = "lib/en_tb" if script == EN_TB else ""
    os.makedirs(os.path.join(tree, top), exist_ok=True)
    for sub in ("bittrue", "sim"):
        src = os.path.join(REPO, top, sub)
        dst = os.path.join(tree, top, sub)
        if sub == "bittrue" and not top:
            os.makedirs(os.path.join(dst, "cosim"))
            shutil.copytree(os.path.join(src, "models"), os.path.join(dst, "models"), ignore=ign)
            for e in os.listdir(os.path.join(src, "cosim")):
                p = os.path.join(src, "cosim", e)
                if os.path.isfile(p):
                    shutil.copy(p, os.path.join(dst, "cosim", e))
                elif e == script or e not in TB and e != "__pycache__":
                    shutil.copytree(p, os.path.join(dst, "cosim", e), ignore=ign)
        else:
            shutil.copytree(src, dst, ignore=ign)
    for d in ("tmp", "cwd"):
        os.makedirs(os.path.join(tree, d))


def snapshot(path):
    """Everything below path: relative name -> bytes (None for directories, target for links)."""
    out = {}
    if os.path.islink(path) or os.path.isfile(path):
        return {"": "not a directory"}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(base, d)
            out[os.path.relpath(p, path)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = h.read()
    return out


# -- what the testbenches read ---------------------------------------------------------------------
FMT = re.compile(rb"\s*\(\s*([01])\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)\s*$")
INT = re.compile(rb"\s*-?\d+\s*$")


def rows(data):
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    return [x.rstrip(b"\r") for x in lines if not x.startswith(b"#")]


def tb_reads(script, files, n_tests=None):
    """What the testbench(es) of this script would read, or None if reading fails somewhere."""
    if script == EN_TB:
        out = []
        for i in range(n_tests):
            cfg = files.get(f"test{i}_config.txt")
            if cfg is None:
                return None
            cfg = rows(cfg)
            if len(cfg) < 2 or not all(INT.match(x) for x in cfg):
                return None
            width, cols = int(cfg[0]), int(cfg[1])
            one = [width, cols]
            counts = {}
            for name in EN_TB_FILES:
                d = files.get(f"test{i}_{name}.txt")
                if d is None:
                    return None
                rr = [r.split() for r in rows(d)]
                if not rr or any(len(r) != len(rr[0]) for r in rr) or not rr[0]:
                    return None
                base = {"bin": 2, "dec": 10, "hex": 16}[name.split("_")[1]]
                try:
                    v = [int(x, base) for r in rr for x in r]
                except ValueError:
                    return None
                signed = name.endswith("_signed")
                v = [x - 2**width if signed and base != 10 and x >= 2**(width - 1) else x for x in v]
                counts.setdefault(signed, []).append((len(rr[0]), v))
            for lst in counts.values():
                # The testbench compares the three representations with each other.
                if any(x != lst[0] for x in lst):
                    return None
            one.append(counts)
            out.append(one)
        return out

    fmts, ints, per_test = TB[script]
    idx = {}
    for name in fmts + ints:
        d = files.get(name + ".txt")
        if d is None:
            return None
        rr = rows(d)
        if not all((FMT if name in fmts else INT).match(x) for x in rr):
            return None
        idx[name] = [tuple(map(int, FMT.match(x).groups())) if name in fmts else int(x) for x in rr]
    n = len(idx["a_fmt"])
    if n == 0 or any(len(v) < n for v in idx.values()):
        return None
    out = [tuple(tuple(idx[k][:n]) for k in fmts + ints)]
    for i in range(n):
        w = sum(idx["a_fmt"][i])
        if "b_fmt" in idx:
            w += sum(idx["b_fmt"][i])
        need = 2**w * (2 if script == "cl_fix_addsub" else 1)
        one = []
        for name in per_test:
            d = files.get(f"test{i}_{name}.txt")
            if d is None:
                return None
            rr = rows(d)
            if len(rr) < need or not all(INT.match(x) for x in rr):
                return None
            one.append([int(x) for x in rr[:need]])
        out.append(one)
    return out


# -- one generation --------------------------------------------------------------------------------
def patch_ranges(script, variant, module_globals):
    """Replaces the parameter ranges of a script by a seeded part of them (variant None: full size)."""
    if variant is None or script in _whole:
        return
    import numpy as np
    if script == EN_TB:
        if variant != 0 and "DATA_WIDTHS" in module_globals:
            rng = rng_for("entb", variant)
            module_globals["DATA_WIDTHS"][:] = [rng.choice([8, 17, 32, 33]), rng.choice([53, 64, 65]), rng.choice([120, 90])]
        return
    real = np.arange
    calls = _calls
    calls[0] = 0

    def arange(*a, **k):
        r = real(*a, **k)
        f = sys._getframe(1)
        if f.f_code.co_filename.endswith("cosim.py") and 3 <= len(r) <= 40 and r.dtype.kind == "i":
            i = calls[0]
            calls[0] += 1
            rng = rng_for("range", script, variant, i)
            keep = sorted(rng.sample(range(len(r)), rng.choice([1, 2, 2])))
            if int(variant) % 2 == 0 and len(r) - 1 - 1 not in keep:
                keep = sorted(set(keep[:1] + [len(r) - 2]))
            return r[keep]
        return r

    np.arange = arange

    def int_range(*a):
        r = range(*a)
        if r.start != 0 and 3 <= len(r) <= 40:
            # Not a loop over indices.
            i = calls[0]
            calls[0] += 1
            rng = rng_for("range", script, variant, i)
            return sorted(rng.sample(list(r), rng.choice([1, 2, 2])))
        return r

    module_globals["range"] = int_range

    def members(cls):
        r = list(real_iter(cls))
        f = sys._getframe(1)
        if f.f_code.co_filename.endswith("cosim.py") and len(r) >= 3:
            rng = rng_for("enum", script, variant, cls.__name__)
            r = sorted(rng.sample(r, 2), key=r.index)
        return iter(r)

    real_iter = _real_enum_iter or enum.EnumType.__iter__
    enum.EnumType.__iter__ = members


def patch_code(code, script, variant):
    """Literal lists of parameters (three or more integers) are cut down in the same way."""
    if variant is None or script in _whole or script == EN_TB:
        return code
    consts = []
    for i, k in enumerate(code.co_consts):
        if isinstance(k, types.CodeType):
            k = patch_code(k, script, variant)
        elif isinstance(k, tuple) and len(k) >= 3 and all(type(x) is int for x in k):
            rng = rng_for("const", script, variant, code.co_name, i)
            keep = sorted(rng.sample(range(len(k)), 2))
            k = tuple(k[j] for j in keep)
        consts.append(k)
    return code.replace(co_consts=tuple(consts))


def patch_runner(runner, script, variant):
    fn = runner.module_dict["run"]
    patch_ranges(script, variant, getattr(fn, "__globals__", {}))
    if isinstance(fn, types.FunctionType):
        fn.__code__ = patch_code(fn.__code__, script, variant)


def _child(tree, script, gen, pipe):
    """Runs in the forked child: one generation, possibly with retries in the same process."""
    result = {"ok": False, "exc": None, "attempts": 0}
    l = lib()
    fault = gen.get("fault") or {}
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.dont_write_bytecode = True
        os.environ["TMPDIR"] = os.path.join(tree, "tmp")
        import tempfile
        tempfile.tempdir = None
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.alarm(240)
        sd = script_dir(tree, script)
        os.chdir({"sim": os.path.join(tree, "lib/en_tb/sim" if script == EN_TB else "sim"), "script": sd,
                  "other": os.path.join(tree, "cwd")}[gen["cwd"]])
        seed = sub_seed("order", gen["order"]) & (2**62 - 1)

        def arm():
            l.fs_arm(tree.encode(), M[fault.get("mode", "none")], fault.get("at", 0), fault.get("err", 0),
                     fault.get("arg", 0), seed)

        if gen["mode"] == "script":
            scope = {"__name__": "__main__", "__file__": os.path.join(sd, "cosim.py"), "__builtins__": __builtins__}
            patch_ranges(script, gen["variant"], scope)
            sys.argv = [os.path.join(sd, "cosim.py")]
            sys.path.insert(0, sd)
            with open(sys.argv[0]) as f:
                code = patch_code(compile(f.read(), sys.argv[0], "exec"), script, gen["variant"])
            arm()
            exec(code, scope)
            result["ok"] = True
        else:
            name = os.path.join(tree, "lib/en_tb/sim" if script == EN_TB else "sim", "cosim_runner.py")
            ns = runpy.run_path(name)
            cls = ns["CosimRunner"] if script == EN_TB else ns["cosim_runner"]
            path = os.path.join(sd, "") if gen["cwd"] == "sim" else sd
            runner = cls(False, path)
            patch_runner(runner, script, gen["variant"])
            arm()
            for k in range(1 + gen.get("retries", 0)):
                result["attempts"] += 1
                result["exc"] = None
                _calls[0] = 0
                try:
                    result["ok"] = bool(runner.run())
                except BaseException as e:  # noqa: BLE001 - reported
                    result["exc"] = f"{type(e).__name__}: {e}"
                if result["ok"] and not gen.get("again"):
                    break
            if result["ok"] and gen.get("again"):
                # A second runner in the same process must behave like the first.
                runner2 = cls(False, path)
                import numpy as np
                np.arange = _real_arange
                patch_runner(runner2, script, gen["variant"])
                result["ok"] = bool(runner2.run())
    except BaseException as e:  # noqa: BLE001 - reported
        result["exc"] = f"{type(e).__name__}: {e}"
        result["ok"] = False
    finally:
        l.fs_disarm()
        os.write(pipe, pickle.dumps(result))
        os._exit(0)


_calls = [0]
_real_arange = None
_real_enum_iter = None


def generation(tree, script, gen):
    """One generation in a process of its own. Returns outcome: ok | failed | killed, and what happened."""
    l = lib()
    l.fs_disarm()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(tree, script, gen, w)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    out = {"events": l.fs_get(0), "fired": l.fs_get(1), "fired_at": l.fs_get(2), "escapes": l.fs_get(3),
           "errors": l.fs_get(4), "written": l.fs_get(5), "counts": [l.fs_get(100 + i) for i in range(len(OPS))],
           "where": os.path.basename(l.fs_str(0).decode(errors="replace")), "exc": None}
    if out["escapes"]:
        out["escape"] = l.fs_str(1).decode(errors="replace")
    l.fs_disarm()
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137 and not buf:
        out["outcome"] = "killed"
    elif buf:
        res = pickle.loads(buf)
        out["outcome"] = "ok" if res["ok"] else "failed"
        out["exc"] = res["exc"] and res["exc"].replace(tree, "")
        out["attempts"] = res["attempts"]
    else:
        raise HarnessError(f"generation of {script} died unexpectedly: wait status {status}")
    if out["escapes"]:
        raise HarnessError(f"{script} tried to modify {out['escape']}, outside of the simulated tree")
    return out


def plain(variant, **k):
    g = {"mode": "runner", "variant": variant, "fault": None, "cwd": "sim", "order": 0}
    g.update(k)
    return g


def n_tests(script, variant):
    return 6 if script == EN_TB else None


# -- references ------------------------------------------------------------------------------------
def _ref_job(args):
    script, variant, tag = args
    lib()
    tree = os.path.join(_root, f"ref-{script}-{variant}-{tag}-{os.getpid()}")
    make_tree(tree, script)
    try:
        o = generation(tree, script, plain(variant, cwd="sim" if tag == 0 else "script", order=tag,
                                           mode="runner" if tag == 0 else "script" if script != EN_TB else "runner"))
        files = snapshot(data_dir(tree, script))
    finally:
        _rm(tree)
    return script, variant, tag, o, files


def _rm(tree):
    if _root and tree.startswith(_root + "/"):
        shutil.rmtree(tree, ignore_errors=True)


def _init():
    # Every worker has its own event state.
    global _lib
    _lib = None
    lib()
    import numpy as np
    global _real_arange, _real_enum_iter
    _real_arange = np.arange
    _real_enum_iter = enum.EnumType.__iter__


# -- histories -------------------------------------------------------------------------------------
def gen_history(seed, i, names, refs):
    rng = rng_for("C05", seed, i)
    script = names[i % len(names)] if rng.random() < 0.7 else rng.choice(names)
    variants = sorted({v for s, v in refs if s == script})
    spec = {"script": script, "junk": [], "gens": []}
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 4)):
            spec["junk"].append(rng.choice(["test0_output.txt", "test7_output.txt", "test99999_output.txt", "a_fmt.txt",
                                            "sat.txt", "rnd.txt", "sub/", "sub/x.txt", ".hidden", "notes.md", "empty.txt",
                                            "test0_config.txt", "r_fmt.txt", "sub/deep/a_fmt.txt", "test1_eq.txt"]))
    n = rng.choice([1, 1, 2, 2, 3, 4])
    prev = 0
    for k in range(n):
        v = rng.choice(variants)
        g = plain(v, cwd=rng.choice(["sim", "script", "other"]), order=rng.randrange(1 << 30),
                  mode="script" if rng.random() < 0.2 and (script != EN_TB or v == 0) else "runner")
        e = refs[script, v]["events"] + prev
        if k < n - 1 and rng.random() < 0.35:
            prev = len(refs[script, v]["files"]) + 3
        else:
            mode = rng.choices([f for f, _ in FAULTS], [w for _, w in FAULTS])[0]
            x = rng.random()
            nidx = 5 * (5 if script != EN_TB else 3)
            if x < 0.5:
                at = rng.randrange(max(e, 1))
            elif x < 0.65:
                at = rng.randrange(max(prev, 4))
            elif x < 0.9:
                at = max(0, e - rng.randrange(1, nidx + 6))
            else:
                at = prev + rng.randrange(12)
            g["fault"] = {"mode": mode, "at": at, "err": rng.randrange(4), "arg": rng.randrange(1, 1 << 20)}
            if mode not in ("kill-before", "kill-after", "torn-write") and g["mode"] == "runner" and rng.random() < 0.3:
                g["retries"] = rng.choice([1, 2])
        if g["mode"] == "runner" and not g["fault"] and rng.random() < 0.1:
            g["again"] = True
        spec["gens"].append(g)
        prev = len(refs[script, v]["files"]) + 3
    v = rng.choice(variants)
    spec["last"] = plain(v, cwd=rng.choice(["sim", "script", "other"]), order=rng.randrange(1 << 30),
                         mode="script" if rng.random() < 0.2 and (script != EN_TB or v == 0) else "runner")
    return spec


def diff(got, want):
    a = sorted(set(want) - set(got))
    b = sorted(set(got) - set(want))
    c = sorted(k for k in set(got) & set(want) if got[k] != want[k])
    p = []
    for name, x in (("missing", a), ("left over", b), ("different", c)):
        if x:
            p.append(f"{len(x)} {name} ({', '.join(x[:3])}{', ...' if len(x) > 3 else ''})")
    return "; ".join(p) or "identical"


def run_history(spec, refs, tag):
    script = spec["script"]
    tree = os.path.join(_root, f"h-{tag}")
    make_tree(tree, script)
    dd = data_dir(tree, script)
    res = {"bad": None, "sig": [], "steps": []}
    try:
        for j in spec["junk"]:
            p = os.path.join(dd, j)
            os.makedirs(p if j.endswith("/") else os.path.dirname(p), exist_ok=True)
            if not j.endswith("/") and not os.path.isdir(p):
                with open(p, "w") as f:
                    f.write("# old\n(0, 1, 0)\n" if "fmt" in j else "" if "empty" in j else "# old\n1\n0\n")
        before = snapshot(dd)
        gens = spec["gens"] + ([spec["last"]] if spec.get("last") else [])
        for k, g in enumerate(gens):
            o = generation(tree, script, g)
            after = snapshot(dd)
            ref = refs[script, g["variant"]]["files"]
            what = f"{script}, generation {k}" + (f" with {g['fault']['mode']} at file operation {o['fired_at']} "
                                                  f"({OPS[o['fired'] - 1]} {o['where']})" if o["fired"] else " without fault")
            if o["outcome"] == "ok":
                if after != ref:
                    res["bad"] = ("success-not-exact", f"{what} reported success, but its data directory is not the "
                                                       f"dataset: {diff(after, ref)}")
            elif not g.get("fault") or not o["fired"]:
                left = {x: 1 for x in spec["junk"]}
                if not left:
                    res["bad"] = ("no-recovery", f"{what} failed on what earlier generations left behind: {o['exc']}")
            cls = "exact" if after == ref else "empty" if not after else "other"
            if res["bad"] is None and cls == "other":
                nt = n_tests(script, g["variant"])
                got = tb_reads(script, after, nt)
                if got is not None:
                    cls = "readable"
                    old = tb_reads(script, before, nt)
                    new = tb_reads(script, ref, nt)
                    if got != new and (old is None or got != old):
                        res["bad"] = ("usable-incomplete", f"{what} ended ({o['outcome']}) with a data directory which the "
                                      f"testbenches read through to the end although it is neither the new nor the old "
                                      f"dataset: {diff(after, ref)}")
            res["steps"].append((k, o["outcome"], o["events"], o["fired"], o["fired_at"], o["errors"], o["written"], cls))
            kind = re.sub(r"\d+", "#", o["where"])
            bucket = 0 if not o["events"] else int(12 * o["fired_at"] / max(1, refs[script, g["variant"]]["events"]))
            res["sig"].append((script, g["fault"]["mode"] if g.get("fault") else None, o["fired"], kind, bucket,
                               o["outcome"], cls, bool(before)))
            if res["bad"]:
                break
            before = after
    finally:
        _rm(tree)
    return res


def _job(args):
    seed, names, lo, hi = args
    out = {"bad": [], "n": 0, "gens": 0, "sigs": set(), "fired": {}, "ops": {}, "outcomes": {}, "events": 0, "written": 0,
           "dig": [], "states": {}}
    for i in range(lo, hi):
        spec = gen_history(seed, i, names, _refs)
        r = run_history(spec, _refs, f"{os.getpid()}-{i}")
        out["n"] += 1
        out["dig"].append((i, r["bad"] and r["bad"][0], r["steps"]))
        for s, st in zip(r["sig"], r["steps"]):
            out["gens"] += 1
            out["sigs"].add(s)
            out["events"] += st[2]
            out["written"] += st[6]
            if st[3]:
                out["fired"][s[1]] = out["fired"].get(s[1], 0) + 1
                k = f"{s[1]} at {OPS[st[3] - 1]}"
                out["ops"][k] = out["ops"].get(k, 0) + 1
            out["outcomes"][st[1]] = out["outcomes"].get(st[1], 0) + 1
            k = f"{st[1]}/{st[7]}"
            out["states"][k] = out["states"].get(k, 0) + 1
        if r["bad"]:
            out["bad"].append((i, spec, r["bad"]))
    return out


def minimise(spec, bad, refs):
    kind = bad[0]
    best = [spec, bad]

    def attempt(s):
        try:
            r = run_history(s, refs, f"min-{os.getpid()}")
        except HarnessError:
            return False
        if r["bad"] and r["bad"][0] == kind:
            best[0], best[1] = s, r["bad"]
            return True
        return False

    if not attempt(spec):
        return spec, bad, False
    gens = spec["gens"] + ([spec["last"]] if spec.get("last") else [])
    base = dict(spec, last=None)
    if len(gens) > 1:
        ddmin(gens, lambda gs: attempt(dict(base, gens=gs, junk=best[0]["junk"])), max_tests=40)
    else:
        attempt(dict(base, gens=gens))
    for x in list(best[0]["junk"]):
        attempt(dict(best[0], junk=[j for j in best[0]["junk"] if j != x]))
    for k in range(len(best[0]["gens"])):
        gs = json.loads(json.dumps(best[0]["gens"]))
        for key, val in (("fault", None), ("retries", 0), ("again", False), ("cwd", "sim"), ("mode", "runner"), ("order", 0)):
            if gs[k].get(key) not in (val, None):
                g2 = json.loads(json.dumps(best[0]["gens"]))
                g2[k][key] = val
                attempt(dict(best[0], gens=g2))
        f = best[0]["gens"][k].get("fault")
        # The earliest file operation at which the same fault still does it.
        if f:
            lo, step = f["at"], max(1, f["at"] // 2)
            tries = 0
            while step >= 1 and tries < 25:
                tries += 1
                g2 = json.loads(json.dumps(best[0]["gens"]))
                g2[k]["fault"]["at"] = max(0, best[0]["gens"][k]["fault"]["at"] - step)
                if g2[k]["fault"]["at"] == best[0]["gens"][k]["fault"]["at"] or not attempt(dict(best[0], gens=g2)):
                    step //= 2
    return best[0], best[1], True


def make_refs(c, pool, names, variants, full=()):
    """Undisturbed datasets; every one is generated twice, in different trees and ways of starting."""
    jobs = [(s, v, t) for s in names for v in variants for t in (0, 1)] + [(s, None, t) for s in full for t in (0, 1)]
    # The small variants of a script may turn out empty or too big: then the next seeded variant is taken.
    got = {}
    problems = []
    for script, variant, tag, o, files in pool.imap_unordered(_ref_job, jobs):
        got[script, variant, tag] = (o, files)
    refs = {}
    for (script, variant, tag), (o, files) in sorted(got.items(), key=lambda x: repr(x[0])):
        if tag:
            continue
        o2, files2 = got[script, variant, 1]
        for oo in (o, o2):
            if oo["outcome"] != "ok":
                problems.append(("clean-generation-failed", f"{script}: an undisturbed generation failed: {oo['exc']}",
                                 (script, variant)))
        if o["outcome"] == o2["outcome"] == "ok":
            if files != files2:
                problems.append(("not-reproducible", f"{script}: two undisturbed generations differ: {diff(files, files2)}",
                                 (script, variant)))
            elif tb_reads(script, files, n_tests(script, variant)) is None and len(files) > 6:
                problems.append(("not-readable", f"{script}: the dataset of an undisturbed generation cannot be read by "
                                 "its testbench", (script, variant)))
        refs[script, variant] = {"files": files, "events": o["events"]}
    return refs, problems


def usable(script, r):
    return tb_reads(script, r["files"], n_tests(script, 0)) is not None


def setup(c):
    global _root
    _root = os.path.join(reexec_with_shim(), "w")
    c.dir = os.path.dirname(_root)
    os.makedirs(_root, exist_ok=True)
    sys.path.insert(0, core.PY_MODEL)
    import numpy  # noqa: F401 - imported once, in the parent
    import numpy.lib._datasource  # noqa: F401 - np.savetxt's file opener
    import tempfile  # noqa: F401


def all_refs(c, names, full):
    """References of N_VARIANTS usable variants per script (candidates are tried in a fixed order)."""
    variants = list(range(0, 7))
    with mp.get_context("fork").Pool(c.workers, initializer=_init, maxtasksperchild=None) as pool:
        refs, problems = make_refs(c, pool, names, variants, full)
    out = {}
    for s in names:
        ok = [v for v in variants if usable(s, refs[s, v]) and 2 <= len(refs[s, v]["files"]) <= MAX_FILES]
        small = bool(ok)
        if not ok:
            ok = [v for v in variants if usable(s, refs[s, v])]
        # Prefer different sizes.
        ok = sorted(ok, key=lambda v: (len(refs[s, v]["files"]), v))
        pick = ok[:: max(1, len(ok) // N_VARIANTS)][:N_VARIANTS] if small else ok[:1]
        for v in pick:
            out[s, v] = refs[s, v]
        for v in (None,):
            if (s, v) in refs:
                out[s, v] = refs[s, v]
    return out, problems


def run(c, n):
    global _refs
    setup(c)
    names = scripts()
    rng = rng_for("full", c.seed)
    full = names if c.tier == "thorough" else []
    refs, problems = all_refs(c, names, full)
    missing = {s for s in names if not any(k[0] == s for k in refs)} | {s for _, _, (s, _) in problems}
    if missing:
        # Perhaps only the reduced parameter ranges do not work: decided by a full-size generation.
        again = sorted(missing)[:4] if problems else sorted(missing)
        with mp.get_context("fork").Pool(c.workers, initializer=_init) as pool:
            refs2, problems = make_refs(c, pool, [], [], again)
        for s in again:
            if not problems and not usable(s, refs2[s, None]):
                problems = [("not-readable", f"{s}: an undisturbed generation reported success, but its testbench cannot "
                             f"read what it left: {len(refs2[s, None]['files'])} files", (s, None))]
            for k in [k for k in refs if k[0] == s]:
                del refs[k]
            refs[s, 0] = refs2[s, None]
            _whole.add(s)
        for kind, detail, (s, v) in problems[:1]:
            c.violation(kind, detail, {"script": s, "variant": v, "junk": [], "gens": [], "reference": True})
        missing -= _whole
    live = [s for s in names if s not in missing]
    _refs = {k: v for k, v in refs.items() if k[1] is not None}
    # Scripts whose datasets stay big get fewer histories.
    big = [s for s in live if max(len(_refs[k]["files"]) for k in _refs if k[0] == s) > MAX_FILES]
    if big:
        n = max(60, n // (1 + 3 * len(big)))
    chunk = max(1, min(25, n // (c.workers * 4) or 1))
    jobs = [(c.seed, live, lo, min(lo + chunk, n)) for lo in range(0, n, chunk)]
    tot = {"n": 0, "gens": 0, "events": 0, "written": 0}
    agg = {"fired": {}, "ops": {}, "outcomes": {}, "states": {}}
    sigs, dig, bad = set(), [], []
    if not problems:
        with mp.get_context("fork").Pool(c.workers, initializer=_init) as pool:
            for o in pool.imap_unordered(_job, jobs):
                for k in tot:
                    tot[k] += o[k]
                for k in agg:
                    for x, y in o[k].items():
                        agg[k][x] = agg[k].get(x, 0) + y
                sigs |= o["sigs"]
                dig += o["dig"]
                bad += o["bad"]
        # Full-size histories: killed in the middle, then generated again over the remains.
        bad.sort(key=lambda x: x[0])
        seen = set()
        _init()
        for i, spec, b in bad:
            if b[0] in seen or len(seen) >= 3:
                continue
            seen.add(b[0])
            small, b2, ok = minimise(spec, b, _refs)
            c.violation(b2[0], b2[1], dict(small, history=i, seed=c.seed, whole=sorted(_whole)))
    for k in [k for k in refs if k[1] is None] if not problems and not bad else []:
        _refs = refs
        spec = {"script": k[0], "junk": [], "gens": [
            plain(None, fault={"mode": "kill-after", "at": rng.randrange(refs[k]["events"]), "err": 0, "arg": 1})],
            "last": plain(None, order=1)}
        r = run_history(spec, refs, f"full-{k[0]}")
        tot["n"] += 1
        tot["gens"] += 2
        if r["bad"]:
            c.violation(r["bad"][0], r["bad"][1], dict(spec, full=True))
    c.cov.update({
        "evaluations": tot["n"], "generations": tot["gens"], "distinct_nontrivial": len(sigs),
        "distinct_measure": "script x fault x failed operation x file x position x outcome x state left on disk",
        "file_operations_simulated": tot["events"], "bytes_written": tot["written"],
        "faults_fired": dict(sorted(agg["fired"].items())), "fault_by_operation": dict(sorted(agg["ops"].items())),
        "outcomes": agg["outcomes"], "states_left": dict(sorted(agg["states"].items())),
        "scripts": {s: [len(refs[k]["files"]) for k in refs if k[0] == s and k[1] is not None] for s in live},
        "full_size_scripts": list(full), "big_scripts": big,
        "digest": core.digest(sorted(dig)), "seeds_per_hour": int(tot["n"] / max(c.elapsed(), 1e-9) * 3600),
        "simulated_time": "not applicable: no clock; progress is counted in file operations",
        "real": ["bittrue/cosim/*/cosim.py", "lib/en_tb/bittrue/cosim/*/cosim.py", "cosim_utils.py", "en_cl_fix_pkg",
                 "sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py", "numpy, CPython, kernel file system"],
        "stub": ["parameter ranges reduced to seeded subsets (full size for the scripts listed)",
                 "the testbenches' readers are a Python model here (the real ones run in C06, C07 and C13)"],
    })
    c.assumptions += [
        "A kill ends the process between or inside file operations; completed operations survive it (no power failure).",
        "Order of operations within one process only; no second process generates the same dataset at the same time.",
    ]


def replay(c, o):
    global _refs
    setup(c)
    names = [o["script"]]
    _whole.update(o.get("whole", []))
    if o.get("reference"):
        _init()
        with mp.get_context("fork").Pool(2, initializer=_init) as pool:
            refs, problems = make_refs(c, pool, names, [o["variant"]])
        if not problems and not usable(names[0], refs[names[0], o["variant"]]):
            problems = [("not-readable", "the testbench cannot read the dataset")]
        return (problems[0][0], problems[0][1]) if problems else None
    _refs, problems = all_refs(c, names, names if o.get("full") else [])
    _init()
    r = run_history(o, _refs, "replay")
    return r["bad"]
