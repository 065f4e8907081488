"""C13: the co-simulation testbenches on damaged exchange data.

Real parts: every testbench, the VHDL libraries under GHDL, VUnit's VHDL core, datasets of the real co-simulation scripts, and, in the suite
runs, the real run.py scripts under the real VUnit (whose "simulator" is a stand-in that runs the testbenches linked beforehand).
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

from pysim import dataset_sim as ds
from simlib import core
from simlib.core import HarnessError, ddmin, rng_for
from . import build

EN_TB = ds.EN_TB
_root = None
_bin = None
_flags = None        # test id -> {"entity", "args", "script"}
_data = None         # (script, variant) -> files

FAKE = """#!/bin/bash
# Stand-in for the simulator: analysis is done beforehand, a run starts the linked testbench with the flags it was given.
case "$1" in
    -a|-e|-m) exit 0 ;;
    --elab-run) ;;
    *) exec /usr/bin/ghdl "$@" ;;
esac
shift
while [ $# -gt 0 ]; do
    case "$1" in
        -o) shift 2 ;;
        -*) shift ;;
        *) break ;;
    esac
done
top="$1"; shift; shift
"@BIN@/$top" "$@"
rc=$?
{ printf '%s\\n' "$rc" "$top" "$@"; printf -- '----\\n'; } >> "@LOG@"
exit $rc
"""


# -- preparation ----------------------------------------------------------------------------------------
def testbenches():
    out = {}
    for s in ds.scripts():
        out[s] = (os.path.join("lib/en_tb/tb", s + "_tb.vhd") if s == EN_TB else os.path.join("tb", s + "_tb.vhd"))
    return out


def _build(outdir, part, n_parts):
    os.environ.pop("LD_PRELOAD", None)
    wd = os.path.join(outdir, f"part{part}")
    build.imports(wd, True)
    tbs = dict(testbenches(), en_cl_fix_pkg="tb/en_cl_fix_pkg_tb.vhd")
    tops = sorted(s + "_tb" for s in tbs)[part::n_parts]
    files = [os.path.join(core.REPO, tbs[t[:-3]]) for t in tops]
    for t, exe in build.make(wd, "lib", files, tops).items():
        subprocess.run(["strip", "-g", exe], stderr=subprocess.DEVNULL)      # otherwise every failing run spends most of its time on its backtrace
        os.rename(exe, os.path.join(outdir, t))


def _dataset(a):
    script, variant = a
    ds._init()
    tree = os.path.join(_root, f"gen-{script}-{variant}")
    ds.make_tree(tree, script)
    try:
        o = ds.generation(tree, script, ds.plain(variant))
        if o["outcome"] != "ok" and variant is not None:
            return script, variant, {}
        if o["outcome"] != "ok":
            raise HarnessError(f"{script} did not generate its dataset: {o['exc']}")
        return script, variant, ds.snapshot(ds.data_dir(tree, script))
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def prepare(check, variants):
    global _root, _bin, _data, _flags
    _root = os.path.join(check.mkscratch(), "w")
    os.makedirs(_root, exist_ok=True)
    ds._root = _root
    sys.path.insert(0, core.PY_MODEL)
    import numpy  # noqa: F401
    import numpy.lib._datasource  # noqa: F401
    _bin = os.path.join(_root, "build")
    ctx = mp.get_context("fork")
    builds = [ctx.Process(target=_build, args=(_bin, k, 3)) for k in range(3)]
    for b in builds:
        b.start()
    with ctx.Pool(max(1, check.workers - 3)) as pool:
        _data = {(s, v): f for s, v, f in pool.imap_unordered(_dataset, [(s, v) for v in variants for s in ds.scripts()]) if f and n_tests(s, f)}
        # Scripts which do not work on a part of their parameters: the whole dataset.
        missing = [(s, None) for s in ds.scripts() if not any(s == k[0] for k in _data)]
        _data.update({(s, variants[0]): f for s, _, f in pool.imap_unordered(_dataset, missing)})
    for b in builds:
        b.join()
    if any(b.exitcode for b in builds):
        raise HarnessError("the testbenches could not be built")
    os.environ.pop("LD_PRELOAD", None)
    _flags = {}
    for suite in ("main", "en_tb"):
        spec = {"suite": suite, "variant": sorted({v for _, v in _data})[0], "seed": [0], "damage": []}
        r = suite_run(spec, "flags")
        for entity, args, _ in r["calls"]:
            script = entity[:-3]
            if script not in ds.TB and script != EN_TB:
                continue
            name = "/".join([entity] + [a for a in args if a.startswith("-g") and not a.startswith("-grunner_cfg")])
            _flags[name] = {"script": script, "args": [a.replace(r["tree"], "@TREE@").replace(esc(r["tree"]), "@TREE@") for a in args]}
    if not _flags:
        raise HarnessError("run.py runs no testbench")


def esc(p):
    return p.replace(":", "::")


# -- datasets -------------------------------------------------------------------------------------------
def split(b):
    """(header lines, rows) of a file of the dataset."""
    lines = b.decode().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    k = 0
    while k < len(lines) and lines[k].startswith("#"):
        k += 1
    return lines[:k], lines[k:]


def join(h, rows):
    return "".join(x + "\n" for x in h + rows).encode()


def n_tests(script, files):
    return ds.n_tests(script, 0) if script == EN_TB else len(split(files["a_fmt.txt"])[1])


def subset(script, files, tests, nrows=None):
    """A dataset of the chosen tests, renumbered (en_tb_fileio: of all tests, with some of the rows)."""
    if script == EN_TB:
        out = {}
        for n, b in files.items():
            h, rows = split(b)
            out[n] = b if n.endswith("_config.txt") or nrows is None else join(h, rows[nrows[0]:nrows[0] + nrows[1]])
        return out
    out = {}
    fmts, ints, per = ds.TB[script]
    for n in fmts + ints:
        h, rows = split(files[n + ".txt"])
        out[n + ".txt"] = join(h, [rows[t] for t in tests])
    for k, t in enumerate(tests):
        for n in per:
            out[f"test{k}_{n}.txt"] = files[f"test{t}_{n}.txt"]
    return out


def needed(script, files, i):
    """Number of values of each expected-value file which test i uses."""
    w = sum(eval(split(files["a_fmt.txt"])[1][i]))  # noqa: S307 - "(S, I, F)" of our own dataset
    if "b_fmt.txt" in files:
        w += sum(eval(split(files["b_fmt.txt"])[1][i]))  # noqa: S307
    return 2 ** w * (2 if script == "cl_fix_addsub" else 1)


def fmt_of(script, files, i):
    if "r_fmt.txt" not in files:
        return None
    s, a, b = eval(split(files["r_fmt.txt"])[1][i])  # noqa: S307
    n = s + a + b
    return (-(1 << (n - 1)) if s else 0), ((1 << (n - 1)) - 1 if s else (1 << n) - 1)


def other_value(r, old, lo, hi):
    """A different value of the same range (None: there is none)."""
    if lo == hi:
        return None
    for _ in range(20):
        v = r.choice([old + 1, old - 1, -old, old ^ 1, lo, hi, 0, r.randint(lo, hi)])
        if v != old and lo <= v <= hi:
            return v
    return None


# Damage kinds: one dict each, applied in order to the files; the effect is computed, so it never depends on luck.
def gen_damage(r, script, files, only_test=None):
    """One damage: (description, {file: new bytes or None})."""
    if script == EN_TB:
        return gen_damage_en_tb(r, files, only_test)
    fmts, ints, per = ds.TB[script]
    n = n_tests(script, files)
    k = r.random()
    if k < 0.28:
        name = r.choice(fmts + ints) + ".txt"
        h, rows = split(files[name])
        kind = r.choice(["absent", "emptied", "header-only", "cut", "dropped"])
        if kind == "absent":
            return f"{name} absent", {name: None}
        if kind == "emptied":
            return f"{name} emptied", {name: b""}
        if kind == "header-only":
            return f"{name} without rows", {name: join(h, [])}
        if len(rows) < 2:
            return None
        if kind == "cut":
            keep = r.choice([len(rows) - 1, r.randint(1, len(rows) - 1)])
            return f"{name} rows missing (cut after {keep} of {len(rows)})", {name: join(h, rows[:keep])}
        d = r.randrange(len(rows))
        return f"{name} rows missing (row {d} of {len(rows)} dropped)", {name: join(h, rows[:d] + rows[d + 1:])}
    i = r.choice([0, n - 1, r.randrange(n)])
    part = r.choice(per)
    name = f"test{i}_{part}.txt"
    h, rows = split(files[name])
    need = needed(script, files, i)
    if len(rows) < need:
        raise HarnessError(f"{script}: {name} has fewer rows than the testbench reads")
    kind = r.choice(["alter", "alter", "alter", "alter-many", "swap", "drop", "cut", "cut", "header-only", "emptied", "absent", "other-file", "repeat", "rotate", "alias"])
    row = r.choice([0, need - 1, r.randrange(need), r.randrange(need)])
    lo, hi = fmt_of(script, files, i) or (0, 1)
    if kind in ("alter", "alter-many"):
        new = list(rows)
        done = []
        for row in [row] if kind == "alter" else sorted({r.randrange(need) for _ in range(r.randint(2, 6))}):
            v = other_value(r, int(rows[row]), lo, hi)
            if v is not None:
                new[row] = str(v)
                done.append(row)
        return (f"{name} value altered (row {done[0]}: {rows[done[0]]} -> {new[done[0]]})", {name: join(h, new)}) if done else None
    if kind == "alias":
        width = (hi - lo).bit_length()
        v = int(rows[row]) + r.choice([-2, -1, 1, 2, 3]) * (1 << width)
        if not -(1 << 31) < v < 1 << 31:
            return None
        return f"{name} value outside its format (row {row}: {rows[row]} -> {v})", {name: join(h, rows[:row] + [str(v)] + rows[row + 1:])}
    if kind == "swap":
        cand = [x for x in range(need) if int(rows[x]) != int(rows[row])]
        if not cand:
            return None
        x = r.choice(cand)
        new = list(rows)
        new[x], new[row] = new[row], new[x]
        return f"{name} rows {row} and {x} swapped", {name: join(h, new)}
    if kind == "drop":
        if len(rows) > need:
            return None
        return f"{name} row {row} of {need} dropped", {name: join(h, rows[:row] + rows[row + 1:])}
    if kind == "cut":
        keep = r.choice([need - 1, r.randint(0, need - 1)])
        return f"{name} cut after {keep} of {need} rows", {name: join(h, rows[:keep])}
    if kind == "header-only":
        return f"{name} without rows", {name: join(h, [])}
    if kind == "emptied":
        return f"{name} emptied", {name: b""}
    if kind == "absent":
        return f"{name} absent", {name: None}
    if kind == "repeat":
        new = rows[:row] + [rows[row]] + rows[row:]
        if [int(x) for x in new[:need]] == [int(x) for x in rows[:need]]:
            return None
        return f"{name} row {row} repeated", {name: join(h, new)}
    if kind == "rotate":
        new = rows[1:need] + rows[:1]
        if [int(x) for x in new] == [int(x) for x in rows[:need]]:
            return None
        return f"{name} rows rotated", {name: join(h, new)}
    src = f"test{r.randrange(n)}_{r.choice(per)}.txt"
    new = split(files[src])[1]
    if [int(x) for x in new[:need]] == [int(x) for x in rows[:need]]:
        return None
    return f"{name} replaced by {src}", {name: files[src]}


def en_tb_values(files, name):
    h, rows = split(files[name])
    base = {"bin": 2, "dec": 10, "hex": 16}[name.split("_")[2]]
    return [[int(x, base) for x in row.split()] for row in rows]


def gen_damage_en_tb(r, files, only_test):
    n = ds.n_tests(EN_TB, 0)
    i = r.randrange(n) if only_test is None else only_test
    if r.random() < 0.12:
        name = f"test{i}_config.txt"
        h, rows = split(files[name])
        kind = r.choice(["absent", "emptied", "cut"])
        keep = r.randrange(2)
        return f"{name} {kind}", {name: {"absent": None, "emptied": b"", "cut": join(h, rows[:keep])}[kind]}
    name = f"test{i}_{r.choice(ds.EN_TB_FILES)}.txt"
    h, rows = split(files[name])
    width = int(split(files[f"test{i}_config.txt"])[1][0])
    kind = r.choice(["alter", "alter", "alter", "swap", "drop-value", "drop-row", "cut", "header-only", "emptied", "absent", "other-file", "repeat"])
    row = r.choice([0, len(rows) - 1, r.randrange(len(rows))])
    vals = rows[row].split()
    col = r.choice([0, len(vals) - 1, r.randrange(len(vals))])
    seps = re.split(r"(\S+)", rows[row])          # separators and values alternate
    mode = name.split("_")[2]

    def put(v):
        x = list(seps)
        x[1 + 2 * col] = v
        return rows[:row] + ["".join(x)] + rows[row + 1:]
    if kind == "alter":
        signed = name.endswith("_signed.txt")
        lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
        old = int(vals[col], {"bin": 2, "dec": 10, "hex": 16}[mode])
        if mode == "hex" and signed and old >= 1 << (4 * len(vals[col]) - 1):
            old -= 1 << (4 * len(vals[col]))
        elif mode == "bin" and signed and old > hi:
            old -= 1 << width
        v = other_value(r, old, lo, hi)
        k = 4 * len(vals[col])
        t = {"bin": format(v & ((1 << width) - 1), f"0{width}b"), "dec": str(v), "hex": format(v & ((1 << k) - 1), f"0{k // 4}x")}[mode]
        if vals[col].isupper():
            t = t.upper()
        return f"{name} value altered (row {row}, column {col}: {vals[col]} -> {t})", {name: join(h, put(t))}
    if kind == "swap":
        flat = [(a, b) for a, x in enumerate(rows) for b in range(len(x.split()))]
        a, b = r.choice(flat)
        other = rows[a].split()[b]
        if other == vals[col] or (a, b) == (row, col):
            return None
        new = put(other)
        s2 = re.split(r"(\S+)", new[a])
        s2[1 + 2 * b] = vals[col]
        new[a] = "".join(s2)
        return f"{name} values swapped ({row},{col}) ({a},{b})", {name: join(h, new)}
    if kind == "drop-value":
        if row == 0 and len(vals) > 1 and len(rows) == 1:
            return None
        if row == 0 and len(vals) > 1:
            row = len(rows) - 1
            seps[:] = re.split(r"(\S+)", rows[row])
        x = seps[:1 + 2 * col] + seps[3 + 2 * col:]
        t = "".join(x).strip()
        new = rows[:row] + ([t] if t else []) + rows[row + 1:]
        return f"{name} value dropped (row {row}, column {col})", {name: join(h, new)}
    if kind == "drop-row":
        return f"{name} row {row} dropped", {name: join(h, rows[:row] + rows[row + 1:])}
    if kind == "cut":
        keep = r.randrange(len(rows))
        return f"{name} cut after {keep} of {len(rows)} rows", {name: join(h, rows[:keep])}
    if kind == "header-only":
        return f"{name} without rows", {name: join(h, [])}
    if kind == "emptied":
        return f"{name} emptied", {name: b""}
    if kind == "absent":
        return f"{name} absent", {name: None}
    if kind == "repeat":
        return f"{name} row {row} repeated", {name: join(h, rows[:row + 1] + rows[row:])}
    src = f"test{r.choice([x for x in range(n) if x != i])}_{r.choice(ds.EN_TB_FILES)}.txt"
    if src not in files or en_tb_values(files, src) == en_tb_values(files, name):
        return None
    return f"{name} replaced by {src}", {name: files[src]}


def agree_en_tb(files, i):
    """Do the three representations of a test still agree? (then there is no damage to detect)"""
    try:
        width = int(split(files[f"test{i}_config.txt"])[1][0])
        for sign in ("signed", "unsigned"):
            v = [[x & ((1 << width) - 1) for row in en_tb_values(files, f"test{i}_ascii_{m}_data_{sign}.txt") for x in row] for m in ("bin", "dec", "hex")]
            if v[0] != v[1] or v[1] != v[2]:
                return False
        return True
    except (KeyError, ValueError, AttributeError, IndexError):
        return False


def damaged(script, files, seed, only_test=None):
    """Applies the damages of the seeds; returns (files, descriptions, file names)."""
    out, what, names = dict(files), [], []
    for s in seed:
        for k in range(30):
            r = rng_for("C13", "damage", script, s, k)
            d = gen_damage(r, script, files, only_test)
            if d is not None and not any(n in names for n in d[1]):
                break
        else:
            continue
        what.append(d[0])
        for n, b in d[1].items():
            names.append(n)
            if b is None:
                out.pop(n, None)
            else:
                out[n] = b
    return out, what, names


def put_files(d, files):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, b in files.items():
        p = os.path.join(d, n)
        if b is None:
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, "wb") as f:
                f.write(b)


# -- one testbench ---------------------------------------------------------------------------------------
def variants_of(script):
    return sorted(v for s, v in _data if s == script)


def gen_nrows(r):
    """First row and number of rows which remain of the 256 rows of en_tb_fileio."""
    k = r.random()
    n = 256 if k < 0.002 else r.randint(1, 24) if k < 0.08 else r.randint(1, 3)
    return [r.randint(0, 256 - n), n]


def gen_bench(seed, i, names):
    r = rng_for(seed, "C13", "bench", i)
    name = names[i % len(names)]
    script = _flags[name]["script"]
    variants = variants_of(script)
    v = r.choice(variants)
    n = n_tests(script, _data[script, v])
    if script == EN_TB:
        tests = list(range(n))
    else:
        tests = [r.randrange(n) for _ in range(r.choice([1, 2, 2, 3, 5]))]
        if r.random() < 0.3:
            tests = sorted(set(tests))
        if r.random() < 0.04:
            tests = list(range(n))
    k = r.choice([0, 0, 1, 1, 1, 1, 1, 2, 3])
    return {"bench": name, "variant": v, "tests": tests, "damage": [r.getrandbits(40) for _ in range(k)], "final_newline": r.random() < 0.85,
            "rows": gen_nrows(r) if script == EN_TB else None}


def bench_files(spec):
    script = _flags[spec["bench"]]["script"]
    base = subset(script, _data[script, spec["variant"]], spec["tests"], spec["rows"])
    only = None
    if script == EN_TB:
        only = int(re.search(r"test_index_g=(\d+)", spec["bench"]).group(1))
    files, what, names = damaged(script, base, spec["damage"], only)
    if script == EN_TB and what and agree_en_tb(files, only):
        files, what, names = dict(base), [], []
    if len(what) > 1 and any(x.startswith("a_fmt.txt rows missing") for x in what):
        # Fewer tests are run then (see known_findings.jsonl): the other damages could lie in those which are not.
        files, what, names = damaged(script, base, spec["damage"][:1], only)
        if not what:
            files, names = dict(base), []
    if not spec["final_newline"]:
        for n, b in files.items():
            if n not in names and b and b.endswith(b"\n"):
                files[n] = b[:-1]
    return script, files, what


def bench_run(spec, tag="w"):
    """(passed, output, damages)"""
    script, files, what = bench_files(spec)
    tree = os.path.join(_root, f"{tag}{os.getpid()}")
    shutil.rmtree(tree, ignore_errors=True)
    tb = os.path.join(tree, "lib/en_tb/tb" if script == EN_TB else "tb")
    os.makedirs(tb)
    put_files(ds.data_dir(tree, script), files)
    args = []
    results = None
    for a in _flags[spec["bench"]]["args"]:
        a = a.replace("@TREE@", tree)
        if a.startswith("-grunner_cfg="):
            m = re.search(r"output path : (.*?)(?<!:),(?!,)", a)
            out = m.group(1).replace("::", ":") if m else None
            if out:
                os.makedirs(out, exist_ok=True)
                results = os.path.join(out, "vunit_results")
        args.append(a)
    try:
        p = subprocess.run([os.path.join(_bin, script + "_tb")] + args, cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True, errors="replace")
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, text = "timeout", ""
    done = False
    if results and os.path.exists(results):
        with open(results) as f:
            done = "test_suite_done" in f.read()
    shutil.rmtree(tree, ignore_errors=True)
    return rc == 0 and done, rc, text, what


def judge_bench(spec, tag="w"):
    ok, rc, text, what = bench_run(spec, tag)
    if rc == "timeout":
        return ("hang", f"{spec['bench']}: the simulation does not end ({'; '.join(what)})"), what
    if what and ok:
        return ("passed-with-damage", f"{spec['bench']}: {'; '.join(what)}"), what
    if not what and not ok:
        return ("failed-undamaged", f"{spec['bench']} fails on undamaged data (exit {rc}): {last_error(text)}"), what
    return None, what


def last_error(text):
    for ln in text.split("\n"):
        if re.search("error|failure|ERROR|FAILURE|bound check", ln):
            return ln.replace(_root, "")[-240:]
    return text[-200:]


# -- the whole suite -------------------------------------------------------------------------------------
def gen_suite(seed, i):
    r = rng_for(seed, "C13", "suite", i)
    # Every testbench and every index has its turn; a quarter of the runs have no damage, or more than one.
    main = [s for s in ds.scripts() if s != EN_TB]
    suite, turn = ("main", main[i // 2 % len(main)]) if i % 2 == 0 else ("en_tb", None)
    damage = [[turn or EN_TB, r.getrandbits(40), i // 2 % 6, r.choice(["any", "any", "any", "absent", "absent", "all-absent"])]]
    if r.random() < 0.15:
        damage = []
    elif r.random() < 0.3:
        damage.append([r.choice(main), r.getrandbits(40), r.randrange(6), "any"])
    return {"suite": suite, "variant": r.choice(sorted({v for _, v in _data})), "seed": [r.getrandbits(40)], "damage": damage}


def suite_tree(tree, suite):
    if os.path.isdir(tree):
        return
    ign = shutil.ignore_patterns("data", "__pycache__", "*.pyc", "vunit_out", "tests", "doc", "coverage", "results")
    for d in ("hdl", "tb", "sim", "lib", "bittrue"):
        shutil.copytree(os.path.join(core.REPO, d), os.path.join(tree, d), ignore=ign)
    os.makedirs(os.path.join(tree, "bin"))
    fake = os.path.join(tree, "bin/ghdl")
    with open(fake, "w") as f:
        f.write(FAKE.replace("@LOG@", os.path.join(tree, "calls.log")).replace("@BIN@", _bin))
    os.chmod(fake, 0o755)


def absent(files, d, names):
    """One of the files is absent, or all of them are."""
    if d[3] == "absent":
        names = [rng_for("C13", "absent", d[1]).choice(sorted(names))]
    return {n: b for n, b in files.items() if n not in names}, [f"{', '.join(sorted(names)) if len(names) < 4 else 'all files'} absent"]


def suite_run(spec, tag="s"):
    suite = spec["suite"]
    tree = os.path.join(_root, f"{tag}-{suite}-{os.getpid()}")
    suite_tree(tree, suite)
    scripts = [EN_TB] if suite == "en_tb" else [s for s in ds.scripts() if s != EN_TB]
    hit = {}                # test bench (or index) -> damages
    for s in scripts:
        full = _data[s, max([v for v in variants_of(s) if v <= spec["variant"]] or variants_of(s)[:1])]
        r = rng_for("C13", "suite-tests", s, spec["seed"])
        n = n_tests(s, full)
        tests = list(range(n)) if s == EN_TB else [r.randrange(n) for _ in range(r.choice([1, 2]))]
        files = subset(s, full, tests, [r.randint(0, 250), r.randint(1, 6)] if s == EN_TB else None)
        base = dict(files)
        for d in spec["damage"]:
            if s == EN_TB:
                new, what = absent(base, d, [n for n in base if n.startswith(f"test{d[2]}_")]) if d[3] != "any" else damaged(s, base, [d[1]], d[2])[:2]
                key = f"TestIndex={d[2]}"
                if not what or key in hit or agree_en_tb(new, d[2]):
                    continue
            else:
                if d[0] != s or s in hit:
                    continue
                new, what = absent(base, d, list(base)) if d[3] != "any" else damaged(s, base, [d[1]])[:2]
                key = s
                if not what or what[0].startswith("a_fmt.txt rows missing") or s == "cl_fix_compare" and "outside its format" in what[0]:
                    continue
            hit[key] = what
            for n in set(base) | set(new):
                if new.get(n) != base.get(n):
                    files[n] = new.get(n)
        files = {n: b for n, b in files.items() if b is not None}
        put_files(ds.data_dir(tree, s), files)
        if not files:
            os.rmdir(ds.data_dir(tree, s))
    for n in ("calls.log", "report.xml"):
        if os.path.exists(os.path.join(tree, n)):
            os.unlink(os.path.join(tree, n))
    sim = os.path.join(tree, "lib/en_tb/sim" if suite == "en_tb" else "sim")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(tree, "bittrue/models/python"))
    env.pop("LD_PRELOAD", None)
    args = [sys.executable, "run.py", "--no-color", "--simulator=ghdl", "--simulator-path=" + os.path.join(tree, "bin"), "-o", os.path.join(tree, "out"),
            "--disable-cosim", "-p", "1", "--seed", "0123456789abcdef", "--xunit-xml", os.path.join(tree, "report.xml")]
    try:
        p = subprocess.run(args, cwd=sim, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise HarnessError("run.py did not end")
    tests = {}
    try:
        for c in ET.parse(os.path.join(tree, "report.xml")).getroot().iter("testcase"):
            tests[c.get("classname") + "." + c.get("name")] = c.find("failure") is None and c.find("error") is None and c.find("skipped") is None
    except (OSError, ET.ParseError):
        pass
    calls = []
    try:
        with open(os.path.join(tree, "calls.log")) as f:
            for block in f.read().split("----\n"):
                lines = block.split("\n")[:-1]
                if lines:
                    calls.append((lines[1], lines[2:], int(lines[0])))
    except OSError:
        pass
    if not tests or not calls:
        raise HarnessError("run.py ran no tests: " + p.stdout[-1500:])
    return {"rc": p.returncode, "tests": tests, "calls": calls, "tree": tree, "hit": hit, "out": p.stdout}


def suite_name(spec):
    return "lib/en_tb/sim/run.py" if spec["suite"] == "en_tb" else "sim/run.py"


def judge_suite(spec, tag="s"):
    r = suite_run(spec, tag)
    what = [x for v in r["hit"].values() for x in v]
    text = "; ".join(f"{k}: {', '.join(v)}" for k, v in r["hit"].items())
    if r["hit"] and r["rc"] == 0:
        return ("suite-passed-with-damage", f"{suite_name(spec)} reports success with {text}"), what
    for top, args, rc in r["calls"]:
        index = [a.split("=")[1] for a in args if a.startswith("-gtest_index_g=")]
        key = f"TestIndex={index[0]}" if top[:-3] == EN_TB and index else top[:-3]
        if key in r["hit"] and rc == 0:
            return ("suite-passed-with-damage", f"{top} passes with {text}"), what
        if key not in r["hit"] and rc != 0:
            return ("suite-failed-undamaged", f"{' '.join([top] + [a for a in args if a.startswith('-g') and 'runner_cfg' not in a])} fails on undamaged data ({text or 'no damage at all'})"), what
    failed = sum(1 for c in r["calls"] if c[2])
    if failed > sum(1 for ok in r["tests"].values() if not ok):
        return ("suite-passed-with-damage", f"{suite_name(spec)} reports fewer failed tests than testbench runs failed ({text})"), what
    if not r["hit"] and r["rc"] != 0:
        return ("suite-failed-undamaged", f"{suite_name(spec)} exits with {r['rc']} on undamaged data"), what
    return None, what


# -- driver ----------------------------------------------------------------------------------------------
def kind_of(w):
    w = re.sub(r"^\S+ ", "", w)
    w = re.sub(r"\(.*", "", w)
    return re.sub(r"\s+", " ", re.sub(r"test\d+\S*|-?\d+( of \d+)?", "", w)).strip()


def _job(a):
    mode, seed, i, names = a
    if mode == "suite":
        spec = gen_suite(seed, i)
        bad, what = judge_suite(spec)
    else:
        spec = gen_bench(seed, i, names)
        bad, what = judge_bench(spec)
    return mode, i, bad, [kind_of(w) for w in what], core.digest((spec, what)), spec


def minimise(spec, kind):
    if "suite" in spec:
        def fails(d):
            x = judge_suite(dict(spec, damage=d), "m")[0]
            return x is not None and x[0] == kind
        d = ddmin(spec["damage"], fails, 10) if len(spec["damage"]) > 1 else spec["damage"]
        s = dict(spec, damage=d)
        return s, judge_suite(s, "m")[0]

    def same(s):
        x = judge_bench(s, "m")[0]
        return x is not None and x[0] == kind
    s = spec
    for k in range(len(spec["damage"])):
        t = dict(spec, damage=[spec["damage"][k]])
        if len(spec["damage"]) > 1 and same(t):
            s = t
            break
    if not s["damage"] and s["bench"].find("test_index") < 0:
        for t in sorted(set(s["tests"])):
            u = dict(s, tests=[t])
            if same(u):
                s = u
                break
    return s, judge_bench(s, "m")[0]


def finding_runs(seed, start, names):
    """Runs beyond the budget which meet each listed finding, so that they are reported on every run."""
    want = [r"^a_fmt\.txt rows missing \(cut", r"value outside its format \(row \d+: 0 "]
    out = []
    for i in range(start, start + 20000):
        if not want:
            break
        spec = gen_bench(seed, i, names)
        if len(spec["damage"]) != 1 or len(spec["tests"]) > 4 or not spec["bench"].startswith("cl_fix_compare"):
            continue
        what = bench_files(spec)[2]
        for w in want:
            if what and re.search(w, what[0]):
                want.remove(w)
                out.append(i)
                break
    return out


def _minjob(a):
    return minimise(*a)


def run(check, n_bench, n_suite, n_variants):
    r = rng_for(check.seed, "C13", "variants")
    prepare(check, sorted({0, *[r.randrange(1 << 20) for _ in range(n_variants - 1)]}))
    names = sorted(_flags)
    tot = {"faults": {}, "bench": {}, "suite": 0, "undamaged": 0, "runs": 0}
    sigs, digs, bad = set(), [], []
    with mp.get_context("fork").Pool(check.workers) as pool:
        jobs = [("suite", check.seed, i, names) for i in range(n_suite)] + [("bench", check.seed, i, names) for i in range(n_bench)]
        jobs += [("bench", check.seed, i, names) for i in finding_runs(check.seed, n_bench, names)]
        for mode, i, b, kinds, dig, spec in pool.imap(_job, jobs, chunksize=2):
            tot["runs"] += 1
            if mode == "suite":
                tot["suite"] += 1
            else:
                tot["bench"][spec["bench"]] = tot["bench"].get(spec["bench"], 0) + 1
            for k in kinds:
                tot["faults"][k] = tot["faults"].get(k, 0) + 1
            tot["undamaged"] += not kinds
            sigs.add(dig)
            digs.append((dig, b))
            if b:
                known = check.matches_known(*b)
                if known is not None:
                    check.violation(b[0], b[1], {})
                else:
                    bad.append((b[0], spec))
                    if len(bad) > 12:
                        break
        first = {}
        for kind, spec in bad:
            first.setdefault((kind, spec.get("bench", "suite").split("/")[0]), spec)
        for (kind, _), spec in list(first.items())[:4]:
            s, d = pool.apply(_minjob, ((spec, kind),))
            if d is None:
                s, d = spec, (kind, "not reproduced when minimised")
            check.violation(d[0], d[1], {"spec": s, "variants": sorted({v for _, v in _data})})
    spec = gen_bench(check.seed, 2, names)
    secs = max(check.elapsed(), 1e-9)
    check.cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(sigs),
        "rule": "one run = one testbench simulation on a seeded part of a dataset with 0-3 damages, or one run of a whole run.py suite with 0-2 damages; "
                "distinct = different testbench, generics, tests and damages; every run simulates at least one complete test case or stops at a damage",
        "samples": [{"run": spec, "damages": bench_files(spec)[2]}],
        "faults_injected": tot["faults"], "undamaged_runs": tot["undamaged"], "runs_by_testbench": tot["bench"], "suite_runs": tot["suite"],
        "seeds": tot["runs"], "seeds_per_hour": int(tot["runs"] / secs * 3600), "simulated_seconds": None,
        "datasets": len(_data), "log_digest": core.digest(digs),
        "real_components": ["tb/*_tb.vhd", "lib/en_tb/tb", "hdl", "lib/en_tb/hdl", "VUnit VHDL core", "co-simulation scripts (parameter ranges reduced)",
                            "sim/run.py, lib/en_tb/sim/run.py and VUnit (suite runs)"],
        "stub_components": ["the damage", "VUnit's verification component context", "VHDL analysis inside VUnit (linked beforehand)"],
    }
    check.cov.pop("simulated_seconds")
    check.assumptions = ["GHDL 4.1 implements VHDL", "formats and modes are the inputs of a test case, not expected values: altering them is not judged",
                         "rows beyond those a test case needs are ignored by the testbenches and are not judged",
                         "damage done alike to all three representations of en_tb_fileio leaves nothing to disagree with"]


def replay(check, obj):
    prepare(check, obj["variants"])
    s = obj["spec"]
    return (judge_suite(s, "r") if "suite" in s else judge_bench(s, "r"))[0]
