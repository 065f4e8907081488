"""Simulation of the co-simulation runner (C03, C04): real cosim_runner.py and run.py under the thread scheduler."""
import ast
import glob
import importlib.util
import os
import random
import re
import shutil
import sys
import types

from simlib.core import REPO, HarnessError, rng_for
from . import forkrun
from .sched import Event, Sched, patch_primitives

IMPLS = {"sim": "sim", "en_tb": "lib/en_tb/sim"}
EXC = {"ValueError": ValueError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
       "MemoryError": MemoryError, "AssertionError": AssertionError, "ImportError": ImportError, "KeyError": KeyError}

SCRIPT = '''# Synthetic co-simulation script {ident}
import sys
import simgen
{config}
IDENT = {ident!r}
{append}
simgen.loaded(IDENT, sys.modules.get(__name__))
{fail}

def run():
    # Generate data
    simgen.generate(IDENT)

if __name__ == '__main__':
    run()
'''


class World:
    """Everything observed in one run; only one simulated thread runs at a time, so the log is totally ordered."""

    def __init__(self, spec, sched):
        self.spec, self.sched = spec, sched
        self.log = []
        self.attempts = {}
        self.done = {}
        self.done_events = {}
        self.loading = 0
        self.bad = None
        self.base_path = None
        self.appended = set()
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ev(self, *e):
        t = self.sched.me()
        self.log.append((t.name if t else "main",) + e)

    def fail(self, kind, detail):
        if self.bad is None:
            self.bad = (kind, detail)

    # -- called by the synthetic scripts ----------------------------------------------------------
    def loaded(self, ident, mod):
        self.ev("loaded", ident)

    def done_event(self, ident):
        return self.done_events.setdefault(ident, Event())

    def generate(self, ident):
        t = self.sched.me()
        script = self.spec["scripts"][ident]
        gen = script["gen"]
        n = self.attempts[ident] = self.attempts.get(ident, 0) + 1
        self.ev("gen_start", ident, n)
        if self.loading_by(t):
            self.fail("generated-on-load", f"loading {ident} executed its data generation")
        if script.get("disabled"):
            self.fail("generated-while-disabled", f"{ident} was generated although co-simulation is disabled")
        if self.done.get(ident):
            self.fail("generated-twice", f"generation of {ident} started again after it had completed (attempt {n})")
        if t is None:
            self.fail("generated-on-load", f"{ident} was generated while setting up")
            return None
        for _ in range(gen["yields"]):
            self.sched.point(7)
        if gen["sleep"]:
            self.count("slow_generator")
            self.sched.sleep(gen["sleep"])
        if gen.get("wait"):
            # This generator needs (e.g. takes as input) another dataset to be ready first.
            self.count("dependent_generator")
            self.done_event(gen["wait"]).wait()
        fails = gen["fail"]
        if n <= len(fails) and fails[n - 1]:
            self.count("generator_failure")
            self.ev("gen_fail", ident, fails[n - 1])
            raise EXC[fails[n - 1]](f"injected into {ident}")
        if self.done.get(ident):
            self.fail("generated-twice", f"generation of {ident} completed more than once")
        self.done[ident] = True
        self.ev("gen_end", ident)
        self.done_event(ident).set()
        if gen.get("returns") is not None:
            return gen["returns"]

    def loading_by(self, t):
        return t is not None and getattr(t, "loading", False)


def write_scripts(root, spec):
    dirs = {}
    for ident, s in spec["scripts"].items():
        d = os.path.join(root, ident)
        os.makedirs(d)
        dirs[ident] = d
        if s["load"] == "missing":
            continue
        cfg = "" if s["config"] is None else f"COSIM_CONFIG = {s['config']!r}"
        app = ""
        if s["append"]:
            app = f"sys.path.insert({s['append'] - 1}, '/nonexistent/appended-{ident}')"
        fail = ""
        if s["load"] == "syntax":
            fail = "def broken(:\n"
        elif s["load"] != "ok":
            fail = f"raise simgen.EXC[{s['load']!r}]('injected while loading')"
        with open(os.path.join(d, s["module"] + ".py"), "w") as f:
            f.write(SCRIPT.format(ident=ident, config=cfg, append=app, fail=fail))
    return dirs


def load_impl(path):
    spec = importlib.util.spec_from_file_location("cosim_runner_under_test", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["cosim_runner_under_test"] = mod
    spec.loader.exec_module(mod)
    for v in vars(mod).values():
        if isinstance(v, type) and hasattr(v, "run") and hasattr(v, "get_config") and v.__module__ == mod.__name__:
            return v
    raise HarnessError(f"no runner class in {path}")


# ---------------------------------------------------------------------------------------------------
# Scenario generation
# ---------------------------------------------------------------------------------------------------


def gen_spec(rng, prop):
    n_scripts = rng.choice([1, 1, 2, 2, 3, 4])
    scripts = {}
    names = [f"cl_fix_s{k}" for k in range(n_scripts)]
    load_faults = prop == "C04" or rng.random() < 0.2
    gen_faults = prop == "C03" or rng.random() < 0.3
    mod = rng.choice(["cosim", "cosim", "cosim", "gen_data"])
    for k, n in enumerate(names):
        load = "ok"
        if load_faults and rng.random() < (0.35 if prop == "C04" else 0.15):
            load = rng.choice(["missing", "syntax", "ValueError", "SystemExit", "KeyboardInterrupt", "ImportError", "KeyError"])
        fails = []
        if gen_faults and rng.random() < 0.4:
            fails = [rng.choice(["ValueError", "OSError", "KeyboardInterrupt", "SystemExit", "MemoryError", "AssertionError", "KeyError"])
                     if rng.random() < 0.7 else None for _ in range(rng.randint(1, 3))]
        g = {"yields": rng.choice([0, 1, 5, 20]), "sleep": rng.choice([0, 0, 0, 0.5, 30.0]), "fail": fails, "wait": None,
             "returns": rng.choice([None, None, None, None, 0, "text"])}
        scripts[n] = {"load": load, "config": rng.choice([None, {"N_TESTS": k + 1}, {"who": n}, {}, 0]), "append": rng.choice([0, 0, 0, 0, 1, 2, 1000]),
                      "module": mod if rng.random() < 0.9 else "cosim", "gen": g, "disabled": rng.random() < 0.15}
    if n_scripts > 1 and rng.random() < 0.3:
        # Chain of dependent datasets (acyclic, nothing in it fails or is disabled).
        a, b = rng.sample(range(n_scripts), 2)
        lo, hi = names[min(a, b)], names[max(a, b)]
        for n in (lo, hi):
            scripts[n].update(load="ok", disabled=False)
            scripts[n]["gen"]["fail"] = []
        scripts[hi]["gen"]["wait"] = lo
    n_threads = rng.choice([2, 2, 3, 4, 6, 8])
    threads = []
    for t in range(n_threads):
        acts = []
        for _ in range(rng.randint(1, 5)):
            n = rng.choice(names)
            acts.append({"act": rng.choices(["run", "config", "sleep", "yield"], [6, 1 if prop == "C03" else 4, 1, 1])[0],
                         "script": n, "dt": rng.choice([0.1, 1.0, 40.0])})
        threads.append(acts)
    loader = rng.choice(["main", "main", "threads", "threads"] if prop == "C03" else ["threads", "threads", "threads", "main"])
    order = list(names)
    rng.shuffle(order)
    if loader == "threads":
        for k, n in enumerate(order):
            a = threads[rng.randrange(n_threads)]
            front = rng.random() < 0.5 or any(s["gen"]["wait"] in (n,) for s in scripts.values())
            a.insert(0 if front else rng.randrange(len(a) + 1), {"act": "load", "script": n})
        for a in threads:
            # Loads of datasets others wait for come first.
            a.sort(key=lambda x: not (x["act"] == "load" and any(s["gen"]["wait"] == x["script"] for s in scripts.values())))
    for n in names:
        # A dataset somebody waits for must be requested by a thread of its own, or the wait could never end.
        if any(s["gen"]["wait"] == n for s in scripts.values()):
            threads.append([{"act": "run", "script": n, "must": True}])
    return {"impl": rng.choice(list(IMPLS)), "mode": "direct", "scripts": scripts, "threads": threads, "loader": loader, "order": order,
            "prepath": rng.choice([None, None, None, rng.choice(names)] if not any(s["load"] == "missing" for s in scripts.values()) else [None]), "reload": rng.random() < 0.15 and prop == "C04",
            "sched": gen_sched(rng)}


def gen_suite_spec(rng):
    return {"impl": rng.choice(["sim", "sim", "en_tb"]), "mode": "suite", "disable": rng.random() < 0.2, "workers": rng.choice([1, 2, 4, 8]),
            "order_seed": rng.getrandbits(32), "fail_p": rng.choice([0, 0, 0.2]), "gen_seed": rng.getrandbits(32), "sched": gen_sched(rng)}


def gen_sched(rng):
    return {"seed": rng.getrandbits(48), "strategy": rng.choice(["random", "random", "pct"]), "p": rng.choice([0.02, 0.1, 0.3, 0.7]),
            "depth": rng.choice([1, 2, 3, 5]), "est": rng.choice([100, 400, 1500]), "granularity": rng.choice(["line", "line", "opcode"])}


def make_sched(spec, switches, trace):
    s = spec["sched"]
    return Sched(random.Random(s["seed"]), s["strategy"], s["p"], s["depth"], s["est"], s["granularity"], trace, switches)


# ---------------------------------------------------------------------------------------------------
# Execution (always in a forked child)
# ---------------------------------------------------------------------------------------------------


def quiet_stdout():
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def run_direct(spec, root, switches):
    import gc
    gc.disable()
    quiet_stdout()
    patch_primitives()
    sys.dont_write_bytecode = True
    impl = os.path.join(REPO, IMPLS[spec["impl"]], "cosim_runner.py")
    sched = make_sched(spec, switches, (os.path.join(REPO, IMPLS[spec["impl"]]), root, "<frozen runpy>"))
    w = World(spec, sched)
    simgen = types.ModuleType("simgen")
    simgen.loaded, simgen.generate, simgen.EXC = w.loaded, w.generate, EXC
    sys.modules["simgen"] = simgen
    dirs = write_scripts(root, spec)
    cls = load_impl(impl)
    if spec["prepath"]:
        sys.path.append(dirs[spec["prepath"]])
    w.base_path = list(sys.path)
    runners, ready = {}, {n: False for n in spec["scripts"]}

    def current_path():
        return [p for p in sys.path if not str(p).startswith("/nonexistent/appended-")]

    def check_path(when):
        if w.loading == 0 and current_path() != w.base_path:
            extra = [p for p in current_path() if p not in w.base_path]
            w.fail("search-path-changed", f"{when} left sys.path changed (extra: {[os.path.basename(p) for p in extra]})")

    def load(n):
        t = sched.me()
        s = spec["scripts"][n]
        w.loading += 1
        if t:
            t.loading = True
        w.ev("load", n)
        try:
            kw = {} if s["module"] == "cosim" else {"module_name": s["module"]}
            r = cls(s.get("disabled", False), dirs[n], **kw)
            w.ev("load_ok", n)
            if s["load"] != "ok":
                w.fail("bad-load-succeeded", f"loading {n} succeeded although its script is {s['load']}")
            runners[n] = r
        except Exception as e:  # noqa: BLE001
            w.ev("load_exc", n, type(e).__name__)
            if s["load"] == "ok":
                w.fail("load-failed", f"loading {n} raised {type(e).__name__}: {e}")
            w.count("load_failure")
        except (KeyboardInterrupt, SystemExit) as e:
            w.ev("load_exc", n, type(e).__name__)
            if s["load"] != type(e).__name__:
                w.fail("load-failed", f"loading {n} raised {type(e).__name__}: {e}")
            w.count("load_failure")
        finally:
            w.loading -= 1
            if t:
                t.loading = False
        check_path(f"loading {n} ({s['load']})")
        ready[n] = True

    def config(n):
        if n not in runners:
            return
        s = spec["scripts"][n]
        n0 = len(w.log)
        try:
            got = runners[n].get_config()
        except Exception as e:  # noqa: BLE001
            w.fail("config-error", f"get_config of {n} raised {type(e).__name__}: {e} (script publishes {s['config']!r})")
            return
        me = sched.me().name if sched.me() else "main"
        if any(e[0] == me and e[1] == "gen_start" for e in w.log[n0:]):
            w.fail("config-generates", f"get_config of {n} generated data")
        if got != s["config"] or type(got) is not type(s["config"]):
            w.fail("wrong-config", f"get_config of {n} returned {got!r}, its script publishes {s['config']!r}")

    def request(n):
        if n not in runners:
            return
        s = spec["scripts"][n]
        w.ev("request", n)
        mark = len(w.log)
        me = sched.me().name
        try:
            ret = runners[n].run()
            w.ev("answer", n, repr(ret))
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == "Abort":
                raise
            w.ev("error", n, type(e).__name__)
            mine = [x for x in w.log[mark:] if x[0] == me and x[1] == "gen_fail" and x[2] == n]
            if not mine:
                w.fail("request-error", f"request for {n} raised {type(e).__name__}: {e} without running a failing generation")
            return
        mine = [x for x in w.log[mark:] if x[0] == me and x[1] in ("gen_fail", "gen_end") and x[2] == n]
        wrong = [x for x in w.log[mark:] if x[0] == me and x[1] == "gen_start" and x[2] != n]
        if wrong:
            w.fail("wrong-script", f"request for {n} generated {wrong[0][2]}")
        if mine and mine[-1][1] == "gen_fail":
            if ret:
                w.fail("failure-swallowed", f"request for {n} answered ready although its generation failed")
            return
        if s.get("disabled"):
            if ret is not True:
                w.fail("disabled-not-ready", f"request for disabled {n} answered {ret!r}")
        elif ret:
            if not w.done.get(n):
                w.fail("ready-too-early", f"request for {n} answered ready before a generation had completed")
            if ret is not True:
                w.fail("not-true", f"request for {n} answered {ret!r} instead of True")
        elif w.done.get(n):
            w.fail("ready-refused", f"request for {n} answered {ret!r} although it is generated")
        else:
            w.fail("ready-refused", f"request for {n} answered {ret!r} without trying to generate")

    def body(acts):
        def fn():
            for a in acts:
                k = a["act"]
                if k == "sleep":
                    sched.sleep(a["dt"])
                elif k == "yield":
                    sched.point(9)
                elif k == "load":
                    load(a["script"])
                else:
                    tries = 0
                    while not ready[a["script"]] and (tries < 50 or a.get("must")):
                        tries += 1
                        sched.sleep(0.5)
                    if ready[a["script"]]:
                        (request if k == "run" else config)(a["script"])
        return fn

    if spec["loader"] == "main":
        for n in spec["order"]:
            load(n)
            config(n)
    loads = {a["script"] for acts in spec["threads"] for a in acts if a["act"] == "load"}
    for n in spec["scripts"]:
        if spec["loader"] != "main" and n not in loads:
            ready[n] = True
    for acts in spec["threads"]:
        sched.spawn(body(acts))
    verdict = sched.run()
    if verdict == "stuck":
        return {"stuck": True}
    if verdict == "deadlock":
        w.fail("deadlock", f"no thread can make progress: {sched.deadlock}")
    elif verdict == "livelock":
        w.fail("no-progress", f"not finished after {sched.step} steps")
    if w.bad is None:
        for t in sched.threads:
            if t.error is not None:
                raise t.error
        check_path("the run")
        for n in spec["scripts"]:
            if n in runners and verdict is None:
                config(n)
        if spec["reload"]:
            for n in spec["order"]:
                load(n)
    return {"bad": w.bad, "switches": sched.switches, "stats": w.stats, "sig": sched.sig, "steps": sched.step, "now": sched.now,
            "preempt": sched.n_preempt, "log": w.log if w.bad else len(w.log)}


# -- the whole run script against a stand-in for VUnit --------------------------------------------------


class Anything:
    """Accepts any attribute and any call."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())


class FakeTest(Anything):
    def __init__(self, tb, name):
        self.tb, self.name, self.configs, self.pre = tb, name, [], None

    def add_config(self, name, generics=None, parameters=None, pre_config=None, post_check=None, **k):
        self.configs.append((name, pre_config))

    def set_pre_config(self, value):
        self.pre = value


class FakeTB(FakeTest):
    def __init__(self, name):
        super().__init__(self, name)
        self.tests = [FakeTest(self, "test")]

    def get_tests(self, pattern="*"):
        return list(self.tests)

    def test(self, name):
        return self.tests[0]


class FakeLib(Anything):
    def __init__(self, name, world):
        self.name, self.world = name, world

    def test_bench(self, name):
        return self.world["tbs"].setdefault(name, FakeTB(name))

    entity = test_bench

    def get_test_benches(self, pattern="*", allow_empty=False):
        return list(self.world["tbs"].values())


class FakeVUnit(Anything):
    def __init__(self, world):
        self.world = world

    def add_library(self, name, **k):
        return FakeLib(name, self.world)

    library = add_library


def override_run(path, ident):
    """Replaces the data generation of a real script by the simulated one, before any top-level 'if __name__ ...'."""
    with open(path) as f:
        src = f.read()
    lines = src.splitlines(keepends=True)
    at = len(lines)
    for node in ast.parse(src).body:
        if isinstance(node, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(node.test)):
            at = node.lineno - 1
            break
    lines[at:at] = [f"\nimport simgen as _simgen\ndef run():\n    _simgen.generate({ident!r})\n"]
    with open(path, "w") as f:
        f.write("".join(lines))


def run_suite(spec, root, switches):
    import gc
    gc.disable()
    quiet_stdout()
    patch_primitives()
    sys.dont_write_bytecode = True
    base = {"sim": "", "en_tb": "lib/en_tb"}[spec["impl"]]
    src = os.path.join(REPO, base)
    dst = os.path.join(root, "tree")
    simdir = os.path.join(dst, "sim")
    shutil.copytree(os.path.join(src, "sim"), simdir, ignore=shutil.ignore_patterns("__pycache__", "vunit_out", "coverage"))
    shutil.copytree(os.path.join(src, "tb"), os.path.join(dst, "tb"))
    idents = []
    for p in sorted(glob.glob(os.path.join(src, "bittrue/cosim/*"))):
        rel = os.path.relpath(p, src)
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(dst, rel))
        elif os.path.exists(os.path.join(p, "cosim.py")):
            os.makedirs(os.path.join(dst, rel))
            ident = os.path.basename(p)
            idents.append(ident)
            for q in glob.glob(os.path.join(p, "*.py")):
                shutil.copy(q, os.path.join(dst, rel))
            override_run(os.path.join(dst, rel, "cosim.py"), ident)
            os.makedirs(os.path.join(dst, rel, "data"))
            with open(os.path.join(dst, rel, "data", "test0_output.txt"), "w") as f:
                f.write("# r[1]\n5\n")
    r = random.Random(spec["gen_seed"])
    scripts = {i: {"disabled": spec["disable"], "gen": {"yields": r.choice([0, 3]), "sleep": r.choice([0, 0, 5.0]),
                                                      "fail": ["OSError"] if r.random() < spec["fail_p"] else []}} for i in idents}
    sched = make_sched(spec, switches, (simdir, "<frozen runpy>"))
    w = World({"scripts": scripts}, sched)
    simgen = types.ModuleType("simgen")
    simgen.generate = w.generate
    sys.modules["simgen"] = simgen
    world = {"tbs": {}}
    vunit = types.ModuleType("vunit")
    import argparse

    class CLI:
        def __init__(self, *a, **k):
            self.parser = argparse.ArgumentParser()

        def parse_args(self, argv=None):
            ns, rest = self.parser.parse_known_args(argv)
            for k, v in (("gui", False), ("output_path", "vunit_out"), ("num_threads", 1), ("xunit_xml", None)):
                if not hasattr(ns, k):
                    setattr(ns, k, v)
            return ns
    fake = FakeVUnit(world)
    vunit.VUnitCLI = CLI
    vunit.VUnit = types.SimpleNamespace(from_args=lambda *a, **k: fake, from_argv=lambda *a, **k: fake)
    sys.modules["vunit"] = vunit
    # What the testbenches read, taken from their own sources.
    needs = {}
    for f in glob.glob(os.path.join(dst, "tb", "*_tb.vhd")):
        with open(f, errors="replace") as fh:
            m = re.search(r"bittrue/cosim/(\w+)/data", fh.read())
        name = os.path.splitext(os.path.basename(f))[0]
        needs[name] = m.group(1) if m else None
        world["tbs"][name] = FakeTB(name)
    cosims = os.path.join(dst, "bittrue/cosim")
    before = sorted(os.path.relpath(os.path.join(d, f), dst) for d, _, fs in os.walk(os.path.join(dst, "bittrue")) for f in fs)
    wants = {}
    if spec.get("loads"):
        import runpy
        keep = list(sys.path)
        for i in idents:
            wants[i] = runpy.run_path(os.path.join(cosims, i, "cosim.py")).get("COSIM_CONFIG")
        sys.path[:] = keep
    sys.argv = ["run.py", "--simulator=ghdl", "--simulator-path=/usr/bin"] + (["--disable-cosim"] if spec["disable"] else [])
    sys.path.insert(0, simdir)
    import runpy
    os.chdir(simdir)
    try:
        runpy.run_path(os.path.join(simdir, "run.py"), run_name="__main__")
    except SystemExit:
        pass
    except Exception as e:  # noqa: BLE001
        w.fail("setup-failed", f"the run script raised {type(e).__name__}: {e}")
    if w.log:
        w.fail("generated-on-load", f"setting up the run script generated data: {w.log[0]}")

    def check_loaded(when):
        here = sorted(os.path.relpath(os.path.join(d, f), dst) for d, _, fs in os.walk(os.path.join(dst, "bittrue")) for f in fs)
        if here != before:
            w.fail("generated-on-load", f"{when} changed files: {sorted(set(here) ^ set(before))[:3]}")
        left = [i for i in idents if os.path.join(cosims, i) in [os.path.normpath(x) for x in sys.path]]
        if left:
            w.fail("search-path-changed", f"{when} left {left} on sys.path")
    check_loaded("setting up the run script")
    if spec.get("loads"):
        cls = load_impl(os.path.join(simdir, "cosim_runner.py"))

        def loader(names):
            def fn():
                for n in names:
                    try:
                        r = cls(False, os.path.join(cosims, n))
                        cfg = r.get_config()
                    except Exception as e:  # noqa: BLE001
                        w.fail("load-failed", f"loading the shipped script {n} raised {type(e).__name__}: {e}")
                        return
                    w.count("shipped_script_loaded")
                    want = wants[n]
                    if cfg != want:
                        w.fail("wrong-config", f"configuration of the shipped script {n} is {cfg!r}, alone it is {want!r}")
            return fn
        order = [n for n in idents for _ in range(spec["loads"])]
        random.Random(spec["order_seed"]).shuffle(order)
        for k in range(spec["workers"]):
            sched.spawn(loader(order[k::spec["workers"]]))
        verdict = sched.run()
        if verdict == "stuck":
            return {"stuck": True}
        if verdict:
            w.fail("deadlock" if verdict == "deadlock" else "no-progress", str(sched.deadlock))
        check_loaded("loading all shipped scripts concurrently")
        if w.log:
            w.fail("generated-on-load", f"loading the shipped scripts generated data: {w.log[0]}")
        return {"bad": w.bad, "switches": sched.switches, "stats": w.stats, "sig": sched.sig, "steps": sched.step, "now": sched.now,
                "preempt": sched.n_preempt, "log": w.log if w.bad else len(w.log)}
    jobs = []
    for name, tb in sorted(world["tbs"].items()):
        if name not in needs:
            continue
        for t in tb.tests:
            cfgs = t.configs or tb.configs or [(None, None)]
            for cn, pre in cfgs:
                jobs.append((name, cn, pre or t.pre or tb.pre))
    random.Random(spec["order_seed"]).shuffle(jobs)

    def call_pre(pre):
        import inspect
        ps = inspect.signature(pre).parameters
        return pre(**{k: "out" for k in ps if k in ("output_path", "simulator_output_path")})

    def worker():
        while jobs:
            name, cn, pre = jobs.pop()
            sched.point(11)
            need = needs[name]
            ok = True
            mark, me = len(w.log), sched.me().name
            if pre is not None:
                try:
                    ok = call_pre(pre) is True
                except (Exception, SystemExit) as e:
                    ok = False
                    mine = [x for x in w.log[mark:] if x[0] == me and x[1] == "gen_fail"]
                    if not mine:
                        w.fail("request-error", f"preparing {name}.{cn} raised {type(e).__name__}: {e}")
                else:
                    mine = [x for x in w.log[mark:] if x[0] == me and x[1] in ("gen_fail", "gen_end")]
                    if mine and mine[-1][1] == "gen_fail":
                        if ok:
                            w.fail("failure-swallowed", f"{name}.{cn} starts although its generation failed")
                    elif not ok:
                        w.fail("ready-refused", f"preparation of {name}.{cn} refuses although nothing failed")
            if ok:
                w.ev("test_start", name, cn)
                w.count("test_started")
                if need and not spec["disable"] and not w.done.get(need):
                    w.fail("test-without-data", f"testbench {name} ({cn}) starts before its dataset {need} is complete"
                           + ("" if pre else " (nothing generates it)"))
            sched.point(12)

    for _ in range(spec["workers"]):
        sched.spawn(worker)
    verdict = sched.run()
    if verdict == "stuck":
        return {"stuck": True}
    if verdict:
        w.fail("deadlock" if verdict == "deadlock" else "no-progress", str(sched.deadlock))
    elif w.bad is None:
        for t in sched.threads:
            if t.error is not None:
                raise t.error
    return {"bad": w.bad, "switches": sched.switches, "stats": w.stats, "sig": sched.sig, "steps": sched.step, "now": sched.now,
            "preempt": sched.n_preempt, "log": w.log if w.bad else len(w.log)}


def execute(spec, scratch, tag, switches=None):
    root = os.path.join(scratch, f"run-{tag}")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        r = forkrun.call(run_direct if spec["mode"] == "direct" else run_suite, spec, root, switches, timeout=90.0)
    except forkrun.ChildFailed as e:
        raise HarnessError(str(e))
    except forkrun.ChildStuck as e:
        raise HarnessError(str(e))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r.get("stuck"):
        raise HarnessError("a simulated thread blocked outside the simulated primitives")
    return r


def generate(seed, prop, i):
    rng = rng_for(seed, prop, i)
    if i % (12 if prop == "C03" else 20) == 5:
        s = gen_suite_spec(rng)
        if prop == "C04":
            s["loads"] = rng.choice([1, 2])
        return s
    return gen_spec(rng, prop)
