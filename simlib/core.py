"""Shared plumbing of all checks: seeds, scratch space, worker pool, evidence, violations, replay."""
import hashlib
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_MODEL = os.path.join(REPO, "bittrue/models/python")
REPLAY_DIR = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
NPROC = min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    """The check itself could not do its work (never reported as a violation)."""


def scratch(prefix="enclfix-"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 512 * 1024 * 1024:
            base = None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def sub_seed(*parts):
    """Stable 63-bit seed derived from its arguments (independent of PYTHONHASHSEED)."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng_for(*parts):
    return random.Random(sub_seed(*parts))


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "open":
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, prop, argv=None):
        argv = list(sys.argv[1:] if argv is None else argv)
        self.prop = prop
        self.replay = None
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--replay" in argv:
            self.replay = argv[argv.index("--replay") + 1]
        elif argv and argv[0] in ("quick", "thorough"):
            self.tier = argv[0]
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.workers = int(os.environ.get("VERIF_WORKERS", str(NPROC)))
        self.scale = float(os.environ.get("VERIF_SCALE", "1"))
        self.t0 = time.time()
        self.dir = None
        self.violations = []
        self.known_hits = []
        self.cov = {}
        self.assumptions = []

    def budget(self, quick, thorough):
        return int((quick if self.tier == "quick" else thorough) * self.scale) or 1

    def elapsed(self):
        return time.time() - self.t0

    def mkscratch(self):
        if self.dir is None:
            self.dir = scratch(f"enclfix-{self.prop}-")
        return self.dir

    # -- results ---------------------------------------------------------------------------------
    def matches_known(self, kind, detail):
        for k in known_findings(self.prop):
            if re.search(k["match"], f"{kind}: {detail}"):
                return k
        return None

    def violation(self, kind, detail, replay_obj):
        """Record one violation; replay_obj is everything needed to re-run it."""
        k = self.matches_known(kind, detail)
        if k is not None:
            if k["what"] not in self.known_hits:
                self.known_hits.append(k["what"])
            return
        os.makedirs(REPLAY_DIR, exist_ok=True)
        obj = {"property": self.prop, "kind": kind, "detail": detail, "seed": self.seed, "replay": replay_obj}
        path = os.path.join(REPLAY_DIR, f"{self.prop}-{digest(obj)}.json")
        with open(path, "w") as f:
            json.dump(obj, f, indent=1, default=str)
        self.violations.append((kind, detail, path))

    def write_evidence(self, level="exploration"):
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": self.cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(d, f, indent=1, default=str)
        os.replace(tmp, path)

    def finish(self):
        wall = max(time.time() - self.t0, 1e-9)
        n = self.cov.get("evaluations", 0)
        self.cov.setdefault("runs_per_hour", int(n / wall * 3600))
        self.write_evidence()
        for what in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for kind, detail, path in self.violations[:5]:
            print(f"  {kind}: {detail}")
        if self.violations:
            for kind, detail, path in self.violations[:5]:
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} seed={self.seed} evaluations={n} "
              f"distinct={self.cov.get('distinct_nontrivial', 0)} wall={wall:.1f}s")
        return 0

    def cleanup(self):
        if self.dir and os.path.isdir(self.dir) and self.dir.split("/")[-1].startswith("enclfix-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def main(check, run, replay):
    """Run a check body; harness exceptions are errors (exit 2), never violations."""
    rc = 2
    try:
        if check.replay:
            with open(check.replay) as f:
                obj = json.load(f)
            res = replay(check, obj["replay"])
            if res:
                kind, detail = res
                print(f"  {kind}: {detail}")
                same = (kind == obj["kind"])
                print(f"REPRODUCED property={check.prop} same_class={same}")
                rc = 1
            else:
                print(f"NOT-REPRODUCED property={check.prop}")
                rc = 0
        else:
            print(f"seed={check.seed} tier={check.tier} property={check.prop}", flush=True)
            run(check)
            rc = check.finish()
    except Exception:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={check.prop}")
        rc = 2
    finally:
        check.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def ddmin(items, fails, max_tests=400):
    """Classic delta debugging: smallest sublist (1-minimal up to max_tests) for which fails() holds."""
    tests = 0
    n = 2
    items = list(items)
    while len(items) >= 2:
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            trial = items[:i] + items[i + chunk:]
            tests += 1
            if tests > max_tests:
                return items
            if trial and fails(trial):
                items = trial
                n = max(n - 1, 2)
                reduced = True
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items
