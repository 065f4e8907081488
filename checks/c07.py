import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, digest, main
from pysim import dataset_sim, formats_sim
from vhdlsim import check as vhdl

c = Check("C07")
c.dir = dataset_sim.reexec_with_shim("C07")
os.environ.pop("LD_PRELOAD", None)          # only this process and its forks run under the shim


def run(c):
    formats_sim.prepare(c)
    w = formats_sim.histories(c, c.budget(3000, 200000))
    vhdl.prepare(c)
    t = vhdl.histories(c, "fmt", c.budget(1000, 60000))
    c.cov = vhdl.coverage(c, t, "fmt")
    c.cov.update({
        "evaluations": t["runs"] + w["runs"], "distinct_nontrivial": len(t["sigs"]) + len(w["sigs"]),
        "rule": "VHDL half: " + c.cov["rule"] + ". Python half: one run = one history of format-list writes by 1-3 threads under seeded schedules and "
                "failing file operations; distinct = different operations, faults and interleaving; non-trivial = at least one list written and checked",
        "seeds": t["runs"] + w["runs"], "seeds_per_hour": int((t["runs"] + w["runs"]) / max(c.elapsed(), 1e-9) * 3600),
        "faults_injected": {**t["faults"], **{"writer: " + k: v for k, v in w["faults"].items()}},
        "writer_histories_by_threads": w["threads"], "writer_operations": w["ops"], "writer_lists_checked": w["writes"], "writer_scheduler_steps": w["steps"],
        "log_digest": digest((t["digest"], w["digest"])),
        "real_components": c.cov["real_components"] + ["CPython file layer"],
        "stub_components": c.cov["stub_components"] + ["file system errors (pysim/fsshim.c)", "thread scheduler"],
    })
    c.assumptions = list(vhdl.ASSUMPTIONS) + ["two threads never write the same file at the same time"]


def replay(c, o):
    if "spec" in o:
        formats_sim.prepare(c)
        return formats_sim.replay(c, o)
    sys.path.insert(0, __import__("simlib.core").core.PY_MODEL)
    return vhdl.replay(c, o)


main(c, run, replay)
