"""Compile the repository's VHDL with real GHDL and the real VUnit core library into a scratch directory."""
import glob
import os
import re

from rtlsim.rtl import ghdl
from simlib.core import REPO, HarnessError

FLAGS = ["--std=08", "-frelaxed", "--warn-no-hide", "--warn-no-specs", "--warn-no-unused", "--warn-no-shared", "--warn-no-delayed-checks"]


def vunit_dir():
    import vunit
    return os.path.join(os.path.dirname(vunit.__file__), "vhdl")


VC_STUB = """library ieee;
package vc_stub_pkg is
    constant vc_stub_c : boolean := true;
end package;
context vc_context is
    library vunit_lib;
    use vunit_lib.vc_stub_pkg.all;
end context;
"""


def osvvm_files(v):
    """RandomPkg and what it needs, in the order of OSVVM's own dependency (GHDL sorts them anyway)."""
    return sorted(f for f in glob.glob(os.path.join(v, "osvvm", "*.vhd")))


def vunit_files(outdir, with_osvvm):
    v = vunit_dir()
    out = []
    for root, _, names in os.walk(v):
        rel = os.path.relpath(root, v)
        if "/src" not in "/" + rel or rel.split(os.sep)[0] in ("osvvm", "verification_components", "JSON-for-VHDL", "random", "com"):
            continue
        for n in sorted(names):
            if not n.endswith(".vhd"):
                continue
            if re.search(r"(-93|_93|-2002p|-2008m|-2019p|2019)", n) and not re.search(r"(body-2002p|2008m)\.vhd$", n):
                continue
            if "vhpi" in n or "stub" in n:
                continue
            out.append(os.path.join(root, n))
    stub = os.path.join(outdir, "vc_stub.vhd")
    with open(stub, "w") as f:
        f.write(VC_STUB)
    out += [os.path.join(v, "vunit_context.vhd"), os.path.join(v, "vunit_run_context.vhd"), stub]
    return out


def run(args, cwd):
    p = ghdl(args, cwd, timeout=800)
    if p.returncode:
        raise HarnessError("GHDL failed: " + " ".join(args[:3]) + " ... " + p.stdout[-3000:])


def imports(outdir, osvvm=False):
    """Import VUnit core, OSVVM (optional) and the en_tb library."""
    os.makedirs(outdir, exist_ok=True)
    run(["-i"] + FLAGS + ["--work=vunit_lib"] + vunit_files(outdir, osvvm), outdir)
    if osvvm:
        run(["-i"] + FLAGS + ["--work=osvvm"] + osvvm_files(vunit_dir()), outdir)
    run(["-i"] + FLAGS + ["--work=en_tb"] + sorted(glob.glob(os.path.join(REPO, "lib/en_tb/hdl/*.vhd"))), outdir)


def make(outdir, work, files, tops):
    """Analyse files (plus the repository's hdl and tb/util) into library work and link each top; returns {top: exe}."""
    src = sorted(glob.glob(os.path.join(REPO, "hdl", "*.vhd"))) + sorted(glob.glob(os.path.join(REPO, "tb/util/*.vhd")))
    run(["-i"] + FLAGS + ["--work=" + work] + (src if work == "lib" else []) + list(files), outdir)
    for t in tops:
        # Linked statically: a failing run of a dynamic executable spends most of its time on the debug information of libc, for its backtrace.
        p = ghdl(["-m"] + FLAGS + ["--work=" + work, "-Wl,-static", t], outdir, timeout=800)
        if p.returncode:
            run(["-m"] + FLAGS + ["--work=" + work, t], outdir)
    return {t: os.path.join(outdir, t) for t in tops}
