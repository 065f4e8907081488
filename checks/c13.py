import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from pysim import dataset_sim
from vhdlsim import cosim as body

c = Check("C13")
c.dir = dataset_sim.reexec_with_shim("C13")
main(c, lambda c: body.run(c, c.budget(1200, 60000), c.budget(24, 600), c.budget(3, 40)), lambda c, o: body.replay(c, o))
