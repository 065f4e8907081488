import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from pysim import dataset_sim as body

body.reexec_with_shim()
c = Check("C05")
main(c, lambda c: body.run(c, n=c.budget(1500, 100000)), lambda c, o: body.replay(c, o))
