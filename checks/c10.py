import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from pysim import model_sim as body


def run(c):
    body.run(c, "C10", n=c.budget(3000, 150000), n_long=c.budget(160, 6000))


c = Check("C10")
main(c, run, lambda c, o: body.replay(c, o))
