import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from pysim import random_sim as body


def run(c):
    body.run(c, n_sess=c.budget(2500, 150000), n_ent=c.budget(2000, 60000), n_dist=c.budget(600, 20000), n_kept=c.budget(300, 10000))


c = Check("C11")
main(c, run, lambda c, o: body.replay(c, o))
