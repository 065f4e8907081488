import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from rtlsim import check as body

PROFILE = {1: ("stream", True), 2: ("reset", False)}[2]


def run(c):
    body.run(c, PROFILE[0], PROFILE[1], batches=c.budget(160, 3000), n_nodes=40, beats=120)


c = Check("C02")
main(c, run, body.replay)
