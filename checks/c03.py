import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from pysim import runner_check as body


def run(c):
    body.run(c, "C03", n=c.budget(6000, 200000))


c = Check("C03")
main(c, run, body.replay)
