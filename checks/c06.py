import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib.core import Check, main
from vhdlsim import check as body

c = Check("C06")
main(c, lambda c: body.run(c, "data", c.budget(5000, 120000)), lambda c, o: body.replay(c, o))
