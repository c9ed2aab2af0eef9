import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, except_
vlib.main("C16", lambda c: except_.run(c, 1, 2500, (['MCExcGuardQ.cfg'], ['MCExcGuard.cfg','MCExc2.cfg']), ['MCExcBadGuard.cfg'], ['defer','clean','recover','guard','yield']))
