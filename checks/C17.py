import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, except_
vlib.main("C17", lambda c: except_.run(c, 2, 2500, (['MCExcPtrQ.cfg'], ['MCExcPtr.cfg','MCExc2.cfg']), ['MCExcBadNull.cfg','MCExcBadShare.cfg'], ['prot','pset','unprot','rel','yield']))
