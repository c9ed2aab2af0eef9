import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, except_
vlib.main("C15", lambda c: except_.run(c, 0, 2500, (['MCExcQ.cfg','MCExc2Q.cfg'], ['MCExc.cfg','MCExc2.cfg']), ['MCExcBadTwice.cfg','MCExcBadErr.cfg','MCExcBadShare.cfg'], ['catch','fin','rethrow','if','after','yield','msg']))
