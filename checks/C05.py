import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, loop
vlib.main("C05", lambda c: loop.run(c, 1500, ([("SigImpl", "MCSig.cfg")], [("SigImpl", "MCSig2.cfg")]),
    [("SigImpl", "MCSigBadOpen.cfg", "Invariant Alive is violated"), ("SigImpl", "MCSigBadFree.cfg", "Invariant Agree is violated")],
    ["sig", "sadd", "sdel", "raise", "disp"]))
