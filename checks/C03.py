import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, loop
vlib.main("C03", lambda c: loop.run(c, 1500, ([("LoopImpl", "MCLoopTm.cfg")], [("LoopImpl", "MCLoopTm2.cfg")]),
    [("LoopImpl", "MCLoopBadLink.cfg", "timer")],
    ["tm", "arm", "rearm", "clear"]))
