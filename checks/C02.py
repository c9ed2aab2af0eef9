import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, loop
vlib.main("C02", lambda c: loop.run(c, 1500, ([("LoopImpl", "MCLoopTo.cfg")], [("LoopImpl", "MCLoopTo2.cfg")]),
    [("LoopImpl", "MCLoopBadWheel.cfg", "timeout"), ("LoopImpl", "MCLoopBadNow.cfg", "timeout")],
    ["tocb", "sto", "add", "del"]))
