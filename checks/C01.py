import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, loop
vlib.main("C01", lambda c: loop.run(c, 1500, ([("LoopImpl", "MCLoopFd.cfg")], [("LoopImpl", "MCLoopFdT.cfg"), ("LoopImpl", "MCLoopFd2.cfg")]),
    [("LoopImpl", "MCLoopBadGen.cfg", "descriptor callback"), ("LoopImpl", "MCLoopBadMask.cfg", "descriptor callback")],
    ["cb", "add", "del", "set", "scb", "ask", "poll"]))
