import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, loop
def ran(c):
    c.conform("drv_tasks", "TasksTrace", "TasksTrace_C04.cfg", 2400 if c.thorough else 300, build_kw={"extra_src": ("vtime.c",)})
vlib.main("C04", lambda c: loop.run(c, 1500, ([("LoopImpl", "MCLoopTm.cfg"), ("LoopImpl", "MCLoopFd.cfg")], [("LoopImpl", "MCLoopTm2.cfg"), ("LoopImpl", "MCLoopFd2.cfg")]),
    [("LoopImpl", "MCLoopBadLink.cfg", "timer")],
    ["run", "turned", "sadd", "task"], ran))
