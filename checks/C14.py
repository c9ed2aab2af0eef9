import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll")

def run(c):
    c.model("FutureImpl", "MCFut.cfg" if c.thorough else "MCFutQ.cfg")
    for bad, inv in (("Err", "Own"), ("Join", "Own"), ("Hook", "Own"), ("Done", "DoneAfter")):
        c.model("FutureImpl", "MCFutBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv)
    tr = c.conform("drv_fut", "FutureTrace", "FutureTrace.cfg", 12000 if c.thorough else 1600, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    ran = sum(e["e"] == "run" for t in tr for e in t["ev"])
    raised = sum(e["e"] == "got" and e["kind"] == "x" for t in tr for e in t["ev"])
    c.details["threads_run"] = ran
    c.details["exceptions_handed_over"] = raised
    c.require(c.violations or (ran > 4000 and raised > 1000), "%d threads, %d exceptions" % (ran, raised))
    c.assumptions += ["memory model of the runs: sequentially consistent", "the allocator's own steps are not interleaved here (see C24)"]

vlib.main("C14", run)
