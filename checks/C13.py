import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll")

def run(c):
    for cfg in (("MCQue.cfg", "MCQue5.cfg") if c.thorough else ("MCQueQ.cfg",)):
        c.model("QueueImpl", cfg)
    for bad, inv in (("Watch", "NoUse"), ("Args", "NoUse"), ("Guard", "Alive"), ("Count", "NoUse"), ("Lock", "NoUse")):
        c.model("QueueImpl", "MCQueBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv)
    tr = c.conform("drv_queue", "QueueTrace", "QueueTrace.cfg", 12000 if c.thorough else 1500, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    ran = sum(e["e"] == "run" for t in tr for e in t["ev"])
    raised = sum(e["e"] == "got" and e["kind"] == "x" for t in tr for e in t["ev"])
    waited = sum(e["e"] == "waited" for t in tr for e in t["ev"])
    c.details["jobs_run"] = ran
    c.details["exceptions_handed_over"] = raised
    c.details["waits_for_several"] = waited
    c.require(c.violations or (ran > 5000 and raised > 500 and waited > 200), "%d jobs, %d exceptions, %d waits" % (ran, raised, waited))
    c.assumptions += ["memory model of the runs: sequentially consistent", "the allocator's own steps are not interleaved here (see C24)"]

vlib.main("C13", run)
