import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    for cfg in (("MCRp.cfg", "MCRp2.cfg") if c.thorough else ("MCRpQ.cfg",)):
        c.model("RpImpl", cfg)
    for bad in ("Count", "Wait", "Reset", "Once", "Clear"):
        c.model("RpImpl", "MCRpBad%s.cfg" % bad, expect_error="is violated")
    tr = c.conform("drv_heap", "HeapTrace", "HeapTrace.cfg", 3000 if c.thorough else 320,
                   build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": ("rpmalloc",)})
    blocks = sum(e["e"] == "got" and e["a"] >= 0 for t in tr for e in t["ev"])
    held = sum(e["e"] in ("got", "still") and e.get("fail", 0) > 0 for t in tr for e in t["ev"])
    odd = sum(e["e"] == "absurd" for t in tr for e in t["ev"])
    c.details["blocks_handed_out"] = blocks
    c.details["without_memory"] = held
    c.details["absurd_requests"] = odd
    c.require(c.violations or (blocks > 8000 and held > 20 and odd > 50), "%d blocks, %d without memory, %d absurd" % (blocks, held, odd))
    c.assumptions += ["memory model of the runs: sequentially consistent",
                      "a failing memory source is exercised on one thread only (the page-mapping callbacks are the driver's)"]

vlib.main("C24", run)
