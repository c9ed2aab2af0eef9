import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("FdTableImpl", "MCFdTable.cfg" if c.thorough else "MCFdTableQ.cfg")
    for bad in ("Lock", "Stamp", "Scan"):
        c.model("FdTableImpl", "MCFdTableBad%s.cfg" % bad, expect_error="Invariant %s is violated" % {"Lock": "MapsBack", "Stamp": "MapsBack", "Scan": "Answered"}[bad])
    tr = c.conform("drv_fdtab", "FdTableTrace", "FdTableTrace.cfg", 800 if c.thorough else 128, build_kw={"extra_src": ("vsched.c",), "tsan": ("os_unix",)})
    runs = sum(e["e"] == "run" for t in tr for e in t["ev"])
    full = sum(e["e"] == "new" and e["p"] < 0 for t in tr for e in t["ev"])
    c.details["histories"] = runs
    c.details["refused_when_full"] = full
    c.require(c.violations or (runs > 1000 and full > 20), "%d histories, %d refusals" % (runs, full))
    c.assumptions += ["memory model of the concurrent runs: x86-TSO"]

vlib.main("C26", run)
