import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("DequeImpl", "MCDeque2.cfg" if c.thorough else "MCDeque.cfg")
    for bad in ("Top", "Fence", "Free", "Wrap"):
        c.model("DequeImpl", "MCDequeBad%s.cfg" % bad, expect_error="Invariant Clean is violated")
    tr = c.conform("drv_deque", "DequeTrace", "DequeTrace.cfg", 2000 if c.thorough else 240, build_kw={"extra_src": ("vsched.c",)})
    runs = sum(e["e"] == "run" for t in tr for e in t["ev"])
    aborts = sum(e["e"] == "ret" and e["v"] == 255 for t in tr for e in t["ev"])
    c.details["histories"] = runs
    c.details["contended_steals"] = aborts
    c.require(c.violations or (runs > 3000 and aborts > 100), "%d histories, %d contended" % (runs, aborts))
    c.assumptions += ["one owner at a time (that callers keep to this is part of C11)",
                      "memory model of the runs: x86-TSO; the thorough tier alternates with partial store order"]

vlib.main("C12", run)
