import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("SpawnImpl", "MCSpT.cfg" if c.thorough else "MCSpQ.cfg")
    c.model("SpawnImpl", "MCSpBadNoRead.cfg", expect_error="emporal propert")
    for bad, inv in (("Lossy", "Reported"), ("NoDrain", "Reported"), ("Slot", ""), ("Failed", "Reported")):
        c.model("SpawnImpl", "MCSpBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv if inv else "is violated")
    tr = c.conform("drv_spawn", "ChildTrace", "ChildTrace.cfg", 6000 if c.thorough else 700)
    n = {k: sum(e["e"] == k for t in tr for e in t["ev"]) for k in ("spawn", "out", "exit", "finish", "wait", "nofork")}
    full = sum(e["e"] == "out" and e["n"] > 30000 for t in tr for e in t["ev"])
    sig = sum(e["e"] == "exit" and e["g"] > 0 for t in tr for e in t["ev"])
    c.details["events"], c.details["ended_by_signal"], c.details["pieces_longer_than_30000"] = n, sig, full
    c.require(c.violations or (min(n.values()) > 20 and full > 20 and sig > 20), "%s, %d long pieces, %d signals" % (n, full, sig))
    c.assumptions += ["processes and time are real: how far a child is at a given moment is not decided by the check, what it writes and how it ends is"]

vlib.main("C22", run)
