import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("LockImpl", "MCLock.cfg")
    if c.thorough: c.model("LockImpl", "MCLock2.cfg")
    for bad, inv in (("Split", "Mutex"), ("Plain", "Counted"), ("Toggle", "Mutex")):
        c.model("LockImpl", "MCLockBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv)
    tr = c.conform("drv_lock", "LockTrace", "LockTrace.cfg", 1600 if c.thorough else 240, build_kw={"extra_src": ("vsched.c",)})
    runs = sum(e["e"] == "run" for t in tr for e in t["ev"])
    ref = sum(e["e"] == "refused" for t in tr for e in t["ev"])
    c.details["histories"] = runs
    c.details["refused_tries"] = ref
    c.require(c.violations or (runs > 3000 and ref > 100), "%d histories, %d refused" % (runs, ref))
    c.assumptions += ["memory model of the runs: x86-TSO"]

vlib.main("C25", run)
