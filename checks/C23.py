import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("WatchImpl", "MCWaT.cfg" if c.thorough else "MCWaQ.cfg")
    for bad, err in (("NoReg", "AllReported"), ("OneRead", "AllReported"), ("Flag", "AllReported"), ("Stale", "AllReported"), ("Parallel", "InOrder"), ("Wd", "InOrder"), ("OneHandler", "InOrder"), ("CloseAll", "Kept")):
        c.model("WatchImpl", "MCWaBad%s.cfg" % bad, expect_error="%s was violated" % err if err == "AllReported" else "Invariant %s is violated" % err)
    tr = c.conform("drv_watch", "WatchTrace", "WatchTrace.cfg", 6000 if c.thorough else 400)
    ev = [e for t in tr for e in t["ev"]]
    n = {k: sum(e["e"] == k for e in ev) for k in ("watch", "one", "change", "report", "remove", "close", "ended", "settled", "whole")}
    kinds = {k: sum(e["e"] == "report" and e["k"] == k for e in ev) for k in "ARM"}
    below = sum(e["e"] == "report" and e["root"] == 0 for e in ev)
    c.details["events"], c.details["kinds"], c.details["in_directories_below"] = n, kinds, below
    c.require(c.violations or (min(n.values()) > 20 and min(kinds.values()) > 100 and below > 100), "%s %s %d" % (n, kinds, below))
    c.assumptions += ["the file system and its reports (inotify) are the real ones; moved and changed directories' own attributes are left out",
                      "what is to be reported must have been reported 20 s later"]

vlib.main("C23", run)
