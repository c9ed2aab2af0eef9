import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll", "async_uds")

def run(c):
    c.model("StreamImpl", "MCStrT.cfg" if c.thorough else "MCStrQ.cfg")
    for bad in ("Replace", "Err", "One"):
        c.model("StreamImpl", "MCStrBad%s.cfg" % bad, expect_error="emporal propert")
    for bad, inv in (("Again", "InOrder"), ("Short", "Whole"), ("Eof", "Whole")):
        c.model("StreamImpl", "MCStrBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv)
    tr = c.conform("drv_stream", "StreamTrace", "StreamTrace.cfg", 12000 if c.thorough else 1200, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    n = {k: sum(e["e"] == k for t in tr for e in t["ev"]) for k in ("link", "accepted", "connected", "refused", "wret", "rret", "odd")}
    byt = sum(e["r"] for t in tr for e in t["ev"] if e["e"] == "rret" and e["r"] > 0)
    fail = sum(e["r"] < 0 for t in tr for e in t["ev"] if e["e"] == "wret")
    c.details["events"] = n
    c.details["bytes_read"] = byt
    c.details["failed_writes"] = fail
    c.require(c.violations or (min(n.values()) > 20 and byt > 200000 and fail > 20), "%s, %d bytes, %d failed writes" % (n, byt, fail))
    c.assumptions += ["memory model of the runs: sequentially consistent", "the signal SIGPIPE is kept out: a write to an end nobody reads answers EPIPE"]

vlib.main("C19", run)
