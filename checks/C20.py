import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll", "async_udp")

def run(c):
    c.model("DgramImpl", "MCDgT.cfg" if c.thorough else "MCDgQ.cfg")
    for bad in ("Empty", "One"):
        c.model("DgramImpl", "MCDgBad%s.cfg" % bad, expect_error="emporal propert")
    for bad, inv in (("Last", "Own"), ("Shared", "Own"), ("Trunc", "Packet"), ("Own", "Packet")):
        c.model("DgramImpl", "MCDgBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv)
    tr = c.conform("drv_udp", "DgramTrace", "DgramTrace.cfg", 8000 if c.thorough else 700, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    n = {k: sum(e["e"] == k for t in tr for e in t["ev"]) for k in ("socket", "send", "reply", "sent", "got", "look", "peek", "aim")}
    empty = sum(e["e"] == "got" and e["r"] == 0 for t in tr for e in t["ev"])
    big = sum(e["e"] == "got" and e["r"] > 50000 for t in tr for e in t["ev"])
    c.details["events"] = n
    c.details["empty_received"], c.details["longer_than_50000_received"] = empty, big
    c.require(c.violations or (min(n.values()) > 20 and empty > 20 and big > 20), "%s, %d empty, %d big" % (n, empty, big))
    c.assumptions += ["memory model of the runs: sequentially consistent", "IPv4 on the loopback network; what the system loses or reorders itself is not the library's"]

vlib.main("C20", run)
