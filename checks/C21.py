import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll")

def run(c):
    c.model("CopyImpl", "MCCopy.cfg")
    for cfg in (("MCFsQ.cfg", "MCFsL.cfg", "MCFsF.cfg") if c.thorough else ("MCFsF.cfg",)):
        c.model("FsImpl", cfg)
    c.model("CopyImpl", "MCCopyBadTwice.cfg", expect_error="Invariant Same is violated")
    c.model("CopyImpl", "MCCopyBadSpin.cfg", expect_error="emporal propert")
    for bad in ("Last", "Errno"):
        c.model("FsImpl", "MCFsBad%s.cfg" % bad, expect_error="Invariant Told is violated")
    tr = c.conform("drv_fs", "FsTrace", "FsTrace.cfg", 6000 if c.thorough else 1200, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    ops = {}
    for t in tr:
        for e in t["ev"]:
            if e["e"] == "call":
                ops[e["q"]["op"]] = ops.get(e["q"]["op"], 0) + 1
    cut = sum(e["e"] == "cut" for t in tr for e in t["ev"])
    big = sum(e["e"] == "big" for t in tr for e in t["ev"])
    c.details["operations"] = ops
    c.details["copied_while_cut"] = cut
    c.details["huge_counts"] = big
    c.require(c.violations or (len(ops) == 26 and min(ops.values()) >= 20 and big >= 3), "operations %s, %d huge counts" % (ops, big))
    c.assumptions += ["memory model of the runs: sequentially consistent", "errors of the disk itself (full, failing) are not produced"]

vlib.main("C21", run)
