import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
TS = ("future", "events", "except", "arrays", "async_io", "os_unix", "epoll")

def run(c):
    for mod, cfg in ((("PoolImpl", "MCPool.cfg"), ("PoolImpl", "MCPool23.cfg"), ("GroupImpl", "MCGrp.cfg"), ("GroupImpl", "MCGrp3.cfg")) if c.thorough
                     else (("PoolImpl", "MCPoolQ.cfg"), ("GroupImpl", "MCGrpQ.cfg"))):
        c.model(mod, cfg)
    for bad, inv in (("Table", "NoUse"), ("Keep", "NoUse"), ("Push", "Kept"), ("Back", "NoUse"), ("Touch", "NoUse")):
        c.model("PoolImpl", "MCPoolBad%s.cfg" % bad, expect_error="Invariant %s is violated" % inv if bad != "Push" else "is violated")
    c.model("GroupImpl", "MCGrpBadOne.cfg", expect_error="is violated")
    c.model("GroupImpl", "MCGrpBadCount.cfg", expect_error="Invariant NoUse is violated")
    c.model("GroupImpl", "MCGrpBadTake.cfg", expect_error="emporal propert")
    tr = c.conform("drv_pool", "PoolTrace", "PoolTrace.cfg", 8000 if c.thorough else 600, build_kw={"extra_src": ("rsched.c", "vtime.c"), "tsan": TS})
    ran = sum(e["e"] == "run" for t in tr for e in t["ev"])
    groups = sum(e["e"] == "waited" for t in tr for e in t["ev"])
    got = sum(e["e"] == "got" for t in tr for e in t["ev"])
    nested = sum(any(e["e"] == "run" and e["th"] != 0 for e in t["ev"]) and any(e["e"] == "group" and e["by"] > 0 for e in t["ev"]) for t in tr)
    c.details.update(tasks_run=ran, groups_waited_for=groups, results_obtained=got, scenarios_with_groups_of_other_tasks=nested)
    c.require(c.violations or (ran > 9000 and groups > 300 and got > 5000), "%d tasks, %d groups, %d results" % (ran, groups, got))
    c.assumptions += ["memory model of the runs: sequentially consistent", "the allocator's own steps are not interleaved here (see C24)"]

vlib.main("C11", run)
