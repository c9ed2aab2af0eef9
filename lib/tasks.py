"""C06..C10: cooperative tasks of one thread (spec/Tasks.tla, TasksImpl.tla, TasksTrace.tla)."""
import os, vlib

def run(c, profile, n, needs):
    c.model("TasksImpl", "MCTasksGhost2.cfg" if c.thorough else "MCTasksGhost.cfg")
    c.model("TasksImpl", "MCTasksLive2.cfg" if c.thorough else "MCTasksLive.cfg")
    c.model("TasksImpl", "MCTasksLinkBug.cfg", expect_error="Invariant NoneLost is violated")
    if profile is not None:
        os.environ["PROFILE"] = str(profile)
    tr = c.conform("drv_tasks", "TasksTrace", "TasksTrace_%s.cfg" % c.prop, n * 8 if c.thorough else n, build_kw={"extra_src": ("vtime.c",)})
    seen = {}
    for t in tr:
        for e in t["ev"]:
            seen[e["e"]] = seen.get(e["e"], 0) + 1
    c.details["events_by_kind"] = seen
    for k in needs:
        c.require(c.violations or seen.get(k, 0) > 100, "only %d %s events" % (seen.get(k, 0), k))
    c.assumptions += ["clock reads of the library are served by the driver (virtual time)", "one thread; the pool threads are covered by C11-C14",
                      "programs without waiting cycles"]
