"""C15..C17: exceptions, deferred cleanups, protected pointers (spec/Except.tla, ExceptImpl.tla, ExceptTrace.tla)."""
import os
import vlib

def run(c, profile, n, models, bad, needs):
    for m in models[1] if c.thorough else models[0]:
        c.model("ExceptImpl", m)
    for cfg in bad:
        c.model("ExceptImpl", cfg, expect_error="Invariant Conform is violated")
    os.environ["PROFILE"] = str(profile)
    tr = c.conform("drv_except", "ExceptTrace", "ExceptTrace.cfg", n * 8 if c.thorough else n)
    seen = {}
    for t in tr:
        for e in t["ev"]:
            seen[e["e"]] = seen.get(e["e"], 0) + 1
    c.details["events_by_kind"] = seen
    for k in needs:
        c.require(c.violations or seen.get(k, 0) > 60, "only %d %s events" % (seen.get(k, 0), k))
    c.assumptions += ["exceptions raised inside a deferred cleanup or a release function are not generated",
                      "one thread; signals turned into exceptions are raised synchronously (SIGFPE, SIGILL)"]
