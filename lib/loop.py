"""C01..C05: event loops of one thread (spec/Loop.tla, LoopImpl.tla, SigImpl.tla, LoopTrace.tla)."""
import vlib

def run(c, n, models, bad, needs, extra=None):
    for m in models[1] if c.thorough else models[0]:
        c.model(m[0], m[1])
    for m, cfg, err in bad:
        c.model(m, cfg, expect_error=err)
    tr = c.conform("drv_loop", "LoopTrace", "LoopTrace_%s.cfg" % c.prop, n * 8 if c.thorough else n, build_kw={"extra_src": ("vtime.c",)})
    seen = {}
    for t in tr:
        for e in t["ev"]:
            seen[e["e"]] = seen.get(e["e"], 0) + 1
    c.details["events_by_kind"] = seen
    for k in needs:
        c.require(c.violations or seen.get(k, 0) > 300, "only %d %s events" % (seen.get(k, 0), k))
    if extra:
        extra(c)
    c.assumptions += ["clock reads of the library are served by the driver (virtual time); epoll_wait never sleeps",
                      "loops of one thread; the EPOLLET readiness reported by the kernel is level-checked with poll(2) when the loop collects events",
                      "a descriptor of the same number as a registered signal is not removed inside a signal callback"]
