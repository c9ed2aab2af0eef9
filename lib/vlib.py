"""Machinery shared by all checks: build drivers from /repo's working tree, record traces from
the real code, run TLC on the design models and on the recorded traces, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBSRC = ["rpmalloc", "future", "events", "except", "arrays", "async_io", "async_udp", "async_uds", "os_unix", "epoll"]
CFLAGS = ["-g", "-std=gnu90", "-D", "USE_DEBUG", "-D", "ENABLE_ASSERTS", "-fno-strict-aliasing", "-w",
          "-include", os.path.join(HARNESS, "notls.h")]
LDFLAGS = ["-rdynamic", "-no-pie", "-pthread", "-latomic", "-ldl"]


class CheckError(Exception):
    pass


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _tree(d, exts=(".c", ".h")):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


class Violation(Exception):
    """The working tree does not behave as the property demands."""


def build(driver, defs=(), extra_src=(), lib=True, opt="-O0", replace=None, link=(), tsan=()):
    """Compile harness/<driver>.c with the runner and the library sources of the working tree."""
    replace = replace or {}
    srcs = _tree(os.path.join(REPO, "src")) + _tree(os.path.join(REPO, "include")) + _tree(HARNESS)
    key = _hash(srcs, repr((driver, defs, extra_src, lib, opt, sorted(replace.items()), link, tuple(tsan), CFLAGS, LDFLAGS)))
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, driver)
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"), "-I", HARNESS]
    jobs = []
    for s in (LIBSRC if lib else []):
        src = replace.get(s, os.path.join(REPO, "src", s + ".c"))
        if src is None:
            continue
        jobs.append((src, os.path.join(tmp, "lib_" + s + ".o"), CFLAGS + list(defs) + (["-fsanitize=thread"] if s in tsan else [])))
    if lib:
        jobs.append((os.path.join(HARNESS, "sysinfo.c"), os.path.join(tmp, "sysinfo.o"), ["-g", "-w"]))
    jobs.append((os.path.join(HARNESS, "hx.c"), os.path.join(tmp, "hx.o"), ["-g", "-w", "-O1"]))
    for x in ("vsched.c", "rsched.c"):
        if x in extra_src:
            jobs.append((os.path.join(HARNESS, x), os.path.join(tmp, x[:-2] + ".o"), ["-g", "-w", "-O1"]))
    for s in (driver + ".c",) + tuple(x for x in extra_src if x not in ("vsched.c", "rsched.c")):
        if s == "vtime.c":
            jobs.append((os.path.join(HARNESS, s), os.path.join(tmp, "vtime.o"), ["-g", "-w"]))
            continue
        jobs.append((os.path.join(HARNESS, s), os.path.join(tmp, "drv_" + os.path.basename(s) + ".o"),
                     [f for f in CFLAGS if f != "-std=gnu90"] + ["-std=gnu99", "-fgnu89-inline"] + (["-fsanitize=thread"] if "vsched.c" in extra_src else []) + list(defs)))
    procs = []
    for src, obj, fl in jobs:
        procs.append((src, subprocess.Popen(["gcc", opt] + fl + inc + ["-c", src, "-o", obj],
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise CheckError("cannot compile %s:\n%s" % (src, o[-4000:]))
    r = subprocess.run(["gcc", "-o", os.path.join(tmp, driver)] + [j[1] for j in jobs] + LDFLAGS + list(link),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("cannot link %s:\n%s" % (driver, r.stdout[-4000:]))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def run_driver(exe, out, seed, n, par=8, only=None, args=(), timeout=600, thorough=False):
    cmd = [exe, "--seed", str(seed), "--n", str(n), "--par", str(par), "--out", out] + list(args)
    if only is not None:
        cmd += ["--only", str(only)]
    if thorough:
        cmd += ["--thorough"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise CheckError("driver %s failed (%d): %s" % (exe, r.returncode, r.stdout[-2000:]))
    traces = []
    with open(out, errors="replace") as f:
        for line in f:
            try:
                traces.append(json.loads(line, strict=False))
            except ValueError:
                raise CheckError("driver wrote a bad line: %r" % line[:300])
    return traces


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0 and "Model checking completed. No error" in self.out


def tlc(module, cfg, env=None, workers="auto", timeout=840, args=(), heap="4g"):
    meta = tempfile.mkdtemp(prefix="tlc.", dir="/tmp")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return TLCResult(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        return TLCResult(o if isinstance(o, str) else o.decode(errors="replace"), 124)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.tstates = 0
        self.samples, self.details = [], {}
        self.assumptions = []
        self.violations = []
        self.work = tempfile.mkdtemp(prefix="vchk.", dir="/tmp")
        self.known = self._known()

    def _known(self):
        p, out = os.path.join(VERIF, "KNOWN_FINDINGS.txt"), []
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def say(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- design models ------------------------------------------------------
    def model(self, module, cfg, workers="auto", timeout=840, args=(), expect_error=None, heap="6g"):
        """Exhaustively check a design model.  A failure is an error of the check, not of the code."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap)
        if expect_error:
            if expect_error not in r.out:
                raise CheckError("model %s/%s should fail with %s:\n%s" % (module, cfg, expect_error, r.out[-3000:]))
        elif not r.ok:
            raise CheckError("model %s/%s:\n%s" % (module, cfg, r.out[-4000:]))
        self.say("model %s (%s): %d distinct states, %d transitions, depth %d" % (module, cfg, r.states, r.transitions, r.depth))
        self.states += r.states
        self.transitions += r.transitions
        self.details.setdefault("models", []).append({"module": module, "cfg": cfg, "states": r.states, "transitions": r.transitions, "depth": r.depth})
        return r

    # -- traces of the real code ------------------------------------------------
    def validate(self, module, cfg, traces, label, shards=8, timeout=800, extra_env=None, heap="3g"):
        """Check recorded traces against the trace specification; returns [(trace, position)] rejected."""
        if not traces:
            raise CheckError("no traces for " + label)
        files, n = [], max(1, min(shards, (len(traces) + 19) // 20))
        procs = []
        for s in range(n):
            part = traces[s::n]
            p = os.path.join(self.work, "%s.%d.ndjson" % (label, s))
            with open(p, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            meta = tempfile.mkdtemp(prefix="tlc.", dir=self.work)
            env = dict(os.environ, TRACES=p, **(extra_env or {}))
            cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", "1",
                   "-deadlock", "-noGenerateSpecTE", "-config", cfg, module]
            o = open(p + ".out", "w+")
            procs.append((part, subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=o, stderr=subprocess.STDOUT, text=True), o))
        bad = []
        end = time.time() + timeout
        for part, p, o in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, q, _ in procs:
                    q.kill()
                raise CheckError("trace validation of %s did not finish in %d s" % (label, timeout))
            o.seek(0)
            out = o.read()
            o.close()
            rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)]
            r = TLCResult(out, p.returncode)
            if r.ok and not rej:
                pass
            elif rej and "TraceAccepted" in out or rej:
                bad += [(part[a - 1], b) for a, b in rej]
            else:
                # an invariant violated while following a trace is a rejection as well
                m = re.search(r"Invariant (\w+) is violated", out)
                t = re.findall(r"^/\\ tid = (\d+)", out, re.M)
                l = re.findall(r"^/\\ l = (\d+)", out, re.M)
                if m and t:
                    bad.append((part[int(t[-1]) - 1], int(l[-1]) - 1))
                    self.say("invariant %s violated" % m.group(1))
                else:
                    raise CheckError("trace validation %s/%s:\n%s" % (module, cfg, out[-4000:]))
            self.tstates += r.states
        self.validated += len(traces) - len(bad)
        self.details.setdefault("trace_sets", []).append({"label": label, "module": module, "traces": len(traces),
                                                          "events": sum(len(t["ev"]) for t in traces), "rejected": len(bad)})
        self.say("%s: %d traces, %d events validated against %s, %d rejected" %
                 (label, len(traces), sum(len(t["ev"]) for t in traces), module, len(bad)))
        self.samples += [{"set": label, "trace": t["id"], "cfg": t["cfg"], "events": t["ev"][:6]} for t in traces[:1]]
        return bad

    def conform(self, driver, module, cfg, n, label=None, seed=None, par=8, args=(), shards=8, confirm=2, defs=(), opt="-O0",
                prep=None, env=None, exe=None, timeout=600, key=None, heap="3g", always=False, build_kw=None):
        """Record n scenarios of a driver and validate them; a rejection is confirmed by running it again."""
        label = label or driver
        exe = exe or build(driver, defs=defs, opt=opt, **(build_kw or {}))
        seed = self.seed if seed is None else seed
        out = os.path.join(self.work, label + ".raw")
        traces = run_driver(exe, out, seed, n, par=par, args=args, timeout=timeout, thorough=self.thorough)
        if prep:
            traces = [prep(t) for t in traces]
        self.say("%s: %d scenarios recorded" % (label, len(traces)))
        bad = self.validate(module, cfg, traces, label, shards=shards, extra_env=env, heap=heap)
        for t, pos in bad[:6]:
            ok, cur, cpos = 0, t, pos
            env_only = t["ev"][-1]["how"] in ("timeout", "exit")
            for k in range(confirm):
                again = run_driver(exe, out + ".again", seed, n, par=1, only=t["id"], args=args, timeout=timeout, thorough=self.thorough)
                if prep:
                    again = [prep(x) for x in again]
                rej = self.validate(module, cfg, again, label + "-again", shards=1, extra_env=env, heap=heap)
                ok += bool(rej)
                if rej:
                    cur, cpos = rej[0]
            if ok == 0 and (env_only or not always):
                self.say("%s: rejection of scenario %d did not repeat; ignored" % (label, t["id"]))
                self.details.setdefault("unrepeated", []).append({"set": label, "id": t["id"], "event": t["ev"][pos - 1] if pos - 1 < len(t["ev"]) else None})
                continue
            self.reject(label, module, cur, cpos, key)
        return traces

    def reject(self, label, module, t, pos, key=None):
        ev = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None
        k = key(t, pos) if key else None
        for kk, what in self.known:
            if k == kk:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
                self.details.setdefault("known_findings", []).append(kk)
                return
        self.violation({"set": label, "module": module, "rejected_at": pos, "event": ev, "trace": t})

    def violation(self, info):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(p)
        ev = info.get("event")
        self.say("rejected at event %s: %s" % (info.get("rejected_at"), json.dumps(ev)))
        t = info.get("trace")
        if t and info.get("rejected_at"):
            for e in t["ev"][max(0, info["rejected_at"] - 12):info["rejected_at"]]:
                print("      ", json.dumps(e))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def require(self, cond, what):
        """Non-vacuity: the exploration must have exercised what the property talks about."""
        if not cond:
            raise CheckError("vacuous: " + what)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states + self.tstates, "transitions": self.transitions + self.tstates,
                                "traces_validated_against_impl": self.validated, "samples": self.samples[:8]}, **self.details),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def main(prop, fn, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        shutil.rmtree(c.work, ignore_errors=True)
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    rc = c.finish()
    c.say("done: %s" % ("VIOLATED" if rc else "held"))
    sys.exit(rc)
