"""Shared machinery of the checks: building /repo, running TLC, validating traces, reporting."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NPROC = os.cpu_count() or 8
TLAJARS = "/opt/veriftools/tla/tla2tools.jar"

SRC = {
    "core": ["attribute", "essentials", "format", "handler", "logger", "record", "root", "wrapper",
             "scope/holder", "scope/manager", "scope/watcher", "filter/severity", "procname", "termcolor"],
}


class CheckError(Exception):
    """The machinery itself failed: exit status 2, neither held nor violated."""


def log(*a):
    print(*a, flush=True)


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def all_sources():
    """Every library source below /repo/src (whatever the tree has now)."""
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


FLAVOURS = {
    # plain build for the scheduler: std::atomic becomes a preemption point
    "sched": "-std=c++14 -O1 -g -fPIC -w -include {v}/harness/shim_atomic.hpp",
    # address sanitizer: memory errors become crashes, which the specifications have no action for
    "asan": "-std=c++14 -O1 -g -w -include cstdint -fsanitize=address -fno-omit-frame-pointer",
    # every memory access and atomic is monitored by harness/race.cpp
    "race": "-std=c++14 -O1 -g -fPIC -w -include cstdint -fsanitize=thread",
    "plain": "-std=c++14 -O1 -g -w -include cstdint",
}
INC = "-I{r}/include -I{r} -I{v}/harness"


def build(flavour, drivers, jobs=None):
    """Builds all of /repo/src and the named drivers (harness/NAME.cpp + extra) with one flavour.

    Incremental by dependency files; returns {name: path}.  drivers: {name: [extra harness sources]}."""
    jobs = jobs or NPROC
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags = FLAVOURS[flavour].format(v=VERIF, r=REPO) + " " + INC.format(v=VERIF, r=REPO)
    ninja = ["ninja_required_version = 1.5", "flags = " + flags,
             "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar rcs $out $in",
             "rule link", "  command = g++ $ldflags -o $out $in -lboost_system -lboost_thread -lpthread -ldl"]
    objs = []
    for s in all_sources():
        o = "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        objs.append(o)
        ninja.append("build %s: cxx %s" % (o, s))
    ninja.append("build libbh.a: ar " + " ".join(objs))
    san = "-fsanitize=address" if flavour == "asan" else ""
    out = {}
    hobjs = set()
    for name, extra in drivers.items():
        os_ = []
        for h in [name] + list(extra):
            o = "drv_%s.o" % h
            os_.append(o)
            if o not in hobjs:
                hobjs.add(o)
                ninja.append("build %s: cxx %s/harness/%s.cpp" % (o, VERIF, h))
                if h in ("race", "sched"):
                    ninja.append("  flags = -std=c++14 -O2 -g -fPIC -w " + INC.format(v=VERIF, r=REPO))
        ninja.append("build %s: link %s libbh.a" % (name, " ".join(os_)))
        ninja.append("  ldflags = -g -rdynamic %s" % san)
        out[name] = os.path.join(bdir, name)
    nf = os.path.join(bdir, "build_%s.ninja" % "_".join(sorted(drivers))[:80])
    text = "\n".join(ninja) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    t0 = time.time()
    r = subprocess.run(["ninja", "-C", bdir, "-f", os.path.basename(nf), "-j%d" % jobs] + list(drivers),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise CheckError("building /repo for the harness failed")
    log("[build] %s %s in %.1fs" % (flavour, ",".join(drivers), time.time() - t0))
    return out


def workdir(name):
    d = os.path.join(BUILD, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---- TLC ---------------------------------------------------------------------------------------

def tlc(module, cfg, wd, env=None, workers=1, timeout=600, extra=(), heap="3g", jvm=()):
    """Runs TLC on spec/MODULE.tla with a cfg (text or file name). Returns (rc, output)."""
    meta = os.path.join(wd, "tlc_%s_%s" % (module, hashlib.md5((cfg + str(env)).encode()).hexdigest()[:8]))
    os.makedirs(meta, exist_ok=True)
    if "\n" in cfg:
        cf = os.path.join(meta, module + ".cfg")
        open(cf, "w").write(cfg)
    else:
        cf = os.path.join(SPEC, cfg)
    cp = TLAJARS
    com = os.environ.get("VERIF_TLA_CP")
    if com:
        cp += ":" + com
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-Dtlc2.TLC.ide=none", "-DTLA-Library=" + SPEC] + list(jvm) + \
          ["-cp", classpath(), "tlc2.TLC", "-config", cf, "-metadir", os.path.join(meta, "states"),
           "-workers", str(workers), "-noGenerateSpecTE", "-cleanup"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return 124, out.decode(errors="replace") if isinstance(out, bytes) else out
    return r.returncode, r.stdout


_cp = None


def classpath():
    global _cp
    if _cp is None:
        txt = ""
        w = shutil.which("tlc")
        if w:
            txt = open(w, errors="replace").read()
        jars = re.findall(r"/[\w/.\-]+\.jar", txt)
        for d in ("/opt/veriftools/tla",):
            if os.path.isdir(d):
                jars += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
        seen = []
        for j in [TLAJARS] + jars:
            if j not in seen and os.path.exists(j):
                seen.append(j)
        _cp = ":".join(seen)
    return _cp


def stats(out):
    """(generated, distinct) of a TLC run."""
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def model_check(module, cfg, wd, workers=None, timeout=800, expect_violation=None, cover=(), extra=(), heap="6g"):
    """Exhaustive check of a design spec. Raises CheckError unless it ends as expected.

    cover: actions that must have been taken (non-vacuity, from -coverage).
    expect_violation: name of the property/invariant a deliberately broken variant must violate."""
    t0 = time.time()
    rc, out = tlc(module, cfg, wd, workers=workers or NPROC, timeout=timeout, extra=["-coverage", "60"] + list(extra), heap=heap)
    gen, dist = stats(out)
    if expect_violation:
        if not re.search(expect_violation, out) or rc == 0:
            log(out[-3000:])
            raise CheckError("%s: the broken variant does not violate %s (vacuous property)" % (module, expect_violation))
        log("[model] %s: broken variant violates %s as it must (%d states, %.1fs)" % (module, expect_violation, gen, time.time() - t0))
        return gen, dist
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        log(out[-6000:])
        raise CheckError("model checking %s failed (rc %d)" % (module, rc))
    counts = {}
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
        counts[m.group(1)] = max(counts.get(m.group(1), 0), int(m.group(3)))
    for a in cover:
        if counts.get(a, 0) == 0:
            log(out[-4000:])
            raise CheckError("%s: action %s was never taken (vacuous model)" % (module, a))
    log("[model] %s: %d states generated, %d distinct, no error (%.1fs)" % (module, gen, dist, time.time() - t0))
    return gen, dist


def validate(module, cfg, traces, wd, chunk=None, timeout=700, workers=None, env=None, tag="t"):
    """Validates traces (list of JSON-able objects or JSON lines) against a trace spec.

    The trace spec reads IOEnv.TRACE (ndjson, one trace per line) and prints, from its POSTCONDITION,
    the line  <<"REJECTED", index, longest matched prefix>>  for each trace it cannot explain.
    Returns (rejections [(trace, prefix)], states generated, distinct)."""
    if not traces:
        return [], 0, 0
    n = workers or NPROC
    k = max(1, min(n, (len(traces) + 19) // 20)) if chunk is None else (len(traces) + chunk - 1) // chunk
    # Balance by size.
    lines = [t if isinstance(t, str) else json.dumps(t) for t in traces]
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    parts = [[] for _ in range(k)]
    for j, i in enumerate(order):
        parts[j % k].append(i)
    res = []
    tot = [0, 0]

    def one(pi):
        idx = parts[pi]
        f = os.path.join(wd, "%s_%d.ndjson" % (tag, pi))
        with open(f, "w") as fh:
            for i in idx:
                fh.write(lines[i] + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        rc, out = tlc(module, cfg, wd, env=e, workers=1, timeout=timeout)
        if rc == 124:
            raise CheckError("TLC timed out validating traces with " + module)
        done = re.search(r'<<\s*"VALIDATED",\s*(\d+)\s*>>', out)
        if not done or int(done.group(1)) != len(idx) or ("Error:" in out and "Postcondition" not in out and "POSTCONDITION" not in out):
            log(out[-5000:])
            raise CheckError("TLC failed on %s (rc %d)" % (module, rc))
        gen, dist = stats(out)
        bad = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+)', out)]
        return bad, gen, dist

    with ThreadPoolExecutor(max_workers=n) as ex:
        for bad, gen, dist in ex.map(one, range(k)):
            res += bad
            tot[0] += gen
            tot[1] += dist
    res.sort()
    return [(i, p) for i, p in res], tot[0], tot[1]


# ---- reporting ---------------------------------------------------------------------------------

class Run:
    """One run of one check: counters, evidence, verdict."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.more = {}
        self.assumptions = []
        self.violations = 0
        self.wd = workdir(prop)
        self.known = [l.rstrip("\n") for l in open(os.path.join(VERIF, "known-findings.txt"))] \
            if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def model(self, module, cfg, **kw):
        gen, dist = model_check(module, cfg, self.wd, **kw)
        self.transitions += gen
        self.states += dist
        self.more.setdefault("models", []).append("%s/%s: %d distinct states" % (module, kw.get("label", "cfg") if False else (cfg if "\n" not in cfg else "inline"), dist))

    def count(self, key, n):
        self.more[key] = self.more.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, what, replay):
        """Reports one violation (confirmed by the caller) with its replay file."""
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, self.violations + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, replay=replay), f, indent=1)
        self.violations += 1
        log("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        log("  " + what[:2000])

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=seed(), level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples or ["none"], **self.more),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("[%s] %s: %d model states, %d traces of the implementation validated, %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.traces, self.violations, time.time() - self.t0))
        return 1 if self.violations else 0


def shards(cmdf, n=None):
    """Runs n commands in parallel; cmdf(i) gives the argv. Returns their outputs."""
    n = n or NPROC

    def one(i):
        r = subprocess.run(cmdf(i), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise CheckError("driver failed: %s: %s" % (" ".join(cmdf(i)), (r.stdout + r.stderr)[-2000:]))
        return r.stdout
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(one, range(n)))
