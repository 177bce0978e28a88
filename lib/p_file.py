"""P09-P12: the file sink."""
from conc import *

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- T2
  Sinks <- %s
  Names <- MNames
  Sub <- MSub
  Inodes <- I4
  Nil <- E0
  Size <- MSize
  Newline <- MNewline
  Confs <- %s
  MaxEmits = %d
  MaxFS = %d
  Mistake = "%s"
INVARIANTS NothingLost InOrder Flushed
PROPERTIES Follows Sticks Grows FailsOnlyThen
CHECK_DEADLOCK FALSE
"""
CONSTS = """CONSTANTS
  Threads <- TThreads
  Sinks <- TSinks
  Names <- TNames
  Sub <- TSub
  Inodes <- TInodes
  Nil <- TNil
  Size <- TSize
  Newline <- TNewline
"""
NAMES = ["a", "b", "c", "s/a", "s/b"]


class FS:
    """Enough of the file system to generate operations that are possible."""

    def __init__(self):
        self.n = {x: None for x in NAMES}     # None | ("file", id) | ("dir",) | ("link", to) | ("bad",)
        self.sub = True
        self.ids = 0

    def here(self, x):
        return self.sub or not x.startswith("s/")

    def walk(self, x, d=5):
        if not self.here(x) or d < 0:
            return None
        k = self.n[x]
        if k is None:
            return x
        if k[0] == "link":
            return self.walk(k[1], d - 1)
        return x if k[0] == "file" else None

    def isfile(self, x):
        w = self.walk(x)
        return w is not None and self.n[w] is not None

    def new(self):
        self.ids += 1
        return ("file", self.ids)

    def emit(self, x):
        """A sink may create the file."""
        w = self.walk(x)
        if w is not None and self.n[w] is None:
            self.n[w] = self.new()


def fsop(r, fs, paths, w):
    """One random operation, biased to the paths in use."""
    hot = paths or NAMES
    for _ in range(50):
        a = r.choice(hot) if r.random() < 0.8 else r.choice(NAMES)
        b = r.choice(NAMES)
        k = r.choices(["rename", "unlink", "fresh", "hard", "sym", "mkdir", "bad", "ext", "trunc", "away", "back", "backin"], w)[0]
        n = fs.n
        if k in ("away", "back"):
            if (k == "away") == fs.sub:
                fs.sub = not fs.sub
                return ["fs", k]
            continue
        if not fs.here(a):
            continue
        if k == "rename" or k == "backin":
            if k == "backin":
                a, b = b, a
                if not fs.here(a):
                    continue
            if a == b or not fs.here(b) or n[a] is None or (n[b] and n[b][0] == "dir") or (n[a][0] == "dir" and n[b] is not None):
                continue
            if n[a][0] == "file" and n[a] == n[b]:
                continue
            n[b], n[a] = n[a], None
            return ["fs", "rename", a, b]
        if k == "unlink" and n[a]:
            n[a] = None
            return ["fs", k, a]
        if k == "fresh" and (not n[a] or n[a][0] != "dir"):
            n[a] = fs.new()
            return ["fs", k, a, r.choice(["", "", "%02x" % r.randint(0, 255), "6f6c640a", "70617274"]), r.choice([0, 0, 1])]
        if k == "hard" and n[a] and n[a][0] == "file" and fs.here(b) and n[b] is None:
            n[b] = n[a]
            return ["fs", k, a, b]
        if k == "sym" and fs.here(b):
            # Where a sink looks becomes a link, or a link to where a sink looks.
            x, y = (a, b) if r.random() < 0.5 else (b, a)
            if n[y] is None and fs.here(y) and x != y:
                n[y] = ("link", x)
                return ["fs", k, x, y]
        if k == "mkdir" and n[a] is None:
            n[a] = ("dir",)
            return ["fs", k, a]
        if k == "bad" and n[a] is None:
            n[a] = ("bad",)
            return ["fs", k, a, r.choice(["ENOENT", "ENOTDIR", "ELOOP", "ENXIO"])]
        if k in ("ext", "trunc") and fs.isfile(a):
            return ["fs", k, a] + ([r.choice(["6578740a", "78"])] if k == "ext" else [])
    return None


#                 rename unlink fresh hard sym mkdir bad ext trunc away back backin
W = {"P09": [2, 1, 1, 1, 2, 0.2, 0.2, 4, 0.5, 0.2, 1, 1],
     "P10": [1, 1, 2, 0, 0, 0.2, 0.2, 1, 0.2, 0.1, 1, 1],
     "P11": [6, 4, 6, 1, 2, 0.5, 0.5, 1, 0.5, 1, 2, 3],
     "P12": [2, 3, 1, 0.3, 1, 4, 5, 0.3, 0.2, 3, 2, 1]}


def message(r, big):
    k = r.random()
    if big and k < 0.35:
        n = r.choice([1000, 1023, 1024, 4096, 8190, 8191, 8192, 9000])
        return bytes([r.randint(0, 255) for _ in range(7)]).hex() + "%02x" % r.randint(0, 255) * (n - 7)
    n = 0 if k < 0.15 else r.choice([1, 2, 3]) if k < 0.6 else r.randint(4, 24)
    return bytes(r.choice([10, 0, 65, 66, 255, r.randint(0, 255)]) for _ in range(n)).hex()


def program(r, focus):
    fs = FS()
    steps = []
    w = list(W[focus])
    big = focus in ("P09", "P10") and r.random() < 0.2
    if big:
        w[7] = w[8] = 0      # a large line reaches the file in pieces: nobody else writes to it meanwhile
    nsinks = 1 if big else r.choice([1, 1, 2, 2, 3])
    rotp = {"P09": 0.3, "P10": 0.2, "P11": 0.8, "P12": 0.5}[focus]
    if not (big or r.random() < 0.5):
        for _ in range(r.randint(1, 3)):
            o = fsop(r, fs, [], w)
            if o:
                steps.append(o)
    same = r.random() < 0.5
    base = r.choice(NAMES)
    conf = {}
    nofile = False
    alive = set()

    def create(s):
        pol = r.choice(["count", "count", "bytes", "bytes", "none"])
        n = 0 if pol == "none" else r.choice([0, 1, 1, 2, 2, 3, 4, 5]) if pol == "count" else r.choice([0, 1, 2, 3, 5, 8, 13, 20, 21, 34, 60])
        if big and pol == "bytes":
            n = r.choice([1, 10, 1000, 5000, 8192, 20000])
        conf[s] = dict(path=base if same else r.choice(NAMES), pol=pol, n=n, rot=1 if r.random() < rotp else 0, via=r.choice(["json", "lv", "rv"]))
        alive.add(s)
        steps.append(["new", s, conf[s]])

    for s in range(1, nsinks + 1):
        create(s)
    if r.random() < 0.3:
        steps.append(["look"])
    par_threads = 0
    for ph in range(r.randint(2, 6)):
        for _ in range(r.choice([0, 1, 1, 2, 3]) if ph else r.choice([0, 0, 1])):
            o = fsop(r, fs, [conf[s]["path"] for s in alive], w)
            if o:
                steps.append(o)
        if r.random() < {"P12": 0.25}.get(focus, 0.05):
            nofile = not nofile
            steps.append(["nofile", int(nofile)])
        if r.random() < 0.1 and alive:
            s = r.choice(sorted(alive))
            steps.append(["del", s])
            alive.discard(s)
            if r.random() < 0.5:
                steps.append(["look"])
            create(s)
        nt = 1 if big else r.choice([1, 1, 1, 2, 2, 3])
        if nt > 1 and par_threads > 3:
            nt = 1
        par_threads += nt
        th = []
        for t in range(nt):
            ops = []
            for _ in range(r.randint(1, 4) if nt == 1 else r.randint(1, 2)):
                s = r.choice(sorted(alive))
                ops.append(["emit", s, message(r, big)])
                if not nofile:
                    fs.emit(conf[s]["path"])
            th.append(ops)
        steps.append(["par", th])
        if r.random() < 0.75:
            steps.append(["look"])
    if nofile:
        steps.append(["nofile", 0])
    for s in sorted(alive):
        if r.random() < 0.7:
            steps.append(["del", s])
    steps.append(["look"])
    return dict(cfg=dict(spill=1000 if big else 4096), steps=steps)


# ---- thresholds -------------------------------------------------------------------------------

UNIT = {"": 1, "B": 1, "kB": 10**3, "MB": 10**6, "GB": 10**9, "KiB": 2**10, "MiB": 2**20, "GiB": 2**30}


def sizes_for(r, kind, limit):
    """Message sizes that come close to the threshold, then approach it in small steps, several times."""
    if kind == "number":
        out = []
        for _ in range(min(3 * limit + 2, 60)):
            out.append(r.choice([0, 1, 7, 30]))
        return out
    if limit == 0 or limit > 2**30 - 64:
        # A little, something large (handed over at once), a little.
        return [3, 20, 2**20, 1, 2, 3, 30] if limit <= 2**30 else [3, 20, 2**29, 2**29, 1, 2, 3, 30]
    out = []
    left = limit
    for _ in range(2 if limit > 2**28 else 4):
        step = r.choice([1, 2, 5, 10])
        if left > 80:
            k = left - r.choice([10, 20, 40]) - 1
            while k > 2**29:
                out.append(2**29 - 1)
                k -= 2**29
            out.append(k)
            left -= sum(out) and 0
            done = 0
        # walk over the edge
        out += [step - 1] * (45 // step + 2) if limit > 80 else [step - 1] * min(limit // step + 2, 40)
        total = sum(x + 1 for x in out)
        left = limit - total % limit
    return out


def threshold_programs(r, n):
    out = []

    def add(cfg, sizes, **kw):
        total = sum(x + 1 for x in sizes)
        while total >= 2**31 - 10:
            total -= sizes.pop() + 1
        p = dict(id=len(out), cfg=dict(spill=1000, **cfg), sizes=sizes)
        p.update(kw)
        out.append(p)

    def string(text, digits, unit):
        ok = bool(digits) and unit in UNIT
        limit = int(digits) * UNIT[unit] if ok else 0
        add(dict(kind="string", digits=[int(c) for c in digits], unit=unit), sizes_for(r, "string", limit) if ok else [1, 2, 3],
            js='"flush":' + json.dumps(text))

    for u in UNIT:
        for d in ("1", "2", "0", "01", "3", "12", "007", "1000"):
            string(d + u, d, u)
        if u:
            string(u, "", u)
            string("1 " + u, "1", " " + u)
            string("1" + u + " ", "1", u + " ")
            string("-1" + u, "", "-1" + u)
            string("1." + "5" + u, "1", ".5" + u)
            string("1" + u.lower() if u != u.lower() else "1x" + u, "1", u.lower() if u != u.lower() else "x" + u)
    for t in ("", " ", "B1", "kb", "Kb", "0x10B", "1e3", "1e3B", "+5B", " 5B", "5Bytes", "5K", "5Ki", "5TB", "5KB", "5mB", "5GIB", "٣B", "5\u00e9", "-", "B"):
        d = ""
        for c in t:
            if c in "0123456789":
                d += c
            else:
                break
        string(t, d, t[len(d):])
    for d in ("18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "1" + "0" * 30, "0" * 25 + "5"):
        for u in ("", "B"):
            string(d + u, d, u)
    for u in ("kB", "MB", "GB", "KiB", "MiB", "GiB"):
        edge = 2**64 // UNIT[u]
        for x in (edge - 1, edge, edge + 1, edge * 2, 2**64 - 1, 2**64):
            string("%d%s" % (x, u), str(x), u)
    for k in (0, 1, 2, 3, 7, 10, 2**31, 2**63, 2**64 - 1):
        add(dict(kind="number", digits=[int(c) for c in str(k)], unit=""), sizes_for(r, "number", k if k < 100 else 5), js='"flush":%d' % k)
        add(dict(kind="number", digits=[int(c) for c in str(k)], unit=""), sizes_for(r, "number", k if k < 100 else 5), typed="n", num=k)
    add(dict(kind="none", digits=[], unit=""), [1, 2, 3, 30], js='"other":1')
    for u in UNIT:
        if u:
            for k in (0, 1, 2, 5):
                if k * UNIT[u] < 2**63:
                    add(dict(kind="string", digits=[int(c) for c in str(k)], unit=u), sizes_for(r, "string", k * UNIT[u]), typed=u, num=k)
    for _ in range(n):
        u = r.choice([x for x in UNIT if x not in ("GB", "GiB")])
        k = r.randint(1, 10 ** r.randint(1, 4))
        if k * UNIT[u] < 2**30:
            string("%d%s" % (k, u), str(k), u)
    return out


def thresholds(run, drv, n):
    r = random.Random("thr-%d" % seed())
    progs = threshold_programs(r, n)

    def go(ps, tag):
        pf, of = os.path.join(run.wd, tag + ".in"), os.path.join(run.wd, tag + ".out")
        open(pf, "w").write("".join(json.dumps(p) + "\n" for p in ps))
        q = subprocess.run([drv, "--bulk", pf, of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode:
            raise CheckError("drv_file --bulk failed: " + q.stdout[-1000:])
        return open(of).read().splitlines()
    traces = go(progs, "thr")
    cfg = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCONSTRAINT Progress\nCHECK_DEADLOCK FALSE\n"
    rej, gen, dist = validate("TraceFlush", cfg, traces, run.wd, tag="thr")
    run.transitions += gen
    run.states += dist
    run.traces += len(traces) - len(rej)
    run.count("threshold_spellings_checked", len(traces))
    for i, pos in rej[:3]:
        again = go([progs[i]], "thr1")
        if validate("TraceFlush", cfg, again, run.wd, tag="thr1")[0]:
            t = json.loads(again[0])
            run.violation("a flush threshold is not as specified: %s: event %s" % (json.dumps({k: v for k, v in progs[i].items() if k != "sizes"}), json.dumps(t["ev"][pos - 1])),
                          dict(program=progs[i], trace=t))
        else:
            raise CheckError("a threshold rejection does not repeat")


def check(run):
    focus, th = run.prop, run.thorough
    acts = ["MNew", "MDelete", "MCall", "MDo", "MRet", "MFs"]
    run.model("MCFile", MC % ("S1", "Confs1", 3, 2, ""), cover=acts)
    run.model("MCFile", MC % ("S2", "Confs1", 3, 1, ""), cover=acts)
    if th:
        run.model("MCFile", MC % ("S1", "Confs2", 4, 3, ""), cover=acts, timeout=3000)
        run.model("MCFile", MC % ("S2", "Confs2", 3, 2, ""), cover=acts, timeout=3000)
    if focus in ("P09", "P11"):
        model_check("MCFile", MC % ("S2", "Confs1", 3, 1, "trunc"), run.wd, expect_violation="(Grows|NothingLost)")
        model_check("MCFile", MC % ("S1", "Confs1", 3, 2, "lose"), run.wd, expect_violation="NothingLost")
    scratch = os.path.join(run.wd, "scratch")
    os.makedirs(scratch)
    os.environ["DRV_SCRATCH"] = scratch
    extra = ["sched", "iohooks"]
    if focus == "P10":
        thresholds(run, build("sched", {"drv_file": extra})["drv_file"], 400 if th else 60)
    r = random.Random("%s-%d" % (focus, seed()))
    n, s = (4000, 40) if th else (500, 10)
    progs = [program(r, focus) for _ in range(n)]
    both(run, "drv_file", extra, progs, s, "TraceFile", CONSTS, share=0.25)
    run.assumptions += ["file system: operations of others happen between emits, not inside one; two directories, five names",
                        "programs: at most 3 sinks, 3 threads at a time, 6 phases"]
