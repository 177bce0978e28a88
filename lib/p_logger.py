"""P01-P04, P25: root loggers, handlers, wrappers and scopes."""
from conc import *
from p_async import attr, rstr

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- T2
  Loggers <- L3
  Configs <- %s
  Budget = %d
  Mistake = "%s"
INVARIANTS WholeDelivery OwnScopes AssignmentSurvives FilterSurvives NoUseAfterDestruction
%s
CHECK_DEADLOCK FALSE
"""
CONSTS = "CONSTANTS\n  Threads <- TThreads\n  Loggers <- TLoggers\n  Configs <- TConfigs\n"
ERR = ["std", "int", "sys", "bad"]


def limbs(v):
    u = v + 2**63
    assert 0 <= u < 2**64
    return [u >> 43, (u >> 22) & (2**21 - 1), u & (2**22 - 1)]


def oattr(r):
    while True:
        a = attr(r, False)
        if a[1] not in ("fn", "fnthrow"):
            return a


class Gen:
    def __init__(self, r, focus):
        self.r, self.focus = r, focus
        self.configs, self.filters, self.wraps, self.scopes, self.wrappers = [], [], [], [], []
        self.n = 0
        self.slots = 0

    def slot(self):
        self.slots += 1
        return self.slots

    def filt(self):
        r = self.r
        if self.focus == "P25":
            big = [0, 1, -1, 2, 3, 5, -5, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, -2**32, 2**32 + 1, 2**63 - 1, -2**63]
            t = r.choice(big) if r.random() < 0.7 else r.randint(-4, 4)
            self.filters.append(dict(kind="sev", thr=str(t), lim=limbs(t)))
        else:
            k = r.choice(["all", "mod", "mod", "sev", "none"])
            t = r.randint(-1, 3)
            self.filters.append(dict(kind=k, m=r.randint(0, 2), thr=str(t), lim=limbs(t)))
        return len(self.filters)

    def config(self, dtor=None):
        r = self.r
        hs = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            h = dict(k="plain") if r.random() < 0.4 else dict(k="blk", n=r.choice([0, 1, 1, 2, 3]))
            if h["k"] == "blk" and r.random() < 0.3:
                h["ctor"] = 1
            hs.append(h)
        if dtor and hs:
            r.choice(hs)["nest"] = [dtor]
        how = r.choice(["ctor", "ctorf", "builder"]) if self.focus != "P25" else "ctorf"
        self.configs.append(dict(f=self.filt() if how == "ctorf" else 0, how=how, hs=hs))
        return len(self.configs)

    def sev(self):
        r = self.r
        if self.focus == "P25":
            return r.choice([0, 1, -1, 2, 3, 4, 5, -5, 6, 2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1])
        return r.choice([0, 1, 2, 3, 4, -1, 2**31 - 1, -2**31])

    def log(self, lg, deep=0, ws=None):
        r = self.r
        self.n += 1
        kind = r.choice(["plain", "pack", "lazy"])
        rich = self.focus in ("P01", "P03", "P25") or r.random() < 0.2
        s = self.sev()
        op = dict(o="log", lg=lg, n=self.n, kind=kind, sev=s, lim=limbs(s), msg=rstr(r) if rich else "6d",
                  attrs=[[attr(r, False) for _ in range(r.randint(0, 2 if rich else 1))] for _ in range(r.randint(0, 2))] if kind != "plain" else [],
                  val=rstr(r) if rich else "76", ws=[])
        if kind == "lazy" and r.random() < 0.15:
            op["nullval"] = 1
        if ws is None:
            mine = [i + 1 for i, w in enumerate(self.wrappers) if w["root"] == lg]
            if mine and r.random() < 0.5:
                op["ws"] = self.chain(r.choice(mine))
        p = 0.55 if self.focus == "P02" else 0.06
        if r.random() < p:
            op["fail"] = {}
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.choice(["f", "s", "h1", "h2", "h3", "h1s1", "h1s2", "h2s1", "h2s2", "h3s1", "h1", "h2", "h1s1"])
                if k in ("f", "s") and r.random() < 0.6:
                    continue
                op["fail"][k] = r.choice(ERR)
        if deep < 2 and r.random() < {"P04": 0.25, "P03": 0.15, "P02": 0.15}.get(self.focus, 0.08):
            k = r.choice(["f", "s", "h1", "h2", "h1s1"])
            inner = [self.log(lg, deep + 1)]
            if self.focus == "P04" and r.random() < 0.4:
                inner.append(dict(o="set", lg=lg, f=self.filt()))
            if self.focus == "P03" and r.random() < 0.6:
                inner = [self.open(lg)] + inner + [dict(o="close")]
            op["nest"] = {k: inner}
        return op

    def chain(self, w):
        out = []
        while w > 0:
            out.append(w)
            b = self.wrappers[w - 1]["base"]
            w = -b if b < 0 else 0
        return out

    def open(self, lg, via_wrapper=False):
        r = self.r
        self.scopes.append([oattr(r) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        op = dict(o="open", lg=lg, id=len(self.scopes), ws=[])
        mine = [i + 1 for i, w in enumerate(self.wrappers) if w["root"] == lg]
        if mine and r.random() < 0.4:
            op["ws"] = self.chain(r.choice(mine))
        return op

    def wrap(self, lg):
        r = self.r
        mine = [i + 1 for i, w in enumerate(self.wrappers) if w["root"] == lg]
        base = -r.choice(mine) if mine and r.random() < 0.5 else lg
        self.wraps.append([oattr(r) for _ in range(r.choice([0, 1, 2, 3, 17 if r.random() < 0.2 else 1]))])
        self.wrappers.append(dict(base=base, root=lg))
        return dict(o="wrap", w=len(self.wrappers), base=base, copy=r.choice([0, 0, 1, 2, 3]))

    def thread(self, shared, n):
        """Operations of one thread: logs, scopes, reconfiguration, own loggers."""
        r, f = self.r, self.focus
        out = []
        open_ = []            # slots with open scopes of this thread, in order
        own = []              # loggers owned by this thread
        hollow = []           # its moved-from loggers
        for _ in range(n):
            k = r.random()
            lg = r.choice(shared + own) if own else r.choice(shared)
            if k < {"P03": 0.3, "P01": 0.12, "P25": 0.12, "P02": 0.06}.get(f, 0):
                out.append(self.open(lg)); open_.append(lg)
                continue
            if k < {"P03": 0.42, "P01": 0.18, "P25": 0.18, "P02": 0.09}.get(f, 0) and open_:
                out.append(dict(o="close")); open_.pop()
                continue
            if f == "P03" and k < 0.6 and self.slots < 11 and len(self.configs) < 11:
                if not own or r.random() < 0.4:
                    c, s = self.config(), self.slot()
                    out.append(dict(o="new", lg=s, c=c)); own.append(s)
                elif r.random() < 0.5:
                    src, s = r.choice(own), self.slot()
                    out.append(dict(o="move", lg=s, src=src))
                    own[own.index(src)] = s
                    open_ = [s if x == src else x for x in open_]
                    self.leave(out, src, hollow)
                else:
                    src = r.choice(own)
                    dst = r.choice([x for x in shared + own])
                    if src == dst:
                        if r.random() < 0.3:
                            out.append(dict(o="assign", lg=dst, src=src))
                    elif not (src in open_ and dst in open_):
                        out.append(dict(o="assign", lg=dst, src=src))
                        own.remove(src)
                        open_ = [dst if x == src else x for x in open_]
                        self.leave(out, src, hollow)
                if hollow and r.random() < 0.5 and len(self.configs) < 11 and self.slots < 11:
                    # A moved-from logger may be assigned to again.
                    h, c, s = hollow.pop(), self.config(), self.slot()
                    out += [dict(o="new", lg=s, c=c), dict(o="assign", lg=h, src=s), dict(o="del", lg=s), self.log(h)]
                    own.append(h)
                continue
            if f == "P04" and k < 0.35:
                i = self.filt()
                if r.random() < 0.2:
                    self.filters[i - 1]["nest"] = [self.log(lg, 2)]
                out.append(dict(o="set", lg=lg, f=i))
                continue
            if f == "P04" and k < 0.6 and self.slots < 11 and len(self.configs) < 11:
                dtor = self.log(lg, 2) if r.random() < 0.3 else None
                c, s = self.config(dtor), self.slot()
                out += [dict(o="new", lg=s, c=c), dict(o="assign", lg=lg, src=s)]
                if r.random() < 0.8:
                    out.append(dict(o="del", lg=s))
                continue
            if f != "P04" and k > 0.93:
                out.append(dict(o="set", lg=lg, f=self.filt()))
                continue
            out.append(self.log(lg))
        return out

    def leave(self, out, src, hollow):
        if self.r.random() < 0.5:
            out.append(dict(o="del", lg=src))
        else:
            hollow.append(src)

    def program(self):
        r, f = self.r, self.focus
        shared = [self.slot()] if f != "P03" or r.random() < 0.5 else [self.slot(), self.slot()]
        setup = []
        for s in shared:
            dtor = self.log(s, 2) if f == "P04" and r.random() < 0.3 else None
            setup.append(dict(o="new", lg=s, c=self.config(dtor)))
        for _ in range(r.choice([0, 1, 2, 3]) if f == "P03" else r.choice([0, 0, 1, 2])):
            setup.append(self.wrap(r.choice(shared)))
        nth = {"P01": r.choice([1, 2]), "P02": r.choice([1, 1, 2]), "P03": r.choice([1, 1, 2, 3]), "P04": r.choice([2, 2, 3]), "P25": 1}[f]
        setup += [x for x in self.thread(shared, r.randint(0, 3))] if f == "P03" else []
        per = {"P04": 4, "P03": 7, "P25": 8}.get(f, 5)
        threads = [self.thread(shared, r.randint(1, per)) for _ in range(nth)]
        teardown = [self.log(r.choice(shared)) for _ in range(r.randint(0, 2))]
        # A moved-from shared logger must not be used.
        return dict(cfg=dict(wraps=self.wraps, filters=self.filters), configs=self.configs, scopes=self.scopes,
                    setup=setup, threads=threads, teardown=teardown)


def small_programs(focus, r):
    """Tiny programs for the systematic search: one change against one or two calls."""
    out = []
    blk = dict(k="blk", n=1)
    pl = dict(k="plain")
    for hs in ([pl], [blk], [pl, blk]):
        def base(threads, nconf=3, teardown=()):
            g = Gen(random.Random(1), "P04")
            L = lambda n, kind="plain", **kw: dict(dict(o="log", lg=1, n=n, kind=kind, sev=1, lim=limbs(1), msg="6d", attrs=[], val="76", ws=[]), **kw)
            fl = dict(kind="all", m=0, thr="0", lim=limbs(0))
            out.append(dict(cfg=dict(wraps=[], filters=[fl] * 4),
                            configs=[dict(f=1, how="ctorf", hs=hs), dict(f=2, how="ctorf", hs=hs), dict(f=0, how="builder", hs=hs)],
                            scopes=[[["6b", "str", "76"]]] * 4, setup=[dict(o="new", lg=1, c=1)], threads=threads, teardown=list(teardown)))
        L = lambda n, kind="plain", **kw: dict(dict(o="log", lg=1, n=n, kind=kind, sev=1, lim=limbs(1), msg="6d", attrs=[], val="76", ws=[]), **kw)
        A = lambda c, s: [dict(o="new", lg=s, c=c), dict(o="assign", lg=1, src=s), dict(o="del", lg=s)]
        S = lambda f: [dict(o="set", lg=1, f=f)]
        if focus == "P04":
            base([[L(1)], A(2, 2)])
            base([[L(1), L(2)], S(3)])
            base([A(2, 2), S(3)], teardown=[L(9)])
            base([A(2, 2), A(3, 3)], teardown=[L(9)])
            base([[L(1)], A(2, 2), S(3)], teardown=[L(9)])
        elif focus == "P03":
            O = lambda i: dict(o="open", lg=1, id=i, ws=[])
            base([[O(1), L(1), dict(o="close"), L(2)], [O(2), L(3), dict(o="close"), L(4)]])
        elif focus == "P02":
            base([[L(1, fail={"h1": "std"}), L(2)], [L(3)]])
            base([[L(1, fail={"h1": "int", "h2": "std"})], [L(3, fail={"h1s1": "sys", "h2s1": "bad"})]])
        else:
            base([[L(1, "lazy"), L(2)], [L(3, "pack")]])
    return out


def check(run):
    f = run.prop
    th = run.thorough
    drv = build("sched", {"drv_logger": ["sched"]})["drv_logger"]
    run.model("MCLogger", MC % ("C2", 1, "", ""), cover=["MCall", "MSet", "MAssign", "MNew", "MOpen", "MClose", "MDies", "MRet", "MFilt", "MSupp", "MHand", "MLoad", "MCopy", "MRel", "MSetApply", "MStore", "MConfRet"])
    run.model("MCLogger", MC % ("C2", 1, "", "PROPERTIES CallsEnd"))
    if th:
        run.model("MCLogger", MC % ("C3", 2, "", ""), timeout=3000, heap="12g")
    if f == "P04":
        model_check("MCLogger", MC % ("C2", 1, "storeback", ""), run.wd, expect_violation="Invariant AssignmentSurvives is violated")
        model_check("MCLogger", MC % ("C2", 1, "nohold", ""), run.wd, expect_violation="Invariant (NoUseAfterDestruction|WholeDelivery) is violated")
    r = random.Random("%s-%d" % (f, seed()))
    n, s = (2500, 60) if th else ({"P04": 300, "P25": 400}.get(f, 350), {"P04": 30, "P25": 1, "P01": 6, "P02": 6}.get(f, 10))
    progs = [Gen(r, f).program() for _ in range(n)]
    both(run, "drv_logger", ["sched"], progs, s, "TraceLogger", CONSTS, share=0 if f == "P25" else 0.4)
    if run.violations == 0 and f != "P25":
        small = small_programs(f, r)
        both(run, "drv_logger", ["sched"], small, 20, "TraceLogger", CONSTS, tag="dfs", share=0, dfs_runs=15000 if th else 500,
             dfs_bound=3 if th else 2)
    if f == "P25" and run.violations == 0:
        import p_console
        progs = []
        while len(progs) < (1500 if th else 150):
            p = p_console.program(r)
            if any(h.get("filter") for h in p["how"]):
                progs.append(p)
        both(run, "drv_console", ["sched", "iohooks"], progs, 2, "TraceConsole", p_console.CONSTS, tag="console", share=0)
    run.assumptions += ["the scheduler serialises threads at pthread operations, std::atomic operations and inside the test doubles "
                        "(sequential consistency)",
                        "each call gets an attribute pack of its own; a moved-from logger is only destroyed or assigned to"]
