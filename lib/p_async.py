"""P05-P08: the asynchronous sink."""
from conc import *

MC = """SPECIFICATION Spec
CONSTANTS
  Configs <- %s
  Producers <- %s
  Recs <- %s
INVARIANTS TypeOK Conservation NoDup NothingLostAtDestruction NothingAfterDestruction DropsOnlyWithPolicy DropsOnlyWhenFull DropNeverDelivered Hidden
%s
CHECK_DEADLOCK FALSE
"""
CONSTS = """CONSTANTS
  Producers <- TProducers
  Configs = {}
  Recs = {}
"""
KINDS = ["nil", "bool", "sint", "uint", "dbl", "str", "str", "str", "fn", "fn"]


def rstr(r, big=False):
    k = r.random()
    if k < 0.15:
        n = 0
    elif k < 0.5:
        n = r.randint(1, 15)
    elif k < 0.85:
        n = r.randint(16, 40)
    else:
        n = r.randint(100, 600) if big else r.randint(41, 70)
    return bytes(r.choice([r.randint(0, 255), r.randint(97, 122)]) for _ in range(n)).hex()


def attr(r, big, throws=False):
    k = r.choice(KINDS)
    v = ""
    if k == "bool":
        v = r.choice("01")
    elif k == "sint":
        v = str(r.choice([0, 1, -1, 2**63 - 1, -2**63, r.randint(-10**6, 10**6)]))
    elif k == "uint":
        v = str(r.choice([0, 1, 2**64 - 1, 2**63, r.randint(0, 10**6)]))
    elif k == "dbl":
        v = str(r.choice([0, 1, 4607182418800017408, 9218868437227405312, r.getrandbits(62)]))
    elif k in ("str", "fn"):
        v = rstr(r, big)
        if throws and r.random() < 0.5:
            return [rstr(r), "fnthrow", v]
    return [rstr(r), k, v]


def record(r, v, rich, throws=False):
    text = v.to_bytes(2, "big").hex() + (rstr(r, rich == 2) if rich else "")
    msg = rstr(r, rich == 2) if rich else "6d"
    fm = msg if (not rich or r.random() < 0.4) else rstr(r, rich == 2)
    attrs = []
    if rich:
        for _ in range(r.randint(0, 3)):
            attrs.append([attr(r, rich == 2, throws) for _ in range(r.randint(0, 3))])
    return dict(sev=str(r.choice([0, 1, 2, -5, 2**31 - 1, -2**31])), msg=msg, fmtd=fm, text=text, attrs=attrs)


def program(r, focus):
    factor = r.choice([2, 2, 2, 3])
    policy = r.choice(["wait", "drop"])
    via = "ctor"
    if focus == "P07":
        via = r.choice(["ctor", "ctor_default", "builder", "builder_rv", "builder_default", "config"])
        factor = r.choice([2, 2, 3, 4])
        if via.endswith("default"):
            policy = "wait"
    rich = {"P05": r.choice([1, 1, 2]), "P06": 0, "P07": 0, "P08": 0}[focus]
    cap = 1 << factor
    npro = r.choice([1, 1, 2, 2, 3])
    throws = focus == "P05" and r.random() < 0.15
    if focus == "P07":
        total = r.randint(cap - 1, cap + 3) if r.random() < 0.8 else 2 * cap + r.randint(0, 3)
    elif focus == "P06":
        total = r.choice([0, 1, 1, 2, 3, 4, 5, 7])
    else:
        total = r.randint(1, cap + 4)
    total = min(total, 14)
    recs = [record(r, i + 1, rich, throws) for i in range(total)]
    gate = (focus == "P07" and r.random() < 0.8) or (focus != "P07" and r.random() < 0.3)
    fails = []
    failkind = "std"
    if focus == "P08":
        fails = [i + 1 for i in range(total) if r.random() < 0.5] or ([1] if total else [])
        failkind = r.choice(["std", "int", "sys"])
    elif focus in ("P06", "P07") and r.random() < 0.1:
        fails = [i + 1 for i in range(total) if r.random() < 0.3]
    threads = [[] for _ in range(npro)]
    for i in range(total):
        threads[r.randrange(npro)].append(["emit", i + 1])
    late = []
    if gate:
        opener = [[r.choice(["yield", "idle"])] for _ in range(r.randint(0, 30))] + [["open"]]
        if focus == "P07" and total > cap:
            opener = [["idle"]] * r.randint(10, 60) + [["open"]]
        late.append(opener)
    if not gate and policy == "wait" and total and r.random() < (0.5 if focus == "P06" else 0.2):
        # Eventually written while the sink stays alive, without further calls.
        if not any(a[1] == "fnthrow" for x in recs for l in x["attrs"] for a in l):
            threads.append([["await", total]])
    return dict(cfg=dict(cap=cap, policy=policy, fails=fails, recs=recs), factor=factor, policy=policy, via=via,
                threads=threads, late=late, gate=gate, failkind=failkind)


def small_programs(focus):
    """Tiny programs for the systematic search."""
    out = []

    def mk(threads, n, policy="wait", fails=(), gate=False, late=(), factor=2):
        recs = [dict(sev="1", msg="6d", fmtd="6d", text="%04x" % (i + 1), attrs=[[["6b", "str", "76"]]] if focus == "P05" else []) for i in range(n)]
        out.append(dict(cfg=dict(cap=1 << factor, policy=policy, fails=list(fails), recs=recs), factor=factor, policy=policy,
                        via="ctor", threads=threads, late=list(late), gate=gate, failkind="std"))
    e = lambda *v: [["emit", x] for x in v]
    mk([e(1)], 1)
    mk([e(1, 2)], 2)
    mk([e(1), e(2)], 2)
    mk([e(1, 2, 3), e(4)], 4)
    mk([], 0)
    if focus == "P08":
        mk([e(1)], 1, fails=[1])
        mk([e(1, 2)], 2, fails=[1])
        mk([e(1), e(2, 3)], 3, fails=[2])
    if focus == "P07":
        mk([e(1, 2, 3, 4, 5, 6)], 6, policy="drop", gate=True, late=[[["idle"]] * 4 + [["open"]]])
        mk([e(1, 2, 3, 4, 5, 6)], 6, policy="wait", gate=True, late=[[["idle"]] * 4 + [["open"]]])
        mk([e(1, 2, 3, 4), e(5, 6)], 6, policy="wait", gate=True, late=[[["idle"]] * 4 + [["open"]]])
    return out


def construction(run, drv):
    """P07: which factors and policies are accepted, and the resulting capacity."""
    out = os.path.join(run.wd, "construct.ndjson")
    r = subprocess.run([drv, "--construct", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    lines = open(out).read().splitlines() if os.path.exists(out) else []
    if r.returncode:
        run.violation("constructing asynchronous sinks ended abnormally (status %d): %s" % (r.returncode, r.stdout[-500:]), dict(cmd="drv_async --construct"))
        return
    cfg = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCONSTRAINT Progress\nCHECK_DEADLOCK FALSE\n"
    rej, gen, dist = validate("TraceAsyncConstruct", cfg, lines, run.wd, tag="construct")
    run.transitions += gen
    run.states += dist
    run.traces += len(lines) - len(rej)
    run.count("constructions_checked", sum(len(json.loads(x)["ev"]) for x in lines))
    for i, pos in rej[:2]:
        e = json.loads(lines[i])["ev"]
        run.violation("construction not as specified: %s" % json.dumps(e[pos - 1]), dict(event=e[pos - 1]))


def check(run):
    focus = run.prop
    drv = build("sched", {"drv_async": ["sched"]})["drv_async"]
    th = run.thorough
    # 1. The design: exhaustive within small constants.
    run.model("MCAsync", MC % ("GoodConfigs4" if th else "GoodConfigs", "P2", "R4", ""),
              cover=["Call", "Enqueue", "FindFull", "Drop", "Retry", "Return", "ReadFlag", "Dequeue", "Empty", "Sleep",
                     "WriteBegin", "SetFlag", "Join", "FreeWrapped", "DestroyReturn"])
    if th:
        run.model("MCAsync", MC % ("GoodConfigs", "P2", "R5", ""), timeout=3000)
    run.model("MCAsync", MC % ("GoodConfigs", "P2", "R4" if th else "R3", "PROPERTIES DestructionEnds EventuallyWritten CallsEnd"))
    # The properties are not vacuous: the known design mistakes violate them.
    if focus == "P06":
        model_check("MCAsync", MC % ("LateFlagConfigs", "P1", "R2", ""), run.wd, expect_violation="Invariant NothingLostAtDestruction is violated")
    if focus == "P08":
        model_check("MCAsync", MC % ("NoHideConfigs", "P1", "R2", ""), run.wd, expect_violation="Invariant Hidden is violated")
    # 2. The implementation.
    if focus == "P07":
        construction(run, drv)
    r = random.Random("%s-%d" % (focus, seed()))
    n, s = (1500, 60) if th else (240, 24)
    progs = [program(r, focus) for _ in range(n)]
    both(run, "drv_async", ["sched"], progs, s, "TraceAsync", CONSTS)
    if run.violations == 0:
        small = small_programs(focus)
        both(run, "drv_async", ["sched"], small, 30, "TraceAsync", CONSTS, tag="dfs", share=0, dfs_runs=30000 if th else 1200,
             dfs_bound=3 if th else 2)
    run.assumptions += ["the scheduler serialises threads at pthread and std::atomic operations (sequential consistency); weaker "
                        "memory orders are judged by the happens-before monitor on the executions it sees",
                        "programs: at most 3 producers, 14 records, capacity 4 to 16"]
