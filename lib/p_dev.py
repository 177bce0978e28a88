"""P26: development handlers."""
import genfmt as g
from conc import *

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- %s
  Mistake = "%s"
  Budget = %d
PROPERTIES Refines CallsEnd
CHECK_DEADLOCK FALSE
"""
CONSTS = "CONSTANTS\n  Threads <- TThreads\n"


def record(r, **kw):
    p = g.record(r, **kw)
    for l in p["a"]:
        for kv in l:
            k = r.random()
            if k < 0.25:
                kv["k"] = [r.randint(97, 122) for _ in range(r.choice([14, 15, 16, 17, 18, 40]))]
    if r.random() < 0.5:
        p["sev"] = g.num(r.randint(-1, 4))
    return p


def program(r):
    recs = [record(r) for _ in range(r.choice([1, 2, 3]))]
    threads = r.choice([1, 1, 2, 2, 3])
    breaks = []
    if r.random() < 0.1:
        breaks, threads = sorted(r.sample(range(1, 30), r.randint(1, 3))), 1
    n = r.choice([1, 2, 2])
    ths = [[[r.randint(1, n), r.randint(1, len(recs))] for _ in range(r.randint(1, 2 if threads > 1 else 4))] for _ in range(threads)]
    return dict(cfg=dict(recs=recs, tty=r.randint(0, 1)), how=[r.choice(["builder", "factory", "registry"]) for _ in range(n)], threads=ths, breaks=breaks)


def small():
    out = []
    t = dict(d=0, s=0, u=1, n=0)
    rec = lambda n: dict(m=[109], sev=g.num(n), a=[[dict(k=[107], v=g.num(n))] * n], t=t)
    for tty in (0, 1):
        for how in (["builder"], ["registry", "builder"]):
            out.append(dict(cfg=dict(recs=[rec(0), rec(1)], tty=tty), how=how, threads=[[[1, 1]], [[len(how), 2]]], breaks=[]))
    return out


def check(run):
    th = run.thorough
    run.model("MCDev", MC % ("T2", "", 4 if th else 3), cover=["MCall", "MLock", "MPut", "MFlush", "MRet"])
    if th:
        run.model("MCDev", MC % ("T3", "", 4), timeout=3000, heap="12g")
    for m in ("nolock", "early", "keeplock", "noflush"):
        model_check("MCDev", MC % ("T2", m, 2), run.wd, expect_violation="(Action|Temporal) propert.* violated")
    r = random.Random("P26-%d" % seed())
    n, s = (4000, 30) if th else (500, 8)
    both(run, "drv_dev", ["sched", "iohooks"], [program(r) for _ in range(n)], s, "TraceDev", CONSTS)
    if run.violations == 0:
        both(run, "drv_dev", ["sched", "iohooks"], small(), 10, "TraceDev", CONSTS, tag="dfs", share=0, dfs_runs=20000 if th else 150, dfs_bound=3 if th else 2)
    run.assumptions += ["standard output's buffer is a recording double with default formatting flags; whether it is a terminal is what isatty says"]
