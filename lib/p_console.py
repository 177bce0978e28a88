"""P17: console sinks."""
from conc import *

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- %s
  Sinks <- K3
  SinkOf <- MSinkOf
  Tty <- %s
  Mistake = "%s"
  Budget = %d
PROPERTIES Refines%s
CHECK_DEADLOCK FALSE
"""
CONSTS = "CONSTANTS\n  Threads <- TThreads\n  Sinks <- TSinks\n  SinkOf <- TSinkOf\n  Tty <- TTty\n"
MISTAKES = ["ownlock", "streamlock", "nolock", "nofilter", "colourpipe", "keeplock", "noreset", "noflush", "early"]
COLS = [0, 2, 31, 32, 33, 34, 39]
ODD = [[], [10], [13], [0], [27, 91, 48, 109], [37, 115], [255, 254], [9], [92, 110]]


def message(r):
    m = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        m += r.choice(ODD) if r.random() < 0.3 else [r.randint(97, 122) for _ in range(r.randint(1, 6))]
    if r.random() < 0.03:
        m = [r.randint(97, 122) for _ in range(r.choice([255, 256, 1023, 1024, 1025]))]
    return m


def sink(r, tty):
    if r.random() < 0.3:
        s = dict(stream=1, deny=[], fthrow=[], map=[])
        how = dict(by="config")
        k = r.random()
        sevs = list(range(-2, 7))
        if k < 0.3:
            th = r.randint(-1, 5)
            s["deny"] = [v for v in sevs if v < th]
            how["filter"] = dict(type="severity", threshold=th)
        elif k < 0.8:
            s["deny"] = r.sample(sevs, r.randint(0, 4))
            s["fthrow"] = r.sample(sevs, r.choice([0, 0, 1, 2]))
            how["filter"] = dict(type="tf", deny=s["deny"], fthrow=s["fthrow"], neutral=r.randint(0, 1))
        return s, how
    s = dict(stream=r.choice([1, 1, 2]), deny=[], fthrow=[], map=[])
    how = dict(by=r.choice(["lv", "rv"]))
    for key in ("other", "explicit", "streamfirst"):
        if r.random() < 0.3:
            how[key] = 1
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        if r.random() < 0.75:
            s["map"].append(dict(k="sev", sev=r.randint(-1, 4), col=r.choice(COLS)))
        else:
            s["map"].append(dict(k="fn", tab=[[v, r.choice(COLS + ([-1] if tty[s["stream"] - 1] else []))] for v in r.sample(range(-1, 5), r.randint(0, 4))]))
    return s, how


def program(r):
    tty = [int(r.random() < 0.6), int(r.random() < 0.6)]
    both_ = [sink(r, tty) for _ in range(r.choice([1, 2, 2, 3]))]
    n = len(both_)
    breaks = []
    threads = r.choice([1, 2, 2, 3])
    if r.random() < 0.12:
        breaks, threads = sorted(r.sample(range(1, 16), r.randint(1, 3))), 1
    ths = [[[r.randint(1, n), r.choice([0, 1, 2, 3, 4, -1, 5]), message(r)] for _ in range(r.randint(1, 4 if threads > 1 else 7))] for _ in range(threads)]
    flags = [f for f in ("hex", "oct", "pos", "width", "left") if r.random() < 0.08]
    return dict(cfg=dict(sinks=[s for s, _ in both_], tty=tty), how=[h for _, h in both_], threads=ths, flags=flags, breaks=breaks)


def small():
    out = []
    red = [dict(k="sev", sev=1, col=31)]
    boom = [dict(k="fn", tab=[[1, -1]])]
    for tty in ([1, 1], [0, 0], [0, 1]):
        for s2, m in ((1, red), (2, red), (2, boom)):
            if m is boom and not tty[1]:
                continue
            out.append(dict(cfg=dict(sinks=[dict(stream=1, deny=[], fthrow=[], map=red), dict(stream=s2, deny=[], fthrow=[], map=m)], tty=tty),
                            how=[dict(by="lv"), dict(by="rv")], threads=[[[1, 1, [97]]], [[2, 1, [98]], [2, 0, [99]]]], flags=[], breaks=[]))
    return out


def check(run):
    th = run.thorough
    for tty in ("TtyBoth", "TtyErr"):
        run.model("MCConsole", MC % ("T2", tty, "", 4 if th else 3, " EmitsEnd"), cover=["MColour", "MReset", "MFlush", "MMap", "MUnlock"])
    if th:
        run.model("MCConsole", MC % ("T3", "TtyBoth", "", 3, ""), timeout=3000, heap="12g")
    for m in MISTAKES if th else ["streamlock", "keeplock", "noflush"]:
        model_check("MCConsole", MC % ("T2", "TtyErr" if m == "colourpipe" else "TtyBoth", m, 2, " EmitsEnd"), run.wd,
                    expect_violation="(Action|Temporal) propert.* violated")
    r = random.Random("P17-%d" % seed())
    n, s = (6000, 60) if th else (600, 20)
    both(run, "drv_console", ["sched", "iohooks"], [program(r) for _ in range(n)], s, "TraceConsole", CONSTS)
    if run.violations == 0:
        both(run, "drv_console", ["sched", "iohooks"], small(), 10, "TraceConsole", CONSTS, tag="dfs", share=0, dfs_runs=20000 if th else 600, dfs_bound=3 if th else 2)
    run.assumptions += ["the streams' buffers are recording doubles; whether a stream is a terminal is what isatty says"]
