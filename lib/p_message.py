"""P19: UDP and syslog sinks."""
from conc import *
import errno, syslog

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- T2
  Sinks <- K3
  Priorities <- MPriorities
  Mistake = "%s"
  Budget = %d
INVARIANTS InForce
PROPERTIES EntriesRight
CHECK_DEADLOCK FALSE
"""
UDP = "CONSTANTS\n  Threads <- TThreads\n  Sinks <- TSinks\n  Limit = 65507\n"
SYSLOG = "CONSTANTS\n  Threads <- TThreads\n  Sinks <- TSinks\n  Priorities <- TPriorities\n"
ODD = [[37, 115], [37, 110], [37, 37], [37, 46, 42, 115], [37], [10], [255, 254], [123, 125], [92], [37, 53, 36, 115], [13, 10], [27]]


def text(r, nul=False):
    m = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        m += r.choice(ODD) if r.random() < 0.5 else [r.randint(97, 122) for _ in range(r.randint(1, 8))]
    if nul and r.random() < 0.3:
        m.insert(r.randint(0, len(m)), 0)
    if r.random() < 0.03:
        m += [r.randint(97, 122) for _ in range(r.choice([250, 512, 1024, 1400, 2000]))]
    return m


def udp_program(r, big=False):
    nth = 1 if big else r.choice([1, 1, 2, 3])
    sim = 0 if big else int(r.random() < 0.5)
    hosts = [r.choice(["127.0.0.1", "127.0.0.1", "one.test", "two.test", "none.test", "no.such"] + (["::1", "six.test"] if sim else [])) for _ in range(r.choice([1, 1, 2]))]
    hosts[0] = hosts[0] if r.random() < 0.3 else "127.0.0.1"

    def op():
        k = r.randint(1, len(hosts))
        if big and r.random() < 0.5:
            return ["emit", k, r.choice([65507, 65508, 65506, 65535, 65536, 40000, 70000]), r.randint(0, 255)]
        if not sim and r.random() < 0.1:
            return ["deaf", k]
        return ["emit", k, text(r, True)]
    return dict(cfg=dict(hosts=[0 if h in ("none.test", "no.such") else 1 for h in hosts]), sinks=[dict(host=h) for h in hosts], sim=sim,
                threads=[[op() for _ in range(r.randint(1, 6 if nth == 1 else 3))] for _ in range(nth)],
                faults=[r.choice([errno.ENOBUFS, errno.ENETUNREACH, errno.EAGAIN, errno.EINTR, errno.EPERM, errno.ECONNREFUSED]) if r.random() < 0.2 else 0 for _ in range(12)] if r.random() < 0.4 else [])


def syslog_program(r):
    n = r.choice([1, 2, 2, 3, 4])
    prios = [[] if r.random() < 0.3 else [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 3, 9, 14, 128 + 6, 23 * 8]) for _ in range(r.randint(1, 6))] for _ in range(n)]

    def emit(k):
        return ["emit", k, r.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, 2**31 - 1, -2**31, 100]), text(r)]
    live, setup = [], []
    for _ in range(r.randint(1, 10)):
        x = r.random()
        free = [k for k in range(1, n + 1) if k not in live]
        if free and (x < 0.45 or not live):
            live.append(r.choice(free))
            setup.append(["new", live[-1]])
        elif live and x < 0.65:
            k = r.choice(live)
            live.remove(k)
            setup.append(["del", k])
        elif live:
            setup.append(emit(r.choice(live)))
    threads, teardown = [], []
    if live and r.random() < 0.6:
        # One thread may make and destroy sinks nobody else uses.
        own = [k for k in range(1, n + 1) if k not in live]
        for t in range(r.choice([1, 2, 2, 3])):
            ops = []
            mine = r.choice(own) if t == 0 and own and r.random() < 0.6 else 0
            if mine:
                ops = [["new", mine], emit(mine), ["del", mine]]
            else:
                ops = [emit(r.choice(live)) for _ in range(r.randint(1, 3))]
            threads.append(ops)
    r.shuffle(live)
    while live:
        k = live.pop()
        if r.random() < 0.5:
            teardown.append(emit(k))
        teardown.append(["del", k])
        if live and r.random() < 0.6:
            teardown.append(emit(r.choice(live)))
    return dict(cfg=dict(prios=prios, ident="drv_syslog", opt=syslog.LOG_PID, fac=syslog.LOG_USER), setup=setup, threads=threads, teardown=teardown,
                explicit=r.randint(0, 1))


def check(run):
    th = run.thorough
    run.model("MCSyslog", MC % ("", 7 if th else 5), cover=["MNew", "MDel", "MEntry", "MRet"], timeout=3000)
    for m in ("moved", "closeall", "count") if th else ("closeall",):
        model_check("MCSyslog", MC % (m, 4), run.wd, expect_violation="Invariant InForce is violated")
    r = random.Random("P19-%d" % seed())
    both(run, "drv_udp", ["sched"], [udp_program(r) for _ in range(4000 if th else 300)], 30 if th else 8, "TraceUdp", UDP, tag="udp")
    if run.violations == 0:
        both(run, "drv_udp", ["sched"], [udp_program(r, True) for _ in range(200 if th else 12)], 1, "TraceUdp", UDP, tag="big", share=0)
    if run.violations == 0:
        both(run, "drv_syslog", ["sched"], [syslog_program(r) for _ in range(8000 if th else 600)], 40 if th else 10, "TraceSyslog", SYSLOG, tag="syslog")
    if run.violations == 0:
        n = 3000 if th else 200
        drv = build("asan", {"drv_syslog": ["sched"]})["drv_syslog"]
        progs = [dict(syslog_program(r), threads=[]) for _ in range(n)]
        check_traces(run, drv, progs, explore(run, drv, progs, 1, tag="asan"), "TraceSyslog", SYSLOG)
    run.assumptions += ["messages for syslog contain no NUL (a C string)", "the system log is the set of calls of openlog, syslog and closelog",
                        "names are resolved by a table of the harness"]
