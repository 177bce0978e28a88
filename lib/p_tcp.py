"""P18: TCP sinks."""
from conc import *
import errno

MC = """SPECIFICATION MSpec
CONSTANTS
  Threads <- T2
  Sinks <- %s
  Addrs <- %s
  Mistake = "%s"
  Budget = %d
  Faults = %d
INVARIANTS PeersSeeRecords
PROPERTIES Refines EmitsEnd
CHECK_DEADLOCK FALSE
"""
CONSTS = "CONSTANTS\n  Threads <- TThreads\n  Sinks <- TSinks\n  Addrs <- TAddrs\n"
HOSTS = {"127.0.0.1": 1, "one.test": 1, "two.test": 2, "three.test": 3, "none.test": 0, "::1": 1, "no.such.host": 0}
CERR = [errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.ENETUNREACH, errno.ECONNRESET, errno.EADDRNOTAVAIL, errno.EINTR]
SERR = [errno.EPIPE, errno.ECONNRESET, errno.ETIMEDOUT, errno.ENOBUFS, errno.EIO, errno.EAGAIN, errno.EINTR, errno.ENOTCONN]


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def message(self, big=False):
        r = self.r
        self.n += 1
        if r.random() < 0.06:
            return []
        if big and r.random() < 0.15:
            return [r.randint(0, 255) for _ in range(r.choice([300, 1500, 4096, 9000]))]
        if r.random() < 0.1:
            return [r.choice([0, 10, 255, 37, 13]) for _ in range(r.randint(1, 4))]
        # Distinct records start with distinct bytes.
        return [self.n] + [100 + r.randint(0, 20) for _ in range(r.randint(0, 6))] + [10]

    def sim(self):
        r = self.r
        hosts = [r.choice(["127.0.0.1", "127.0.0.1", "one.test", "two.test", "two.test", "three.test", "none.test", "::1", "no.such.host"]) for _ in range(r.choice([1, 1, 1, 2]))]
        nth = r.choice([1, 1, 2, 2, 3])
        ths = [[["emit", r.randint(1, len(hosts)), self.message()] for _ in range(r.randint(1, 5 if nth == 1 else 3))] for _ in range(nth)]
        pc, ps = r.choice([0, 0.2, 0.5]), r.choice([0, 0.15, 0.3])
        return dict(cfg=dict(addrs=[HOSTS[h] for h in hosts]), sinks=[dict(host=h, port=r.choice([1, 80, 514, 9999, 65535])) for h in hosts], threads=ths, real=0,
                    cold=0, connects=[r.choice(CERR) if r.random() < pc else 0 for _ in range(14)],
                    sends=[([2, r.choice(SERR)] if r.random() < ps else [1, r.randint(1, 4)] if r.random() < 0.3 else [0, 0]) for _ in range(30)])

    def real(self):
        r = self.r
        hosts = [r.choice(["127.0.0.1", "127.0.0.1", "one.test", "two.test"]) for _ in range(r.choice([1, 1, 2]))]
        ops = []
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < 0.6:
                ops.append(["emit", r.randint(1, len(hosts)), self.message(True)])
            else:
                ops.append([r.choice(["drain", "close", "reset", "unlisten", "listen", "listen"])])
        return dict(cfg=dict(addrs=[HOSTS[h] for h in hosts]), sinks=[dict(host=h, port=0) for h in hosts], threads=[ops], real=1,
                    cold=int(r.random() < 0.3), connects=[], sends=[])


def small():
    out = []
    for sends in ([], [[1, 1]], [[2, errno.EPIPE]], [[1, 1], [2, errno.EPIPE]], [[2, errno.EAGAIN]]):
        for connects in ([], [errno.ECONNREFUSED]):
            for host in ("127.0.0.1", "two.test"):
                out.append(dict(cfg=dict(addrs=[HOSTS[host]]), sinks=[dict(host=host, port=514)], threads=[[["emit", 1, [1, 101]]], [["emit", 1, [2, 102]], ["emit", 1, [3]]]],
                                real=0, cold=0, connects=connects, sends=sends))
    return out


def check(run):
    th = run.thorough
    cover = ["MConnect", "MSend", "MClose", "MRet"]
    run.model("MCTcp", MC % ("K1", "Two", "", 4 if th else 3, 4 if th else 3), cover=cover, timeout=3000)
    run.model("MCTcp", MC % ("K2", "OneTwo", "", 3 if th else 2, 3 if th else 2), cover=cover, timeout=3000)
    for m in ("nolock", "keep", "first", "short", "retry") if th else ("nolock", "keep", "short"):
        model_check("MCTcp", MC % ("K1", "Two", m, 2, 2), run.wd, expect_violation="(Invariant|Action property|Temporal property).*violated")
    r = random.Random("P18-%d" % seed())
    n, s = (6000, 60) if th else (500, 20)
    both(run, "drv_tcp", ["sched"], [Gen(r).sim() for _ in range(n)], s, "TraceTcp", CONSTS)
    if run.violations == 0:
        both(run, "drv_tcp", ["sched"], [Gen(r).real() for _ in range(3000 if th else 250)], 1, "TraceTcp", CONSTS, tag="real", share=0)
    if run.violations == 0:
        both(run, "drv_tcp", ["sched"], small(), 10, "TraceTcp", CONSTS, tag="dfs", share=0, dfs_runs=20000 if th else 300, dfs_bound=3 if th else 2)
    run.assumptions += ["names are resolved by a table of the harness; outcomes of connects and sends are decided by it, or by a real peer on the loopback interface"]
