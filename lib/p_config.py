"""Configurations: P20 (building loggers), P21 (reading JSON)."""
import random
from vlib import *
from p_format import decide
import genconf as g
import genbuilder as gb


def check(run):
    r = random.Random("%s-%d" % (run.prop, seed()))
    {"P20": p20, "P21": p21}[run.prop](run, r)


def p21(run, r):
    drv = build("asan", {"drv_config": []})["drv_config"]
    n = 60000 if run.thorough else 3000
    for k in range(0, n, 10000):
        progs = [g.program(r) for _ in range(min(10000, n - k))]
        decide(run, "TraceConfig", progs, "conf", "json_documents", drv=drv)
    run.assumptions += ["documents are valid UTF-8 without NUL or byte order mark; doubles of magnitudes within range compared to 12 digits"]


def p20(run, r):
    drv = build("asan", {"drv_builder": []})["drv_builder"]
    n = 30000 if run.thorough else 1500
    for k in range(0, n, 5000):
        progs = [gb.program(r) for _ in range(min(5000, n - k))]
        decide(run, "TraceBuilder", progs, "build", "building_sessions", drv=drv)
