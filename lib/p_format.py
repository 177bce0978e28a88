"""Formatters: P13 (string formatter), P14 (patterns), P15 (JSON), P16 (TSKV), P24 (timestamps)."""
import json, os, random, subprocess
from vlib import *
import genfmt as g

CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCONSTRAINT Progress\nCHECK_DEADLOCK FALSE\n"


def record_runs(run, drv, progs, tag):
    """Runs programs in NPROC processes of the driver; traces in the order of the programs."""
    pf = os.path.join(run.wd, tag + ".in")
    with open(pf, "w") as f:
        f.write("".join(json.dumps(p) + "\n" for p in progs))
    n = min(NPROC, max(1, len(progs) // 4))
    out = [os.path.join(run.wd, "%s.out%d" % (tag, i)) for i in range(n)]
    shards(lambda i: [drv, pf, out[i], str(i), str(n)], n)
    traces = [None] * len(progs)
    for o in out:
        for l in open(o):
            i = int(l[len('{"id":'):l.index(",")])
            traces[i] = l.rstrip("\n")
        os.unlink(o)
    if None in traces:
        traces = [t for t in traces if t]
        if not any('"st":"stuck"' in t for t in traces):
            raise CheckError("the driver lost programs")
    return traces


def text(b):
    return bytes(b).decode("utf-8", "backslashreplace")


def readable(x):
    """Byte lists as text, for messages."""
    if isinstance(x, list) and x and all(isinstance(c, int) and 0 <= c < 256 for c in x):
        return text(x)
    if isinstance(x, list):
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: readable(v) if k not in ("d",) else v for k, v in x.items()}
    return x


def decide(run, module, progs, tag, what, drv=None, env=None, cfg=CFG):
    drv = drv or build("asan", {"drv_format": []})["drv_format"]
    traces = record_runs(run, drv, progs, tag)
    rej, gen, dist = validate(module, cfg, traces, run.wd, tag=tag, env=env)
    run.transitions += gen
    run.states += dist
    run.traces += len(traces) - len(rej)
    run.count(what, len(traces))
    run.count("outputs_compared", sum(t.count('"e":') for t in traces))
    repeated = 0
    for i, _ in rej[:10]:
        if repeated == 3:
            break
        n = json.loads(traces[i])["id"]
        for _ in range(5):
            again = record_runs(run, drv, [progs[n]], tag + "1")
            r1 = validate(module, cfg, again, run.wd, tag=tag + "1", env=env)[0]
            if r1:
                break
        if not r1:
            log("note: a rejected execution did not repeat: %s" % traces[i][:1500])
            continue
        repeated += 1
        t = json.loads(again[0])
        p = t["cfg"]
        e = t["ev"][r1[0][1] - 1]
        about = {k: v for k, v in p.items() if k not in ("recs", "patterns")}
        if e.get("e") == "fmt":
            about["record"] = p["recs"][r1[0][1] - 2]
        elif e.get("e") == "pat":
            about["pattern"], about["record"] = p["patterns"][r1[0][1] - 1], p["recs"][0]
        run.violation("%s: %s\n  gave %s" % (what, json.dumps(readable(about), ensure_ascii=True)[:1500], json.dumps(readable(e), ensure_ascii=True)[:1500]),
                      dict(program=p, trace=t))
    # (on a busy machine an execution may be stopped, or its peers be late: one or two that never repeat say nothing)
    if not repeated and sum('"st":"stuck"' not in traces[i] for i, _ in rej) > 2:
        raise CheckError("%d rejected executions, none of which repeats" % len(rej))
    if traces:
        run.sample(json.dumps(readable(json.loads(traces[0])), ensure_ascii=True)[:600])
    return traces


def check(run):
    r = random.Random("%s-%d" % (run.prop, seed()))
    {"P13": p13, "P14": p14, "P15": p15, "P16": p16, "P24": p24}[run.prop](run, r)


def p13(run, r):
    n = 100000 if run.thorough else 2500
    for k in range(0, n, 10000):
        progs = [g.string_program(r) for _ in range(min(10000, n - k))]
        decide(run, "TraceString", progs, "str", "string_formatters")
    run.assumptions += ["doubles: exactly representable values, no nan or infinity with a width; left alignment of doubles only with spaces",
                        "strftime conversions as POSIX documents them in the C locale; instants from 1970 on"]


def p14(run, r):
    th = run.thorough
    chars = g.words("{}:as.", 6 if th else 5)
    inner = ("{a:" + w + "}" for w in g.words("{}:s5", 6 if th else 4))
    rest = ("{...:" + w + "}" for w in g.words(["{", "}", ":s}", ":p}", "s", "{{", "name"], 5 if th else 4))
    deflt = ("{a:" + w + "}" for w in g.words(["{", ":default}", "}", "x", "1", ".", "s"], 5 if th else 4))
    chunks = g.words(g.CHUNKS[:20], 3 if th else 2)
    n = 60000 if th else 3000
    groups = [chars, inner, rest, deflt, chunks, (g.mutated(r) for _ in range(n)), (g.chunky(r) for _ in range(n)), (g.grown(r) for _ in range(600 if th else 60)), g.pairs(r, 40000 if th else 2000)]
    for i, texts in enumerate(groups):
        texts = list(texts)
        run.count("patterns", len(texts))
        decide(run, "TraceString", g.pattern_programs(r, [texts]), "pat%d" % i, "pattern_batches")


def p24(run, r):
    run.model("MCCalendar", "INIT Init\nNEXT Next\nCONSTANTS\n  First = 0\n  Last = 106751\n  Step = 1000\nINVARIANTS Steps Inverse Weeks Summer Anchors\nCHECK_DEADLOCK FALSE\n")
    n = 60000 if run.thorough else 2500
    for k in range(0, n, 10000):
        progs = [g.time_program(r) for _ in range(min(10000, n - k))]
        decide(run, "TraceString", progs, "time", "timestamp_formatters")


def p16(run, r):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS\n  KeyLen = %d\n  ValLen = %d\n  Broken = %s\nINVARIANTS RoundTrip OneLine\nCHECK_DEADLOCK FALSE\n"
    run.model("MCTskv", cfg % ((2, 3, "FALSE") if run.thorough else (2, 1, "FALSE")), timeout=3000)
    model_check("MCTskv", cfg % (2, 1, "TRUE"), run.wd, expect_violation="RoundTrip")
    n = 60000 if run.thorough else 2000
    for k in range(0, n, 10000):
        progs = [g.tskv_program(r) for _ in range(min(10000, n - k))]
        decide(run, "TraceTskv", progs, "tskv", "tskv_formatters")


def p15(run, r):
    n = 60000 if run.thorough else 2000
    for k in range(0, n, 10000):
        progs = [g.json_program(r) for _ in range(min(10000, n - k))]
        decide(run, "TraceJson", progs, "json", "json_formatters")
    run.assumptions += ["strings are valid UTF-8; no number and no dash among the tokens of routes (arrays); doubles of at most 15 digits"]
