"""Checks on executions of concurrent code under the controlled scheduler."""
import json, os, subprocess
from vlib import *

TRACE_CFG = """SPECIFICATION TSpec
%s
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def explore(run, drv, programs, schedules, dfs_runs=0, dfs_bound=2, tag="p"):
    """Runs every program under `schedules` random schedules (and a bounded systematic search)."""
    pf = os.path.join(run.wd, tag + ".ndjson")
    with open(pf, "w") as f:
        for i, p in enumerate(programs):
            p["id"] = i
            f.write(json.dumps(p) + "\n")
    n = NPROC

    def cmd(i):
        return [drv, pf, os.path.join(run.wd, "%s_out%d.ndjson" % (tag, i)), str(seed()), str(schedules),
                str(i), str(n), str(dfs_runs), str(dfs_bound)]
    t0 = time.time()
    tot = dict(programs=0, runs=0, distinct=0, dfs_complete=0)
    for o in shards(cmd, n):
        for k, v in json.loads(o.strip().splitlines()[-1]).items():
            tot[k] += v
    traces = []
    for i in range(n):
        traces += open(os.path.join(run.wd, "%s_out%d.ndjson" % (tag, i))).read().splitlines()
    run.count("programs_executed", tot["programs"])
    run.count("schedules_executed", tot["runs"])
    run.count("distinct_executions", tot["distinct"])
    run.count("programs_with_exhausted_schedules", tot["dfs_complete"])
    log("[explore] %d programs, %d schedules, %d distinct executions (%.1fs)" % (tot["programs"], tot["runs"], tot["distinct"], time.time() - t0))
    return traces


def check_traces(run, drv, programs, traces, module, consts, describe=None, limit=3, timeout=700):
    """Validates and, for rejections, re-runs the same schedule and validates again before reporting."""
    cfg = TRACE_CFG % consts
    rej, gen, dist = validate(module, cfg, traces, run.wd, timeout=timeout)
    run.transitions += gen
    run.states += dist
    run.traces += len(traces) - len(rej)
    if traces:
        run.sample(json.loads(traces[0]))
        run.sample(json.loads(traces[len(traces) // 2]))
    confirmed = 0
    unconfirmed = 0
    for i, pos in rej:
        if confirmed >= limit:
            break
        t = json.loads(traces[i])
        if confirm(run, drv, programs[t["id"]], t, module, cfg):
            confirmed += 1
            e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None
            run.violation("an execution is not explained by %s.tla: event %d %s after %s" % (
                module, pos, json.dumps(e), json.dumps(t["ev"][max(0, pos - 6):pos - 1])),
                dict(driver=os.path.basename(drv), module=module, program=programs[t["id"]], how=t["how"], trace=t, matched=pos))
        else:
            unconfirmed += 1
            log("note: a rejected execution did not repeat (program %d, %s): %s" % (t["id"], t["how"], json.dumps(t)[:1500]))
    # (on a busy machine an execution may be stopped, or its peers be late: one or two that never repeat say nothing)
    if not confirmed and sum('"st":"stuck"' not in traces[i] for i, _ in rej) > 2:
        raise CheckError("%d rejected executions, none of which repeats" % len(rej))
    run.count("rejected_executions", len(rej))
    return rej


def confirm(run, drv, program, trace, module, cfg, attempts=3):
    for a in range(attempts):
        rf = os.path.join(run.wd, "replay.json")
        of = os.path.join(run.wd, "replay_out.ndjson")
        json.dump(dict(program=program, how=trace["how"]), open(rf, "w"))
        r = subprocess.run([drv, "--replay", rf, of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            continue
        t = open(of).read().splitlines()
        rej, _, _ = validate(module, cfg, t, run.wd, tag="confirm")
        if rej:
            return True
    return False


def both(run, drv, extra, programs, schedules, module, consts, tag="p", share=0.4, **kw):
    """Explores under the scheduler, a share of the programs with the happens-before monitor as well."""
    n = len(programs)
    k = max(1, int(n * share)) if share else 0
    a, b = programs[:n - k] or programs, programs[n - k:] if k else []
    tr = explore(run, build("sched", {drv: extra})[drv], a, schedules, tag=tag, **kw)
    check_traces(run, build("sched", {drv: extra})[drv], a, tr, module, consts, timeout=3000)
    if b and run.violations == 0:
        rd = build("race", {drv: extra + ["race"]})[drv]
        tr = explore(run, rd, b, schedules, tag=tag + "r", **kw)
        run.count("executions_with_race_monitor", len(tr))
        check_traces(run, rd, b, tr, module, consts, timeout=3000)
