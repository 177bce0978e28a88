"""String views (P27)."""
import random
from vlib import *
import p_format

CFG = p_format.CFG + 'CONSTANTS\n  Slots = {1, 2, 3, 4}\n  Mistake = "none"\n'
HUGE = [-1, -2, -3, -100, -2 ** 31 + 1]
BYTES = [0, 10, 32, 48, 65, 97, 98, 122, 127, 128, 200, 255]


def text(r, earlier):
    k = r.random()
    if earlier and k < .4:
        t = list(r.choice(earlier))
        if k < .1 and t:
            t[r.randrange(len(t))] = r.choice(BYTES)
        elif k < .2:
            t += [r.choice(BYTES)]
        elif k < .25:
            t = t[:-1]
        return t
    n = r.choice([0, 1, 1, 2, 3, 3, 5, 15, 16, 20, 40])
    return [r.choice(BYTES) for _ in range(n)]


def program(r):
    mem, ops, used = [], [], r.choice([2, 3, 4])
    size = {s: 0 for s in range(1, 5)}      # the generator's idea of sizes, to aim at the limits
    near = lambda n: r.choice([0, 0, 1, n // 2, n - 1, n - 1, n, n, n + 1, n + 2, 100] + HUGE[:3] + [r.choice(HUGE)])
    huge = lambda x, n: x < 0 or x > n
    for _ in range(r.randint(4, 40)):
        k, s, t = r.random(), r.randint(1, used), r.randint(1, used)
        how = r.choice(["assign", "construct"])
        if k < .22:
            v = text(r, mem)
            mem.append(v)
            size[s] = len(v)
            ops.append(dict(op="make", s=s, v=v, kind=r.choice(["str", "lit", "ptr"]), how=how))
        elif k < .27 and mem:
            b = r.randint(1, len(mem))
            n = r.randint(0, len(mem[b - 1]))
            size[s] = n
            ops.append(dict(op="again", s=s, b=b, n=n, how=how))
        elif k < .29:
            size[s] = 0
            ops.append(dict(op="default", s=s, how=how))
        elif k < .35:
            size[s] = size[t]
            ops.append(dict(op="copy", s=s, t=t, how=how))
        elif k < .6:
            n = size[t]
            args = r.choice([0, 1, 2, 2, 2, 2])
            pos = near(n) if args else 0
            left = n if huge(pos, n) else n - pos
            count = near(left) if args == 2 else -1
            if not huge(pos, n):
                size[s] = left if huge(count, left) else count
            ops.append(dict(op="substr", s=s, t=t, pos=pos, count=count, args=args, how=how))
        elif k < .65 and mem:
            b = r.randint(1, len(mem))
            if mem[b - 1]:
                ops.append(dict(op="poke", b=b, i=r.randrange(len(mem[b - 1])), v=r.choice(BYTES)))
        elif k < .75:
            ops.append(dict(op="read", s=s))
        elif k < .85:
            ops.append(dict(op="at", s=s, i=near(size[s])))
        else:
            ops.append(dict(op="cmp", s=s, t=t))
    for s in range(1, used + 1):
        ops.append(dict(op="read", s=s))
        ops += [dict(op="cmp", s=s, t=t) for t in range(1, used + 1)]
    return dict(ops=[{k: v for k, v in o.items()} for o in ops])


def check(run):
    th = run.thorough
    cfg = "INIT MInit\nNEXT MNext\nCONSTANTS\n  Slots = {%s}\n  Mistake = \"%s\"\n  Depth = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    inv = "Within Guarded Order Cut"
    run.model("MCStringView", cfg % ("1, 2, 3", "none", 3, inv), timeout=3000)
    if th:
        run.model("MCStringView", cfg % ("1, 2", "none", 4, inv), timeout=3000)
    model_check("MCStringView", cfg % ("1, 2", "count unclamped", 3, "Within"), run.wd, expect_violation="Within")
    model_check("MCStringView", cfg % ("1, 2", "at end", 3, "Guarded"), run.wd, expect_violation="Guarded")
    drv = build("asan", {"drv_view": []})["drv_view"]
    r = random.Random("P27-%d" % seed())
    n = 100000 if th else 6000
    for k in range(0, n, 10000):
        p_format.decide(run, "TraceStringView", [program(r) for _ in range(min(10000, n - k))], "view", "view_programs", drv=drv, cfg=CFG)
    run.assumptions += ["views are used while their buffers live; where an empty view points is left open; the order of bytes above 127 is left open, but not that there is one"]
