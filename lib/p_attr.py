"""Attribute values (P22)."""
import random, struct
from vlib import *
import p_format

CFG = p_format.CFG + "CONSTANTS\n  Cells = {1, 2, 3, 4}\n  Views = {1, 2, 3, 4}\n"
RANGE = dict(char=(-128, 127), schar=(-128, 127), short=(-2 ** 15, 2 ** 15 - 1), int=(-2 ** 31, 2 ** 31 - 1), long=(-2 ** 63, 2 ** 63 - 1), llong=(-2 ** 63, 2 ** 63 - 1),
             uchar=(0, 255), ushort=(0, 65535), uint=(0, 2 ** 32 - 1), ulong=(0, 2 ** 64 - 1), ullong=(0, 2 ** 64 - 1))
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.1, 3.5, 1e308, 5e-324, float("inf"), -float("inf"), 2.0 ** 63, 42.0]
LITERALS = [b"", b"x", b"a\0b", b"true", b"a literal that is longer than small strings are"]
STRINGS = LITERALS + [b"\0", b"\xff\xfe", b"42", b"0", b"{}", b"%s%n", b"y" * 15, b"y" * 16, b"z" * 300, "п😀".encode()]


def bits(d):
    return str(struct.unpack("<Q", struct.pack("<d", d))[0])


def content(r, view):
    """(ctor, v): mostly from a small pool, so that equal values of different kinds meet."""
    c = r.choice(["nil", "default", "bool", "float", "double", "str", "lit", "double", "str"] + list(RANGE) + (["sv", "sv", "fn", "fn"] if view else []))
    if c in ("nil", "default"):
        return c, ""
    if c == "bool":
        return c, r.choice("01")
    if c in RANGE:
        lo, hi = RANGE[c]
        x = r.choice([lo, hi, 0, 1, 42, max(lo, -1), r.randint(lo, hi)])
        return c, str(x)
    if c == "double":
        return c, r.choice([bits(x) for x in DOUBLES] + ["9221120237041090560", "18444492273895866368", bits(r.uniform(-1e6, 1e6))])
    if c == "float":
        return c, bits(r.choice([0.0, -0.0, 1.0, 3.5, 42.0, float("inf"), struct.unpack("<f", struct.pack("<f", r.uniform(-9, 9)))[0]]))
    if c == "lit":
        return c, r.choice(LITERALS).hex()
    return c, r.choice(STRINGS).hex()


def program(r):
    """Only reads what may be read: values that were not moved away, and views whose owner has not changed."""
    moved, ver = {i: False for i in range(1, 5)}, {i: 0 for i in range(1, 5)}
    ref, kind = {k: None for k in range(1, 5)}, {i: "default" for i in range(1, 5)}
    ops = []
    valid = lambda k: ref[k] is None or ver[ref[k][0]] == ref[k][1]
    used = r.choice([2, 3, 4])
    for _ in range(r.randint(5, 40)):
        k = r.random()
        c, f = r.randint(1, used), r.randint(1, used)
        w, x = r.randint(1, used), r.randint(1, used)
        if k < .2:
            t, v = content(r, False)
            ops.append(dict(op="set", c=c, ctor=t, v=v, how=r.choice(["construct", "copy", "move", "temporary"])))
            moved[c], kind[c] = False, t
            ver[c] += 1
        elif k < .4:
            if moved[f]:
                continue
            op = r.choice(["copy", "move"])
            ops.append(dict(op=op, c=c, **{"from": f}, how=r.choice(["construct", "assign", "assign", "vector"] + (["swap"] if op == "move" else []))))
            ver[c] += 1
            moved[c], kind[c] = False, kind[f]
            if op == "move":
                ver[f] += 1 if c != f else 0
                moved[f] = c != f
        elif k < .55:
            if moved[c]:
                continue
            ops.append(dict(op="look", w=w, c=c, how=r.choice(["construct", "assign", "list", "vector"])))
            ref[w] = (c, ver[c]) if kind[c] in ("str", "lit", "fn") else None
        elif k < .65:
            t, v = content(r, True)
            ops.append(dict(op="vset", w=w, ctor=t, v=v, how=r.choice(["construct", "assign", "vector"])))
            ref[w] = None
        elif k < .72:
            if not valid(x):
                continue
            ops.append(dict(op="vcopy", w=w, **{"from": x}, how=r.choice(["construct", "assign", "vector"])))
            ref[w] = ref[x]
        elif k < .85:
            if not moved[c]:
                ops.append(dict(op="read", c=c))
        elif k < .93:
            if valid(w):
                ops.append(dict(op="vread", w=w))
        elif valid(w) and valid(x):
            ops.append(dict(op="eq", w=w, x=x))
    for i in range(1, used + 1):
        if not moved[i]:
            ops.append(dict(op="read", c=i))
        if valid(i):
            ops.append(dict(op="vread", w=i))
        for j in range(1, used + 1):
            if valid(i) and valid(j):
                ops.append(dict(op="eq", w=i, x=j))
    return dict(ops=ops)


def check(run):
    th = run.thorough
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS\n  Cells = {1, 2}\n  Views = {1, 2}\n  Contents <- Some\n  Depth = %d\n  Broken = %s\n"
           "INVARIANTS Faithful NeverMoved Equivalence\nCHECK_DEADLOCK FALSE\n")
    run.model("MCAttrSmall", cfg % (6 if th else 4, "FALSE"), timeout=3000)
    model_check("MCAttrSmall", cfg % (3, "TRUE"), run.wd, expect_violation="Faithful")
    drv = build("asan", {"drv_attr": []})["drv_attr"]
    r = random.Random("P22-%d" % seed())
    n = 100000 if th else 5000
    for k in range(0, n, 10000):
        p_format.decide(run, "TraceAttr", [program(r) for _ in range(min(10000, n - k))], "attr", "attribute_programs", drv=drv, cfg=CFG)
    run.assumptions += ["moved values are only assigned to or destroyed; views of changed owners are not used; NaN differs from itself"]
