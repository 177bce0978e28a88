"""The logger facade: messages with arguments (P23)."""
import json, os, random, re, struct
from vlib import *
import genfmt as g
import p_format

RANGES = dict(int=(-2**31, 2**31 - 1), short=(-2**15, 2**15 - 1), long=(-2**63, 2**63 - 1), llong=(-2**63, 2**63 - 1),
              uint=(0, 2**32 - 1), ushort=(0, 65535), ulong=(0, 2**64 - 1), ullong=(0, 2**64 - 1))
INTS = sorted({x for lo, hi in RANGES.values() for x in (lo, hi, lo + 1, hi - 1)} | set(g.INTS) | set(g.UINTS) | {3, 12, 40})
CHARS = list(range(32, 127))
STRINGS = [s for s in g.WORDS] + ["y" * 500, "y" * 499 + "é", "z" * 2000]


def text(r, nul=True):
    s = r.choice(STRINGS) if r.random() < 0.7 else "".join(r.choice("ab c{}:%\\\"\t\n\0é~") for _ in range(r.choice([1, 3, 8])))
    return g.bs(s if nul else s.replace("\0", "0"))


def arg_of(r, c):
    """A value passed as the C++ type c."""
    if c in RANGES:
        lo, hi = RANGES[c]
        small = r.random() < 0.4
        x = r.choice([x for x in INTS if lo <= x <= hi]) if not small else r.randint(max(lo, -20), 40)
        v = g.num(x) if lo < 0 else g.unum(x)
    elif c == "bool":
        v = {"t": "b", "v": r.random() < 0.5}
    elif c == "double":
        v = g.dbl(r.choice(g.FLOATS) if r.random() < 0.6 else r.choice([1, -1]) * r.randint(1, 10**6) / 2.0**r.randint(0, 12))
    elif c == "float":
        v = g.dbl(struct.unpack("<f", struct.pack("<f", r.choice([0.0, 1.0, -0.5, 2.25, 42.0, 100.0, r.randint(-10**4, 10**4) / 8])))[0])
    elif c in ("char", "schar", "uchar"):
        x = r.choice(CHARS)
        v = dict(g.num(x), t="c", v=x)
    else:
        v = {"t": "s", "v": text(r, c != "cstr")}
        if c == "user":
            v["user"] = 1
    v["c"] = c
    return v


ONE = ["int", "int", "short", "long", "llong", "uint", "ushort", "ulong", "ullong", "bool", "double", "float", "char", "schar", "uchar", "cstr", "cstr", "str", "str", "user", "user"]
TWO = ["long", "ulong", "bool", "double", "char", "user", "str"]
THREE = ["int", "double", "str"]
LITERALS = ["", "", " ", " is ", ": ", "{{", "}}", "{{}}", "%s", "é", "text\n", "'", "\\", "0x", ":", "x" * 300, "}} {{"]


def spec(r, v):
    t, c = v["t"], v["c"]
    if r.random() < 0.07:
        return g.spec_for(r, v if t != "c" else dict(v, t="i"))
    if t == "c":
        return g.spec_num(r, "dxXob") if r.random() < 0.4 else g.fill_align(r).replace("=", "-") + r.choice(["", "1", "5", "20"]) + r.choice(["", "c"])
    if t == "s" and "user" in v:
        return g.spec_text(r, "s")
    return g.spec_for(r, v)


def whole(v):
    return v["t"] in "iu"


def size(v):
    """May be tried as a width: small, or refused."""
    if not whole(v):
        return True
    n = int("".join(map(str, v["d"])) or "0")
    return n <= 300 or v.get("neg") or n >= 2**31


def pattern(r, args):
    """A pattern for these arguments, mostly a proper one."""
    n = len(args)
    auto = r.random() < 0.6
    s = r.choice(LITERALS)
    order = list(range(n)) if auto else [r.randrange(n) for _ in range(r.randint(1, 4))] if n else []
    if auto and n and r.random() < 0.15:
        order = order[:r.randrange(n)]
    k = 0
    while k < len(order):
        v = args[order[k]]
        ref = "" if auto else str(order[k])
        sizes = [i for i, a in enumerate(args) if size(a)]
        if r.random() < 0.3 and (k + 1 < len(order) and size(args[order[k + 1]]) if auto else sizes):
            # the width or the precision is an argument
            def nested():
                return "{}" if auto else "{%d}" % r.choice(sizes)
            pre = r.choice(["", "", "<", ">", "^", "*>", ">0" if False else "#"]) if v["t"] != "d" else r.choice(["", "", ">", "*>"])
            k += 1
            form = r.randrange(4)
            if form == 0 or v["t"] == "s" and form < 3:
                p = pre + nested()
            elif form == 1:
                p = pre + r.choice(["", "8"]) + "." + nested()
            elif form == 2 and (not auto or k + 1 < len(order) and size(args[order[k + 1]])):
                k += 1
                p = pre + nested() + "." + nested()
            else:
                p = pre + nested() + ("." + r.choice(["0", "2", "5"]) if v["t"] in "ds" else "")
            s += "{" + ref + ":" + p + r.choice(["", "", {"i": "d", "u": "x", "d": "f", "s": "s", "b": "d", "c": "c"}[v["t"]]]) + "}"
        else:
            f = spec(r, v) if r.random() < 0.5 else ""
            s += "{" + ref + (":" + f if f or r.random() < 0.05 else "") + "}"
        s += r.choice(LITERALS)
        k += 1
    if r.random() < 0.05:
        s += r.choice(["{}", "{0}", "{%d}" % n, "{99}", "{name}", "{_}", "{", "}", "{:", "{ }", "{0", "{:}", "{!}", "{0!r}", "{-1}"])
    return s


def mutated(r, s):
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < .4 and s:
            s = s[:i] + s[i + 1:]
        elif k < .8:
            s = s[:i] + r.choice("{}{}:0<>.,xds*#+") + s[i:]
        else:
            j = r.randrange(len(s) + 1)
            s = s[:min(i, j)] + s[max(i, j):]
    return s


def unsure(pat, args):
    """What cppformat does there is its own."""
    if re.search(r"\d{4}", pat):
        return "memory"
    t = {v["t"] for v in args}
    if "d" in t and (re.search(r":[^ ]<|[aA]\}|[=^]", pat) or re.search(r"0\{|[0-9]{3}", pat)):
        return "double"
    if "#" in pat and any(g.carries(v) for v in args):
        return "glibc"
    if re.search(r"n\}", pat) and t & {"i", "u", "c"}:
        return "locale"
    if re.search(r"p\}", pat) and "s" in t:
        return "pointer"
    return None


def attrs(r):
    pool = [[b"a".hex(), "str", b"value".hex()], [b"".hex(), "str", b"\0{}".hex()], [b"k".hex(), "sint", "-42"], [b"a".hex(), "bool", "1"], [b"u".hex(), "uint", str(2**64 - 1)], [b"n".hex(), "nil", ""]]
    return [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3]))]


def patterns():
    out = []
    for m in re.finditer(r'^CT\("((?:[^"\\]|\\.)*)", ([\w, ]+)\)$', open(os.path.join(VERIF, "harness", "ct_patterns.def")).read(), re.M):
        out.append((m.group(1).replace('\\"', '"').replace("\\n", "\n").replace("\\\\", "\\"), m.group(2).split(", ")))
    return out


CT = {"i": "long", "u": "uint", "b": "bool", "d": "double", "c": "uchar", "s": "str", "U": "user"}


def call(r, compiled, inside=False, like=None):
    """A call; like: one of the same C++ types."""
    c = {"sev": r.choice([0, 1, 2, 3, -1, 7, 2**31 - 1, -2**31])}
    k = r.random() if not like else 1
    if k < .35:
        i = r.randrange(len(compiled))
        text_, types = compiled[i]
        c.update(kind="ct", ct=i, pat=g.bs(text_), args=[arg_of(r, CT[t]) for t in types])
    elif k < .42:
        c.update(kind="plain", pat=[x for x in text(r)], args=[])
    else:
        n = r.choice([1, 1, 1, 1, 2, 2, 3, 5]) if not like else len(like)
        args = [arg_of(r, v["c"]) for v in like[:3]] if like else [arg_of(r, r.choice(ONE if n == 1 else TWO if n == 2 else THREE)) for _ in range(min(n, 3))]
        if n == 5:
            args += [{"t": "s", "v": g.bs("literal"), "c": "cstr"}, dict(g.unum(7), c="uint")]
        s = pattern(r, args)
        if r.random() < 0.25:
            s = mutated(r, s)
        # a mutation may have made a size of a great number
        if re.search(r":[^{}]*\{", s) and not all(size(a) for a in args):
            s = s.replace(":", "")
        why = unsure(s, args)
        if why == "memory":
            return call(r, compiled, inside, like)
        if why:
            c["unsure"] = why
        c.update(kind="run", pat=g.bs(s), args=args)
    if c["kind"] != "ct" and r.random() < 0.4:
        c["attrs"] = attrs(r)
    if r.random() < 0.1:
        c["deny"] = 1
    elif not inside and r.random() < 0.2:
        i = call(r, compiled, True, c["args"] if c["kind"] == "run" and r.random() < 0.6 else None)
        i.pop("deny", None)
        if not any(v.get("user") for v in i["args"]):
            c["inner"], c["via"] = i, r.choice(["handler", "argument"])
    return c


def program(r, compiled):
    p = {"calls": [call(r, compiled) for _ in range(r.choice([1, 2, 4, 8]))]}
    if len(p["calls"]) > 1 and r.random() < 0.3:
        p["threads"] = r.choice([2, 4])
    if r.random() < 0.5:
        p["wrap"] = [[r.choice(["a", "w", ""]).encode().hex(), "str", r.choice([b"x", b"", b"\0"]).hex()] for _ in range(r.choice([0, 1, 2]))]
        if r.random() < 0.5:
            p["base"] = 1
    return p


def check(run):
    drv = build("asan", {"drv_facade": []})["drv_facade"]
    r = random.Random("P23-%d" % seed())
    compiled = patterns()
    n = 60000 if run.thorough else 3000
    for k in range(0, n, 10000):
        progs = [program(r, compiled) for _ in range(min(10000, n - k))]
        run.count("unsettled", sum("unsure" in c for p in progs for c in p["calls"]))
        run.count("calls", sum(len(p["calls"]) for p in progs))
        p_format.decide(run, "TraceFacade", progs, "facade", "facade_programs", drv=drv)
    run.assumptions += ["doubles: exactly representable values; no conversions of cppformat's own (n, p, a)"]
