"""Programs for the formatters (harness/drv_format.cpp): records, patterns, zones, configurations."""
import json
from decimal import Decimal


def bs(s):
    return list(s if isinstance(s, (bytes, bytearray)) else s.encode("utf-8"))


def num(n):
    """A signed integer value."""
    return {"t": "i", "neg": n < 0, "d": [int(c) for c in str(abs(n))] if n else []}


def unum(n):
    return {"t": "u", "d": [int(c) for c in str(n)] if n else []}


def dbl(x):
    """Exactly the double x as 0.d * 10^e."""
    t = Decimal(x).as_tuple()
    ds = list(t.digits)
    while ds and ds[-1] == 0:
        ds.pop()
    d = list(t.digits)
    e = len(d) + t.exponent
    while ds and ds[0] == 0:
        ds.pop(0)
        e -= 1
    return {"t": "d", "neg": bool(t.sign) and bool(ds), "d": ds, "e": e if ds else 0}


def decimal(r, digits=15):
    """A decimal of at most 15 digits: whatever double is nearest prints as it."""
    n = r.randint(1, digits)
    ds = [r.randint(0, 9) for _ in range(n)]
    ds[0] = r.randint(1, 9)
    while ds[-1] == 0:
        ds[-1] = r.randint(1, 9)
    return {"t": "d", "neg": r.random() < 0.3, "d": ds, "e": r.choice([0, 1, 2, 3, n, n + 1, r.randint(-20, 25), r.randint(-300, 300)])}


INTS = [0, 1, -1, 2, 7, 9, 10, 42, -42, 99, 100, 127, 128, 255, 256, 1000, 65535, 2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**62, 2**63 - 1, -2**63, -2**63 + 1]
UINTS = [0, 1, 9, 10, 42, 255, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]
FLOATS = [0.0, 1.0, -1.0, 0.5, 0.25, 3.1415, -3.1415, 2.675, 1e6, 999999.5, 1e5, 123456.0, 1234567.0, 1e-4, 1e-5, 0.0001220703125, 1e15, 1e16, 2.5, 3.5, 0.125, 100.0, 1e21, 42.0]


def value(r, text=None, exact=True):
    k = r.randrange(12)
    if k < 3:
        return num(r.choice(INTS) if r.random() < 0.6 else r.randint(-10**r.randint(1, 18), 10**r.randint(1, 18)))
    if k < 5:
        return unum(r.choice(UINTS) if r.random() < 0.6 else r.randint(0, 10**r.randint(1, 19)))
    if k < 6:
        return {"t": "b", "v": r.random() < 0.5}
    if k < 8:
        if not exact:
            return decimal(r) if r.random() < 0.8 else {"t": "d", "neg": False, "d": [], "e": 0}
        x = r.choice(FLOATS) if r.random() < 0.6 else r.choice([1, -1]) * r.randint(1, 10**6) / 2.0**r.randint(0, 12)
        return dbl(x)
    if k < 10:
        return {"t": "s", "v": text(r) if text else string(r)}
    if k < 11:
        return {"t": "n"}
    return {"t": "f", "v": text(r) if text else string(r)}


WORDS = ["", "a", "GET", "value", "http/1.1", "42", "hello world", "пример", "日本", "a=b", "x\ty", "line\nbreak", "{}", "{0}", "%s", "%d%n",
         "\\", "\"quoted\"", "'", "nul\0inside", "esc\x1b[0m", "trailing ", " leading", "\x7f", "\x01\x02\x1f", "\a\b\f\v\r", "</script>", "😀",
         "x" * 60, "long " * 30, "\\n", "=", "==", "\\=", "\t", "\n"]


def string(r, nul=True):
    k = r.randrange(4)
    if k < 3:
        s = r.choice(WORDS)
        if r.random() < 0.2:
            s += r.choice(WORDS)
        return bs(s if nul else s.replace("\0", "0"))
    n = r.choice([1, 2, 3, 5, 8, 20])
    return bs("".join(r.choice("ab c{}:%\\=\"\t\n\0/é~") for _ in range(n)).replace("\0", "\0" if nul else "0"))


NAMES = ["a", "b", "id", "source", "x.y", "user_name", "request", "A1", "message", "severity", "timestamp", "process", "thread", "pid", "tid", "lwp"]
ODDNAMES = ["", "two words", "key=1", "k\\", "tab\tkey", "nl\nkey", "имя", "nul\0key", "\"", "a/b", "~", "{a}"]


def name(r, odd=True):
    return bs(r.choice(ODDNAMES) if odd and r.random() < 0.15 else r.choice(NAMES))


def attrs(r, lists=3, each=4, exact=True, odd=True, text=None):
    return [[{"k": name(r, odd), "v": value(r, text, exact)} for _ in range(r.choice([0, 1, 1, 2, 3, each]))]
            for _ in range(r.choice([0, 1, 1, 2, lists]))]


def instant(r):
    k = r.randrange(6)
    d = r.choice([0, 1, 58, 59, 364, 365, 789, 790, 10956, 11015, 11016, 11322, 14975, 16071, 16436, 16800, 17166, 18262, 19723, 24837, 24855, 47541])
    if k >= 3:
        d = r.randint(0, 30000 if k < 5 else 80000)
    s = r.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 46800, 86399, r.randint(0, 86399), r.randint(0, 86399)])
    u = r.choice([0, 1, 9, 10, 999, 1000, 99999, 123456, 500000, 999999, r.randint(0, 999999)])
    if d == 0 and s == 0 and u == 0:
        u = 1
    return {"d": d, "s": s, "u": u, "n": r.choice([0, 0, 1, 500, 999])}


SEVS = [0, 1, 2, 3, 4, 5, -1, -4, 10, 255, 2**31 - 1, -2**31]


def record(r, **kw):
    x = {"m": string(r), "sev": num(r.choice(SEVS)), "t": instant(r), "a": attrs(r, **kw)}
    if r.random() < 0.3:
        x["f"] = string(r)
    if r.random() < 0.2:
        x["thr"] = bs(r.choice(["worker", "t", "fifteen-chars-x", "имя", "a b", "{}"]))
    return x


# (TZ, zone): POSIX rules, both hemispheres, offsets that are no whole hours, rules of unusual weeks.
def zone_of(name, off, dname=None, doff=None, rule=None, to=None):
    def tz(o):
        o = -o
        s = "-" if o < 0 else ""
        o = abs(o)
        return "%s%d:%02d" % (s, o // 3600, o % 3600 // 60)

    def nm(x):
        return x if x.isalpha() else "<%s>" % x
    z = {"off": off, "name": bs(name), "dst": dname is not None}
    s = nm(name) + tz(off)
    if dname:
        z.update(dname=bs(dname), doff=doff)
        z["from"] = dict(zip("mwdt", rule))
        z["to"] = dict(zip("mwdt", to))
        s += nm(dname) + tz(doff)
        for m, w, d, t in (rule, to):
            s += ",M%d.%d.%d/%d:%02d" % (m, w, d, t // 3600, t % 3600 // 60)
    return s, z


ZONES = [
    zone_of("UTC", 0),
    zone_of("MSK", 10800),
    zone_of("CET", 3600, "CEST", 7200, (3, 5, 0, 7200), (10, 5, 0, 10800)),
    zone_of("EST", -18000, "EDT", -14400, (3, 2, 0, 7200), (11, 1, 0, 7200)),
    zone_of("NST", -12600, "NDT", -9000, (3, 2, 0, 60), (11, 1, 0, 60)),
    zone_of("IST", 19800),
    zone_of("+0545", 20700),
    zone_of("AEST", 36000, "AEDT", 39600, (10, 1, 0, 7200), (4, 1, 0, 10800)),
    zone_of("LHST", 37800, "LHDT", 39600, (10, 1, 0, 7200), (4, 1, 0, 7200)),
    zone_of("NZST", 43200, "NZDT", 46800, (9, 5, 0, 7200), (4, 1, 0, 10800)),
    zone_of("-12", -43200),
    zone_of("+14", 50400),
    zone_of("MARK", -34200),
]


def near_change(r, z):
    """An instant near a change of the zone's offset (found by scanning)."""
    import datetime
    y = r.randint(1971, 2037)
    rule = z[r.choice(["from", "to"])]
    first = datetime.date(y, rule["m"], 1)
    wd = first.isoweekday() % 7
    day = 1 + (rule["d"] - wd) % 7 + 7 * (rule["w"] - 1)
    nxt = datetime.date(y + (rule["m"] == 12), rule["m"] % 12 + 1, 1)
    while first.toordinal() + day - 1 >= nxt.toordinal():
        day -= 7
    base = (first.toordinal() + day - 1 - datetime.date(1970, 1, 1).toordinal()) * 86400 + rule["t"]
    x = base - r.choice([z["off"], z["doff"]]) + r.choice([-3601, -3600, -1801, -1, 0, 1, 1799, 1800, 3599, 3600])
    return {"d": x // 86400, "s": x % 86400, "u": r.randint(0, 999999), "n": 0}


def in_zone(r, p, local=True):
    if local:
        s, z = r.choice(ZONES)
        p["tz"], p["zone"] = s, z
        if z["dst"]:
            for x in p["recs"]:
                if r.random() < 0.5:
                    x["t"] = near_change(r, z)
    return p


# ---- patterns of the string formatter -----------------------------------------------------------

def fill_align(r):
    return r.choice(["", "", "", "<", ">", "^", "*<", "*>", "-^", "=>", "0>"])


def spec_text(r, types="s"):
    k = r.randrange(8)
    if k == 0:
        return ""
    s = fill_align(r)
    s += r.choice(["", "", "0", "1", "5", "10", "20", "64"]) if not s.endswith("0") else r.choice(["", "5"])
    if r.random() < 0.15:
        s += "." + r.choice(["0", "1", "3", "10"])
    return s + r.choice(list(types) + [""])


def spec_num(r, types="d"):
    s = fill_align(r)
    if s[-1:] == "" and r.random() < 0.1:
        s = "="
    s += r.choice(["", "", "", "+", "-", " "])
    s += r.choice(["", "", "", "#"])
    s += r.choice(["", "", "0"])
    s += r.choice(["", "", "3", "8", "20"])
    return s + r.choice(list(types) + [""])


def spec_double(r):
    s = r.choice(["", "", ">", "^", "*>", "*^", "<"])
    s += r.choice(["", "", "+", " "])
    s += r.choice(["", "", "0", "#"])
    s += r.choice(["", "", "3", "10", "24"])
    s += r.choice(["", "", ".0", ".1", ".2", ".3", ".6", ".12"])
    return s + r.choice(["", "", "f", "F", "e", "E", "g", "G"])


def carries(v):
    """glibc forgets the zeros of %#g when rounding carries into another digit: 1.e+06."""
    return v["t"] == "d" and v["d"][:1] == [9]


def spec_for(r, v):
    """A specification for a value, sometimes one of another type."""
    t = v["t"] if r.random() < 0.93 else r.choice("iudbs")
    if t in "iu":
        return spec_num(r, "dddxXobB")
    if t == "d":
        f = spec_double(r)
        return f.replace("#", "") if carries(v) else f
    if t == "b":
        return r.choice(["", "", "d", "s", "5", ">6", "<6s"])
    return spec_text(r)


STRFTIME = ["%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%y", "%b", "%B", "%a", "%A", "%j", "%e", "%I", "%p", "%D", "%F", "%T", "%R", "%r", "%c", "%x", "%X",
            "%C", "%G", "%g", "%V", "%U", "%W", "%u", "%w", "%n", "%t", "%%", "%z", "%Z", "%s", "%h", "%k", "%l", "%P"]
COMMON = ["%Y-%m-%d %H:%M:%S.%f", "%Y-%m-%d %H:%M:%S %z", "%s.%f", "%H:%M:%S", "%c", "%d/%b/%Y:%H:%M:%S %z", "%FT%T.%fZ", "%%%f", "%%s", "%%f%f", "%%%%s%s", "%%%s", "%G-W%V-%u"]


def strftime(r, braces=False):
    if r.random() < 0.4:
        return r.choice(COMMON)
    s = ""
    for _ in range(r.randint(1, 6)):
        s += r.choice(STRFTIME) if r.random() < 0.75 else r.choice(["-", ":", " ", "T", "at ", "é", "[", "]", "literal", "f", "s", "%%"])
    return s


def brace(s):
    return s.replace("{", "{{").replace("}", "}}")


LITS = ["", " ", ": ", "[", "]", "\n", "text", "{{", "}}", "{{}}", "é", "%", ":s}}", "{{name}}", "\\", "日"]


def literal(r):
    return "".join(r.choice(LITS) for _ in range(r.choice([0, 1, 1, 2])))


def leftover(r):
    if r.random() < 0.3:
        return "{...}"
    sep = "{" + r.choice([", ", " ", "", "|", "\t", "; ", "{{", "}}", "{{}}", " s", ":", ":s", "é"]) + ":s}"
    part = []
    for _ in range(r.randint(1, 4)):
        part.append(r.choice(["{name}", "{value}", "{name:s}", "{value:s}", "{name:>8s}", "{value:<6s}", "{name:^%ds}" % r.choice([0, 7, 10, 33, 100, 128]), "{value:%ds}" % r.choice([0, 9, 12, 99, 105]), "{value:d}", "=", ": ", "{{", "}}", "x", "p", ":p "]))
    pat = "{" + "".join(part) + ":p}"
    s = r.choice([sep + pat, pat + sep, sep, pat, ""])
    return "{...:" + s + r.choice(["", "<", ">", "^"]) + r.choice(["", "", "30", "3", "200", "0", "99", "1000"]) + "s}"


DEFAULTS = ["none", "0", "42", "-7", "0.5", "-2.25", "1.5.2", "", "a b", "+3", "12a", "007", "-0", "18446744073", ".5", "5.", "-", "é", "x:y", "s}", "{{", "0x10"]


def default_spec(r, d):
    whole = d.lstrip("+-").isdigit()
    real = not whole and d.count(".") == 1 and d.replace(".", "").lstrip("+-").isdigit()
    s = r.choice(["", "", ">", "^", "<" if not real else ">"])
    s += r.choice(["", "5", "12"])
    if real and r.random() < 0.5:
        s += ".1"
    return s + r.choice(["", "", "d" if whole else "f" if real else "s"])


def pattern(r, recs, many=6):
    vals = [kv for x in recs for l in x["a"] for kv in l]
    usable = [kv for kv in vals if all(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in (95, 46) for c in kv["k"]) and
              bytes(kv["k"]) not in (b"", b"message", b"process", b"thread", b"severity", b"timestamp", b"...")]
    s = literal(r)
    for _ in range(r.randint(1, many)):
        k = r.randrange(20)
        if k < 3:
            p = "{message" + r.choice(["", ":" + spec_text(r)]) + "}"
        elif k < 5:
            p = "{severity" + r.choice(["", "", ":" + spec_num(r), ":" + spec_text(r)]) + "}"
        elif k < 6:
            p = "{process" + r.choice(["", ":d", ":s", ":" + spec_num(r), ":" + spec_text(r)]) + "}"
        elif k < 8:
            p = "{thread" + r.choice(["", ":d", ":s", ":x", ":#x", ":X", ":" + spec_num(r, "dxX"), ":>18s", ":s"]) + "}"
        elif k < 10:
            p = "{timestamp" + r.choice(["", ":d", ":{%s}s" % strftime(r), ":{%s}l" % strftime(r), ":{%s}>40s" % strftime(r), ":{%s}<5l" % strftime(r), ":s", ":l", ":>30s", ":20d", ":<30l"]) + "}"
        elif k < 13:
            p = leftover(r)
        elif k < 17 and usable:
            kv = r.choice(usable)
            f = spec_for(r, kv["v"])
            p = "{" + bytes(kv["k"]).decode() + (":" + f if f or r.random() < 0.1 else "") + "}"
        else:
            d = r.choice(DEFAULTS)
            n = bytes(r.choice(usable)["k"]).decode() if usable and r.random() < 0.6 else r.choice(["zz", "opt.1", "no_such"])
            p = "{%s:{%s:default}%s}" % (n, d, default_spec(r, d))
        s += p + literal(r)
    return s


def named(r, p):
    if r.random() < 0.5:
        p["map"] = [bs(x) for x in r.choice([["DEBUG", "INFO", "WARN", "ERROR"], ["D"], ["", "two words", "é"], []])]
    p["via"] = r.choice(["builder", "factory"])
    return p


def string_program(r):
    # the same attributes in all records, mostly, so that patterns find them
    recs = [record(r)]
    for _ in range(r.choice([0, 1, 2])):
        x = record(r)
        if r.random() < 0.7:
            x["a"] = json.loads(json.dumps(recs[0]["a"]))
            r.shuffle(x["a"])
        recs.append(x)
    p = {"kind": "string", "recs": recs, "proc": bs(r.choice(["app", "drv", "a very long process name indeed", "é"]))}
    p["pattern"] = bs(pattern(r, recs))
    named(r, p)
    return in_zone(r, p, r.random() < 0.5)


# ---- timestamps -----------------------------------------------------------------------------------

def time_program(r):
    """Timestamps only: any strftime conversion, in many zones, near their changes and at odd instants."""
    recs = [{"m": [], "sev": num(0), "t": instant(r), "a": []} for _ in range(r.choice([2, 4, 8]))]
    pat = strftime(r)
    k = r.randrange(40)
    if k == 0:
        pat = r.choice(["%c", "%c|%s.%f", "%A %B "]) * r.choice([42, 43, 60, 90])        # beyond any fixed buffer
        recs = recs[:2]
    elif k == 1:
        pat = r.choice(["%A", "%B", "%c", "x"]) * r.choice([100, 128, 200]) if r.random() < 0.9 else "x" * r.choice([1021, 1022, 1023, 1024, 1025])
        recs = recs[:2]
    p = {"kind": "string", "via": "builder", "recs": recs}
    f = r.choice(["{timestamp:{%s}l}", "{timestamp:{%s}l}", "{timestamp:{%s}s}", "{timestamp:{%s}s}|{timestamp:{%s}l}|{timestamp:d}", "{timestamp:l} {timestamp}"])
    p["pattern"] = bs(f.replace("%s", pat))
    in_zone(r, p, r.random() < 0.85)
    if r.random() < 0.04 and len(p["pattern"]) < 200:
        p["par"] = 300
    return p


# ---- patterns, valid or not -----------------------------------------------------------------------

CHUNKS = ["{", "}", ":", "a", "...", "s", "{{", "}}", "message", ":default}", ":s}", ":p}", "{name}", "{value", "d", "5", "{:", "timestamp", "severity", "%Y", "no", ">", ".", " ",
          "l", "x", "#", "0", "-", "é", "thread", "process", ":", "{", "}", "}", "{"]


def pattern_programs(r, groups, per=120):
    """groups: iterables of pattern texts; one program tries many patterns on one record."""
    out = []
    for texts in groups:
        texts = list(texts)
        for i in range(0, len(texts), per):
            p = {"kind": "patterns", "patterns": [t if isinstance(t, list) else bs(t) for t in texts[i:i + per]]}
            rec = {"m": bs("m{s}g"), "sev": num(r.choice([0, 1, -1, 7])), "t": instant(r),
                   "a": [[{"k": bs("a"), "v": r.choice([num(42), {"t": "s", "v": bs("v}")}, unum(7), dbl(0.5), {"t": "b", "v": True}, {"t": "n"}])}], [{"k": bs("a.a"), "v": num(1)}, {"k": bs("b"), "v": {"t": "s", "v": bs("")}}]]}
            p["recs"] = [rec]
            named(r, p)
            in_zone(r, p, r.random() < 0.3)
            out.append(p)
    return out


def words(alphabet, n):
    import itertools
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


def mutated(r):
    recs = [record(r)]
    s = list(pattern(r, recs, 3).replace("{b", "{a"))
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        i = r.randrange(len(s) + 1)
        if k == 0 and s:
            del s[min(i, len(s) - 1)]
        elif k == 1:
            s.insert(i, r.choice(["{", "}", ":", "s", "}}", "{{", "d", ".", " ", "\0", "é"]))
        elif k == 2 and s:
            j = r.randrange(len(s))
            s[min(i, len(s) - 1)], s[j] = s[j], s[min(i, len(s) - 1)]
        elif k == 3:
            s = s[:i]
        else:
            j = r.randrange(len(s) + 1)
            s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
    return "".join(s)[:400]


def pairs(r, n):
    """Several placeholders in one pattern that share the text of their specifications, or nearly their names."""
    names = ["message", "severity", "process", "thread", "timestamp", "a", "a.a", "b", "...", "zz", "messag", "messages", "severit", "processes", "threads", "time"]
    specs = ["", ":", ":s", ":d", ":>8", ":>8s", ":<5d", ":{x:default}", ":{x:default}s", ":{%H}s", ":{%Y}l", ":x", ":{{name}:p}s", ":{|:s}s", ":8", ":.2s", ":^7s", ":05d"]
    for _ in range(n):
        f = r.choice(specs)
        k = r.choice([2, 2, 2, 3])
        yield "".join(r.choice(["", "", " ", "{{", "-"]) + "{" + r.choice(names) + (f if r.random() < .8 else r.choice(specs)) + "}" for _ in range(k))


def chunky(r):
    return "".join(r.choice(CHUNKS) for _ in range(r.randint(2, 12)))


def grown(r):
    """Long or deeply nested patterns."""
    n = r.choice([20, 50, 50, 200] + [600] * (r.random() < 0.2))
    return r.choice(["{" * n, "}" * n, "{a:" + "{" * n + "}" * n + "}", "{...:" + "{" * n + ":p}s}", "{a:{" + "x" * n + ":default}}", "{" + "a" * n + "}", "{a:" + "9" * n + "d}",
                     "{a:{" + "{x:default}" * (n // 10) + ":default}s}", "{message:" + "1" * 7 + "s}" if False else "{message:30s}" * (n // 10), "{timestamp:{" + "%Y" * (n // 4) + "}s}", "x" * n,
                     "{...:{" + "{name}{value}" * (n // 10) + ":p}s}", "{severity:" + "." * n + "}", "{:" + ":" * n + "}"])


# ---- TSKV -------------------------------------------------------------------------------------------

FIELDS = ["message", "severity", "pid", "tid", "timestamp"]


def some_key(r, p):
    k = r.randrange(5)
    if k == 0:
        return bs(r.choice(FIELDS))
    vals = [kv["k"] for x in p["recs"] for l in x["a"] for kv in l]
    if k < 3 and vals:
        return r.choice(vals)
    return name(r)


def tskv_program(r):
    p = {"kind": "tskv", "via": r.choice(["builder", "factory"]), "recs": [record(r) for _ in range(r.choice([1, 2, 3]))]}
    if r.random() < 0.6:
        p["create"] = [[some_key(r, p) if r.random() < 0.5 else name(r), string(r)] for _ in range(r.choice([0, 1, 2, 4]))]
    if r.random() < 0.6:
        p["rename"] = [[some_key(r, p), name(r) if r.random() < 0.8 else string(r)] for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.6:
        p["remove"] = [some_key(r, p) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.6:
        p["times"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = {"name": bs(r.choice(["timestamp", "time", "unixtime", "timezone", "date=", "\t"])), "p": bs(strftime(r))}
            if r.random() < 0.6:
                t["gm"] = r.random() < 0.4
            p["times"].append(t)
    if p["via"] == "factory":     # keys of JSON objects: once each
        for f in ("create", "rename"):
            if f in p:
                p[f] = [x for i, x in enumerate(p[f]) if all(y[0] != x[0] for y in p[f][:i])]
        if "times" in p:
            p["times"] = [x for i, x in enumerate(p["times"]) if all(y["name"] != x["name"] for y in p["times"][:i])]
    # attributes as text: what cppformat makes of doubles is the string formatter's matter
    return in_zone(r, p, r.random() < 0.6)


# ---- JSON -------------------------------------------------------------------------------------------

BUILTIN = ["message", "lwp", "thread", "process", "severity", "timestamp"]


def pointer_token(r, names):
    t = r.choice([n for n in names] + [bs(x) for x in ["fields", "a", "b", "", "x y", "é", "A~B", "c/d", "message"]])
    return [c for x in t for c in ([126, 48] if x == 126 else [126, 49] if x == 47 else [x])]


def numeric(t):
    return bool(t) and all(48 <= c <= 57 for c in t)


def route(r, names):
    k = r.randrange(14)
    if k == 0:
        return bs(r.choice(["fields", "a/b", "/~", "/~2", "~1", "/a/~3b", " /a"]))       # refused
    if k == 1:
        return []
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        t = pointer_token(r, names)
        out += [47] + ([120] if numeric(t) or t == [45] else t)
    return out


def json_program(r):
    recs = [record(r, exact=False) for _ in range(r.choice([1, 2, 2]))]
    p = {"kind": "json", "via": r.choice(["builder", "factory"]), "recs": recs}
    names = [kv["k"] for x in recs for l in x["a"] for kv in l]

    def key():
        k = r.randrange(4)
        return bs(r.choice(BUILTIN)) if k == 0 else r.choice(names) if names and k < 3 else name(r)
    if r.random() < 0.3:
        p["unique"] = r.random() < 0.8
    if r.random() < 0.3:
        p["newline"] = r.random() < 0.8
    if r.random() < 0.5:
        p["rename"] = [[key(), name(r) if r.random() < 0.8 else string(r)] for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.35:
        p["format"] = []
        for _ in range(r.choice([1, 1, 2])):
            k = key()
            v = ([kv["v"] for x in recs for l in x["a"] for kv in l if kv["k"] == k] + [{"t": "s"} if bytes(k) in (b"message", b"thread") else num(0)])[0]
            f = spec_for(r, v)
            lit = r.choice(["", "", "", "<", "{{", "}}", "a "])
            p["format"].append([k, bs(lit + ("{:" + f + "}" if f or r.random() < 0.5 else "{}") + r.choice(["", "", ">", "}}", "%"]))])
    if r.random() < 0.5:
        p["map"] = [bs(x) for x in r.choice([["D", "I", "W", "E"], ["DEBUG"], ["", "é\"\\"], []])]
    if r.random() < 0.4:
        p["stamp"] = bs(strftime(r))
    if r.random() < 0.5:
        p["rest"] = route(r, names)
    if r.random() < 0.5:
        p["routes"] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            to = route(r, names)
            if all(x["to"] != to for x in p["routes"]) and p.get("rest") != to:
                p["routes"].append({"to": to, "names": [key() for _ in range(r.choice([0, 1, 1, 2, 3]))]})
    if p["via"] == "factory":
        for f in ("rename", "format"):
            if f in p:
                p[f] = [x for i, x in enumerate(p[f]) if all(y[0] != x[0] for y in p[f][:i])]
    formatted = [x[0] for x in p.get("format", [])]
    for x in recs:
        for l in x["a"]:
            for kv in l:
                if kv["v"]["t"] == "d":
                    if kv["k"] in formatted:
                        kv["v"] = dbl(r.choice([1, -1]) * r.randint(0, 10**6) / 2.0**r.randint(0, 6))
                    elif r.random() < 0.1:
                        kv["v"] = {"t": "d", "x": r.choice(["nan", "inf", "-inf"])}
    for l in p.get("format", []):      # left-aligned doubles: only spaces
        s = bytes(l[1]).decode()
        for c in "*-=0":
            s = s.replace("{:%s<" % c, "{:<")
        l[1] = bs(s)
    return in_zone(r, p, r.random() < 0.3)
