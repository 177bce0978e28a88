"""Generated sessions of building loggers from JSON configurations."""
import copy
import genconf as gc

S = lambda b: ("s", b if isinstance(b, bytes) else b.encode())
N = lambda n: ("#", str(n))
O = lambda *ms: ("o", [(k.encode() if isinstance(k, str) else k, v) for k, v in ms])
A = lambda xs: ("a", list(xs))
Bo = lambda v: ("b", bool(v))

ATTRS = [["61", "sint", "42"], ["6b6579", "str", "76616c7565"], ["62", "bool", "1"], ["63", "dbl", "4609434218613702656"], ["6d657373616765", "str", "78"], ["64", "nil", ""],
         ["61", "str", "7a"], ["61", "sint", "43"], ["6b6579", "sint", "-1"]]
NAMES = ["root", "app", "x/y", "", "main"]
PATTERNS = ["{message}", "{severity:d} {message}", "[{severity:s}] {message}", "[{timestamp}] {message}", "{timestamp:{%Y-%m-%d %H:%M:%S.%f}s} {message:>12}", "{...}", "{message} {...:{{name}={value}:p}s}",
            "{a:{none:default}}{message}", "plain", "", "{{x}}{message}", "{message:.3s}|", "{...:{[:prefix}{{name}:{value}:p}{, :s}{]:s}s}", "{message}{timestamp:{%H}l}"]
BAD_PATTERNS = ["{message", "{message:{}", "{:}{", "{message}}{", "{timestamp:{%Y", "{...:{x"]
SEVS = ["D", "I", "W", "E", "é", "", "{}"]
STRF = ["%Y-%m-%d", "%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%fZ", "%s", "x", ""]
KEYS = ["message", "severity", "timestamp", "a", "key", "b", "c", "new", "tid", "process"]


def uniq(r, keys, n):
    return r.sample(keys, n)


def formatter(r, ty):
    k = r.choice(["string", "string", "json", "tskv", "uf"])
    ms = []
    if k == "string":
        # Severities as strings need names for all of them.
        m = r.random() < .6
        pat = r.choice(PATTERNS) if r.random() < .93 else r.choice(BAD_PATTERNS)
        if m and r.random() < .5:
            pat = r.choice(["[{severity:s}] {message}", "{severity:s}|{message}", "{severity:<4s}"])
        if not m and "severity:s" in pat:
            pat = "{severity:d}"
        ms.append(("pattern", S(pat)))
        if m:
            ms.append(("sevmap", A([S(s) for s in r.sample(SEVS, r.randint(3, 7) if "severity:s" in pat else r.randint(0, 5))])))
    elif k == "json":
        if r.random() < .5:
            ms.append(("unique", Bo(r.random() < .7)))
        if r.random() < .5:
            ms.append(("newline", Bo(r.random() < .7)))
        if r.random() < .5:
            ms.append(("mapping", O(*[(x, S(r.choice(["@" + x, x.upper(), "m"]))) for x in uniq(r, KEYS, r.randint(0, 3))])))
        if r.random() < .2:
            ms.append(("formatting", O(*[(x, S(r.choice(["{:>10}", "<{}>", "{}"]))) for x in uniq(r, ["a", "key", "b"], r.randint(0, 2))])))
        if r.random() < .6:
            rt = []
            ks = r.sample(KEYS, len(KEYS))
            for to in uniq(r, ["/fields", "/x/y", "/z", ""], r.randint(0, 3)):
                if r.random() < .3 and not any(v[0] == "s" for _, v in rt):
                    rt.append((to, S(r.choice(["*", "any"]))))
                else:
                    rt.append((to, A([S(ks.pop()) for _ in range(r.randint(0, 3))])))
            ms.append(("routing", O(*rt)))
        if r.random() < .5:
            mu = []
            if r.random() < .6:
                mu.append(("timestamp", S(r.choice(STRF[:3]))))
            if r.random() < .6:
                mu.append(("severity", A([S(s) for s in r.sample(SEVS, r.randint(0, 5))])))
            r.shuffle(mu)
            ms.append(("mutate", O(*mu)))
    elif k == "tskv":
        if r.random() < .5:
            ms.append(("create", O(*[(x, S("v" + x)) for x in uniq(r, ["tskv_format", "q", "a"], r.randint(0, 2))])))
        if r.random() < .5:
            ms.append(("rename", O(*[(x, S("r" + x)) for x in uniq(r, KEYS, r.randint(0, 3))])))
        if r.random() < .5:
            ms.append(("remove", A([S(x) for x in uniq(r, KEYS, r.randint(0, 3))])))
        if r.random() < .5:
            m = [("strftime", S(r.choice(STRF[:3])))]
            if r.random() < .6:
                m.append(("gmtime", Bo(r.random() < .5)))
            ms.append(("mutate", O((r.choice(["timestamp", "timestamp", "a"]), O(*m)))))
    else:
        ms.append(("tag", S(r.choice(["t", "T%", "{}"]))))
    ms.append(("type", S(ty("formatter", k))))
    if r.random() < .1:
        ms.append(("comment", gc.tree(r, 1)))
    r.shuffle(ms)
    return O(*ms)


def filt(r, ty):
    if r.random() < .5:
        return O(("type", S("severity")), ("threshold", N(r.choice([0, 1, 2, 3, -1, 2 ** 31, -2 ** 40, 2 ** 63 - 1]))))
    return O(("type", S(ty("filter", "uflt"))), ("deny", A([N(x) for x in r.sample(range(-1, 5), r.randint(0, 3))])))


FLUSH = [N(0), N(1), N(2), N(3), S("1B"), S("20B"), S("40"), S("1kB"), S("1KiB"), S("1GiB"), N(2 ** 64 - 1), S("0"), S("100MB")]
BAD_FLUSH = [S("1TB"), S("B"), S(""), S("99999999999999999999"), N(-1), ("#", "1.5"), Bo(True), ("n",), S("1 kB"), S("18014398509481985KiB"), A([])]


def sink(r, ty, w, depth=0):
    k = r.choice(["rec", "rec", "rec", "null", "console", "file", "file", "tcp", "udp", "syslog", "asynchronous"])
    if depth and k not in ("rec", "null") and r.random() < .8 or depth > 2:
        k = "rec"
    ms = [("type", S(ty("sink", k)))]
    if k == "rec":
        w["ids"] += 1
        ms.append(("id", S("i%d" % w["ids"])))
    elif k == "console":
        if r.random() < .6:
            ms.append(("filter", filt(r, ty)))
    elif k == "file":
        ms.append(("path", S(r.choice(["f1", "f2"]))))
        if r.random() < .7:
            ms.append(("flush", r.choice(FLUSH) if r.random() < .9 else r.choice(BAD_FLUSH)))
        if r.random() < .5:
            ms.append(("rotate", O(("type", S("stat")))))
    elif k in ("tcp", "udp"):
        ms += [("host", S(r.choice(["127.0.0.1", "127.0.0.2", "::1"] + (["no.such"] if k == "udp" and r.random() < .1 else [])))),
               ("port", N(r.choice([20000, 20001, 65535, 1, 20000] + ([65536, 2 ** 32 + 80, 2 ** 64 - 1] if r.random() < .1 else []))))]
    elif k == "syslog":
        if r.random() < .7:
            ms.append(("priorities", A([N(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 14, 2147483647] if r.random() < .97 else [2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 + 3, 2 ** 63 - 1])) for _ in range(r.randint(0, 5))])))
    elif k == "asynchronous":
        ms.append(("sink", sink(r, ty, w, depth + 1)))
        if r.random() < .6:
            ms.append(("factor", N(r.choice([2, 3, 4, 5, 10, 12] if r.random() < .9 else [0, 1, 21, 2 ** 32 + 3, 2 ** 64 - 1]))))
        if r.random() < .6:
            ms.append(("overflow", S(r.choice(["drop", "wait"] if r.random() < .9 else ["", "block", "Drop"]))))
    r.shuffle(ms)
    return O(*ms)


def handler(r, ty, w):
    if r.random() < .12:
        w["ids"] += 1
        return O(("type", S(ty("handler", "uh"))), ("id", S("h%d" % w["ids"])))
    ms = [("formatter", formatter(r, ty))]
    if r.random() < .95:
        ms.append(("sinks", A([sink(r, ty, w) for _ in range(r.choice([0, 1, 1, 2, 3]))])))
    if r.random() < .6:
        ms.append(("type", S(ty("handler", "blocking"))))
    r.shuffle(ms)
    return O(*ms)


# ---- defects ------------------------------------------------------------------------------------
def spots(t, path=()):
    yield path
    if t[0] == "a":
        for i, x in enumerate(t[1]):
            yield from spots(x, path + (i,))
    elif t[0] == "o":
        for i, (_, x) in enumerate(t[1]):
            yield from spots(x, path + (i,))


def change(t, path, f):
    if not path:
        return f(t)
    xs = list(t[1])
    i = path[0]
    xs[i] = change(xs[i], path[1:], f) if t[0] == "a" else (xs[i][0], change(xs[i][1], path[1:], f))
    return (t[0], xs)


def defect(r, t):
    ps = [p for p in spots(t) if len(p) >= 1]
    if not ps:
        return t
    inner = [p for p in ps if len(p) >= 5] if r.random() < .4 else []      # within options of formatters and sinks
    p = r.choice(inner or ps)
    k = r.random() if not inner else r.uniform(.5, 1)

    def f(x):
        if k < .3 and x[0] in "ao" and x[1]:                # less
            xs = list(x[1])
            del xs[r.randrange(len(xs))]
            return (x[0], xs)
        if k < .45 and x[0] == "o" and x[1]:                # another key
            xs = list(x[1])
            i = r.randrange(len(xs))
            xs[i] = (xs[i][0] + b"_", xs[i][1])
            return ("o", xs)
        if k < .55 and x[0] == "o" and x[1]:                # the same key again, later
            xs = list(x[1])
            a = r.choice(xs)
            if a[0] in (b"priorities", b"id"):
                return x
            xs.append((a[0], r.choice([a[1], S("file"), N(3), ("n",)])))
            return ("o", xs)
        if x[0] == "s" and k < .7:
            return S(r.choice([x[1] + b"x", b"", b"file", b"json", b"blocking", b"string", b"null", b"rec"]))
        return r.choice([("n",), Bo(True), N(5), N(-5), N(2 ** 64), ("#", "0.5"), S("text"), A([]), O(), A([N(1)]), O(("a", S("b"))), A([S("a")])])
    return change(t, p, f)


# ---- descriptions of formatters (those that can be told) ---------------------------------------------
class No(Exception):
    pass


def get(t, k):
    if t is not None and t[0] == "o":
        for q, v in t[1]:
            if q == k.encode():
                return v
    return None


def text(t):
    if t is None or t[0] != "s":
        raise No()
    return list(t[1])


def opt_bool(t):
    if t is None:
        return False
    if t[0] != "b":
        raise No()
    return t[1]


def texts(t):
    if t is None:
        return []
    if t[0] != "a":
        raise No()
    return [text(x) for x in t[1]]


def members(t):
    if t is None:
        return []
    if t[0] != "o":
        raise No()
    return t[1]


def describe(impl, f):
    if impl == "string":
        sm = get(f, "sevmap")
        return dict(k="string", pattern=text(get(f, "pattern")), mapped=sm is not None, sevmap=texts(sm))
    ops = []
    if impl == "json":
        for name, op in (("mapping", "rename"), ("formatting", "format")):
            ops += [dict(op=op, k=list(k), v=text(v)) for k, v in members(get(f, name))]
        for k, v in members(get(f, "routing")):
            ops.append(dict(op="route", to=list(k), rest=v[0] == "s", what=[] if v[0] == "s" else texts(v)))
        for k, v in members(get(f, "mutate")):
            if k == b"timestamp":
                ops.append(dict(op="timestamp", k=list(k), v=text(v)))
            elif k == b"severity":
                ops.append(dict(op="severity", v=texts(v)))
            else:
                raise No()
        return dict(k="json", unique=opt_bool(get(f, "unique")), newline=opt_bool(get(f, "newline")), ops=ops)
    for name, op in (("create", "create"), ("rename", "rename")):
        ops += [dict(op=op, k=list(k), v=text(v)) for k, v in members(get(f, name))]
    ops += [dict(op="remove", k=x) for x in texts(get(f, "remove"))]
    for k, v in members(get(f, "mutate")):
        g = get(v, "gmtime")
        if g is not None and g[0] != "b":
            raise No()
        ops.append(dict(op="timestamp", k=list(k), v=text(get(v, "strftime")), gm=True if g is None else g[1]))
    return dict(k="tskv", ops=ops)


def formatters(t):
    """All that stands as somebody's formatter in a document."""
    if t[0] == "o":
        for k, v in t[1]:
            if k == b"formatter":
                yield v
    if t[0] in "ao":
        for x in t[1]:
            yield from formatters(x if t[0] == "a" else x[1])


BUILTIN = [("filter", "severity"), ("formatter", "json"), ("formatter", "string"), ("formatter", "tskv"), ("sink", "asynchronous"), ("sink", "console"), ("sink", "file"),
           ("sink", "null"), ("sink", "tcp"), ("sink", "udp"), ("sink", "syslog"), ("handler", "blocking")]
CAT = dict(rec="sink", uf="formatter", uh="handler", uflt="filter")


def async_only(t):
    """May many records be sent at once: one asynchronous sink before a user's, nothing slow or with memory beside it."""
    n = 0
    for h in t[1] if t[0] == "a" else []:
        ss = get(h, "sinks")
        for s in ss[1] if ss and ss[0] == "a" else []:
            ty = get(s, "type")
            ty = ty[1] if ty and ty[0] == "s" else b""
            if ty == b"asynchronous":
                inner = get(s, "sink")
                it = get(inner, "type") if inner else None
                f = get(s, "factor")
                if not it or it[1] not in (b"rec",) or (f and (f[0] != "#" or not f[1].isdigit() or int(f[1]) > 10)):
                    return 0
                n += 1
                cap = 2 ** (int(f[1]) if f else 10)
            elif ty not in (b"null", b"rec"):
                return 0
    return cap if n == 1 else 0


def behind(t):
    """How many users' sinks there are behind asynchronous ones."""
    n = 0
    for h in t[1] if t and t[0] == "a" else []:
        if get(h, "type") not in (None, ("s", b"blocking")):
            continue
        ss = get(h, "sinks")
        for s in ss[1] if ss and ss[0] == "a" else []:
            a = s
            while a and get(a, "type") == ("s", b"asynchronous"):
                a = get(a, "sink")
            n += bool(a) and a is not s and get(a, "type") == ("s", b"rec")
    return n


def quiet(t):
    """Nothing but users' sinks behind asynchronous ones anywhere."""
    if t[0] == "o":
        ty = get(t, "type")
        if ty and ty[0] == "s" and ty[1] == b"asynchronous":
            inner = get(t, "sink")
            it = get(inner, "type") if inner else None
            if not it or it[0] != "s" or it[1] not in (b"rec", b"null", b"asynchronous"):
                return False
    if t[0] in "ao":
        return all(quiet(x if t[0] == "a" else x[1]) for x in t[1])
    return True


def clean(t):
    """Sinks whose failures are reported to the standard output are elsewhere."""
    if t[0] == "o":
        ty = get(t, "type")
        if ty == ("s", b"tcp"):
            h = get(t, "host")
            if h and h[0] == "s" and h[1] not in (b"127.0.0.1", b"127.0.0.2", b"::1"):
                return False
        if ty == ("s", b"file"):
            p = get(t, "path")
            if p and p[0] == "s" and p[1] not in (b"f1", b"f2"):
                return False
        if get(t, "pattern") and get(t, "pattern")[0] == "s" and get(t, "pattern")[1].decode() not in PATTERNS + BAD_PATTERNS + [""] or \
                get(t, "pattern") and get(t, "pattern")[0] == "s" and b"severity:s" in get(t, "pattern")[1] and (get(t, "sevmap") or ("a", []))[0] == "a" and len((get(t, "sevmap") or ("a", []))[1]) < 3:
            return False
        for k in ("formatting", "strftime", "timestamp"):
            v = get(t, k)
            if v and v[0] == "s" and v[1].decode() not in STRF:
                return False
        v = get(t, "formatting")
        if v and v[0] == "o" and any(x[0] == "s" and x[1] not in (b"{:>10}", b"<{}>", b"{}") for _, x in v[1]):
            return False
    if t[0] in "ao":
        return all(clean(x if t[0] == "a" else x[1]) for x in t[1])
    return True


def program(r):
    w = dict(ids=0)
    own = {k: k for k in CAT}
    extra = []
    if r.random() < .25:
        k = r.choice(list(CAT))
        own[k] = r.choice(["my " + k, "U", "é", "blocking2"])

    def ty(cat, k):
        return own.get(k, k)
    docs, texts_ = [], []
    for _ in range(r.choice([1, 1, 2])):
        for _ in range(50):
            ns = r.sample(NAMES, r.choice([1, 1, 2, 3]))
            t = O(*[(n, A([handler(r, ty, w) for _ in range(r.choice([0, 1, 1, 2, 3] if r.random() < .98 else [8, 9, 10]))])) for n in ns])
            if r.random() < .4:
                for _ in range(r.choice([1, 1, 2])):
                    t = defect(r, t)
            if clean(t):
                break
        else:
            t = O(("root", A([])))
        ext = r.random() < .4
        b = gc.blank(r, ext) + gc.render(r, t, ext) + gc.blank(r, ext)
        if r.random() < .04 and len(b) > 3:
            b, t = b[:r.randint(0, len(b.rstrip(b" \t\n\r")) - 1)] if not ext else b"{", None
        docs.append((t, ns))
        texts_.append(list(b))
    if sum(map(len, texts_)) > 2500:
        return program(r)
    # Registries.
    regs = {1: True, 2: True}
    impls = {1: {(c, k): k for c, k in BUILTIN}, 2: {}}
    ops = []
    refs = []

    def register(g, k, name=None):
        name = name or own[k]
        ops.append(dict(op="reg", g=g, cat=CAT[k], type=list(name.encode()), impl=k))
        impls[g][(CAT[k], name)] = k
    for k in CAT:
        if r.random() < .93:
            register(1, k)
        if r.random() < .3:
            register(2, k)
    over = r.random() < .1
    if over:
        k = r.choice(list(CAT))
        register(1, k, r.choice([n for c, n in BUILTIN if c == CAT[k]]))
    blds, logs = [], []

    def note(g):
        # Texts of all formatters there may be under the present registrations.
        for t, _ in docs:
            if t is None:
                continue
            for f in formatters(t):
                tt = get(f, "type")
                if tt and tt[0] == "s":
                    try:
                        impl = impls[g].get(("formatter", tt[1].decode()))
                    except UnicodeDecodeError:
                        continue
                    if impl in ("string", "json", "tskv"):
                        try:
                            d = describe(impl, f)
                        except No:
                            continue
                        if d not in refs:
                            refs.append(d)
    moved = 0
    for _ in range(r.randint(3, 12)):
        x = r.random()
        alive = [g for g in regs if regs[g]]
        if (not blds or x < .12) and alive:
            g = r.choice([1, 1, 1, 2])
            if not regs[g]:
                continue
            d = r.randint(1, len(docs))
            ops.append(dict(op="builder", g=g, d=d, rvalue=r.randint(0, 1)))
            blds.append(dict(g=g, d=d, on=True))
            note(g)
        elif x < .45 or not logs:
            bs = [i for i, b in enumerate(blds) if b["on"]] if blds else []
            if not bs:
                continue
            i = r.choice(bs)
            t, ns = docs[blds[i]["d"] - 1]
            n = r.choice(ns) if r.random() < .93 else r.choice(NAMES + ["nobody", "roo"])
            note(blds[i]["g"])
            ops.append(dict(op="build", b=i + 1, name=list(n.encode())))
            tree = get(t, n) if t else None
            plain = tree is not None and not over and not (set(map(tuple, [])))
            logs.append(dict(tree=tree, ok=bool(t) and quiet(t) and not over, w=behind(tree), cap=async_only(tree) if plain and tree[0] == "a" and quiet(t) else 0, on=True))
        elif x < .85:
            ls = [i for i, lg in enumerate(logs) if lg["on"] and lg["ok"]]
            if not ls:
                continue
            i = r.choice(ls)
            if logs[i]["cap"] and r.random() < .6:
                ops.append(dict(op="flood", l=i + 1, r=r.randint(1, 3), n=logs[i]["cap"] + r.choice([-1, 0, 1, 2, 5, 20])))
            else:
                ops.append(dict(op="log", l=i + 1, r=r.randint(1, 3), w=logs[i]["w"]))
        elif x < .9:
            i = r.randrange(len(logs))
            if logs[i]["on"]:
                ops.append(dict(op="drop", l=i + 1))
                logs[i]["on"] = False
        elif x < .93:
            moved += 1
            ops.append(dict(op="move", **{"from": list(r.choice([b"f1", b"f2"])), "to": list(b"m%d" % moved)}))
        elif x < .95 and blds:
            i = r.randrange(len(blds))
            if blds[i]["on"]:
                blds[i]["on"] = False
                ops.append(dict(op="dropb", b=i + 1))
        elif x < .96:
            g = r.choice([1, 2])
            if regs[g]:
                regs[g] = False
                ops.append(dict(op="dropreg", g=g))
                for b in blds:
                    if b["g"] == g:
                        b["on"] = False
        elif x < .98 and regs[1]:
            register(1, r.choice(list(CAT)))
        elif alive:
            c, k = r.choice(BUILTIN + [(CAT[k], own[k]) for k in CAT] + [("sink", "json"), ("handler", "no{}"), ("filter", ""), ("formatter", "string ")])
            ops.append(dict(op="get", g=r.choice(alive), cat=c, type=list(k.encode())))
    for i, lg in enumerate(logs):
        if lg["on"]:
            if lg["ok"] and r.random() < .8:
                ops.append(dict(op="log", l=i + 1, r=r.randint(1, 3), w=lg["w"]))
            if r.random() < .9:
                ops.append(dict(op="drop", l=i + 1))
    recs = [dict(sev=s, msg=list(r.choice([b"hello", b"", b"a %s {} b", b"line\ttab", b"m" * 30])), attrs=[[list(bytes.fromhex(a[0])), a[1], a[2]] for a in []] or r.sample(ATTRS, r.choice([0, 1, 2, 3, 4, 6])))
            for s in r.sample([0, 1, 2], 3)]
    return dict(docs=texts_, names=[list(b"f1"), list(b"f2")] + [list(b"m%d" % (i + 1)) for i in range(moved)], recs=recs, refs=refs, ops=ops)
