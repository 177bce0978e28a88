"""Generated JSON configurations: documents as bytes, and reads from them."""
import random, re

KEYS = [b"a", b"b", b"k", b"", b"0", b"1", b"a/b", b"~0", b"type", b"sinks", "п".encode(), "😀".encode(), b"x\x00y", b'"', b"\\", b"\n", b"A" * 40]
STRINGS = [b"", b"x", b"text", b"0", b"true", b"null", b"a\x00b", b"\x00", b"\x01\x1f\x7f", b'"\\/', b"\b\f\n\r\t", "é п 漢 😀".encode(), b"y" * 70, b"// no comment", b"/* x */", b"{}[],:"]
INTS = ["0", "-0", "1", "-1", "9", "10", "42", "127", "255", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
        "-18446744073709551616", "100000000000000000000", "99999999999"]
REALS = ["0.0", "-0.0", "1.0", "0.5", "-2.25", "3.14", "1e3", "1E3", "1e+3", "1e-3", "12.5e-1", "100e-2", "0e5", "1.0e0", "123456.789", "-1e-7", "6.02e23", "1e100", "2.5e-300", "10000000000.5"]


def number(r):
    k = r.random()
    if k < .4:
        return r.choice(INTS)
    if k < .6:
        return r.choice(REALS)
    if k < .8:
        return str(r.randint(-10 ** r.randint(0, 20), 10 ** r.randint(0, 20)))
    t = "%s%d.%0*d" % (r.choice(["", "-"]), r.randint(0, 10 ** r.randint(0, 5)), r.randint(1, 6), r.randint(0, 9))
    return t + (r.choice(["e", "E"]) + r.choice(["", "+", "-"]) + str(r.randint(0, 40)) if r.random() < .4 else "")


def tree(r, d):
    k = r.random()
    if d <= 0 or k < .5:
        return r.choice([lambda: ("n",), lambda: ("b", r.random() < .5), lambda: ("#", number(r)), lambda: ("#", number(r)),
                         lambda: ("s", r.choice(STRINGS)), lambda: ("s", "".join(chr(r.choice([r.randint(32, 126), r.randint(1, 255), r.randint(256, 0xd7ff), r.randint(0xe000, 0x10ffff)]))
                                                                                for _ in range(r.randint(0, 8))).encode())])()
    n = r.choice([0, 1, 1, 2, 3, 4])
    if k < .72:
        return ("a", [tree(r, d - 1) for _ in range(n)])
    return ("o", [(r.choice(KEYS), tree(r, d - 1)) for _ in range(n)])


def blank(r, ext):
    k = r.random()
    if k < .75:
        return b""
    if k < .9 or not ext:
        return bytes(r.choice(b" \t\n\r") for _ in range(r.randint(1, 3)))
    return r.choice([b"// c\n", b"/* c */", b"/**/", b"/* , ] } */", b"//\n", b"/***/", b"/* * / */", b"// \" [\n ", b"/*//*/"])


SHORT = {8: b"b", 12: b"f", 10: b"n", 13: b"r", 9: b"t"}


def string(r, b):
    out = b""
    for ch in b.decode():
        c = ord(ch)
        u = r.random()
        if c in SHORT and u < .7:
            out += b"\\" + SHORT[c]
        elif ch in '"\\' and u < .8 or ch == "/" and u < .4:
            out += b"\\" + ch.encode()
        elif c < 32 or ch in '"\\' or u < .15:
            us = [c] if c < 0x10000 else [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]
            out += b"".join((r.choice(["\\u%04x", "\\u%04X"]) % x).encode() for x in us)
        else:
            out += ch.encode()
    return b'"' + out + b'"'


def render(r, t, ext):
    w = lambda: blank(r, ext)
    if t[0] == "n":
        return b"null"
    if t[0] == "b":
        return b"true" if t[1] else b"false"
    if t[0] == "#":
        return t[1].encode()
    if t[0] == "s":
        return string(r, t[1])
    if t[0] == "a":
        xs = [w() + render(r, x, ext) + w() for x in t[1]]
        o, c = b"[", b"]"
    else:
        xs = [w() + string(r, k) + w() + b":" + w() + render(r, x, ext) + w() for k, x in t[1]]
        o, c = b"{", b"}"
    tail = b"," + w() if xs and ext and r.random() < .2 else b""
    return o + (b",".join(xs) if xs else w()) + tail + c


def paths(r, t):
    """A random path, mostly into the tree."""
    p = []
    while True:
        k = r.random()
        if t[0] not in "ao" or k < .15:
            break
        if t[0] == "a":
            n = len(t[1])
            i = r.randrange(n) if n and k < .93 else n + r.choice([0, 1, 2, 4294967296 - n, 2 ** 32, 2 ** 64 - 1 - n])
            if r.random() < .3 and i < 100:
                p.append(dict(each=i))
            else:
                p.append(dict(i=[int(c) for c in str(i)]))
            if i >= n:
                if r.random() < .5:
                    break
                p.append(r.choice([dict(i=[0]), dict(k=[97]), dict(each=0), dict(map=0)]))
                break
            t = t[1][i]
        else:
            n = len(t[1])
            if n and r.random() < .3:
                i = r.randrange(n)
                p.append(dict(map=i))
                t = t[1][i][1]
            elif n and k < .9:
                key = t[1][r.randrange(n)][0]
                t = next(x for q, x in t[1] if q == key)
                p.append(dict(k=list(key)))
            else:
                key = r.choice(KEYS + [k2 + b"\x00" for k2, _ in t[1]] + [k2[:-1] for k2, _ in t[1]])
                p.append(dict(k=list(key)))
                t = next((x for q, x in t[1] if q == key), None)
                if t is None:
                    break
    if r.random() < .1:
        p.append(r.choice([dict(i=[0]), dict(k=[97]), dict(k=[]), dict(k=[48]), dict(each=0), dict(map=0)]))
    return p


AS = ["bool", "sint", "uint", "double", "string", "each", "each_map", "", ""]


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.random()
        i = r.randrange(len(b) + 1)
        if k < .3 and b:
            del b[min(i, len(b) - 1)]
        elif k < .6:
            b[i:i] = bytes([r.choice(b'{}[]:,"\\/*0123456789-+.eEtfnu \n\x01\x1f')])
        elif k < .75 and b:
            b[min(i, len(b) - 1)] = r.choice(b'{}[]:,"\\/*019-.eEtfnu ')
        elif k < .85:
            del b[i:]
        else:
            b[i:i] = r.choice([b"null", b"tru", b"true", b"False", b"NaN", b"Infinity", b"'a'", b"//", b"/*", b"*/", b",", b",,", b"\\u12", b"\\ud800", b"\\udc00", b"\\x", b"01", b"1.", b".5", b"1e", b"-", b"+1", b"0x1", b"\t", b"[", b"{}"])
    return bytes(b)


def ok_text(b):
    """Inside what is specified: valid UTF-8 (other bytes are passed on as they are), no NUL, no byte order mark."""
    try:
        s = b.decode()
    except UnicodeDecodeError:
        return False
    # Lone second halves of surrogate pairs and numbers out of the range of doubles may or may not be accepted.
    if re.search(r"(?<!\\u[dD][89abAB][0-9a-fA-F]{2})\\u[dD][c-fC-F]", s) or any(len(x) > 2 for x in re.findall(r"[eE][+-]?0*(\d+)", s)):
        return False
    return "\0" not in s and "\ufeff" not in s and "\ufffe" not in s


def program(r):
    if r.random() < .01:
        return dict(deep=r.choice([1, 2, 3, 50, 1001, 20000, 60000]))
    ext = r.random() < .5
    t = tree(r, r.choice([0, 1, 2, 3, 4, 5]))
    b = blank(r, ext) + render(r, t, ext) + blank(r, ext)
    bad = r.random() < .35
    if bad:
        for _ in range(20):
            m = mutate(r, b)
            if ok_text(m):
                b = m
                break
    p = dict(doc=list(b), ops=[{"path": paths(r, t), "as": r.choice(AS)} for _ in range(r.randint(1, 10))])
    if len(b) > 600:
        return program(r)
    if r.random() < .3:
        p["rvalue"] = True
    return p
