"""Random Structured Fields text: values of every type, and near misses."""
import base64

from harness.gen import pick

KEYS = ["a", "b", "*c", "a-b", "a_1", "key", "x.y"]
TOKENS = ["a", "foo", "*", "a/b", "A:b", "x.y", "self", "none", "Token", "t1"]
STRINGS = ["", "a", "x y", "a,b", "a;b", 'q"q', "b\\s", "(a)", "https://e.com/", "%41"]
BADBITS = ["", ",", ";", "=", "(", ")", '"', ":", "?", "@", "%", "-", "1.", "\x0b", "\xa0", "\xe9", "\t", "\x00", "A=1", " ;a", "a=", "=1", "?2", "1.2345", "1234567890123456", "::", ":a:", ":a===:", '%"%C3"', '%"%c3"', '"\\a"', "@1.0", "@x", "()x", "(a  b)", "(a,b)", "(a\tb)", "a b", "1 2", "0x1", "+1", "--1", ".5", "'a'"]


def string(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def bare(rng, types="itsbBn@p"):
    t = pick(rng, types)
    if t == "i":
        return pick(rng, ["0", "1", "-1", "-0", "007", "42", "999999999999999", "-999999999999999", "3600"])
    if t == "n":
        return pick(rng, ["1.0", "-1.5", "0.123", "00.1", "999999999999.999", "1.50"])
    if t == "t":
        return pick(rng, TOKENS)
    if t == "s":
        return string(pick(rng, STRINGS))
    if t == "b":
        x = base64.b64encode(bytes(rng.randrange(256) for _ in range(pick(rng, [0, 1, 2, 3, 4, 32])))).decode()
        return ":" + (x if rng.random() < .8 else x.rstrip("=")) + ":"
    if t == "B":
        return pick(rng, ["?1", "?0"])
    if t == "@":
        return "@" + pick(rng, ["0", "1700000000", "1699999999", "1700000001", "-1", "253402300799", "1893456000"])
    return '%"' + pick(rng, ["a", "f%c3%bc", "", "x y", "%e2%82%ac", "%25"]) + '"'


def params(rng, keys=KEYS, n=None, val=None):
    out = ""
    for _ in range(pick(rng, [0, 0, 0, 1, 1, 2, 3]) if n is None else n):
        k = pick(rng, keys)
        out += ";" + pick(rng, ["", "", " ", "  "]) + k
        if rng.random() < .8:
            out += "=" + (val(k) if val else bare(rng))
    return out


def item(rng, types="itsbBn@p", **kw):
    return bare(rng, types) + params(rng, **kw)


def inner(rng, types="tsi", hi=3, **kw):
    ms = [item(rng, types, **kw) for _ in range(rng.randint(0, hi))]
    return "(" + pick(rng, ["", "", " "]) + pick(rng, [" ", " ", "  "]).join(ms) + pick(rng, ["", "", " "]) + ")" + params(rng, **kw)


def spoil(rng, s, p=.12):
    """now and then break the text a little"""
    if rng.random() > p:
        return s
    i = rng.randrange(len(s) + 1)
    r = rng.random()
    if r < .3 and s:
        return s[:i] + s[i + 1:]
    if r < .8:
        return s[:i] + pick(rng, BADBITS) + s[i:]
    return pick(rng, BADBITS) + s if r < .9 else s + pick(rng, BADBITS)


def lines(rng, name, members, sep=None):
    """members over one or more lines of a field"""
    out, cur = [], []
    for m in members:
        cur.append(m)
        if rng.random() < .2:
            out.append([name, (sep or pick(rng, [", ", ",", " , ", ",\t"])).join(cur)])
            cur = []
    if cur or not out:
        out.append([name, (sep or pick(rng, [", ", ",", " , "])).join(cur)])
    return [[n, spoil(rng, v, .1)] for n, v in out]
