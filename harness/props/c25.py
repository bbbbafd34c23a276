"""Content negotiation: preferences, what a response says of itself, and how they agree."""
from harness import core
from harness.gen import *

WANT = {"parsed": 1, "vars": ["vary_count"]}
Q = ["0", "1", "0.5", "0.123", "0.1234", "1.0", "1.000", "1.0000", "1.001", "0.", "1.", "2", "-0", "+0.5", ".5", "1e-1", "5e-1", "nan", "inf", "0x1", "", "a", "0,5", " 0.5", "0.5 ", "00", "01", "0_1", "0.1_", "\xb2", "0.\xb2", "1.00\xb9", "0.9", "0.010", "0.100"]
PARAMS = ["a=b", "A=C", 'a="b c"', "level=1", "a='b'", "a*=utf-8''x", "q*=0.5", 'a="x;q=0.1"', 'a="x,y"', "charset=utf-8", "x=", "b", "=1", "a = b", 'a*="utf-8\'\'x"', "a*=x"]
RANGES = ["*/*", "text/*", "text/html", "Text/HTML", "*/html", "*", "text", "text/", "/html", "a/b/c", "*/*/x", "te~t/html", "text/*x", "a" * 127 + "/b", "a" * 128 + "/b", "a" * 128 + "/*", "a/" + "b" * 127, "a/" + "b" * 128, "+a/b", "a/-b", "text /html", "text/ html", "a b/c", "\xe9/x", "image/svg+xml", "a/.b"]
CODINGS = ["gzip", "br", "deflate", "identity", "*", "x-gzip", "zstd", "dcb", "compress", "GZIP", "a b", "\xc9"]
LANGS = ["en", "en-US", "EN", "fr", "*", "de-DE-1996", "x-klingon", "en-", "i-klingon", "a" * 9, "1a", "EN-us", "f r", ""]
FIELDS = ["Accept", "Cookie", "Host", "Origin", "User-Agent", "Negotiate", "Accept-Encoding", "accept", "*", "host", "user-agent", "X-A", "USER-AGENT", "*/*", "User-Agent-X", "Hosts", ""]


def weight(rng):
    v = pick(rng, Q)
    if any(c in v for c in " ,") or rng.random() < .08 or v == "":
        v = '"' + v + '"' if rng.random() < .8 else v
    return casing(rng, "q", .2) + "=" + v


def pref(rng, x, extra=.35):
    x = casing(rng, x, .25)
    ps = [pick(rng, PARAMS) for _ in range(pick(rng, [1, 1, 2]))] if rng.random() < extra else []
    if rng.random() < .6:
        ps.insert(rng.randrange(len(ps) + 1), weight(rng))
    if rng.random() < .05:
        ps.append(weight(rng))
    return x + "".join(pick(rng, [";", ";", "; ", " ;", " ; ", "\t;"]) + p for p in ps) + pick(rng, ["", "", "", "", "", "", ";", " ", " ; "])


def many(rng, name, f, hi=4):
    return split_lines(rng, name, [f() for _ in range(rng.randint(1, hi))], .5, pick(rng, [", ", ",", " , ", ",,", ", ,"]))


def reqheaders(rng):
    hs = []
    if rng.random() < .5:
        hs += many(rng, "Accept", lambda: pref(rng, pick(rng, RANGES)))
    if rng.random() < .7:
        hs += many(rng, "Accept-Encoding", lambda: pref(rng, pick(rng, CODINGS[:5] if rng.random() < .6 else CODINGS), .08))
    if rng.random() < .5:
        hs += many(rng, "Accept-Language", lambda: pref(rng, pick(rng, LANGS), .08))
    return hs


def message(rng, kind=None):
    kind = kind or pick(rng, ["response", "response", "request"])
    hs = reqheaders(rng) if kind == "request" or rng.random() < .1 else []
    if rng.random() < .6:
        hs += many(rng, "Content-Encoding", lambda: casing(rng, pick(rng, CODINGS[:5] if rng.random() < .6 else CODINGS), .25), 3)
    if rng.random() < .4:
        hs += many(rng, "Content-Language", lambda: casing(rng, pick(rng, LANGS[:4] if rng.random() < .6 else LANGS), .3))
    if kind == "response" or rng.random() < .1:
        if rng.random() < .5:
            hs += many(rng, "Vary", lambda: casing(rng, pick(rng, FIELDS), .3), 5)
        if rng.random() < .25:
            hs += many(rng, pick(rng, ["Accept-Patch", "Accept-Post"]), lambda: pref(rng, pick(rng, RANGES)), 3)
        if rng.random() < .25:
            hs += many(rng, "Accept-Ranges", lambda: casing(rng, pick(rng, ["bytes", "none", "x", "byte", "\xe9", '"bytes"']), .3), 3)
        if rng.random() < .15:
            hs += many(rng, "Allow", lambda: pick(rng, ["GET", "get", "GET HEAD", "", "\xe9"]), 3)
    if rng.random() < .3:
        hs = shuffled(rng, hs)
    if kind == "request":
        return request(hs)
    kw = {"related": message(rng, "request")} if rng.random() < .7 else {}
    return response(hs, status=pick(rng, ["200", "204", "415"]), **kw)


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Conneg"), 10 ** 6 if th else 2000), WANT, "Tr_Conneg", "JudgeC25", "model")
    c.run([message(rng) for _ in range(60000 if th else 4000)], WANT, "Tr_Conneg", "JudgeC25", "random")
