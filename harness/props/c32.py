"""Fields with a small rule each, and how fields without one are read."""
from harness import core, fuzz
from harness.gen import *

WANT = {"parsed": 1, "vars": []}
TOK = ["a", "b", "cache", "no-cache", "100-continue", "clear", "x-y", "db", "cookies", "storage", "executionContexts", "*", "1.1", "2"]
NUM = ["0", "1", "-1", "-0", "53.2", ".5", "1.", "1e3", "1E-3", "-.5e+3", "+1", "1_0", "nan", "inf", "Infinity", "0x1", "1.2.3", "1e", "--1", "\xb2", "\u0661"[:0] + "1\xa0", "a"]
SEC = ["0", "00", "-0", "5", "-5", "007", "+5", "", "1.0", "a", "1 2", "1, 2", "5;", "2147483647", "2147483648", "2147483649", "0002147483648", "99999999999999999999", "-2147483649",
       "\xb2", "1_0", "--1", "-", "9" * 4300, "9" * 4301, "\xa05", "5\x0b"]


def comment(rng, d=0):
    if d > 11 or rng.random() < .55:
        return "(" + pick(rng, ["x", "a, b", 'a"b', '"', "\\)", "\\", "", ",", "x y", "\\(,"]) + (")" if rng.random() < .9 else "")
    return "(" + comment(rng, d + pick(rng, [1, 1, 4])) + pick(rng, ["", ",", " "]) + ")"


def member(rng, f):
    r = rng.random
    if f == "via":
        return pick(rng, ["1.1 ", "HTTP/1.0 ", "", "2\t"]) + pick(rng, ["a", "b:80", "[::1]"]) + (pick(rng, [" ", "\t", ""]) + comment(rng) if r() < .6 else "")
    if f == "server":
        v = pick(rng, ["a", "Apache/2.4", "x/1"]) + (" " + comment(rng) if r() < .5 else "")
        return v + pick(rng, ["", "", " b/" + "c" * pick(rng, [3, 40])]) if r() < .7 else "a" * pick(rng, [63, 64, 65, 200])
    if f == "server-timing":
        v = pick(rng, TOK + [""])
        for _ in range(pick(rng, [0, 1, 2, 2, 3])):
            n = casing(rng, pick(rng, ["dur", "dur", "dur", "desc", "desc", "x", "desc*", "dur*"]), .2)
            x = pick(rng, NUM) if n.lower() == "dur" else pick(rng, ["a", '"a, b"', '"a;dur=1"', "'x'", "utf-8''x", '""', ""])
            v += pick(rng, [";", "; ", " ; "]) + n + (("=" + ('"%s"' % x if r() < .2 and '"' not in x else x)) if r() < .93 else "")
        return v
    if f == "clear-site-data":
        v = casing(rng, pick(rng, TOK + ["cache", "cookies", "storage", ""]), .1)
        return '"' + v + '"' if r() < .6 else pick(rng, [v, v, '"' + v, v + '"', '"a, b"', '"a\\"b"'])
    if f == "alt-svc":
        return pick(rng, ["clear", "clear", "Clear", 'h3=":443"', 'h2="a:80"; ma=5', 'h2="a, clear"', "x", "=", '"clear"'])
    if f == "cookie":
        return "; ".join(pick(rng, ["a=b", "a", "=b", "a=b=c", " a = b ", "", '"x', "\xe9=\xe9", "a=\x1fb", "a,b=c"]) for _ in range(pick(rng, [1, 1, 2, 3])))
    if f in ("if-match", "if-none-match", "etag"):
        return pick(rng, ["", "", "W/", "w/", "W/ "]) + pick(rng, ['"a"', '"a"', '"a, b"', '"a\\"', '"\\"b"', '""', '"', "a", "*", '"\xe9"', '"a b"'])
    if f in ("www-authenticate", "proxy-authenticate", "authorization", "proxy-authorization"):
        return pick(rng, ["Basic", 'Basic realm="a, b"', "Digest a=b", "c=d", 'e = "f"', "Negotiate YWI=", "a=b c", '"x', "Basic realm=x, y=z"])
    if f in ("age", "access-control-max-age"):
        return pick(rng, SEC)
    if f == "expect":
        return casing(rng, pick(rng, ["100-continue", "100-continue", "100-continue;a=b", "x", "y=z", '"a, b"', ""]), .3)
    if f == "pragma":
        return casing(rng, pick(rng, ["no-cache", "no-cache", "x", "a=b", '"no-cache"', "no-cache=1", "", "\xc9"]), .3)
    return pick(rng, ["a", "a b", "5", "-5", "", "e.com:80", "110 - \"x, y\"", "Thu, 01 Jan 2015 00:00:00 GMT", "a/1 (b, c)", '"'])


def message(rng, kind, rel=True):
    both = ["via", "etag"]
    fs = both + (["pragma", "pragma", "max-forwards", "expect", "expect", "cookie", "if-match", "if-none-match", "authorization", "proxy-authorization", "user-agent", "host"] if kind == "request"
                 else ["server", "server", "server-timing", "server-timing", "clear-site-data", "clear-site-data", "alt-svc", "age", "access-control-max-age", "warning",
                       "www-authenticate", "proxy-authenticate", "retry-after"])
    hs = []
    for f in [pick(rng, fs) for _ in range(pick(rng, [1, 2, 2, 3, 4]))]:
        vs = [member(rng, f) for _ in range(pick(rng, [1, 1, 2, 3]))]
        if rng.random() < .1:
            vs.append(pick(rng, ["", "\\", '"', "(", "a\x00b", "\xff"]))
        hs += split_lines(rng, casing(rng, "-".join(x.capitalize() for x in f.split("-")), .15), vs, .5, pick(rng, [", ", ",", " , ", ",,", ",\t"]))
    if rng.random() < .5:
        hs = shuffled(rng, hs)
    if kind == "request":
        return request(hs, method=pick(rng, ["GET", "GET", "TRACE", "OPTIONS", "POST", "trace"]), version=pick(rng, ["HTTP/1.1", "HTTP/1.0", "1.0", "2", "1.1", "HTTP/1.00"]))
    return response(hs, **({"related": message(rng, "request", False)} if rel and rng.random() < .2 else {}))


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Other"), 10 ** 6 if th else 2700), WANT, "Tr_Other", "JudgeC32", "model")
    c.run([message(rng, pick(rng, ["request", "response", "response"])) for _ in range(60000 if th else 5000)], WANT, "Tr_Other", "JudgeC32", "random")
