"""Framing fields: lengths, transfer codings, and what a client asked for."""
from harness import core
from harness.gen import *

WANT = {"parsed": 1, "vars": []}
CODINGS = ["chunked", "gzip", "deflate", "compress", "identity", "trailers", "x-gzip", "br", "foo", "q", "\xc9t"]


def param(rng, q):
    n = pick(rng, ["q", "q", "q", "Q", "a"] if q else ["a", "A", "b", "q", "a*", "q*"])
    if n in "qQ":
        v = pick(rng, ["0", "0.", "0.0", "0.00", "0.000", "0.0000", "0.001", "1", "1.000", "0.5", "00", "0.00a", "x", "000", "0,0", "-0", ".0", "0.0 "])
        v = '"' + v + '"' if v in ("0,0", "0.0 ") or rng.random() < .15 else v
    else:
        v = pick(rng, ["1", "b", '"c d"', "'x'", "utf-8''a", '"a,b"', '"a;b=2"', '"\\""', ""])
    if rng.random() < .05:
        n += "*"
    return n + "=" + v


def coding(rng, q=False):
    c = casing(rng, pick(rng, CODINGS[:5] if rng.random() < .7 else CODINGS), .25)
    for _ in range(pick(rng, [0, 0, 0, 1, 1, 2] if not q else [0, 1, 1, 1, 2])):
        c += pick(rng, [";", "; ", " ;", " ; ", "\t;"]) + param(rng, q)
    if rng.random() < .06:
        c += pick(rng, [";", " ;", "; x", " x", "=1", "; =1", ";a = 1"])
    return c


def length(rng):
    r = rng.random()
    if r < .35:
        return str(pick(rng, [0, 1, 5, 10, 2 ** 31, 2 ** 63 - 2, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64, 10 ** 30]))
    if r < .5:
        return pick(rng, ["0", "00", " ", "\t"]) + str(pick(rng, [5, 2 ** 63 - 1, 2 ** 63])) + pick(rng, ["", " "])
    if r < .55:
        return "9" * pick(rng, [300, 4299, 4300, 4301])
    return pick(rng, ["", "-0", "-1", "+1", "1_0", "1.0", "1e3", "0x10", "\xb2", "5,5", "5, 6", "5;", "5 5", "a", "--1", "\xa05", "5\xa0", "5\x0b", "\x005", "5\x00", "05", ",5"])


def message(rng, kind=None, rel=True):
    kind = kind or pick(rng, ["response", "response", "request"])
    hs = []
    for _ in range(pick(rng, [0, 0, 1, 1, 2])):
        hs.append([casing(rng, "Content-Length", .2), length(rng)])
    if rng.random() < .6:
        hs += split_lines(rng, "Transfer-Encoding", [coding(rng) for _ in range(pick(rng, [1, 1, 2, 3]))], .5, pick(rng, [", ", ",", " , ", ",,"]))
    if rng.random() < (.8 if not rel else .25):
        hs += split_lines(rng, "TE", [coding(rng, True) for _ in range(pick(rng, [1, 1, 2, 3]))], .5, pick(rng, [", ", ","]))
    if rng.random() < .3:
        hs += split_lines(rng, "Connection", [casing(rng, pick(rng, ["close", "keep-alive", "Upgrade", "TE", "x y", '"a,b"', '"a', "\xe9"]), .3) for _ in range(pick(rng, [1, 2]))])
    if rng.random() < .3:
        hs += split_lines(rng, "Keep-Alive", [pick(rng, ["timeout=5", "Max=100", "timeout", 'x="a b"', "A = b", "a=b=c", "=", 'a="\\""', "a=*", 'a="b', "timeout= 5 "]) for _ in range(pick(rng, [1, 2]))])
    if rng.random() < .2:
        hs += split_lines(rng, "Upgrade", [pick(rng, ["websocket", "HTTP/2.0", "h2c, IRC/6.9", "a/b/c"]) for _ in range(pick(rng, [1, 2]))])
    if rng.random() < .2:
        hs += split_lines(rng, "Trailer", [pick(rng, ["Expires", "X-A", "Content-Length", ""]) for _ in range(pick(rng, [1, 2]))])
    if rng.random() < .5:
        hs = shuffled(rng, hs)
    if kind == "request":
        return request(hs, method=pick(rng, ["POST", "GET"]), version=pick(rng, ["HTTP/1.1", "HTTP/1.0", "HTTP/2"]))
    kw = {"related": message(rng, "request", False)} if rel and rng.random() < .7 else {}
    return response(hs, status=pick(rng, ["200", "204", "304", "100"]), **kw)


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Framing"), 10 ** 6 if th else 2000), WANT, "Tr_Framing", "JudgeC24", "model")
    c.run([message(rng) for _ in range(60000 if th else 4000)], WANT, "Tr_Framing", "JudgeC24", "random")
