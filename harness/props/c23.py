"""Ranges and partial content."""
from harness import core
from harness.gen import *

WANT = {"parsed": 1, "vars": []}
BITS = ["bytes", "=", "-", "*", "/", ",", " ", "0", "1", "9", "10", "\t", "\xb2", "+", ";", "Bytes", "\x0b", "\xa0"]


def num(rng):
    return str(pick(rng, [0, 0, 1, 2, 5, 9, 10, 99, 100, 499, 500, 2 ** 31, 2 ** 32, 2 ** 63, 10 ** 30]) + pick(rng, [0, 0, 1, -1]) if rng.random() < .9 else pick(rng, ["", "00", "007", "-1", "+1", "1_0", "0x1", "\xb2", "1.0", "a", "\xb9"])).replace("-1", "0" if rng.random() < .9 else "-1")


def spec(rng):
    r = rng.random()
    if r < .6:
        return num(rng) + "-" + num(rng)
    if r < .75:
        return num(rng) + "-"
    if r < .9:
        return "-" + num(rng)
    return pick(rng, ["", "-", "5", "1-2-3", "a-b", " 1 - 2", "1 -2"])


def soup(rng):
    return "".join(pick(rng, BITS) for _ in range(rng.randint(0, 8)))


def rng_value(rng):
    if rng.random() < .07:
        return soup(rng)
    return pick(rng, ["bytes=", "bytes=", "bytes=", "Bytes=", "items=", "bytes =", "bytes= ", "bytes", "=", "a=b="]) + pick(rng, [",", ", ", " ,\t", ",,"]).join(spec(rng) for _ in range(pick(rng, [1, 1, 2, 3, 4])))


def cr_value(rng):
    if rng.random() < .07:
        return soup(rng)
    return pick(rng, ["bytes ", "bytes ", "bytes ", "Bytes ", "items ", "bytes", "bytes  ", "bytes=", "bytes\t"]) + pick(rng, ["*", "*", spec(rng), num(rng) + "-" + num(rng), num(rng) + "-" + num(rng), num(rng) + "-" + num(rng)]) + pick(rng, ["/", "/", "/", "/", "/", "/", " /", "", "//"]) + pick(rng, ["*", num(rng), num(rng), num(rng)]) + pick(rng, [""] * 12 + [" x", "/1"])


def req(rng):
    hs = []
    for _ in range(pick(rng, [0, 1, 1, 1, 2])):
        hs.append([casing(rng, "Range", .2), rng_value(rng)])
    if rng.random() < .2:
        hs.append(["If-Range", '"a"'])
    return request(hs, method=pick(rng, ["GET", "GET", "HEAD", "PUT"]))


def message(rng):
    if rng.random() < .3:
        return req(rng)
    hs = [[casing(rng, "Content-Range", .2), cr_value(rng)] for _ in range(pick(rng, [0, 1, 1, 1, 1, 2]))]
    if rng.random() < .3:
        hs.append([casing(rng, "Content-Type", .2), pick(rng, ["text/plain", "multipart/byteranges", "Multipart/Byteranges; boundary=a", "multipart/mixed", "multipart/byteranges,", "", "\tmultipart/byteranges\t;"])])
    if rng.random() < .3:
        hs += split_lines(rng, "Accept-Ranges", [casing(rng, pick(rng, ["bytes", "none", "items", "byte"]), .3) for _ in range(pick(rng, [1, 2]))])
    kw = {"related": req(rng)} if rng.random() < .6 else {}
    return response(shuffled(rng, hs), status=pick(rng, ["200", "206", "206", "206", "416", "416", "404", "304", "0206", "20", "abc"]) if rng.random() < .97 else "207", **kw)


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Ranges"), 10 ** 6 if th else 3000), WANT, "Tr_Ranges", "JudgeC23", "model")
    c.run([message(rng) for _ in range(80000 if th else 5000)], WANT, "Tr_Ranges", "JudgeC23", "random")
