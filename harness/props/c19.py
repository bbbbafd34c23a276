"""Set-Cookie."""
from harness import core
from harness.gen import *

WANT = {"parsed": 1, "vars": []}
NAMES = ["a", "a", "SID", "sid", "__Secure-a", "__Host-a", "__secure-b", "__HOST-c", "__Host", "_Host-a", "__Host-", "", "a b", "a`b", "\xe9", "<i>", "a,b", "*x*", "__Secure-", "a\tb"]
VALUES = ["v", "", "a=b", '"q"', '"a', " x ", "__Host-x", "\xe9\xff", "a,b"]
DELIMS = [" ", " ", " ", "-", ",", ", ", "/", "\t", ".", "@", "(", "~", "  ", "\\", "_"]
BASES = ["", "http://example.com", "http://example.com/", "http://example.com/a", "http://example.com/a/", "http://example.com/a/b", "http://example.com/a/b/c?d/e#f/g", "http://example.com//", "a/b/c", "*", "http://[::1]/x/y", "/p/q", "//h/p/q"]


def token(rng):
    r = rng.random()
    if r < .25:
        f = pick(rng, ["%02d:%02d:%02d", "%d:%d:%d", "%02d:%02d:%02d"])
        t = f % (pick(rng, [0, 9, 23, 24, 12]), pick(rng, [0, 5, 59, 60]), pick(rng, [0, 1, 59, 60]))
        return t + pick(rng, [""] * 6 + ["x", "0", ":1", "\xb2", "Z"])
    if r < .5:
        return pick(rng, ["1", "01", "9", "28", "29", "30", "31", "32", "0", "00", "99"]) + pick(rng, [""] * 6 + ["th", "\xb2", ":", "st1"])
    if r < .75:
        return casing(rng, pick(rng, MON), .3) + pick(rng, ["", "", "", "uary", "9", "x", ":"])
    return pick(rng, ["70", "69", "00", "99", "100", "1600", "1601", "1969", "1970", "2000", "2023", "2024", "2025", "2037", "2038", "2100", "9999", "20240", "999", "68", "1900"]) + pick(rng, [""] * 8 + ["x", "\xb9", ":00"])


def date(rng):
    r = rng.random()
    if r < .35:
        t = rng.randrange(-2 * 10 ** 9, 4 * 10 ** 9) if rng.random() < .5 else NOW + rng.randrange(-100, 500 * 86400)
        return pick(rng, [imf, rfc850, asctime])(t)
    if r < .45:   # right at the limit
        return imf(NOW + 34560000 + pick(rng, [-1, 0, 1, 86400]))
    if r < .75:   # the four parts, somehow
        q = [pick(rng, ["08:49:37", "8:9:7", "23:59:59", "00:00:00", "24:00:00", "12:60:00", "12:00:60"]), str(rng.randint(0, 32)) if rng.random() < .8 else "%02d" % rng.randint(1, 31),
             casing(rng, pick(rng, MON), .3), pick(rng, ["2024", "2023", "1994", "24", "94", "1600", "70", "69", "2000", "1900", "2100"])]
        rng.shuffle(q)
        if rng.random() < .15:
            q.pop()
        if rng.random() < .3:
            q.insert(rng.randrange(len(q) + 1), pick(rng, ["Sun", "GMT", "x", "Monday", "Thu", "Marx", token(rng)]))
        out = q[0]
        for x in q[1:]:
            out += pick(rng, DELIMS) + x
        return out
    return "".join(token(rng) + pick(rng, DELIMS) for _ in range(rng.randint(0, 6)))


def attr(rng):
    n = pick(rng, ["Secure", "Secure", "HttpOnly", "HttpOnly", "SameSite", "SameSite", "SameSite", "Path", "Path", "Domain", "Max-Age", "Max-Age", "Expires", "Expires", "Expires", "Partitioned", "Priority", "Version", "x", "", "Secur", "Max_Age", "\xe9"])
    if n == "SameSite":
        v = pick(rng, ["None", "Lax", "Strict", "none", "LAX", "strict", "", "x", "Lax Strict", '"Lax"', None])
    elif n == "Path":
        v = pick(rng, ["/", "/", "/", "/a", "/a/", "a", "", None, "//", "\xe9", "/ "])
    elif n == "Domain":
        v = pick(rng, ["e.com", ".e.com", "E.COM", "..e", ".", "", None, "\xc9.com", "[::1]"])
    elif n == "Max-Age":
        v = pick(rng, ["0", "1", "00", "010", "-1", "-0", "-", "--1", "+1", "34560000", "34560001", "34559999", "034560001", "999999999", "10000000000", "9" * 40, "1.5", "1_0", "\xb2", "x", "", None, "1 2", "-34560001", "1e3", "0x1"])
    elif n == "Expires":
        v = date(rng)
    else:
        v = pick(rng, [None, None, None, None, "x", "", "=", "1=2"])
    n = casing(rng, n, .35)
    ws = lambda: pick(rng, ["", "", "", " ", "\t", "  "])
    return pick(rng, ["", " ", " ", " ", "\t"]) + n + (ws() + "=" + ws() + v if v is not None else "") + ws()


def cookie(rng, k=4):
    pair = pick(rng, NAMES) + pick(rng, ["=", "=", "=", "=", " = ", ""]) + pick(rng, VALUES)
    r = rng.random()
    if r < .03:
        pair = "n=" + "v" * pick(rng, [127, 128, 129, 130, 200])
    if rng.random() < .35:
        k = 1
    return pair + "".join(";" + attr(rng) for _ in range(rng.randint(0, k))) + pick(rng, ["", "", "", "", ";", "; ", ";;"])


def message(rng):
    hs = [[casing(rng, "Set-Cookie", .1), cookie(rng, 6)] for _ in range(pick(rng, [1, 1, 1, 2, 2, 3]))]
    if rng.random() < .1:
        hs.insert(rng.randrange(len(hs) + 1), ["X-A", "b"])
    kw = {"base_uri": pick(rng, BASES)} if rng.random() < .8 else {}
    if rng.random() < .85:
        kw["start"] = pick(rng, [NOW, NOW, NOW, NOW, 1, 10 ** 9])
    return response(hs, **kw)


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_SetCookie", sub={"MaxAv": 3} if th else None), 10 ** 5 if th else 3500), WANT, "Tr_SetCookie", "JudgeC19", "model")
    c.run([message(rng) for _ in range(100000 if th else 5000)], WANT, "Tr_SetCookie", "JudgeC19", "random")
    # at the size limit
    big = [response([["Set-Cookie", "n" * a + "=" + "v" * b]]) for a, b in ([(1, 4095), (1, 4096), (2048, 2048), (2048, 2049), (4096, 0), (1100, 3000)] if th else [(3000, 1096), (3000, 1097), (1, 4096), (2, 1000), (4096, 0), (0, 4097)])]
    c.run(big, WANT, "Tr_SetCookie", "JudgeC19", "large")
