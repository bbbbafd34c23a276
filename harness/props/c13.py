from harness import core
from harness.gen import *

WANT = ["parsed", "sm"]
NAMES = ["Date", "Expires", "Last-Modified", "Sunset"]
JUNK = ["", "0", "-1", "now", "2023-11-14T22:13:20Z", "1700000000", "Tue, 14 Nov 2023 22:13:20 +0000", "Tue, 14 Nov 2023 22:13:20",
        "Tue, 14 Nov 2023 22:13 GMT", "14 Nov 2023 22:13:20 GMT", "Tue,14 Nov 2023 22:13:20 GMT", "Tue, 14 Nov 23 22:13:20 GMT",
        "Tuesday, 14 Nov 2023 22:13:20 GMT", "Tue, 14-Nov-23 22:13:20 GMT", "Tue Nov 14 22:13:20 2023 GMT", "Tue Nov 04 22:13:20 2023",
        "Tue Nov 4 22:13:20 2023", "Tue, 14 Nov 2023 22:13:20 UTC", "Tue, 14 Nov 2023 22:13:20 GMT;", '"Tue, 14 Nov 2023 22:13:20 GMT"',
        "Tue, 14 November 2023 22:13:20 GMT", "Xxx, 14 Nov 2023 22:13:20 GMT", "Tue, 4 Nov 2023 22:13:20 GMT", "Tue, 14 Nov 12023 22:13:20 GMT",
        "Tuesday, 14-Nov-2023 22:13:20 GMT", "Tue\xa0Nov 14 22:13:20 2023"]
ODD = ["Tue, 14 Nov 2023 24:00:00 GMT", "Tue, 14 Nov 2023 23:59:60 GMT", "Tue, 31 Feb 2023 00:00:00 GMT", "Tue, 00 Jan 2023 00:00:00 GMT",
       "Tue, 14 Nov 2023 99:99:99 GMT", "Sun, 14 Nov 2023 22:13:20 GMT", "tue, 14 nov 2023 22:13:20 gmt", "TUE, 14 NOV 2023 22:13:20 GMT",
       "Thu, 01 Jan 1970 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:01 GMT", "Wed, 31 Dec 1969 23:59:59 GMT", "Fri, 31 Dec 9999 23:59:59 GMT",
       "Mon, 01 Jan 0100 00:00:00 GMT", "Saturday, 31-Dec-68 23:59:59 GMT", "Wednesday, 01-Jan-69 00:00:00 GMT", "Saturday, 01-Jan-00 00:00:00 GMT",
       "Tue, 19 Jan 2038 03:14:08 GMT", "Sat Feb 29 00:00:00 2020"]
EDGES = [0, 1, 4, 5, 6, 7, 30, 60, 3600, 86400, 86399, 10**6, 10**8]


def when(rng, base):
    return base + pick(rng, EDGES) * pick(rng, [1, -1]) + pick(rng, [0, 0, 1, -1])


def text(rng, t):
    return pick(rng, [imf, imf, imf, rfc850, asctime])(t)


def mutate(rng, s):
    i = rng.randrange(len(s) + 1)
    r = rng.random()
    if r < .35:
        return s[:i] + s[i + 1:]
    if r < .7:
        return s[:i] + pick(rng, " ,:-0159aG\t\xb2") + s[i + 1:]
    return s[:i] + pick(rng, " ,:-05aG\xa0") + s[i:]


def value(rng, base):
    r = rng.random()
    if r < .1:
        return pick(rng, JUNK)
    if r < .2:
        return pick(rng, ODD)
    if r < .35:
        return mutate(rng, text(rng, when(rng, base)))
    if r < .45:
        return text(rng, rng.randrange(-2**31 + 10**8, 2**31 - 10**8))
    v = text(rng, when(rng, base))
    if r < .55:
        v = pick(rng, [" ", "\t", "  ", ""]) + v + pick(rng, [" ", "\t ", ""])
    return casing(rng, v, .05)


def rand(rng):
    kind = "response" if rng.random() < .85 else "request"
    hs = []
    for n in NAMES:
        p = .6
        while rng.random() < p:
            hs.append([casing(rng, n, .2), value(rng, NOW)])
            p = .08
    if rng.random() < .3:
        hs.append(["Age", pick(rng, ["0", "5", "6", "30", "60", "-3", "x", "100000000000", "4"])])
    rng.shuffle(hs)
    st = pick(rng, [None, NOW, NOW, NOW + 3, NOW - 10])
    if kind == "request":
        return request(hs, start=st)
    return response(hs, start=st)


def check(c):
    rng = c.rng
    ks = c.model("MC_Dates", sub={"Years": "{" + ",".join(str(y) for y in range(1600, 9990, 31)) + "}"} if core.THOROUGH else None)
    if not core.THOROUGH:
        ks = sample(rng, ks, 1200)
    scs = []
    for k in ks:
        hs = [[n, k[f]] for n, f in zip(shuffled(rng, NAMES), shuffled(rng, ["imf", "r850", "asc", "imf"]))]
        scs.append(response(hs, start=pick(rng, [None, NOW])))
    c.run(scs, WANT, "Tr_Dates", "JudgeDates", "model")
    c.run([rand(rng) for _ in range(60000 if core.THOROUGH else 3000)], WANT, "Tr_Dates", "JudgeDates", "random")
