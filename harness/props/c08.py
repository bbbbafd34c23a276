from harness import core
from harness.gen import *

WANT = ["parsed"]
NAMES = ["immutable", "max-age", "max-stale", "min-fresh", "must-revalidate", "must-understand", "no-cache", "no-store", "no-transform",
         "only-if-cached", "private", "proxy-revalidate", "public", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check",
         "post-check", "foo", "maxage", "no_store", "community"]
VALS = ["", "=", "=0", "=1", "=60", "=-1", "=+5", "=007", "=1_0", "=2147483647", "=2147483648", "=2147483649", "=99999999999999999999", "=x",
        '="x"', '="60"', '="a, b"', '="a\\"b"', "=*", "=a=b", "= 5", "=1.0", '="', "=\xe9", "=5 ", "=\xb2", '="a']
SEPS = [", ", ",", " ,", ",,", ", ,", ",\t", " , "]
JUNK = ["", " ", "=", "a b", '"q"', '"q, r"', '"open', "=5", "max-age 5", ";", "max-age=5;x", "\xa0no-store", "no-store\x0b"]


def member(rng):
    r = rng.random()
    if r < .05:
        return pick(rng, JUNK)
    n = pick(rng, NAMES)
    v = "" if rng.random() < .5 else pick(rng, VALS)
    if v == "" and n in ("max-age", "s-maxage", "max-stale", "min-fresh", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"):
        v = "=" + str(pick(rng, [0, 1, 5, 60, 3600]))
    return casing(rng, n, .15) + v


def rand_cc(rng):
    n = pick(rng, [0, 1, 1, 2, 2, 3, 4, 6])
    ms = [member(rng) for _ in range(n)]
    if n > 1 and rng.random() < .4:
        ms.append(pick(rng, ms))
    if rng.random() < .25:
        ms += [f"pre-check={pick(rng, [0, 1, 5, -1, 'x'])}", f"post-check={pick(rng, [0, 1, 5, 9, -1])}"]
    rng.shuffle(ms)
    return split_lines(rng, "Cache-Control", ms, p=pick(rng, [0, .5, 1.5]), sep=pick(rng, SEPS))


CDNV = ["", "=60", "=0", "=-5", "=1.5", "=foo", '="x"', "=?1", "=?0", "=:YQ==:", "=(a b)", "=()", ";a=1", "=60;a", "=@5", '="a, b"', "=", "= 5",
        '=%"x"', "=99999999999999999"]


def rand_cdn(rng):
    ms = []
    for _ in range(pick(rng, [0, 1, 1, 2, 3])):
        n = pick(rng, NAMES)
        if rng.random() < .05:
            n = n.upper()
        ms.append(n + ("" if rng.random() < .3 else pick(rng, CDNV)))
    if ms and rng.random() < .25:
        ms.append(pick(rng, ms))
    return split_lines(rng, "CDN-Cache-Control", ms, sep=pick(rng, [", ", ",", " , ", ",\t"]))


def wrap(rng, hs, kind):
    extra = some(rng, [["X-A", "b"], ["Date", "x"], ["Server", "y"]], .2)
    out = list(hs)
    for e in extra:
        out.insert(rng.randrange(len(out) + 1), e)
    return {"kind": kind, "headers": out, "top": ["GET", "http://e.com/", "HTTP/1.1"] if kind == "request" else ["HTTP/1.1", "200", "OK"]}


def check(c):
    rng = c.rng
    ks = c.model("MC_Cc", sub=None if core.THOROUGH else {"MaxMembers": 2})
    scs = [wrap(rng, [[casing(rng, "Cache-Control", .1), pick(rng, SEPS[:3]).join(l)] for l in k["lines"]], k["kind"]) for k in ks]
    c.validate("Tr_Cc", scs, core.execute(scs, WANT), "model", judge="JudgeCc")
    n = 60000 if core.THOROUGH else 4000
    scs = []
    for i in range(n):
        hs = rand_cc(rng) if i % 4 else rand_cdn(rng)
        if i % 16 == 1:
            hs += rand_cdn(rng)
        scs.append(wrap(rng, hs, pick(rng, ["response", "response", "request"])))
    c.validate("Tr_Cc", scs, core.execute(scs, WANT), "random", judge="JudgeCc")
