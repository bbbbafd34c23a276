"""Shared by C09-C12: exchanges for the caching decision."""
import os

from harness import core
from harness.gen import *

DIRVAL = {
    "fresh": {"max-age": "300", "s-maxage": "300"},
    "zero": {"max-age": "0", "s-maxage": "0"},
    "mixed": {"max-age": "0", "s-maxage": "300"},
}
WANT = ["sm", "dt", "caching"]


def concretise(k, rng):
    """one model scenario (see MC_Cache) as messages; order, casing, spacing, line splits are random"""
    hs = []
    dirs = []
    for d in k["dirs"]:
        if d in ("max-age", "s-maxage"):
            dirs.append(f"{d}={DIRVAL[k['life']][d]}")
        elif d in ("stale-while-revalidate", "stale-if-error"):
            dirs.append(f"{d}=60")
        else:
            dirs.append(d)
    dirs = [casing(rng, d, 0.15) for d in shuffled(rng, dirs)]
    if dirs:
        hs += split_lines(rng, "Cache-Control", dirs)
    bad = pick(rng, ["0", "-1", "", "yesterday", "Tue, 14 Nov 2023 22:13:20 EST"])
    if k["exp"] != "none":
        hs.append(["Expires", {"past": imf(NOW - 200), "now": imf(NOW), "future": imf(NOW + 200), "bad": bad}[k["exp"]]])
    if k["date"] != "none":
        hs.append(["Date", {"now": imf(NOW), "old": imf(NOW - 100), "future": imf(NOW + 100), "bad": bad}[k["date"]]])
    if k["age"] != "none":
        hs.append(["Age", {"bad": pick(rng, ["-5", "x", "", "1.5"]), "zero": "0", "small": "30", "large": "400"}[k["age"]]])
    if k["val"] == "lm":
        hs.append(["Last-Modified", imf(NOW - 5000)])
    elif k["val"] == "etag":
        hs.append(["ETag", '"abc"'])
    if k["vary"] != "none":
        hs.append(["Vary", {"star": pick(rng, ["*", "Accept, *", "*, Cookie"]), "plain": "Accept-Encoding"}[k["vary"]]])
    hs = shuffled(rng, hs)
    rel = None
    if k["req"] != "none":
        rh = [["User-Agent", "x"]]
        if k["req"] == "auth":
            rh.append([casing(rng, "Authorization"), "Basic abc="])
        rel = request(rh, method={"post": "POST", "head": "HEAD"}.get(k["req"], "GET"),
                      start=NOW - 7 if k["times"] == "both" else None)
    return response(hs, status=k["status"], start=None if k["times"] == "none" else NOW, related=rel)


CCD = ["public", "private", "no-store", "no-cache", "must-revalidate", "proxy-revalidate", "immutable", "no-transform",
       "must-understand", "stale-while-revalidate=30", "stale-if-error=30", "max-age=60", "max-age=0", "max-age=3600", "s-maxage=0",
       "s-maxage=600", "s-maxage=60", "max-age=60", "x-foo=bar", 'no-cache="set-cookie"', 'private="x"', "max-age", "max-age=abc",
       'max-age="60"', "s-maxage=", "max-stale=5", "only-if-cached", "max-age=99999999999", "max-age=-5", "max-age=+7",
       "s-maxage=-1", "publicx", "no-storey", "max-age =5", "stale-if-error", "stale-while-revalidate=x", "pre-check=1"]


def randdate(rng):
    r = rng.random()
    if r < 0.12:
        return pick(rng, ["0", "-1", "", "nope", "Mon, 1 May 2023 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 GMT"])
    t = NOW + pick(rng, [0, 1, -1, 5, -5, 6, 59, 60, 61, -60, 299, 300, 301, 3600, -3600, 86400, -86400, 10**6, -10**7, 10**8])
    t += rng.randrange(-3, 4)
    return pick(rng, [imf, imf, imf, rfc850, asctime])(t)


def randexchange(rng):
    hs = []
    dirs = [casing(rng, d, 0.1) for d in some(rng, CCD, pick(rng, [0.02, 0.06, 0.12]))]
    rng.shuffle(dirs)
    if dirs:
        hs += split_lines(rng, "Cache-Control", dirs, sep=pick(rng, [", ", ",", " , ", ",,"]))
    for name, p in (("Expires", .4), ("Date", .7), ("Last-Modified", .4)):
        while rng.random() < p:
            hs.append([casing(rng, name), randdate(rng)])
            p = 0.1
    if rng.random() < .4:
        hs.append([casing(rng, "Age"), pick(rng, ["0", "1", "5", "30", "60", "61", "300", "x", "-1", "", "1500000000", " 12 ", "+3", "1_0"])])
    if rng.random() < .15:
        hs.append(["Age", "77"])
    if rng.random() < .3:
        hs.append(["ETag", pick(rng, ['"a"', 'W/"a"', "a", ""])])
    if rng.random() < .3:
        hs.append([casing(rng, "Vary"), pick(rng, ["*", "Accept", "Accept, *", "Cookie, Accept-Encoding", "", "*x", '"*"', "* , x"])])
    rng.shuffle(hs)
    # misplaced request field: must not disturb anything
    if rng.random() < .1:
        hs.insert(rng.randrange(len(hs) + 1), ["Authorization", "Basic x"])
    rel = None
    st = pick(rng, [None, NOW, NOW + 3, NOW - 50])
    if rng.random() < .6:
        rh = [["User-Agent", "x"]] if rng.random() < .5 else []
        if rng.random() < .35:
            rh.append([casing(rng, pick(rng, ["Authorization", "Authorization", "Authorisation", "Proxy-Authorization"])), "Basic abc="])
        if rng.random() < .2:
            rh.append(["Cache-Control", pick(rng, ["no-store", "no-cache", "max-age=0", "private"])])
        rel = request(rh, method=pick(rng, ["GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "get", "DELETE", "M-SEARCH", ""]),
                      start=pick(rng, [None, NOW - 7, NOW - 1, NOW, NOW + 2]))
    return response(hs, status=pick(rng, ["200", "200", "203", "204", "206", "300", "301", "302", "304", "307", "308", "404", "410", "414",
                                          "500", "501", "418", "299"]), start=st, related=rel)


def check_part(c, part, models, quick_model, quick_rand, thorough_rand):
    os.environ["PART"] = part
    rng = c.rng
    scs = []
    for cfg in models:
        ks = c.model("MC_Cache", cfg=cfg)
        if not core.THOROUGH:
            ks = sample(rng, ks, quick_model // len(models))
        scs += [concretise(k, rng) for k in ks]
    outs = core.execute(scs, WANT)
    c.validate("Tr_Cache", scs, outs, "model")
    n = thorough_rand if core.THOROUGH else quick_rand
    scs = [randexchange(rng) for _ in range(n)]
    outs = core.execute(scs, WANT)
    c.validate("Tr_Cache", scs, outs, "random")
