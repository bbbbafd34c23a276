"""Fields defined as Structured Fields, in messages."""
from harness import sf
from harness.gen import *

CSP = ["hit", "fwd", "fwd-status", "ttl", "stored", "collapsed", "key", "detail", "x", "hit2", "details"]
PSP = ["error", "next-hop", "next-protocol", "received-status", "details", "x", "fwd", "detail"]
FWD = ["bypass", "method", "uri-miss", "vary-miss", "miss", "request", "stale", "partial", "hit", "Miss", "x"]
ERR = ["dns_timeout", "dns_error", "proxy_loop_detected", "connection_refused", "x", "http_upgrade_failed"]
FEATURES = ["camera", "microphone", "geolocation", "payment", "usb", "serial", "magnetometer", "accelerometer", "gyroscope", "screen-wake-lock", "fullscreen", "autoplay", "x"]
HINTS = ["Sec-CH-UA", "DPR", "dpr", "Width", "Sec-CH-UA-Mobile", "Accept"]
TYPES = ["text/html", "Text/*", "*/*", "*/x", "*", "a", "application/Sparql", "a/b/c", "te~t/x", "a" * 128 + "/x", "x/" + "b" * 127, "", "a b/c", "text/", "+a/b", "a/*x"]


def cs_val(rng):
    def v(k):
        if rng.random() < .35:
            return sf.bare(rng)
        if k in ("hit", "stored", "collapsed"):
            return pick(rng, ["?1", "?0"])
        if k in ("fwd-status", "ttl", "received-status"):
            return pick(rng, ["200", "-1", "0", "?1", "1.0"])
        if k == "fwd":
            return pick(rng, FWD)
        if k == "error":
            return pick(rng, ERR)
        return sf.bare(rng, "stb")
    return v


def member(rng, name):
    if name == "accept-ch":
        return pick(rng, HINTS) + sf.params(rng) if rng.random() < .85 else pick(rng, [sf.item(rng), sf.inner(rng)])
    if name == "accept-query":
        t = pick(rng, TYPES)
        if rng.random() < .15:
            return pick(rng, [sf.item(rng), sf.inner(rng)])
        return (t if rng.random() < .4 and t and t[0].isalpha() or t[:1] == "*" and rng.random() < .5 else sf.string(t)) + sf.params(rng)
    if name in ("cache-groups", "cache-group-invalidation"):
        return sf.item(rng, "sss" + pick(rng, ["s", "s", "t", "i", "B", "b", "p"])) if rng.random() < .9 else sf.inner(rng)
    if name in ("cache-status", "proxy-status"):
        head = sf.bare(rng, "tttsssib") if rng.random() < .95 else sf.inner(rng, n=0)
        return head + sf.params(rng, CSP if name == "cache-status" else PSP, val=cs_val(rng))
    if name == "deprecation":
        return sf.bare(rng, pick(rng, ["@", "@", "B", "itsbBn@p"])) + sf.params(rng)
    if name == "permissions-policy":
        k = pick(rng, FEATURES)
        r = rng.random()
        if r < .5:
            return k + "=(" + " ".join(pick(rng, ["self", "src", '"self"', '"src"', '"*"', '"none"', "none", "*", '"https://e.com"', sf.bare(rng), "Self", '"Self"']) + sf.params(rng, n=pick(rng, [0, 0, 1])) for _ in range(rng.randint(0, 3))) + ")" + sf.params(rng)
        return k + pick(rng, ["=*", "=*", "=self", "", '="*"', "=?1", "=" + sf.bare(rng), ";a", "=()"])
    if name == "use-as-dictionary":
        k = pick(rng, ["match", "match", "match-dest", "match-dest", "id", "type", "ttl", "x"])
        if k == "match-dest" and rng.random() < .7:
            return k + "=" + (sf.inner(rng, "s") if rng.random() < .6 else sf.inner(rng, "sst"))
        good = {"match": "s", "id": "s", "type": "t", "ttl": "i", "match-dest": "s", "x": "s"}[k]
        return k + ("=" + (sf.bare(rng, good if rng.random() < .5 else "itsbBn@p") if rng.random() < .9 else sf.inner(rng)) if rng.random() < .9 else "") + sf.params(rng, n=pick(rng, [0, 0, 1]))
    if name == "available-dictionary":
        return sf.item(rng, "bbb" + "itsBn@p") if rng.random() < .9 else sf.inner(rng)
    return None


KIND = {**{n: "list" for n in ("accept-ch", "accept-query", "cache-group-invalidation", "cache-groups", "cache-status", "proxy-status", "speculation-rules")},
        **{n: "item" for n in ("available-dictionary", "deprecation", "cross-origin-embedder-policy", "cross-origin-opener-policy", "cross-origin-embedder-policy-report-only", "cross-origin-opener-policy-report-only")},
        **{n: "dictionary" for n in ("cdn-cache-control", "permissions-policy", "reporting-endpoints", "use-as-dictionary")}}
SPECIFIC = ["accept-ch", "accept-query", "cache-group-invalidation", "cache-groups", "cache-status", "proxy-status", "deprecation", "permissions-policy"]


def anything(rng, kind):
    if kind == "item":
        return sf.item(rng)
    x = sf.item(rng) if rng.random() < .7 else sf.inner(rng, "itsbBn@p")
    if kind == "list":
        return x
    k = pick(rng, sf.KEYS + ["A", "1", ""]) if rng.random() < .9 else pick(rng, sf.BADBITS)
    r = rng.random()
    return k + ("=" + x if r < .8 else "" if r < .9 else sf.params(rng))


def field(rng, name, wild=.25):
    m = lambda: (member(rng, name) if rng.random() > wild else None) or anything(rng, KIND[name])
    if KIND[name] == "item":
        ms = [m()] if rng.random() < .93 else [m(), m()]
    else:
        ms = [m() for _ in range(pick(rng, [0, 1, 1, 2, 2, 3, 4]))]
    return sf.lines(rng, casing(rng, "-".join(w.capitalize() for w in name.split("-")), .2), ms)


def codings(rng):
    return [[casing(rng, "Accept-Encoding", .2), ", ".join(casing(rng, pick(rng, ["gzip", "br", "dcb", "dcz", "*", "dcb", "dcb2"]), .2) + pick(rng, ["", "", "", ";q=0", ";q=0.5", " ; q=0.000", ";q=1"]) for _ in range(rng.randint(1, 3)))] for _ in range(pick(rng, [0, 1, 1, 2]))]


def caching(rng):
    return [["Cache-Control", pick(rng, ["max-age=60", "no-store", "private", "public, max-age=5", "private, max-age=3", "no-cache"])]] if rng.random() < .8 else []


def related(rng):
    return {"related": request([], method=pick(rng, ["GET", "POST", "HEAD", "OPTIONS", "PUT", "get", "TRACE", "DELETE"]),
                               uri=pick(rng, ["http://e.com/", "https://e.com/", "HTTP://e.com/", "/x", "https://http:80/", "httpx://e.com/"]))} if rng.random() < .75 else {}


def message(rng):
    names = [pick(rng, SPECIFIC)] if rng.random() < .6 else some(rng, SPECIFIC, .25) or [pick(rng, SPECIFIC)]
    if rng.random() < .2:
        names = [pick(rng, [n for n in KIND if n != "available-dictionary"])]
        hs = field(rng, names[0], 1)
    else:
        hs = [h for n in names for h in field(rng, n)]
    if "accept-ch" in names and rng.random() < .9:
        hs += caching(rng)
        hs += [["Vary", ", ".join(casing(rng, x, .3) for x in some(rng, HINTS, .5))]] if rng.random() < .7 else []
    if rng.random() < .2:
        hs = shuffled(rng, hs)
    kw = related(rng)
    if rng.random() < .7:
        kw["start"] = pick(rng, [1700000000, 1700000000, 1699999999, 1, 0])
    return response(hs, status=pick(rng, ["200", "200", "404"]), **kw)


def dictmessage(rng):
    r = rng.random()
    if r < .35:
        return request((field(rng, "available-dictionary", .1) if rng.random() < .85 else []) + codings(rng), version=pick(rng, ["HTTP/1.1", "HTTP/1.0"]))
    hs = field(rng, "use-as-dictionary", .08) if rng.random() < .5 else []
    if rng.random() < .7:
        hs += split_lines(rng, "Content-Encoding", [casing(rng, pick(rng, ["dcb", "dcz", "gzip", "br", "dcb2"]), .3) for _ in range(pick(rng, [1, 1, 2]))])
    if rng.random() < .7:
        hs += split_lines(rng, "Vary", [casing(rng, pick(rng, ["Available-Dictionary", "Accept-Encoding", "*", "Dictionary", "Available-Dictionary-X"]), .3) for _ in range(pick(rng, [1, 2]))])
    hs += caching(rng)
    if rng.random() < .4:
        hs = shuffled(rng, hs)
    kw = {"related": request(codings(rng), method=pick(rng, ["GET", "GET", "POST"]))} if rng.random() < .6 else {}
    return response(hs, status=pick(rng, ["200", "200", "206", "404", "302"]), **kw)
