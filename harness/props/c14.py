"""Status verdicts."""
from harness import core, fuzz
from harness.gen import *

WANT = {"vars": ["status", "method", "uri_len", "headers"]}
CODES = [str(c) for c in (list(range(100, 105)) + list(range(200, 210)) + [226] + list(range(300, 310)) + list(range(400, 432)) + [451, 499] + list(range(500, 513)) + [599, 600, 999, 0, 99, 199, 1000])]
REQ = ["Expect", "Upgrade", "Range", "Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "If-Match", "If-None-Match",
       "If-Modified-Since", "If-Unmodified-Since", "If-Range", "User-Agent", "Cookie", "Connection"]
RESP = ["Location", "Content-Range", "Date", "Allow", "Content-Type", "Content-Encoding", "Content-Language", "Retry-After", "ETag", "Server", "Content-Length",
        "Content-Location", "Upgrade", "Accept-Ranges"]
# names close to the ones that matter
NEAR = ["Expected", "X-Range", "Rangef", "Accept-Ch", "Accept-Charse", "If-Matched", "Locations", "Content-Rang", "Dat", "Allowed", "X-Date", "Content-Types"]
METHODS = ["GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "CONNECT", "PATCH", "get", "Post", "", "request", "M-SEARCH"]


def val(rng, n, meth):
    if n == "Expect":
        return pick(rng, ["100-continue", "100-Continue", "100-CONTINUE", "x", "", "x, 100-continue", "100-continue, x", " 100-continue ", "100-continue;a", "100-continued", ",100-continue,", "100"])
    if n == "Allow":
        return pick(rng, [meth, meth.lower(), "GET, " + meth, meth + ", PUT", "", "GET", "X" + meth, "request", "PUT,,POST", meth + "X"])
    return pick(rng, ["", "x"] + fuzz.VALUES.get(n, [])[:3])


def reals(c):
    return [dict(response([list(h) for h in m["headers"]], status=m["top"][1]),
                 **({"related": request(m["related"]["headers"], method=m["related"]["top"][0])} if "related" in m else {})) for m in c]


def message(rng):
    code = pick(rng, CODES) if rng.random() < .93 else pick(rng, ["", "x", "2 00", "+200", "-200", "0200", "00404", "200 ", "\xb2\xb00", "2_0_6", "٢٠٠".encode().decode("latin-1"), "999999", "1e2"])
    meth = pick(rng, METHODS)
    rh = [[casing(rng, n, .2), val(rng, n, meth)] for n in some(rng, RESP, pick(rng, [.05, .3, .6])) for _ in range(pick(rng, [1, 1, 1, 1, 2]))]
    if rng.random() < .2:
        rh.append([pick(rng, NEAR), "x"])
    rng.shuffle(rh)
    kw = {}
    if rng.random() < .75:
        qh = [[casing(rng, n, .2), val(rng, n, meth)] for n in some(rng, REQ, pick(rng, [0, .05, .15, .5]))]
        if rng.random() < .2:
            qh.append([pick(rng, NEAR), "100-continue"])
        rng.shuffle(qh)
        kw["related"] = request(qh, method=meth, uri=pick(rng, ["http://e.com/", "/", "*", "http://e.com/#frag", "", "http://e.com/" + "a" * rng.randrange(300), "/a#b#c", "#", "http://e.com/?q=1"]),
                                version=pick(rng, ["HTTP/1.1", "HTTP/1.0", "2"]))
    elif rng.random() < .15:
        rh.append(["Range", "bytes=0-"])
        rh.append(["Expect", "100-continue"])
    if rng.random() < .1:
        kw["trailers"] = [[pick(rng, ["Location", "Date", "Content-Range", "Content-Type"]), "x"]]
    sc = response(rh, status=code, **kw)
    if rng.random() < .15:
        sc["top"][2:] = pick(rng, [[], [""], ["\xe9"], ["Not Found"], ["\xff\xfe"]])
    if rng.random() < .1:
        sc["no_content"] = True
    if rng.random() < .1:
        sc["head"] = True
    if rng.random() < .1:
        sc["complete"] = False
    return sc


def check(c):
    rng = c.rng
    scs = reals(c.model("MC_Status"))
    c.run(sample(rng, scs, 10 ** 6 if core.THOROUGH else 4000), WANT, "Tr_Status", "JudgeC14", "model")
    c.run([message(rng) for _ in range(60000 if core.THOROUGH else 4000)], WANT, "Tr_Status", "JudgeC14", "random")
