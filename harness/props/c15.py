"""CORS preflights and origins."""
from harness import core, fuzz
from harness.gen import *

WANT = {"vars": ["origin", "acao_value", "headers"]}
HOSTS = ["a.com", "A.com", "b.a.com", "a.com.", "localhost", "127.0.0.1", "256.1.1.1", "[::1]", "[::FFFF:1.2.3.4]", "[1:2:3:4:5:6:7:8]", "[v1.a]", "x%41", "", "a_b", "a,b", "xn--e1afmkfd.com", "[::g]", "[1::2::3]", "a b", "\xe9.com", "a.com/"]
PORTS = ["", "", "", ":80", ":443", ":8080", ":", ":080", ":0", ":x", ":99999", ":-1", "::"]
SCHEMES = ["http", "https", "HTTP", "Https", "chrome-extension", "a+b.c", "1http", "", "moz-extension", "ws"]


def origin(rng):
    r = rng.random()
    if r < .1:
        return pick(rng, ["null", "NULL", "null ", " null", "Null", "null null", "null http://a.com", "http://a.com null"])
    if r < .2:
        return pick(rng, ["", "*", "a.com", "//a.com", "http:a.com", "http:/a.com", "http:///", "http://a.com/", "http://a.com?x", "http://u@a.com", "http://a.com#", "about:blank", "file://", "http://a.com\thttp://b.com"])
    o = pick(rng, SCHEMES[:4] if rng.random() < .7 else SCHEMES) + "://" + pick(rng, HOSTS[:4] if rng.random() < .6 else HOSTS) + pick(rng, PORTS)
    if rng.random() < .08:
        o += pick(rng, [" ", "  ", ", ", ","]) + pick(rng, ["http://b.com", "x"])
    return o


def near(rng, o):
    """an allowed origin close to the one asked for"""
    r = rng.random()
    if r < .4:
        return o.lower().split(" ")[0]
    if r < .5:
        return o
    if r < .6:
        return o.upper()
    if r < .7:
        return pick(rng, [o + "/", o + ":80", o + ":443", o + ":", o.replace("http", "https"), o.replace("https", "http"), o + " " + o, o + "," + o, o[:-1], o.replace("a.com", "b.com"), o.split(":80")[0], o.replace(":0", ":")])
    if r < .85:
        return pick(rng, ["*", "null", "NULL", "* ", "**", "", "*, *", "null, " + o, " *"])
    return origin(rng)


def message(rng):
    meth = pick(rng, ["OPTIONS", "OPTIONS", "OPTIONS", "GET", "POST", "options", "", "OPTION", "OPTIONSX"])
    qh = []
    o = origin(rng)
    if rng.random() < .8:
        qh.append([casing(rng, "Origin", .2), o])
        if rng.random() < .07:
            qh.append(["Origin", origin(rng)])
    if rng.random() < .5:
        qh.append([casing(rng, "Access-Control-Request-Method", .2), pick(rng, ["GET", "PUT", "", "a b", "PUT, GET", "options"])])
    if rng.random() < .5:
        qh.append([casing(rng, "Access-Control-Request-Headers", .2), pick(rng, ["x-a", "", "X-A, x-b", "x y", ","])])
    if rng.random() < .1:
        qh.append([pick(rng, ["Origin-", "X-Origin", "Access-Control-Request-Private-Network", "Access-Control-Allow-Origin", "Access-Control-Max-Age"]), "x"])
    rng.shuffle(qh)
    q = request(qh, method=meth, uri=pick(rng, ["http://a.com/", "*", "/"]))
    if rng.random() < .05:
        q["trailers"] = [[pick(rng, ["Origin", "Access-Control-Request-Method"]), "http://a.com"]]
    if rng.random() < .25:
        return q
    rh = []
    if rng.random() < .8:
        rh.append([casing(rng, "Access-Control-Allow-Origin", .2), near(rng, o)])
        if rng.random() < .07:
            rh.append(["Access-Control-Allow-Origin", near(rng, o)])
    for n in some(rng, ["Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Max-Age"], .25):
        rh.append([casing(rng, n, .2), pick(rng, ["", "x", "GET, PUT", "5", "*", "-1", ","])])
    for n in some(rng, ["Access-Control-Expose-Headers", "Access-Control-Allow-Credentials", "Vary", "Timing-Allow-Origin", "Cross-Origin-Resource-Policy", "Origin", "Access-Control-Request-Method"], .08):
        rh.append([n, pick(rng, ["x", "*", "http://a.com", "true"])])
    rng.shuffle(rh)
    kw = {"related": q} if rng.random() < .85 else {}
    return response(rh, status=pick(rng, ["200", "204", "404"]), **kw)


def check(c):
    rng = c.rng
    scs = c.model("MC_Cors")
    c.run(sample(rng, scs, 10 ** 6 if core.THOROUGH else 2500), WANT, "Tr_Cors", "JudgeC15", "model")
    c.run([message(rng) for _ in range(60000 if core.THOROUGH else 4000)], WANT, "Tr_Cors", "JudgeC15", "random")
