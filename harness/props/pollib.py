"""Random security policies."""
from harness import sf
from harness.gen import *

WANT = {"parsed": 1, "vars": []}


def endpoints(rng):
    """a Reporting-Endpoints field, mostly"""
    ms = [pick(rng, ["a", "b", "c-1", "*", "default"]) + pick(rng, ['="https://e.com/r"', '="http://e.com/r"', '="/r"', "=1", "", '="wss://e.com"', '=""', '="//e.com/x"', "=a", "=()", '="data:,x"', '="HTTPS://E.com"', '="https:x"', ';a=1', '=%"a"', "=@1"])
          + pick(rng, ["", "", "", ";x=1"]) for _ in range(pick(rng, [0, 1, 1, 2, 3]))]
    if rng.random() < .06:
        ms.append(pick(rng, sf.BADBITS))
    return sf.lines(rng, casing(rng, "Reporting-Endpoints", .1), ms) if rng.random() < .8 else []


# Strict-Transport-Security
def directive(rng):
    n = pick(rng, ["max-age", "max-age", "max-age", "includeSubDomains", "includeSubDomains", "preload", "preload", "x", "max_age", "maxage", "include", ""])
    r = rng.random()
    if n == "max-age" and r < .93 or r < .12:
        v = pick(rng, ["31536000", "31535999", "31536001", "1536000", "1535999", "0", "1", "63072000", "-1", "-0", "000", "0031536000", "99999999999999999999", "1e9", "31536000.0", "31_536_000", "+31536000", "\xb2", "", "x", "31536000 ", "1 2", "31 536000", "86400", "none", "=1"])
        if rng.random() < .25:
            v = pick(rng, ['"%s"', '"%s"', '"%s', '%s"', '" %s"', '"\\%s"', '"%s;preload"', "'%s'"]) % v
        eq = pick(rng, ["=", "=", "=", "=", " = ", "= ", "\t="])
        return casing(rng, n, .25) + eq + v
    if r < .2:
        return n + "=" + pick(rng, ['"a;b"', '";preload;"', '"max-age=1', '"\\";x"'])
    return casing(rng, n, .25)


def sts(rng):
    ds = [directive(rng) for _ in range(pick(rng, [0, 1, 1, 2, 2, 3, 3, 4, 5]))]
    if rng.random() < .3:
        ds = ["max-age=" + pick(rng, ["31536000", "31535999", "0", "63072000"]), "includeSubDomains", "preload"][:rng.randint(1, 3)]
        ds = [casing(rng, d, .2) for d in shuffled(rng, ds)]
    sep = lambda: pick(rng, [";", "; ", "; ", " ; ", ";;", " ;\t"])
    out = ""
    for k, d in enumerate(ds):
        out += (sep() if k else "") + d
    return pick(rng, ["", "", "", "", "", ";", " "]) + out + pick(rng, ["", "", "", "", ";", "; ", ";;"])


def hsts(rng):
    hs = [[casing(rng, "Strict-Transport-Security", .15), sts(rng)] for _ in range(pick(rng, [1] * 12 + [2]))]
    kw = {"base_uri": pick(rng, ["https://e.com/", "http://e.com/", "HTTP://e.com", "Http://e.com", "", "/x", "httpx://e.com", "https://http:80/", "http:"])} if rng.random() < .7 else {}
    return response(hs + ([["X-A", "b"]] if rng.random() < .1 else []), status=pick(rng, ["200", "200", "301", "302", "404", "308", "3010", "030"]), **kw)


# Content-Security-Policy
SOURCES = ["'self'", "'none'", "'unsafe-inline'", "'UNSAFE-INLINE'", "'Unsafe-Inline'", "'unsafe-inline'x", "unsafe-inline", "'unsafe-eval'", "'unsafe-Eval'", "'wasm-unsafe-eval'", "'unsafe-eval", "*", "*", "*.e.com", "https:", "http:", "HTTP:", "Http:", "http://e.com", "http:x", "xhttp:",
           "data:", '"', '"*"', 'x"', "'nonce-abc'", "'strict-dynamic'", "/csp?'unsafe-inline'", "'report-sample'", "\xe9", "e.com:*", "**", "'*'"]
DIRECTIVES = ["default-src", "script-src", "script-src", "style-src", "object-src", "img-src", "script-src-elem", "style-src-attr", "frame-ancestors", "base-uri", "report-uri", "report-to", "report-to", "upgrade-insecure-requests", "sandbox", "x", "script`src", "scr*ipt"]


def csp_directive(rng, names=DIRECTIVES):
    n = casing(rng, pick(rng, names), .25)
    if n.lower() == "report-to" and rng.random() < .9:
        return n + pick(rng, [" ", "  ", "\t"]) + pick(rng, ["a", "b", "A", "c-1", "default", "a b", "a  b", '"a"', "*", "missing"])
    w = pick(rng, [" ", " ", " ", "  ", "\t"])
    return n + "".join(w + pick(rng, SOURCES) for _ in range(pick(rng, [0, 1, 1, 2, 3])))


def policy(rng):
    ds = [csp_directive(rng) for _ in range(pick(rng, [0, 1, 1, 2, 2, 3, 4]))]
    if ds and rng.random() < .3:      # again, perhaps otherwise
        d = pick(rng, ds)
        ds.insert(rng.randrange(len(ds) + 1), pick(rng, [d, d.upper(), csp_directive(rng, [d.split()[0].lower()])]))
    return pick(rng, ["", "", "", ";", " "]) + pick(rng, ["; ", ";", " ; ", ";;"]).join(ds) + pick(rng, ["", "", "", ";", "; "])


def csp(rng):
    hs = []
    for name in ("Content-Security-Policy", "Content-Security-Policy-Report-Only"):
        if rng.random() < .65:
            hs += split_lines(rng, casing(rng, name, .1), [policy(rng) for _ in range(pick(rng, [1, 1, 1, 2, 3]))], .5, pick(rng, [", ", ",", " ,", ",,"]))
    hs += endpoints(rng)
    return response(shuffled(rng, hs) if rng.random() < .4 else hs)


# single tokens
REFERRER = ["no-referrer", "no-referrer-when-downgrade", "same-origin", "origin", "strict-origin", "origin-when-cross-origin", "strict-origin-when-cross-origin", "unsafe-url", "unsafe-url", "default", "always", "never", "no-referrer ", "no_referrer", "\xe9", '"no-referrer"', "origin;a"]
COVALUES = ["same-origin", "same-origin", "same-origin-allow-popups", "unsafe-none", "unsafe-none", "require-corp", "credentialless", "same-site", "cross-origin", "SAME-ORIGIN", "Require-Corp", '"same-origin"', '"require-corp"', "noopener-allow-popups", "1", "?1", ":YQ==:", "*", "none", "same-origin-plus-coep", "(same-origin)", '%"a"', "@1", ""]


def co(rng):
    hs = []
    for f in ("Cross-Origin-Opener-Policy", "Cross-Origin-Embedder-Policy"):
        for ro in ("", "-Report-Only"):
            if rng.random() < .45:
                v = pick(rng, COVALUES)
                if rng.random() < .5:
                    v += pick(rng, [";", "; "]) + pick(rng, ["report-to", "report-to", "report-to", "reportto", "x"]) + pick(rng, ['="a"', '="a"', "=a", '="b"', '=""', "", "=?0", "=0", "=1", "=:YQ==:", '="missing"', "=default", '="default"', "=@0", '=%"a"', '="a";report-to="missing"'])
                if rng.random() < .1:
                    v += sf.params(rng)
                hs.append([casing(rng, f + ro, .1), v])
                if rng.random() < .05:
                    hs.append([f + ro, pick(rng, COVALUES)])
    return hs + endpoints(rng)


def tokens(rng):
    r = rng.random()
    hs = co(rng) if r < .5 else []
    if rng.random() < (.15 if r < .5 else .7):
        hs += split_lines(rng, casing(rng, "Referrer-Policy", .1), [casing(rng, pick(rng, REFERRER), .2) for _ in range(pick(rng, [0, 1, 1, 2, 2, 3, 4]))], .5, pick(rng, [", ", ",", ", ,"]))
    if rng.random() < .3:
        hs += split_lines(rng, "X-Content-Type-Options", [casing(rng, pick(rng, ["nosniff", "nosniff", "nosniff", "no-sniff", "sniff", '"nosniff"', "nosniff;a", "x nosniff", "nosniff="]), .3) for _ in range(pick(rng, [0, 1, 1, 1, 2]))], .5, pick(rng, [", ", ",", " ,, "]))
    one = lambda: pick(rng, [1] * 9 + [2])
    if rng.random() < .35:
        hs += [["X-Frame-Options", casing(rng, pick(rng, ["DENY", "DENY", "SAMEORIGIN", "SAMEORIGIN", "ALLOWALL", "ALLOW-FROM https://e.com/", "DENYX", "XDENY", "SAMEORIGIN, DENY", "DENY, DENY", "ALLOW-FROM http://deny.com", "SAMEORIGINS", "", "SAME ORIGIN", '"DENY"', "DENY;", "not sameorigin"]), .3)] for _ in range(one())]
    if rng.random() < .35:
        hs += [["Cross-Origin-Resource-Policy", pick(rng, ["", "", " "]) + casing(rng, pick(rng, ["same-origin", "same-site", "cross-origin", "same-origin", "none", "same-origin, same-site", "same-origin;a=b", '"same-site"', "", "cross-site"]), .08) + pick(rng, ["", "", "\t"])] for _ in range(one())]
    if rng.random() < .35:
        hs += [["Access-Control-Allow-Credentials", pick(rng, ["", "", " "]) + pick(rng, ["true", "true", "true", "True", "TRUE", "tRue", "false", "1", "", "true, true", "true;a", '"true"', "truex"])] for _ in range(one())]
    return response(shuffled(rng, hs) if rng.random() < .5 else hs, status=pick(rng, ["200", "200", "404"]))
