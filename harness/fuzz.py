"""Broad message generation: any field, realistic, mutated or hostile values, content, trailers."""
import json
import os

from harness.gen import *

CORPUS = json.load(open(os.path.join(os.path.dirname(__file__), "corpus.json")))
EXTRA = {
    "Retry-After": ["120", "Fri, 31 Dec 1999 23:59:59 GMT", "-1", "x"],
    "Proxy-Authenticate": ['Basic realm="x"', "Digest", ""],
    "Trailer": ["Expires, X-A", "", "Content-Length"],
    "Set-Cookie2": ["a=b; Version=1"], "X-Cache": ["HIT", "MISS from x"], "X-Cache-Lookup": ["HIT"], "X-Pad": ["avoid browser bug"],
    "Connectiox": ["close"], "Cteonnt-Length": ["5"], "Content-Base": ["http://e.com/"], "MIME-Version": ["1.0"], "P3P": ['CP="x"'],
    "TCN": ["list"], "SoapAction": ['"x"'], "Content-Transfer-Encoding": ["binary"], "nnCoection": ["close"], "X-Powered-By": ["PHP"],
    "Accept-Charset": ["utf-8"], "X-Unknown": ["whatever"], "Proxy-Connection": ["keep-alive"],
    "Referrer-Policy": ["no-referrer, unsafe-url", "x"], "Content-Type": ["text/html; charset=utf-8", "application/json", "text/html;charset=x", ""],
    "Content-Encoding": ["gzip", "br", "gzip, gzip", "x", "deflate", "dcb", "zstd"], "Origin": ["null", "http://a.com", "http://a.com:0x1", "http://[", "x"],
    "Host": ["a.com", "[", "a:b", "a.com:99999999"], "Location": ["/", "//[", "http://[::1", "http://e.com/#f", "\xe9"],
    "Age": ["0", "5", "9" * 5000], "Content-Length": ["0", "5", "9" * 5000, "5, 5"], "Max-Forwards": ["1", "9" * 5000],
}
FIELDS = sorted(set(CORPUS) | set(EXTRA))
VALUES = {n: CORPUS.get(n, []) + EXTRA.get(n, []) for n in FIELDS}
ALL = sorted({v for vs in VALUES.values() for v in vs})
ATOMS = ["", " ", ",", ";", "=", '"', "'", "*", "/", "?1", "?0", ":", "a", "0", "1", "-1", "1.5", "(", ")", "()", "[", "]", "{", "}", "{}", "[]", "null", "true", "1e999", "NaN",
         "\\", "%", "%zz", "%00", "\t", "\x00", "\r", "\n", "\x7f", "\x80", "\xa0", "\xe9", "\xff", "<b>", "</code>", "`", "``", "javascript:x", "http://[", "http://a:b", "//[::1", "http://[::1]:x/", "\xb2",
         "a=b", "a=", "=b", 'a="b"', 'a="', "a='b'", "a*=utf-8''%e9", "a*=x", "a*=''", ";;", ",,", "q=1", "q=", "q=x", "bytes=0-", "9999999999", "9" * 30, "9" * 4400,
         "99999999999999", "2147483648", "@5", "@99999999999999", ":YQ==:", ":Y:", '%"x"', '{"a":1}', '{"a":', '"a"', "W/", 'W/"a"', "*/*", "a/b", "text/html", "max-age=5", "max-age", "max-age=99999999999999",
         "charset=utf-8", "charset=idna", "charset=punycode", "charset=base64", "charset=rot13", "charset=utf-16", "charset=\x00", "charset=utf-7", "charset=unicode_escape",
         "Fri, 31 Dec 9999 23:59:59 GMT", "Sat, 01 Jan 0000 00:00:00 GMT", "%s", "%(x)s", "%(field_name)d", "&amp;", "#", "--", "_", "1_0", "chunked", "gzip", "close", "upgrade"]


def value(rng, name):
    r = rng.random()
    vs = VALUES.get(name) or ALL
    if r < .35:
        return pick(rng, vs)
    if r < .45:
        return pick(rng, ALL)
    if r < .75:
        v = pick(rng, vs)
        for _ in range(pick(rng, [1, 1, 2, 4])):
            v = mutate(rng, v)
        return v
    if r < .85:
        return pick(rng, vs) + pick(rng, [", ", ",", ";", "; ", " ", ""]) + pick(rng, vs)
    return pick(rng, ["", ", ", ";", " ", "="]).join(pick(rng, ATOMS) for _ in range(pick(rng, [0, 1, 1, 2, 3, 5])))


def mutate(rng, v):
    i = rng.randrange(len(v) + 1)
    j = min(len(v), i + pick(rng, [0, 0, 1, 1, 2, 8]))
    r = rng.random()
    if r < .3:
        return v[:i] + v[j:]
    if r < .8:
        return v[:i] + pick(rng, ATOMS) + v[j:]
    if r < .9:
        return v[:i] + v[i:j] * 3 + v[j:]
    return v[:i]


def fname(rng):
    r = rng.random()
    if r < .9:
        return casing(rng, pick(rng, FIELDS), .15)
    if r < .95:
        n = pick(rng, FIELDS)
        return pick(rng, [n.replace("-", "_"), n + " ", " " + n, n + "\x00", n + "\xe9", n[:-1], n + "-", "x" + n])
    return pick(rng, ["", " ", "_", "__init__", "__class__", "a b", "\xff", "x" * 300, "field", "tests", ".", "..", "%s", "<b>", "access-control", "from", "field.tpl", "\x00", "\u00e9"])


def headers(rng, focus=None, n=None):
    n = pick(rng, [0, 1, 2, 3, 5, 9]) if n is None else n
    hs = []
    for _ in range(n):
        nm = casing(rng, pick(rng, focus), .1) if focus and rng.random() < .7 else fname(rng)
        key = next((f for f in FIELDS if f.lower() == nm.strip().lower()), nm)
        hs.append([nm, value(rng, key)])
        if rng.random() < .12:
            hs.append([nm, value(rng, key)])
    return hs


def hexs(b):
    return {"hex": b.hex()}


def content(rng):
    import gzip
    import zlib
    r = rng.random()
    if r < .5:
        return []
    body = pick(rng, [b"", b"x", b"<html><head><meta charset=iso-8859-1>", b"\xff\xfe\x00", b"\xef\xbb\xbf{}", "h\xe9llo".encode("utf-8") * 50, b"\x89PNG\r\n\x1a\n", b"{\"a\": 1}",
                      bytes(range(256)), b"%PDF-1.4", b"PK\x03\x04", b"a" * 9000, ("\u20ac" * 3000).encode()])
    if r < .65:
        body = gzip.compress(body) if rng.random() < .6 else zlib.compress(body)
    elif r < .75:
        g = bytearray(gzip.compress(body))
        g[rng.randrange(len(g))] ^= 1 << rng.randrange(8)
        body = bytes(g)[:pick(rng, [len(g), len(g) // 2, 3])]
    out = []
    while body:
        k = pick(rng, [1, 2, 10, 5000, 100000])
        out.append(hexs(body[:k]))
        body = body[k:]
        if len(out) > 30:
            out.append(hexs(body))
            break
    if rng.random() < .1:
        out.insert(0, "")
    return out


URIS = ["http://example.com/", "https://example.com/a?b#c", "/", "*", "example.com:443", "", "http://[", "http://[::1]/", "http://a:b/", "http://\xe9.com/", "//x", "http://e.com/\xc3\xa9",
        "http://" + "a" * 70 + ".com/", "http://a..b/", "a b", "http://e.com/" + "a" * 9000, "\x00", "http://u:p@e.com/", "http://.", "http://e.com:99999999/", "urn:x", "http://\xe2\x84\xaa.com/"]


def message(rng, kind=None, related=True, focus=None):
    kind = kind or pick(rng, ["request", "response", "response"])
    if kind == "request":
        sc = {"kind": kind, "top": [pick(rng, ["GET", "POST", "HEAD", "OPTIONS", "PUT", "DELETE", "", "\xff", "get", "CONNECT"]), pick(rng, URIS), pick(rng, ["HTTP/1.1", "HTTP/1.0", "HTTP/2", "", "\xff"])]}
    else:
        sc = {"kind": kind, "top": [pick(rng, ["HTTP/1.1", "HTTP/1.0", "HTTP/2", "", "\xff"]),
                                    pick(rng, ["200", "200", "304", "206", "416", "101", "100", "301", "401", "405", "999", "", "x", "-1", "\xff", "2_00", " 200 ", "9" * 30, "9" * 4400, "0"]),
                                    pick(rng, ["OK", "", "\xff", "<b>"])][:pick(rng, [2, 3, 3])]}
        if rng.random() < .1:
            sc["head"] = True
    if rng.random() < .03:
        del sc["top"]
    sc["headers"] = headers(rng, focus)
    if rng.random() < .02:
        del sc["headers"]
    cs = content(rng)
    if cs:
        sc["chunks"] = cs
    if rng.random() < .25:
        sc["trailers"] = headers(rng, focus, pick(rng, [0, 1, 2]))
    if rng.random() < .2:
        sc["complete"] = False
    if rng.random() < .6:
        sc["start"] = pick(rng, [NOW, NOW, 0, 1, NOW + 10, -5])
    if rng.random() < .08:
        sc["no_content"] = True
    if rng.random() < .4:
        sc["base_uri"] = pick(rng, URIS)
    if related and rng.random() < .6:
        sc["related"] = message(rng, "request" if kind == "response" else "response", False, focus)
    return sc


def place(name):
    """(in requests, in responses): where a field belongs"""
    global _TABLE
    if _TABLE is None:
        import json
        import os
        with open(os.path.join(os.path.dirname(__file__), "..", "tla", "fields.json")) as f:
            _TABLE = json.load(f)
    e = _TABLE.get(name.lower())
    return (True, True) if e is None else (e["req"], e["resp"])


_TABLE = None
