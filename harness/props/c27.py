"""Request IRIs, and fields that hold URIs."""
from harness import core, fuzz
from harness.gen import *

WANT = {"vars": ["uri_len", "hints", "full_uri"], "uri": 1, "parsed": 1}


def u8(s):
    return s.encode("utf-8").decode("latin-1")


WORDS = ["b\u00fccher", "\u00e9", "\u043f\u0440\u0438\u043c\u0435\u0440", "\u4f8b\u5b50", "fa\u00dfe", "\u00c9t\u00e9", "\u041f\u0440", "a\u00e9b\u00e8c", "\u03b1\u03b2", "x" * 56 + "\u00e9", "x" * 60 + "\u00e9", "\U00020000", "\u00e9-", "\u30c6\u30b9\u30c8", "-\u00fc", "a\u00fca\u00fc", "\u0436" * 20, "xn--\u00e9"]
HOSTS = ["a.com", "A.com", "b.a.com", "a.com.", "127.0.0.1", "256.1.1.1", "[::1]", "[1:2:3:4:5:6:7:8]", "[v1.a]", "[::g]", "x%41", "x%4", "", "a_b", "a,b", "a b", "a..b", "x" * 70, "[::1", "a]"]
PATHS = ["", "/", "/a", "/a/b;c=d", "/a%20b", "/%zz", "/a b", "//", "/./x/../y", "/[a]", "/\"<>\\^`{|}", "/~a-b._", "/!$&'()*+,;=:@", "/\u00e9", "/\u20ac\U0001f600", "/a\u0301", "x", "*", "/%", "/\x7f", "/a:b"]
QUERIES = ["", "", "?", "?a=b", "?a=b&c=/d?e", "?\u00e9", "?[x]", "?a b", "?%zz", "?a|b"]
FRAGS = ["", "", "#", "#a", "#a#b", "#\u00e9", "#?/", "# ", "#%"]


def host(rng):
    r = rng.random()
    if r < .3:
        return pick(rng, HOSTS)
    if r < .5:
        return pick(rng, ["a.com", "b.com", "A.COM"])
    return pick(rng, [".", ".", "\u3002"]).join(pick(rng, WORDS + ["com", "Org", "a"]) for _ in range(rng.randint(1, 3))) + pick(rng, ["", "", "", ".", ".."])


def iri(rng):
    r = rng.random()
    if r < .08:
        return u8(pick(rng, ["", "*", "/", "e.com:443", "mailto:a@b.c", "urn:x:y", "data:,\u00e9", "http:", "http:/", "http:x", "://a", "//", "?", "#", "http", "a:b:c", "1:b", "h\u00e9:x", "http:\\\\x"]))
    if r < .11:
        return pick(rng, ["http://a.com/\xff\xfe", "http://a.com/\xe2\x82", "http://\xff.com/", "http://a.com/?\xc0\x80", "http://a.com/\xed\xa0\x80x"])
    user = pick(rng, ["", "", "", "", "u@", "u:p@", "\u00fc:p@", "u@v@", "@", "u%40@", "u[@", ":@"])
    s = pick(rng, ["http", "https", "HTTP", "ftp", "a+b.c-d", "1http"] if rng.random() < .5 else ["http"]) + "://" + user + host(rng) + pick(rng, ["", "", ":80", ":", ":8080", ":x", ":\u00e9", "::"])
    p = pick(rng, PATHS)
    if p and not p.startswith("/") and rng.random() < .8:
        p = "/" + p
    return u8(s + p + pick(rng, QUERIES) + pick(rng, FRAGS))


def ref(rng):
    r = rng.random()
    if r < .45:
        return pick(rng, ["http", "https", "https", "HTTPS", "wss", "ws", "ftp"]) + "://" + pick(rng, ["", "", "u@", "u:p@"]) + pick(rng, ["a.com", "A.com", "b.com", "[::1]", "a.com."]) + pick(rng, ["", "", ":443", ":80", ":", ":0443", ":8443", ":99999", ":65535", ":x"]) + pick(rng, ["", "/", "/x", "/x?y", "?q", "/#f", "/a b", "/%z"])
    return pick(rng, ["/", "", "/x/../y", "../z", ".", "./a:b", "a:b", "?x=y", "#f", "//b.com/x", "//", "/x#f", "a/b/", "/a b", "\xe9", "/%41", "/%4", "about:blank", "http:x", "https:", "HTTP://a.com", "..", "../../../g", "g?y/../x", "http://", "http:///x", "g;x=1/../y", "/[", "a.com:80", "[::1]:80", "http://a.com:", "1:2", "mailto:x@y"])


def base(rng):
    return pick(rng, ["", "http://a.com/d/e?f", "https://a.com", "http://a.com/b/c/d;p?q", "HTTPS://B.com/x/", "https://a.com/x#frag"])


def param(rng):
    r = rng.random()
    if r < .4:
        v = pick(rng, ["preload", "preconnect", "dns-prefetch", "Preload", "next", "stylesheet preload", "preload preconnect", "preload  preload", "", "preloads", "x\\preload", "pre\\load", "dns-prefetch\tx"])
        n = casing(rng, "rel", .2)
    elif r < .55:
        n, v = casing(rng, "anchor", .2), pick(rng, ["", "#a", "/x", "http://a.com/", "{", "a b", "\xe9", "http://[::1", "//a", "?\\x"])
    elif r < .7:
        n, v = casing(rng, "type", .2), pick(rng, ["", "text/html", "text", "a/b;c=d", "a/b; c", "*/*", "a / b", "a/b/c", "text/html;", "a/b;c=\\\"d\\\""])
    elif r < .8:
        n, v = "rev", pick(rng, ["x", "", "preload"])
    elif r < .93:
        n, v = pick(rng, ["rel*", "rev*", "anchor*", "type*", "media*", "hreflang*", "title*", "Title*", "foo*", "*"]), pick(rng, ["utf-8''x", "UTF-8'en'%e2%82%ac%20rates", "utf-8'en'\xe9", "iso-8859-1'en'%A3", "''x", "x", "utf-8'a'b'c", "utf-8''%", "utf-8''%ff%fe", "utf-8''%C3%A9x%c3", "'x'", "utf-8''%F0%9F%98%80", "utf-8''%ed%a0%80"])
    else:
        n, v = pick(rng, ["title", "media", "as", "hreflang", "crossorigin"]), pick(rng, ["x", "a,b", "a;b", "'x'", "'", "en", "\\\"", "<x>", ">,<", ""])
    q = pick(rng, ["", '"', '"'])
    if v == "" or any(ch in ' ,;"\\<>{}[]()/:@=?\t\xe9' for ch in v) and rng.random() < .9:
        q = '"'
    return n + "=" + q + v + q


def link(rng):
    t = pick(rng, ["</a>", "<a>", "<>", "<http://a.com/x>", "<https://a.com>", "<ftp://x/>", "<mailto:x@y>", "<HTTP:y>", "</a,b>", "</a;b>", "<data:text/css,a;b>", "<//c.com>", "<?q,r;s>", "<http://a.com/;rel=preload>", "</a b>", "<\xe9>", "a", "<a", "a>", "", '"/x"', "<a>b", "</a,<b>", "<{x}>"])
    ps = "".join(pick(rng, [";", "; ", " ;", " ; "]) + param(rng) for _ in range(pick(rng, [0, 1, 1, 2, 3])))
    return t + ps + pick(rng, ["", "", "", "", "", ";", ";crossorigin", "; x y", " "])


def message(rng):
    hs = []
    if rng.random() < .5:
        for n, g in (("Referer", ref), ("Host", lambda r: pick(r, ["a.com", "a.com:80", "a.com:", "", "[::1]", "[::1]:80", "a:b", "a.com:80:80", "u@a.com", "a b", "a.com/", "\xe9.com", "[::g]", "a_b", "x,y", "%41", "1.2.3.4:", ":80", "http://a.com"])), ("Link", link), ("Content-Location", ref)):
            if rng.random() < .4:
                hs.append([casing(rng, n, .2), g(rng)])
                if rng.random() < .1:
                    hs.append([n, g(rng)])
        m = request(hs, method=pick(rng, ["GET", "POST", "OPTIONS", "CONNECT"]), uri=iri(rng) if rng.random() < .6 else pick(rng, ["https://", "http://", "wss://", "HTTPS://"]) + pick(rng, ["a.com", "b.com", "A.com:443", "u@a.com", "a.com:80", "[::1]", "a.com:8443", "a.com:81"]) + "/")
        if rng.random() < .25:   # the same origin, or nearly
            p, q = (pick(rng, ["https", "wss", "HTTPS", "http", "ws"]) for _ in range(2)) if rng.random() < .5 else [pick(rng, ["https", "wss"])] * 2
            m["top"][1] = p + "://" + pick(rng, ["a.com", "A.com"]) + pick(rng, ["", ":443", ":80", ":81", ":0443", ":"]) + "/"
            hs.append(["Referer", q + "://" + pick(rng, ["a.com", "a.com", "A.com", "u@a.com"]) + pick(rng, ["", ":443", ":80", ":81", ":0443", ":"]) + pick(rng, ["", "/x", "?q"])])
        if rng.random() < .12:
            m["top"][1] = pick(rng, ["http://a.com/", "http://a.com/?q=", "http://a.com/#f", "http://\xc3\xa9.com/x"])
            pad = pick(rng, ["a", "b", "\xc3\xa9", "%41", "/"])
            enc = {"\xc3\xa9": 6, "%41": 3}.get(pad, 1)
            blen = {"http://a.com/": 13, "http://a.com/?q=": 16, "http://a.com/#f": 13, "http://\xc3\xa9.com/x": 20}[m["top"][1]]
            m["pad"] = [pad, (8000 - blen) // enc + pick(rng, [-1, 0, 1, 2, 500])]
        return m
    for n, g in (("Location", ref), ("Content-Location", ref), ("Link", link)):
        if rng.random() < .5:
            hs.append([casing(rng, n, .2), g(rng)])
            while n == "Link" and rng.random() < .4:
                if rng.random() < .5:
                    hs[-1][1] += pick(rng, [",", ", ", " ,, "]) + link(rng)
                else:
                    hs.append(["link", link(rng)])
            if rng.random() < .1:
                hs.append([n, g(rng)])
    rng.shuffle(hs)
    m = response(hs, status=pick(rng, ["200", "201", "204", "300", "301", "302", "303", "304", "305", "306", "307", "308", "404", "309", "30", "0302"]))
    b = base(rng)
    if b:
        m["base_uri"] = b
    return m


def check(c):
    rng = c.rng
    scs = c.model("MC_Uri")
    c.run(sample(rng, scs, 10 ** 6 if core.THOROUGH else 2200), WANT, "Tr_Uri", "JudgeC27", "model")
    c.run([message(rng) for _ in range(60000 if core.THOROUGH else 3800)], WANT, "Tr_Uri", "JudgeC27", "random")
