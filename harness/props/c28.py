"""Content types, dispositions, and content that is or isn't what it is declared to be."""
import codecs

from harness import core, drive, fuzz
from harness.gen import *

WANT = {"vars": ["declared_charset", "declared_type", "sniffed_type"], "parsed": 1}
SPECIFIED = {"utf-8", "utf8", "utf_8", "us-ascii", "ascii", "iso-8859-1", "latin1", "iso8859-1", "latin-1", "windows-1252", "cp1252", "koi8-r", "koi8_r",
             "iso-8859-15", "iso-8859-5", "ibm866", "windows-1251", "shift_jis", "euc-jp", "gb18030", "big5", "iso-2022-jp"}


def observe(args):
    """also record what a detector of encodings makes of the examined content: that is an input to the specification"""
    import chardet
    sc, want = args
    out = drive.run(sc, want)
    out["det"] = {"other": False, "same": False, "ok": True}
    if "body" in sc:
        data = drive.body(sc, False)
        sample, more = data[:8192], len(data) > 8192 or not sc.get("complete", True)
        decl = [v for n, v in sc["headers"] if n.lower() == "content-type"]
        name = next((x for x in sorted(SPECIFIED, key=len, reverse=True) if decl and x in decl[0].lower()), None)
        d = chardet.detect(sample)
        try:
            if name:
                dec = codecs.getincrementaldecoder(name)("strict")
                dec.decode(sample, not more)
        except UnicodeError:
            out["det"]["ok"] = False
        try:
            if name and d["encoding"] and d["confidence"] >= .5 and codecs.lookup(d["encoding"]).name != codecs.lookup(name).name:
                dec = [codecs.getincrementaldecoder(x)("ignore").decode(sample, not more) for x in (name, d["encoding"])]
                out["det"].update(other=True, same=dec[0].removeprefix("\ufeff") == dec[1].removeprefix("\ufeff"))
        except (LookupError, UnicodeError):
            pass
    return out


TEXTS = {"utf-8": ["\u00e9t\u00e9 ", "\u20ac", "\U0001f600a", "\u041f\u0440\u0438\u0432\u0435\u0442 ", "\u65e5\u672c\u8a9e", "na\u00efve ", "\ufeff\u00e9", "\ud7ff\ue000", "\u0080", "\u07ff\u0800"],
         "iso-8859-1": ["\u00e9t\u00e9 ", "caf\u00e9 ", "\u00fcber ", "\u00e9"], "windows-1252": ["\u20ac10 ", "\u201cquoted\u201d ", "\u00e9t\u00e9"],
         "koi8-r": ["\u041f\u0440\u0438\u0432\u0435\u0442 ", "\u043c\u0438\u0440 "], "ascii": ["hello ", "a"]}
RU = "\u041f\u0440\u0438\u0432\u0435\u0442, \u043c\u0438\u0440! \u042d\u0442\u043e \u043e\u0431\u044b\u0447\u043d\u044b\u0439 \u0440\u0443\u0441\u0441\u043a\u0438\u0439 \u0442\u0435\u043a\u0441\u0442, \u043a\u043e\u0442\u043e\u0440\u044b\u0439 \u043d\u0430\u043f\u0438\u0441\u0430\u043d \u0434\u043b\u044f \u043f\u0440\u043e\u0432\u0435\u0440\u043a\u0438 \u043a\u043e\u0434\u0438\u0440\u043e\u0432\u043a\u0438. \u041e\u043d \u0434\u043e\u0441\u0442\u0430\u0442\u043e\u0447\u043d\u043e \u0434\u043b\u0438\u043d\u043d\u044b\u0439. "
JA = "\u3053\u308c\u306f\u6587\u5b57\u30b3\u30fc\u30c9\u306e\u5224\u5b9a\u3092\u78ba\u8a8d\u3059\u308b\u305f\u3081\u306e\u666e\u901a\u306e\u6587\u7ae0\u3067\u3059\u3002"
LONG = [(RU, x) for x in ("koi8-r", "windows-1251", "iso-8859-5", "ibm866", "utf-8")] + [(JA, x) for x in ("shift_jis", "euc-jp", "utf-8", "iso-2022-jp")]
BAD = ["\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80", "\xf8\x88\x80\x80\x80", "\x81", "\x9d", "\xe9", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xfe"]
IMAGES = ["GIF89a\x01\x00", "GIF87a", "GIF88a", "\x89PNG\r\n\x1a\n", "\x89PNG\r\n\x1a", "\xff\xd8\xff\xe0", "\xff\xd8", "RIFF\x00\x01\x02\x03WEBPVP8 ", "RIFF0000WAVEfmt ", "\x00\x00\x01\x00", "\x00\x00\x02\x00x", "\x00\x00\x03\x00", "<svg>", "hello", "\x00\x00\x00\x18ftypmp42", "ID3\x03", " GIF89a"]
FEEDS = ["<rss version='2.0'><channel>", "<?xml version='1.0'?>\n<!-- x --><rss>", "<feed xmlns='http://www.w3.org/2005/Atom'>", "\xef\xbb\xbf<?xml version='1.0'?><feed>", " <rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns='http://purl.org/rss/1.0/'>", "<html>", "<!DOCTYPE html>", "%PDF-", "PK\x03\x04", "\x7fELF"]
MEDIA = ["image/gif", "image/png", "image/jpeg", "image/webp", "image/x-icon", "image/avif", "image/svg+xml", "video/mp4", "audio/mpeg", "application/ogg", "Image/GIF", "image/*", "image/gif/x", "image", "image/", "/gif", "text/xml", "application/octet-stream", "image/xml", "font/woff"]


def enc(s, cs):
    return s.encode(cs, "surrogatepass" if cs == "utf-8" else "ignore").decode("latin-1")


def body(rng, cs):
    r = rng.random()
    if r < .05:
        return ["", 0, ""]
    t = TEXTS.get(cs, TEXTS["utf-8"])
    unit = enc(pick(rng, t), cs if cs in TEXTS else "utf-8") if rng.random() < .5 else pick(rng, ["a", "ab", "hello "])
    n = pick(rng, [0, 1, 2, 3, 10, 100])
    if rng.random() < .45:
        n = max(0, 8192 // len(unit) + pick(rng, [-3, -2, -1, -1, 0, 0, 1, 2, 500]))
    tail = "".join(enc(pick(rng, t), cs if cs in TEXTS else "utf-8") for _ in range(pick(rng, [0, 1, 2, 4])))
    if rng.random() < .35:
        k = rng.randrange(len(tail) + 1)
        tail = tail[:k] + pick(rng, BAD) + tail[k:] if rng.random() < .6 else tail[:-1]
    return [unit, n, "a" * pick(rng, [0, 0, 1, 2]) + tail]


def param(rng):
    n = pick(rng, ["charset", "charset", "Charset", "boundary", "q", "filename", "filename*", "FileName", "charset*", "name", "x*"])
    if n.endswith("*"):
        v = pick(rng, ["utf-8''x", "UTF-8'en'%e2%82%ac", "utf-8''a%2fb", "utf-8''a%5Cb", "iso-8859-1''x", "''x", "x", "utf-8'a'b'c", "utf-8''%zz", "utf-8''%", "utf-8''%ff", "utf-8''%E9"])
        q = pick(rng, ["", "", '"'])
    elif n.lower() == "charset":
        v = pick(rng, ["utf-8", "UTF-8", "utf8", "iso-8859-1", "windows-1252", "us-ascii", "foo", "'utf-8'", "", "Latin1", "x-unknown", "KOI8-R"])
        q = pick(rng, ["", "", '"'])
    else:
        v = pick(rng, ["a", "a.txt", "a%20b", "a/b", "a\\\\b", "a\\b", "'a'", "\xe9.txt", "a b", "", "..", "/etc/passwd", "'", "a;b", "a,b", "C:\\\\x", '\\"', "50%"])
        q = pick(rng, ["", '"', '"'])
    if v == "" or any(c in ' ;,/\\"\xe9:' for c in v) and rng.random() < .93:
        q = '"'
    return n + "=" + q + v + q


def params(rng):
    return "".join(pick(rng, [";", "; ", " ;", " ; "]) + param(rng) for _ in range(pick(rng, [0, 1, 1, 2, 3]))) + pick(rng, ["", "", "", "", ";", "; ", ";;", "; x", ";=", " "])


def kind_of_type(rng):
    return pick(rng, ["text/plain", "text/html", "Text/Plain", "application/json", "text/json", "application/ld+json", "application/+json", "application/xml", "text/css", "application/octet-stream", "text/x+json", "json", "+json", "text/", "text", "", "text/pl~in", "~a/b", "a/" + "b" * 127, "a/" + "b" * 128, "x" * 128 + "/" + "~", "*/*", "text/*", "*/x", "a/b/c", ".a/b", "a/.b", "a b/c", "a/b c", "a/(b)", "text /plain", "\xe9/b"])


def message(rng):
    r = rng.random()
    st = pick(rng, ["200", "200", "200", "404", "500", "100", "101", "199", "204", "205", "206", "304", "201", "300"]) if rng.random() < .4 else "200"
    kw = {}
    if rng.random() < .05:
        kw[pick(rng, ["head", "no_content"])] = True
    if rng.random() < .2:
        kw["complete"] = False
    if r < .45:       # declared and actual character encodings
        cs = pick(rng, ["utf-8", "utf-8", "utf-8", "iso-8859-1", "windows-1252", "koi8-r", "ascii"])
        dc = cs if rng.random() < .7 else pick(rng, list(TEXTS))
        t = pick(rng, ["text/plain", "text/html", "Text/CSS", "text/x"])
        ct = t + pick(rng, [";", "; "]) + casing(rng, "charset", .2) + "=" + pick(rng, ["", '"']) + casing(rng, {"ascii": "us-ascii"}.get(dc, dc), .2)
        ct += '"' if '"' in ct else ""
        if rng.random() < .3:
            ct = pick(rng, ["application/json", "text/json", "a/b+json", "application/Problem+JSON", "application/jsonx", "application/x-json"]) + pick(rng, ["", "", ";charset=utf-8", ";charset=iso-8859-1"])
        hs, kw["body"] = [["Content-Type", ct]], body(rng, cs)
        if rng.random() < .3:    # enough text to tell its encoding from
            u, cs = pick(rng, LONG)
            if rng.random() < .6:
                dc = cs if rng.random() < .4 else pick(rng, [x for _, x in LONG] + ["iso-8859-1", "windows-1252", "gb18030", "iso-8859-15", "big5"])
                hs[0][1] = t + ";charset=" + casing(rng, dc, .2)
            kw["body"] = [enc(u, cs), pick(rng, [2, 3, 30, 200]), pick(rng, ["", "x"] + BAD[:4])]
            if cs == "iso-2022-jp":
                kw["body"][1] = 1
    elif r < .6:      # declared and actual media types
        im = pick(rng, IMAGES)
        hs, kw["body"] = [["Content-Type", pick(rng, MEDIA) + pick(rng, ["", "", ";x=y", " ; x"])]], [pick(rng, ["", "x", im]), pick(rng, [0, 1, 9000]), im]
        if rng.random() < .25:
            hs[0][1] = pick(rng, ["text/html", "text/html", "Text/HTML", "text/plain", "text/xml", "application/json", "application/rss+xml", "application/pdf", "application/octet-stream", "image/svg+xml", "image/png"]) + pick(rng, ["", "", ";charset=utf-8"])
            kw["body"] = [pick(rng, FEEDS), 1, pick(rng, ["", "<title>x</title>", "GIF89a"])]
        elif rng.random() < .6:
            kw["body"][1] = 0
        elif rng.random() < .5:
            kw["body"] = [im, 1, "rest"]
    else:
        hs = []
        if rng.random() < .7:
            hs.append([casing(rng, "Content-Type", .2), kind_of_type(rng) + params(rng)])
        if rng.random() < .7:
            hs.append([casing(rng, "Content-Disposition", .2), pick(rng, ["attachment", "inline", "Attachment", "form-data", "", "x", "attach", " inline", "attachment,", "\xe9"]) + params(rng)])
        if hs and rng.random() < .1:
            hs.append([hs[0][0], hs[-1][1]])
        if rng.random() < .3:
            return request(hs, method="POST", uri="http://a.com/", **({"body": body(rng, "utf-8")} if rng.random() < .5 else {}))
        if rng.random() < .5:
            kw["body"] = body(rng, "utf-8")
    if "body" in kw:
        kw["cuts"] = [rng.choice([1, 2, 7, 100, 4095, 4096, 8191, 8192, 8193, 20000]) for _ in range(3)] if len(kw["body"][2]) + len(kw["body"][0]) * kw["body"][1] > 300 else [rng.choice([1, 2, 3, 50])]
        kw["cuts"] = [max(c, 1 if kw["body"][1] < 200 else 50) for c in kw["cuts"]]
        if rng.random() < .15:
            kw["gz"] = True
            hs.append(["Content-Encoding", pick(rng, ["gzip", "GZIP", "x-gzip"])])
    rng.shuffle(hs) if rng.random() < .3 else None
    return response(hs, status=st, **kw)


def check(c):
    rng = c.rng
    scs = c.model("MC_Content", sub={} if core.THOROUGH else {"Statuses": '{"200", "199"}'})
    c.run(sample(rng, scs, 10 ** 6 if core.THOROUGH else 2500), WANT, "Tr_Content", "JudgeC28", "model", fn=observe)
    c.run([message(rng) for _ in range(60000 if core.THOROUGH else 4500)], WANT, "Tr_Content", "JudgeC28", "random", fn=observe)
