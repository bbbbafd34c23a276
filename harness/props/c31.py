"""C31: the command reports exactly the notes that the library has on the message it is given."""
import io
import os
import subprocess
import sys

from harness import core, drive, words
from harness.gen import *
from harness.props import anylib

TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOCS = ["en", "es", "fr", "ja", "zh", "fr_CA", "zh_CN", "ja_JP.UTF-8", "xx", ""]
LIMIT = 2500


def joined(m):
    """the message's wire form"""
    def lines(fs):
        return "".join(n + ":" + a + v + z + "\r\n" for n, a, v, z in fs)
    w = "HTTP/1.1 103 Early Hints\r\nLink: </a>; rel=preload\r\n\r\n" if m["interim"] else ""
    w += " ".join(m["top"]) + "\r\n" + lines(m["headers"]) + "\r\n"
    if m["framing"] == "chunked":
        return w + "".join("%x%s\r\n%s\r\n" % (len(d), e, d) for e, d in m["chunks"]) + "0\r\n" + lines(m["trailers"]) + "\r\n"
    return w + "".join(d for _, d in m["chunks"])


def settings(argv):
    """[kind, locale, now]"""
    s, k = ["response", "en", False], 0
    while k < len(argv):
        x, k = argv[k], k + 1
        while x.startswith("-n") and len(x) > 2:
            s[2], x = True, "-" + x[2:]
        if x in ("-n", "--now"):
            s[2] = True
            continue
        if x.startswith("--"):
            o = x[2]
            v = x.split("=", 1)[1] if "=" in x else None
        else:
            o, v = x[1], x[2:] or None
        if v is None:
            v, k = argv[k], k + 1
        s[0 if o == "i" else 1] = v or "en"
    return s


def told(m):
    v = (m["top"][2] if m["kind"] == "request" else m["top"][0]).split("/")[1]
    return {"kind": m["kind"], "top": m["top"][:2] + [v] if m["kind"] == "request" else [v] + m["top"][1:], "headers": [[n, v] for n, _, v, _ in m["headers"]], "trailers": [[n, v] for n, _, v, _ in m["trailers"]],
            "body": "".join(d for _, d in m["chunks"])}


def library(t, s, pieces):
    """the library's notes on the same message"""
    from httplint.i18n import set_locale
    lib = drive.lib()
    with set_locale(s[1]):
        ln = (lib.HttpRequestLinter if t["kind"] == "request" else lib.HttpResponseLinter)(start_time=NOW if s[2] else None)
        top = [drive.b(x) for x in t["top"]]
        (ln.process_request_topline if t["kind"] == "request" else ln.process_response_topline)(*top)
        ln.process_headers([(drive.b(n), drive.b(v)) for n, v in t["headers"]])
        for x in pieces:
            ln.feed_content(drive.b(x))
        ln.finish_content(True, [(drive.b(n), drive.b(v)) for n, v in t["trailers"]])
        cats = {n.category.name: words.templates(n.category.value) for n in ln.notes}
        return [{"c": n.category.name, "l": n.level.name, "s": str(n.summary), "sub": [{"l": x.level.name, "s": str(x.summary)} for x in n.subnotes]} for n in ln.notes], cats


class Clock:
    """the time module, with its time stopped"""

    def __getattr__(self, name):
        import time
        return getattr(time, name)

    @staticmethod
    def time():
        return float(NOW)


def inside(argv, wire):
    """the command, in this process: exit status and what it printed"""
    from httplint import cli
    cli.time = Clock()
    old, data, err = (sys.argv, sys.stdin, sys.stdout), io.BytesIO(), sys.stderr
    status = "0"
    try:
        sys.argv = ["httplint"] + argv
        sys.stdin = io.TextIOWrapper(io.BytesIO(wire))
        sys.stdout = io.TextIOWrapper(data, encoding="utf-8", newline="\n", write_through=True)
        sys.stderr = io.StringIO()
        out = sys.stdout
        cli.main()
    except SystemExit as e:
        status = str(e.code)
    finally:
        sys.argv, sys.stdin, sys.stdout = old
        sys.stderr = err
    return status, data.getvalue()


def outside(argv, wire):
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from httplint.cli import main; main()" % drive.REPO] + argv, input=wire, capture_output=True,
                       env=dict(os.environ, PYTHONIOENCODING="utf-8"), cwd="/", timeout=60)
    return str(p.returncode), p.stdout


def observe(args):
    sc, _ = args
    out = {"raised": "", "notes": []}
    try:
        m = sc["m"]
        s = settings(sc["argv"])
        w = joined(m)
        out["wire"], out["told"] = w, told(m)
        out["settings"] = [s[0], s[1], "TRUE" if s[2] else "FALSE"]
        out["has"], out["cats"] = library(out["told"], s, [d for _, d in m["chunks"]] if m["framing"] == "chunked" else [out["told"]["body"]])
        out["status"], text = (outside if sc.get("outside") else inside)(sc["argv"], w.encode("latin-1"))
        out["lines"] = text.decode("utf-8").split("\n")
    except Exception as e:
        out["raised"] = f"{type(e).__name__}: {str(e)[:200]}"
    return out


# ---- generating -----------------------------------------------------------
def fields(rng, lines, trailer=False):
    out = []
    for n, v in lines or []:
        n = "".join(x for x in n if x in TOKEN)
        v = "".join(x for x in v if x not in "\r\n\0").strip(" \t")
        if n and n.lower() not in ("content-length", "transfer-encoding") and len(v) < 9000:
            out.append([n, pick(rng, [" ", " ", " ", "", "\t", "  "]), v, pick(rng, ["", "", "", " ", "\t "])])
    return out


def convert(rng, sc):
    """a generated message as HTTP/1, with the framing it needs"""
    kind = sc["kind"]
    top = sc.get("top") or []
    if kind == "request":
        meth = "".join(x for x in (top[:1] or [""])[0] if x in TOKEN) or "GET"
        uri = top[1] if len(top) > 1 and isinstance(top[1], str) else "/"
        uri = "".join(x for x in uri if x not in "\r\n\0\t\x0b\x0c\x85\xa0 " and not "\x1c" <= x <= "\x1f") or "/"
        top = [meth, uri, pick(rng, ["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])]
    else:
        code = top[1] if len(top) > 1 and len(top[1]) < 8 else "200"
        code = "".join(x for x in code if x in TOKEN) or "200"
        if code.startswith("1"):
            code = "200"
        phrase = (top[2] if len(top) > 2 else "").replace("\r", "").replace("\n", "").replace("\0", "").strip()
        top = [pick(rng, ["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2"]), code, phrase]
    if "body" in sc:
        data = drive.body(sc)
    else:
        data = b"".join(drive.chunk_bytes(x) for x in sc.get("chunks", []))
    data = data[:LIMIT].decode("latin-1")
    none = kind == "response" and top[1] in ("204", "304")
    framing = "none" if none else pick(rng, ["length", "chunked", "chunked"] + (["close"] if kind == "response" else ["none"]))
    if sc.get("trailers") and not none:
        framing = "chunked"
    if framing == "none":
        data = ""
    chunks = []
    while data:
        n = pick(rng, [1, 7, 16, 100, 1000, LIMIT]) if len(chunks) < 6 else LIMIT
        chunks.append([pick(rng, ["", "", "", ";a", ";a=b", ' ;x="y z"']) if framing == "chunked" else "", data[:n]])
        data = data[n:]
    hs = fields(rng, sc.get("headers"))
    size = sum(len(d) for _, d in chunks)
    own = {"length": ["Content-Length", " ", str(size), ""], "chunked": [pick(rng, ["Transfer-Encoding", "transfer-encoding"]), " ", pick(rng, ["chunked", "chunked", "Chunked", "gzip, chunked"]), ""]}.get(framing)
    if own:
        hs.insert(rng.randrange(len(hs) + 1), own)
    return {"kind": kind, "top": top, "headers": hs, "trailers": fields(rng, sc.get("trailers")) if framing == "chunked" else [], "chunks": chunks, "framing": framing, "interim": kind == "response" and rng.random() < .15}


def arguments(rng, kind):
    out = []
    if kind == "request" or rng.random() < .3:
        out.append(pick(rng, [["-i", kind], ["-i" + kind], ["--input", kind], ["--input=" + kind]]))
    if rng.random() < .7:
        loc = pick(rng, LOCS)
        out.append(pick(rng, [["-l", loc], ["--locale", loc], ["--locale=" + loc]] + ([["-l" + loc]] if loc else [])))
    if rng.random() < .5:
        out.append([pick(rng, ["-n", "--now"])])
    rng.shuffle(out)
    flat = [y for x in out for y in x]
    if "-n" in flat and rng.random() < .3:        # run together
        k = flat.index("-n")
        if k + 1 < len(flat) and flat[k + 1].startswith(("-i", "-l")):
            flat[k:k + 2] = ["-n" + flat[k + 1][1:]]
    return flat


LONG = [4 << 10, 8 << 10, 8 << 10]


def scenario(rng):
    m = convert(rng, anylib.anything(rng, .3))
    if rng.random() < .04:          # sizes that are told: without the whitespace around them
        n = pick(rng, ["X-Long", "Cookie", "Accept"])
        m["headers"].append([n, pick(rng, ["", " ", "  ", "\t \t"]), "a" * (pick(rng, LONG) - len(n) - rng.randrange(-4, 4)), pick(rng, ["", " ", "\t\t"])])
    return {"m": m, "argv": arguments(rng, m["kind"])}


def check(c):
    rng, th = c.rng, core.THOROUGH
    scs = c.model("MC_Cli")
    scs = sample(rng, scs, 6000 if th else 1500)
    scs += [scenario(rng) for _ in range(60000 if th else 4000)]
    scs = [s for s in scs if len(joined(s["m"])) < 12000]
    real = [s for s in scs if not settings(s["argv"])[2]]
    for s in sample(rng, real, 400 if th else 40):
        s["outside"] = True
    outs = core.execute(scs, [], observe)
    c.lap(f"execute {len(scs)}")
    c.validate("Tr_Cli", scs, outs, "reports", "JudgeC31")
