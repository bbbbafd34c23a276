"""C01: no call raises, whatever its argument; every note renders in every locale."""
import signal

from harness import core, drive, fuzz
from harness.gen import *
from harness.props import anylib, c16

LOCALES = ["en"] + c16.LOCALES
LIMIT = 60


def life(sc):
    """a message as the calls that feed it"""
    q = [["base", sc["base_uri"]]] if sc.get("base_uri") else []
    if sc.get("top") is not None:
        q.append(["top", sc["top"]])
    if "headers" in sc:
        q.append(["headers", sc["headers"]])
    q += [["chunk", x] for x in sc.get("chunks", [])]
    return q + [["finish", [sc.get("complete", True), sc.get("trailers")]]]


def feed(m, sc, steps):
    """make the calls one by one; what came of each goes to steps"""
    ln = drive.build(m, sc)
    if sc.get("head"):
        ln.is_head_response = True
    if "body" in sc:       # written short elsewhere
        drive.feed(m, sc, ln)
        steps.append(["finish", "ok"])
        return ln
    for name, arg in sc["calls"]:
        if name == "base":
            ln.base_uri = arg
            continue
        steps.append([name, ""])
        if name == "link":
            other = drive.build(m, arg)
            if arg.get("calls") is not None or arg.get("top") is not None:
                arg.setdefault("calls", life(arg))
                sub = []
                other = feed(m, arg, sub)
            if sc["kind"] == "response":
                ln.request = other
            else:
                ln.response = other
        elif name == "top" and sc["kind"] == "request":
            pad = drive.b(sc["pad"][0]) * sc["pad"][1] if "pad" in sc else b""
            ln.process_request_topline(drive.b(arg[0]), drive.chunk_bytes(arg[1]) + pad, drive.b(arg[2]))
        elif name == "top":
            ln.process_response_topline(*[drive.b(x) for x in arg])
        elif name == "headers":
            ln.process_headers([(drive.b(n), drive.b(v)) for n, v in arg])
        elif name == "chunk":
            ln.feed_content(drive.chunk_bytes(arg))
        else:
            done, tr = arg
            if tr is None:
                ln.finish_content(done)
            else:
                ln.finish_content(done, [(drive.b(n), drive.b(v)) for n, v in tr])
        steps[-1][1] = "ok"
    return ln


def observe(args):
    sc, _ = args
    m = drive.lib()
    from httplint.i18n import set_locale

    def late(*_):
        raise drive.Timeout("did not finish")
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    out = {"steps": [], "notes": [], "raised": "", "lines": 0}
    where = "calls"
    try:
        ln = feed(m, sc, out["steps"])
        other = getattr(ln, "request", None) if sc["kind"] == "response" else getattr(ln, "response", None)
        for x in [ln] + ([other] if other is not None else []):
            out["lines"] = max(out["lines"], len(x.headers.text), len(x.trailers.text))
            for n in c16.flat(x.notes):
                r = {"n": type(n).__name__, "l": n.level.name, "c": n.category.name, "s": str(n.subject), "e": [], "d": 0, "of": len(sc.get("locales", LOCALES))}
                for loc in sc.get("locales", LOCALES):
                    where = f"{type(n).__name__} in {loc}"
                    with set_locale(loc):
                        if not str(n.summary).strip():
                            r["e"].append(loc)
                        r["d"] += not str(n.detail).strip()
                out["notes"].append(r)
    except Exception as e:
        if out["steps"] and out["steps"][-1][1] == "":
            out["steps"][-1][1] = f"{type(e).__name__}: {str(e)[:200]}"
            out["steps"] += [] if out["steps"][-1][0] == "finish" else [["finish", "never reached"]]
        else:
            out["raised"] = f"{where}: {type(e).__name__}: {str(e)[:200]}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def fill(rng, k):
    """concrete arguments for a life of the model"""
    def sect(s):
        if s == "empty":
            return []
        if s == "plain":
            return fuzz.headers(rng, n=pick(rng, [1, 2, 4]))[:4]
        return fuzz.headers(rng)
    calls = []
    sc = {"kind": k["kind"], "calls": calls}
    coded = any(c == "chunk" and s == "coded" for c, s in k["calls"])
    for c, s in k["calls"]:
        if c == "link":
            o = "request" if k["kind"] == "response" else "response"
            calls.append([c, {"kind": o} if s == "fresh" else fuzz.message(rng, o, False)])
        elif c == "top":
            odd = fuzz.message(rng, k["kind"], False).get("top") or ["", "", ""]
            calls.append([c, odd if s == "odd" else ["GET", "http://e.com/", "HTTP/1.1"] if k["kind"] == "request" else ["HTTP/1.1", pick(rng, ["200", "404", "304", "206"]), "OK"]])
        elif c == "headers":
            hs = sect(s)
            if coded and hs:
                hs.append(["Content-Encoding", pick(rng, ["gzip", "br", "gzip, br", "x-gzip"])])
            calls.append([c, hs])
        elif c == "chunk":
            bs = fuzz.content(rng) or [""]
            calls.append([c, "" if s == "empty" else "text" if s == "plain" else pick(rng, bs)])
        else:
            calls.append([c, [s != "cut", None if s in ("none", "cut") else sect(s)]])
    return sc


def with_calls(rng, sc):
    if "body" in sc:
        return dict(sc, calls=[])
    rel = sc.pop("related", None)
    sc["calls"] = life(sc)
    if rel is not None:
        at = pick(rng, [0, 0, 0, len(sc["calls"]) - 1, rng.randrange(len(sc["calls"]))])
        sc["calls"].insert(at, ["link", rel])
    for k in ("top", "headers", "chunks", "trailers", "complete", "base_uri"):
        sc.pop(k, None)
    return sc


def check(c):
    rng, th = c.rng, core.THOROUGH
    ks = sample(rng, c.model("MC_Total", sub={"MaxChunks": 3} if th else None), 10 ** 6 if th else 2500)
    c.run([fill(rng, k) for k in ks], [], "Tr_Total", "JudgeC01", "lives", fn=observe)

    def payload():
        return pick(rng, fuzz.ATOMS if rng.random() < .8 else c16.SHARP)
    scs = []
    for k in range(100000 if th else 6000):
        sc = anylib.anything(rng, .55)
        if k % 3 == 0:
            sc = anylib.inject(rng, sc, payload)
        sc = with_calls(rng, sc)
        if k % 4:
            sc["locales"] = ["en", pick(rng, c16.LOCALES)]
        scs.append(sc)
    c.run(scs, [], "Tr_Total", "JudgeC01", "random", fn=observe)
