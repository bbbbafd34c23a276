"""Messages fed to linters step by step, and everything that can be seen of the linters afterwards."""
import hashlib
import json

from harness import drive


def steps_of(sc):
    """[who, call, argument]: who is 1 for the message, 0 for the one related to it"""
    out = []
    if sc.get("related") is not None:
        out += [[0, c, a] for c, a in calls(sc["related"])] + [[1, "link", None]]
    return out + [[1, c, a] for c, a in calls(sc)]


def calls(sc):
    q = [["base", sc["base_uri"]]] if sc.get("base_uri") else []
    if sc.get("top") is not None:
        q.append(["top", sc["top"]])
    if "headers" in sc:
        q.append(["headers", sc["headers"]])
    q += [["chunk", x] for x in sc.get("chunks", [])]
    if "body" in sc:
        data, cuts, p, k = drive.body(sc), sc.get("cuts") or [1 << 30], 0, 0
        while p < len(data) and k < 40:
            n = cuts[k % len(cuts)] if k < 39 else len(data)
            q.append(["bytes", data[p:p + n]])
            p += n
            k += 1
    return q + [["finish", [sc.get("complete", True), sc.get("trailers")]]]


class Unit:
    def __init__(self, sc):
        self.sc = sc
        m = drive.lib()
        self.ln = [None, None]
        if sc.get("related") is not None:
            self.ln[0] = make(m, sc["related"])
        self.ln[1] = make(m, sc)
        self.steps = steps_of(sc)
        self.at = 0

    def step(self):
        who, call, arg = self.steps[self.at]
        ln, sc = self.ln[who], self.sc if who else self.sc["related"]
        self.at += 1
        if call == "base":
            ln.base_uri = arg
        elif call == "link":
            if sc["kind"] == "response":
                ln.request = self.ln[0]
            else:
                ln.response = self.ln[0]
        elif call == "top" and sc["kind"] == "request":
            pad = drive.b(sc["pad"][0]) * sc["pad"][1] if "pad" in sc else b""
            ln.process_request_topline(drive.b(arg[0]), drive.chunk_bytes(arg[1]) + pad, drive.b(arg[2]))
        elif call == "top":
            ln.process_response_topline(*[drive.b(x) for x in arg])
        elif call == "headers":
            ln.process_headers([(drive.b(n), drive.b(v)) for n, v in arg])
        elif call == "chunk":
            ln.feed_content(drive.chunk_bytes(arg))
        elif call == "bytes":
            ln.feed_content(arg)
        elif arg[1] is None:
            ln.finish_content(arg[0])
        else:
            ln.finish_content(arg[0], [(drive.b(n), drive.b(v)) for n, v in arg[1]])

    def run(self, n=None):
        end = len(self.steps) if n is None else min(len(self.steps), self.at + n)
        while self.at < end:
            self.step()
        return self

    def facts(self):
        out = {}
        for who, pre in ((0, "related "), (1, "")):
            if self.ln[who] is not None:
                for k, v in facts(self.ln[who], self.sc if who else self.sc["related"]).items():
                    out[pre + k] = digest(v)
        return out


def make(m, sc):
    ln = drive.build(m, sc)
    if sc.get("head"):
        ln.is_head_response = True
    return ln


def digest(v):
    return hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]


def note(n):
    return [type(n).__name__, str(n.subject), n.level.name, n.category.name, str(n.summary), str(n.detail), [note(x) for x in n.subnotes]]


def facts(ln, sc):
    o = {"notes": [note(n) for n in ln.notes]}
    for sec in ("headers", "trailers"):
        s = getattr(ln, sec)
        o[sec + " text"] = [list(x) for x in s.text]
        o[sec + " size"] = s.size
        o[sec + " parsed"] = [[k, drive.canon(v)] for k, v in s.parsed.items()]
    for k in ("version", "base_uri", "content_length", "content_hash", "content_sample", "complete", "character_encoding", "start_time", "no_content", "method", "iri", "uri", "status_code", "status_code_str", "status_phrase", "is_head_response"):
        if hasattr(ln, k):
            o[k] = drive.canon(getattr(ln, k))
    o["decoded"] = [ln.decoded.length, drive.canon(ln.decoded.hash)]
    c = getattr(ln, "caching", None)
    if c is not None:
        o["caching"] = [[k, drive.canon(getattr(c, k))] for k in ("age", "store_private", "store_shared", "freshness_lifetime_private", "freshness_lifetime_shared", "is_fresh", "is_shared_fresh") if hasattr(c, k)]
    return o


def alone(sc):
    """the unit by itself; and its related request without it"""
    u = Unit(sc).run()
    out = {"facts": u.facts(), "rel": []}
    if sc.get("related") is not None:
        r = Unit({k: v for k, v in sc["related"].items() if k != "related"}).run()
        out["rel"] = [drive.note_key(n) + "@" + str(n.subject) for n in r.ln[1].notes]
    return out


def serve():
    """each line of standard input is a unit, run in a process that has done nothing else"""
    import os
    import sys
    drive.lib()
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                res = alone(json.loads(line))
            except Exception as e:
                res = {"error": f"{type(e).__name__}: {str(e)[:200]}"}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        print(data or '{"error": "no answer"}', flush=True)


if __name__ == "__main__":
    serve()
