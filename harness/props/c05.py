from harness import core
from harness.props.seclib import *

WANT = {"parsed": 1, "vars": []}
LISTS = [n for n in NAMES if TABLE[n]["kind"] in ("list", "sf", "json")]


def some_lines(rng, kind):
    """a few fields, each over several lines, interleaved"""
    ok = [n for n in NAMES if TABLE[n]["req" if kind == "request" else "resp"]]
    out = []
    for _ in range(pick(rng, [1, 1, 2, 3])):
        n = pick(rng, ok if rng.random() < .9 else NAMES)
        if rng.random() < .25:
            n = pick(rng, [x for x in ok if x in ("allow", "connection", "upgrade", "trailer", "content-encoding", "content-language", "accept-ranges", "x-cache",
                                                  "access-control-allow-headers", "access-control-expose-headers", "access-control-allow-methods", "pragma")])
        for _ in range(pick(rng, [1, 2, 2, 3, 4])):
            v = value(rng, SPELL[n])[:300]
            if rng.random() < .3:
                v = pick(rng, [", ", ",", " , ", ",,"]).join([v, value(rng, SPELL[n])[:300], ""][:pick(rng, [2, 3])])
            out.append([casing(rng, SPELL[n], .4), v])
    out += [[tchar_name(rng), "x"] for _ in range(pick(rng, [0, 0, 1, 2]))]
    rng.shuffle(out)
    return out


def scenario(rng, hs=None, kind=None):
    kind = kind or pick(rng, ["request", "response", "response"])
    sc = frame(rng, hs if hs is not None else some_lines(rng, kind), None, kind)
    if hs is None and rng.random() < .25:
        sc["trailers"] = some_lines(rng, kind)
    sc["combined"] = {k: combine(sc[k]) for k in ("headers", "trailers") if k in sc}
    return sc


def check(c):
    rng = c.rng
    ks = c.model("MC_Sections", sub={"MaxLines": 3} if core.THOROUGH else None)
    ks = [k for k in ks if all(ord(ch) < 128 for l in k["ls"] for ch in l[0])]
    c.run([scenario(rng, k["ls"], k["kind"]) for k in ks], WANT, "Tr_Sections", "JudgeC05", "model", fn=pair)
    c.run([scenario(rng) for _ in range(40000 if core.THOROUGH else 2500)], WANT, "Tr_Sections", "JudgeC05", "random", fn=pair)
