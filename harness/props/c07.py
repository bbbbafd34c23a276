"""Syntax complaints: values derived from the specification's grammars, damaged ones, and the model's."""
from harness import core, fuzz
from harness.gen import *

WANT = {"vars": ["value", "problem"]}
CHARS = list("a1 ,;=\"/*()<>:\\.-_wWqQ0@[]%?#'!~{}|^&$+xX\t") + ["\x00", "\x7f", "\x80", "\xe9", "\xff", "\xa0", "\x0b", "\x1f", "\x85"]


def derive(rng, g, d=0):
    """a random sentence of a grammar of the specification"""
    t = g["t"]
    if t == "lit":
        return g["v"]
    if t == "cls":
        cs = g["v"]
        if len(cs) > 8 and rng.random() < .8:
            cs = [c for c in cs if c in ("a1q0bcxAZ9-." if rng.random() < .85 else ",\"()\\;=<>")] or cs
        return rng.choice(sorted(cs))
    if t == "seq":
        return "".join(derive(rng, x, d) for x in g["v"])
    if t == "alt":
        return derive(rng, rng.choice(g["v"]), d)
    lo, hi = g["lo"], g["hi"]
    if hi == 0 or (d > 14 and lo == 0):
        return ""
    n = lo if lo == hi else rng.choice([lo, lo, lo + 1, lo + 1, lo + 2, lo + 3] if hi < 0 else [lo, lo + 1, hi, rng.randint(lo, hi)])
    if hi >= 0:
        n = min(n, hi)
    if d > 10:
        n = min(n, max(lo, 1))
    return "".join(derive(rng, g["g"], d + 1) for _ in range(n))


def walk(rng, g):
    """a way down to a node of a grammar"""
    path = []
    while True:
        if g["t"] == "seq" or g["t"] == "alt":
            k = rng.randrange(len(g["v"]))
            path.append(k)
            g = g["v"][k]
        elif g["t"] == "rep" and g["hi"] != 0 and (rng.random() < .6 or (g["lo"], g["hi"]) == (0, -1)):
            path.append(0)
            g = g["g"]
        else:
            return path


def bounds(g, path=()):
    """the ways down to every repetition with a bound of its own"""
    if g["t"] in ("seq", "alt"):
        for k, x in enumerate(g["v"]):
            yield from bounds(x, path + (k,))
    elif g["t"] == "rep" and g["hi"] != 0:
        if g["hi"] > 1 or g["lo"] > 1:
            yield path
        yield from bounds(g["g"], path + (0,))


def near(rng, g, path):
    """a sentence that passes a node of a grammar, and breaks what the node asks for"""
    t = g["t"]
    if not path:
        if t == "lit":
            return damage(rng, g["v"], 1)
        if t == "cls":
            return rng.choice([c for c in CHARS if c not in g["v"]])
        lo, hi = g["lo"], g["hi"]
        n = rng.choice(([lo - 1] if lo > 0 else []) + ([hi + 1] if hi >= 0 else []) or [lo])
        return "".join(derive(rng, g["g"], 8) for _ in range(n))
    if t == "seq":
        return "".join(near(rng, x, path[1:]) if k == path[0] else derive(rng, x, 6) for k, x in enumerate(g["v"]))
    if t == "alt":
        return near(rng, g["v"][path[0]], path[1:])
    n = max(g["lo"], rng.choice([1, 1, 2]) if g["hi"] < 0 else rng.randint(1, g["hi"]))
    k = rng.randrange(n)
    return "".join(near(rng, g["g"], path[1:]) if j == k else derive(rng, g["g"], 8) for j in range(n))


def damage(rng, v, n=0):
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(v) + 1)
        r = rng.random()
        if r < .35:
            v = v[:k] + rng.choice(CHARS) + v[k:]
        elif r < .6:
            v = v[:k] + v[k + 1:]
        elif r < .8:
            v = v[:k] + rng.choice(CHARS) + v[k + 1:]
        elif r < .9:
            v = v[:k]
        else:
            j = rng.randrange(len(v) + 1)
            v = v[:k] + v[min(j, k):max(j, k)] + v[k:]
    return v


def value(rng, gs, name):
    if rng.random() < .06:
        name = pick(rng, list(gs))    # another field's value
    if rng.random() < .5:
        for _ in range(8):
            v = near(rng, gs[name]["g"], walk(rng, gs[name]["g"]))
            if len(v) <= 100:
                break
        return casing(rng, v[:200], .3)
    v = derive(rng, gs[name]["g"])
    for _ in range(8):
        if len(v) <= 120:
            break
        v = derive(rng, gs[name]["g"], 8)
    v = v[:200]
    if rng.random() < .3:
        v = damage(rng, v)
    return casing(rng, v, .3)


def line(rng, gs, name):
    if gs[name]["single"]:
        v = value(rng, gs, name)
    else:
        v = pick(rng, [",", ", ", " ,", "\t, "]).join(value(rng, gs, name) for _ in range(pick(rng, [1, 2, 3, 4])))
        if rng.random() < .1:
            v = pick(rng, [",", ", ,", " "]) + v + pick(rng, [",", " ,,", ""])
    if rng.random() < .15:
        v = pick(rng, [" ", "\t", "  ", "\xa0", "\x85", "\x1c"]) + v + pick(rng, ["", " ", "\t ", "\x0b"])
    return [casing(rng, name, .2), v[:300]]


def message(rng, gs, names):
    side = rng.randrange(2)           # fields of a request or of a response, mostly
    own = [n for n in names if fuzz.place(n)[side]]
    hs = [line(rng, gs, pick(rng, own if rng.random() < .97 else names)) for _ in range(pick(rng, [2, 3, 4, 5]))]
    if rng.random() < .25:
        hs.append(line(rng, gs, hs[0][0].lower()))
    if rng.random() < .3:
        hs = shuffled(rng, hs)
    return response(hs) if side else request(hs)


def place(rng, hs):
    req, resp = fuzz.place(hs[0][0])
    if resp and (not req or rng.random() < .5):
        return response(hs)
    return request(hs)


def check(c):
    rng = c.rng
    th = core.THOROUGH
    scs = c.model("MC_Syntax", sub={} if th else {"Pieces": "<- PiecesQuick"})
    gs = {s["name"]: s for s in scs if "g" in s}
    vals = [s for s in scs if "v" in s]
    names = sorted(gs)
    c.run([place(rng, [[s["name"], s["v"]]]) for s in sample(rng, vals, 60000 if th else 1500)], WANT, "Tr_Syntax", "JudgeC07", "model")
    whole = [s for s in c.model("MC_Syntax", sub={"Pieces": "<- PiecesWhole", "Names": '{"server", "via"}', "MaxPieces": 5 if th else 4}) if "v" in s]
    whole += [s for s in c.model("MC_Syntax", sub={"Pieces": "<- PiecesWhole", "MaxPieces": 3 if th else 1}) if "v" in s]
    c.run([place(rng, [[s["name"], s["v"]]]) for s in sample(rng, whole, 30000 if th else 1000)], WANT, "Tr_Syntax", "JudgeC07", "whole")
    near_misses = [place(rng, [[n, near(rng, gs[n]["g"], path)]]) for n in names for path in bounds(gs[n]["g"]) for _ in range(20 if th else 2)]
    c.run(near_misses, WANT, "Tr_Syntax", "JudgeC07", "bounds")
    c.run([message(rng, gs, names) for _ in range(60000 if th else 4500)], WANT, "Tr_Syntax", "JudgeC07", "derived")
