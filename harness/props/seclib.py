"""Field sections for C04, C05 and C06."""
import json
import os

from harness import core, drive, fuzz
from harness.gen import *

TABLE = json.load(open(os.path.join(core.TLA, "fields.json")))
NAMES = sorted(TABLE)
# a canonical spelling where there is one
SPELL = {n: TABLE[n]["c"] or n for n in NAMES}
for n in NAMES:
    if SPELL[n].lower() != n:
        SPELL[n] = n


def tchar_name(rng):
    return "X-" + "".join(pick(rng, "abcXYZ09!#$%&'*+-.^_`|~") for _ in range(rng.randrange(1, 8)))


def odd_name(rng):
    r = rng.random()
    n = SPELL[pick(rng, NAMES)]
    if r < .25:
        return pick(rng, ["", " ", "a b", "a:b", "(x)", "x,y", 'x"', "x/", "[x]", "x\\", "{x}", "x@", "x?", "x=", "<x>", "x;", "x\x00", "x\x7f", "x\t", "\r", "x\n"])
    if r < .5:
        return pick(rng, [n + " ", " " + n, n + "\t", n + "\x00", n + "\n", n + ":", n.replace("-", " ")])
    if r < .7:
        k = rng.randrange(len(n) + 1)
        return n[:k] + pick(rng, ["\xe9", "\x80", "\xff", "\xe2\x80\x93"]) + n[k:]
    if r < .8:
        n = SPELL[pick(rng, [x for x in NAMES if "-" in x and x.replace("-", "_") not in TABLE and x not in ("x-pad", "xx-pad", "x-pad-for-netscrape-bug", "x-browseralignment")])]
        return n.replace("-", "_", pick(rng, [1, 9]))
    if r < .9:
        m = pick(rng, [n[:-1], "X-" + n, n + "-", n + "2"])
        return m if m.lower() not in TABLE else "X-Nothing"
    return tchar_name(rng)


def name(rng, odd=.12):
    if rng.random() < odd:
        return odd_name(rng)
    return casing(rng, SPELL[pick(rng, NAMES)], .4)


def value(rng, n):
    r = rng.random()
    key = next((f for f in (SPELL.get(n.lower(), n), n) if f in fuzz.VALUES), None)
    if r < .6:
        return fuzz.value(rng, key) if key else pick(rng, ["x", "", "a, b", "1"])
    if r < .8:
        return pick(rng, ["", "x", "a, b", "0", '"a"', "a;b=c", "\xe9", "a\xa0b", "\xff\xfe", "\x80", " x "])
    return fuzz.value(rng, pick(rng, fuzz.FIELDS))


def big(rng, hs):
    """lines and sections around the size limits"""
    out = [list(h) for h in hs]
    for _ in range(pick(rng, [1, 1, 2, 4])):
        n = name(rng, .2)
        size = pick(rng, [8192, 8192, 8193, 8191, 9000]) - len(n)
        out.insert(rng.randrange(len(out) + 1), [n, pick(rng, ["x", "1", "\xe9"]) * size])
    r = rng.random()
    if r < .6:
        tot = sum(len(a) + len(b) for a, b in out)
        want = pick(rng, [32768, 32768, 32769, 32767])
        while tot < want:
            n = "X-F" + str(len(out))
            k = min(want - tot, 8000)
            if k < len(n):
                n = "Z" * k
            out.insert(rng.randrange(len(out) + 1), [n, "y" * (k - len(n))])
            tot += k
    return out


def lines(rng, k=None, odd=.12):
    out = []
    for _ in range(pick(rng, [0, 1, 2, 3, 5, 8]) if k is None else k):
        n = name(rng, odd)
        out.append([n, value(rng, n)])
        while rng.random() < .15:
            out.append([casing(rng, n, .5), value(rng, n)])
    return out


def frame(rng, hs, tr=None, kind=None):
    kind = kind or pick(rng, ["request", "response"])
    sc = {"kind": kind, "headers": hs, "top": ["GET", "http://example.com/", "HTTP/1.1"] if kind == "request" else ["HTTP/1.1", pick(rng, ["200", "200", "404", "206", "301"]), "OK"]}
    if tr is not None:
        sc["trailers"] = tr
    return sc


def message(rng, **kw):
    hs = lines(rng, **kw)
    tr = lines(rng, pick(rng, [0, 1, 2, 3])) if rng.random() < .3 else None
    return frame(rng, hs, tr)


def combine(ls):
    """the lines of list-like fields joined, and only the first of single-valued ones kept (checked by the specification)"""
    out, done = [], set()
    for n, v in ls:
        k = n.lower()
        kind = TABLE.get(k, {}).get("kind", "unknown")
        if kind in ("unknown", "broken"):
            out.append([n, v])
        elif k not in done:
            done.add(k)
            vs = [x for m, x in ls if m.lower() == k]
            out.append([k, ", ".join(vs) if kind != "single" else v])
    return out


def pair(args):
    sc, want = args
    a = drive.run({k: v for k, v in sc.items() if k != "combined"}, want)
    b = drive.run(dict({k: v for k, v in sc.items() if k != "combined"}, **sc["combined"]), want)
    return {"a": a, "b": b, "raised": a["raised"] or b["raised"], "notes": a["notes"]}


def describe(args):
    from httplint.field.description import get_field_description
    sc, want = args
    return {"desc": [[n, get_field_description(n) is not None] for n in sc["names"]], "raised": "", "notes": []}
