"""Messages of every kind the other checks generate, and hostile text put anywhere in them."""
import copy

from harness import fuzz
from harness.gen import *

_GENS = []


def gens():
    if not _GENS:
        from harness.props import c05, c08, c13, c14, c15, c19, c23, c24, c25, c27, c28, c29, cachelib, lifelib, pollib, seclib, sflib
        _GENS.extend([c05.scenario, lambda r: c08.wrap(r, c08.rand_cc(r), pick(r, ["request", "response"])), lambda r: c08.wrap(r, c08.rand_cdn(r), "response"), c13.rand, c14.message, c15.message, c19.message, c19.message, c23.message, c24.message, c25.message, c27.message, c27.message,
                      c28.message, c29.reporting, c29.reporting, cachelib.randexchange, lifelib.small, lifelib.real, pollib.hsts, pollib.csp, pollib.tokens, seclib.message, sflib.message, sflib.message, sflib.dictmessage])
    return _GENS


def anything(rng, wild=.4):
    for _ in range(20):
        sc = fuzz.message(rng) if rng.random() < wild else pick(rng, gens())(rng)
        if isinstance(sc, tuple):
            sc = sc[0]
        if len(str(sc)) < 60000:
            return copy.deepcopy(sc)
    return sc


def escaped(rng, p):
    """the ways a field can carry such text"""
    r = rng.random()
    if r < .6:
        return p
    if r < .7:
        return p.replace("\\", "\\\\").replace('"', '\\"')
    if r < .8:
        return "".join("%%%02x" % b for b in p.encode("utf-8"))
    if r < .9:
        return "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u%04x" % ord(c) for c in p)
    return "".join(c if " " <= c <= "~" and c not in '"%' else "%%%02x" % ord(c) for c in p)


def put(rng, s, p):
    """the text somewhere in a value: most often next to a delimiter"""
    ks = [k for k in range(len(s) + 1) if k in (0, len(s)) or s[k - 1] in '",;=/:( <' or s[k] in '",;=/:) >']
    k = pick(rng, ks) if rng.random() < .7 else rng.randrange(len(s) + 1)
    e = min(len(s), k + pick(rng, [0, 0, 0, 1, 3, 12]))
    return s[:k] + escaped(rng, p) + s[e:]


def inject(rng, sc, payload):
    """payload() gives hostile text; puts it in a few places of a message"""
    spots = []
    for part in [sc] + ([sc["related"]] if sc.get("related") else []):
        for sec in ("headers", "trailers"):
            for line in part.get(sec, []):
                spots += [(line, 1)] * 6 + [(line, 0)]
        if part.get("top"):
            spots += [(part["top"], k) for k in range(len(part["top"])) if isinstance(part["top"][k], str)]
        if part.get("base_uri"):
            spots.append((part, "base_uri"))
        for k, ch in enumerate(part.get("chunks", [])[:3]):
            if isinstance(ch, str):
                spots.append((part["chunks"], k))
    for _ in range(pick(rng, [1, 1, 2, 3, 5])):
        if not spots:
            break
        box, k = pick(rng, spots)
        if isinstance(box[k], str) and len(box[k]) < 6000:
            try:
                v = put(rng, box[k], payload())
                v.encode("latin-1")
            except UnicodeEncodeError:
                continue
            box[k] = v
    return sc
