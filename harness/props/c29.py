"""Reporting configuration: Reporting-Endpoints, Speculation-Rules, Report-To and NEL."""
from harness import core, sf
from harness.gen import *
from harness.props.pollib import endpoints

WANT = {"parsed": 1, "vars": []}
NUMBERS = ["0", "1", "-1", "-0", "0.5", "1.0", "1.01", "-0.1", "1e0", "1e3", "5e-1", "100e-2", "0.0", "-0.0", "86400", "1E+2", "99999999999999999999", "NaN", "Infinity", "-Infinity", "2592000", "01", "1.", ".5", "+1", "0x1", "1e", "-", "1e-9", "0e9"]
STRINGS = ['"a"', '"b"', '"c-1"', '"*"', '""', '"default"', '"A"', '"\\u0061"', '"\\/"', '"a\\"', "'a'", '"\\x"', '"\\n\\t\\\\\\""', '"\xe9"', '"a\tb"', '"https://e.com/"', '"http://e.com/"', '"\\u00e9"', '"\\u12"', '"missing"']
WORDS = ["true", "false", "null", "True", "nul", "undefined", "{}", "[]"]


def ws(rng):
    return pick(rng, ["", "", "", "", " ", "  ", "\t"])


def value(rng, depth=2):
    r = rng.random()
    if r < .35 or depth == 0 and r < .7:
        return pick(rng, NUMBERS)
    if r < .6 or depth == 0:
        return pick(rng, STRINGS) if r < .9 else pick(rng, WORDS)
    if r < .72:
        return pick(rng, WORDS)
    if r < .86:
        return "[" + ",".join(ws(rng) + value(rng, depth - 1) + ws(rng) for _ in range(pick(rng, [0, 1, 1, 2]))) + pick(rng, [""] * 12 + [","]) + "]"
    return obj(rng, [(pick(rng, ["url", "priority", "x", "weight"]), value(rng, depth - 1)) for _ in range(pick(rng, [0, 1, 1, 2]))])


def obj(rng, members):
    c = lambda: ws(rng) + ":" + ws(rng)
    out = "{" + ws(rng) + ("," + ws(rng)).join('"%s"%s%s%s' % (n if rng.random() < .97 else pick(rng, [n.upper(), n + " ", n.replace("e", "\\u0065", 1), ""]), c(), v, ws(rng)) for n, v in members) + "}"
    if rng.random() < .04:
        k = rng.randrange(len(out) + 1)
        out = out[:k] + pick(rng, ["", ",", '"', "}", "{", " ", "\\", ":", "]", "x", "\x7f"]) + out[k + rng.randint(0, 1):]
    return out


def some_of(rng, kinds):
    """members, mostly as they should be"""
    ms = [(n, pick(rng, good) if rng.random() < .75 else value(rng)) for n, p, good in kinds if rng.random() < p]
    if ms and rng.random() < .08:
        n, _ = pick(rng, ms)
        ms.append((n, value(rng)))
    return shuffled(rng, ms) if rng.random() < .4 else ms


AGE = ["0", "1", "86400", "2592000"]
FRACTION = ["0", "1", "0.5", "1.0", "0.0", "5e-1", "0.01"]


def nel(rng):
    if rng.random() < .1:
        return value(rng) if rng.random() < .8 else ""
    return obj(rng, some_of(rng, [("report_to", .93, ['"a"', '"a"', '"b"', '"c-1"', '"default"']), ("max_age", .93, AGE), ("include_subdomains", .4, ["true", "false"]), ("success_fraction", .35, FRACTION), ("failure_fraction", .35, FRACTION), ("x", .06, ["1"])]))


def group(rng):
    if rng.random() < .06:
        return value(rng) if rng.random() < .8 else ""
    es = "[" + ",".join((obj(rng, some_of(rng, [("url", .9, ['"https://e.com/"', '"http://e.com/"', '"/"']), ("priority", .3, ["1"]), ("weight", .2, ["1"])])) if rng.random() < .93 else value(rng)) for _ in range(pick(rng, [0, 1, 1, 2, 3]))) + "]"
    return obj(rng, some_of(rng, [("group", .6, ['"a"', '"default"']), ("max_age", .93, AGE), ("endpoints", .93, [es]), ("include_subdomains", .2, ["true"])]))


def lines(rng, name, vs):
    """each value a line, or several in one"""
    return split_lines(rng, casing(rng, name, .15), vs, .4, pick(rng, [", ", ",", " , "]))


def rules(rng):
    ms = [pick(rng, ['"/r.json"', '"https://e.com/r"', '"http://e.com/r"', "a", "1", "1.5", ":YQ==:", "?1", "@1", '%"http://e.com"', '("/a")', "()", '"HTTP://e.com"', '""', '"wss:x"', '"javascript:1"', '"//e.com/"', '"mailto:a@e.com"']) + pick(rng, ["", "", "", ";a=1"]) for _ in range(pick(rng, [0, 1, 1, 2, 3]))]
    if rng.random() < .06:
        ms.append(pick(rng, sf.BADBITS))
    return sf.lines(rng, casing(rng, "Speculation-Rules", .1), ms)


def reporting(rng):
    hs = endpoints(rng) if rng.random() < .6 else [["Reporting-Endpoints", pick(rng, ['a="https://e.com/r", b="/b"', 'b="https://e.com/", a="http://e.com/"', 'a="/"'])]]
    if rng.random() < .6:
        hs += lines(rng, "NEL", [nel(rng) for _ in range(pick(rng, [1, 1, 1, 2, 3, 4]))])
    if rng.random() < .4:
        hs += lines(rng, "Report-To", [group(rng) for _ in range(pick(rng, [1, 1, 2, 3]))])
    if rng.random() < .3:
        hs += rules(rng)
    kw = {"base_uri": pick(rng, ["https://e.com/", "http://e.com/", "", "HTTP://e.com/a", "/x", "wss://e.com/"])} if rng.random() < .6 else {}
    return response(shuffled(rng, hs) if rng.random() < .4 else hs, **kw)


def check(c):
    rng, th = c.rng, core.THOROUGH
    for part, n in (("Nel", 2500), ("Group", 1500), ("Json", 2500)):
        c.run(sample(rng, c.model("MC_Reporting", cfg="MC_Reporting%s.cfg" % part), 10 ** 6 if th else n), WANT, "Tr_Reporting", "JudgeC29", part.lower())
    c.run([reporting(rng) for _ in range(100000 if th else 5000)], WANT, "Tr_Reporting", "JudgeC29", "random")
