"""C16: message data never becomes markup; summaries hold it as it is."""
import copy
import re
import threading

from harness import core, drive, gen
from harness.gen import *
from harness.props import anylib

WANT = []
LOCALES = ["es", "fr", "ja", "zh"]
KEPT = {"ref_uri", "deprecation_ref"}      # links to documentation
ALNUM = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
WSPACE = set(map(chr, list(range(9, 14)) + list(range(28, 33)) + [133, 160]))
LOST = set("`;\x02\x03")


def benign(s):
    """Html!Benign; characters beyond ISO-8859-1 are other characters"""
    return "".join(c if c in ALNUM else " " if c in WSPACE else "" if c in LOST else "x" for c in s)


def is_safe(v):
    return isinstance(v, str) and type(v) is not str


def benign_value(v):
    if v is None or isinstance(v, (bool, int, float)) or hasattr(v, "utime"):
        return v
    if not is_safe(v):
        return benign(str(v))
    if v.startswith("\n\n    "):
        lines = v.split("\n")
        return type(v)("\n".join(l if k < 2 else "    " + benign(l[4:]) for k, l in enumerate(lines)))
    parts = str(v).split("`")
    return type(v)("`".join(p if k % 2 == 0 or k == len(parts) - 1 else benign(p) for k, p in enumerate(parts)))


def used(template):
    return set(re.findall(r"%\((\w+)\)", template))


def flat(notes):
    out = []
    for n in notes:
        out += [n] + flat(n.subnotes)
    return out


def render(notes, loc, back=False):
    """summaries and details of all the notes, in one locale"""
    from httplint.i18n import set_locale
    with set_locale(loc):
        r = [(str(n.summary), str(n.detail)) for n in (reversed(notes) if back else notes)]
    return r[::-1] if back else r


def show(n, loc, got, tpl_s, tpl_t, again):
    """one note's record, or None if there is nothing to judge"""
    from httplint.i18n import set_locale
    with set_locale(loc):
        m = copy.copy(n)
        m.vars = {k: v if k in KEPT else benign_value(v) for k, v in n.vars.items()}
        m.subnotes = []
        ben = str(m.detail)
        sv = [[k, str(n.vars[k])] for k in sorted(used(tpl_s)) if k in n.vars]
        vals = {k: str(n.vars[k]) for k in used(tpl_t) if k in n.vars}
    su, dt = got
    ps, bs = dt.split("<"), ben.split("<")
    segs = [[k + 1, p, q] for k, (p, q) in enumerate(zip(ps, bs)) if p != q] if len(ps) == len(bs) else []
    size = sum(len(g[1]) for g in segs) + len(su) + sum(map(len, vals.values()))
    if size > 4000:
        return None
    plain = [v for k, v in sorted(vals.items()) if k not in KEPT and n.vars[k] is not None and not isinstance(n.vars[k], (int, float)) and not is_safe(n.vars[k]) and not hasattr(n.vars[k], "utime") and benign(v) != v]
    safe = [v for k, v in sorted(vals.items()) if is_safe(n.vars[k])]
    return {"n": type(n).__name__, "loc": loc, "count": [len(ps), len(bs)], "segs": segs, "plain": plain, "safe": safe, "st": tpl_s, "sv": sv, "su": su, "again": again}


def observe(args):
    sc, _ = args
    m = drive.lib()
    rng = __import__("random").Random(str(sc)[:5000])
    out = {"shown": [], "notes": [], "classes": []}
    try:
        ln = build_all(m, sc)
        lns = [ln] + ([getattr(ln, "request", None) or getattr(ln, "response", None)] if sc.get("related") else [])
        notes = [n for x in lns if x is not None for n in flat(x.notes)]
        rendered = {}
        locs = ["en", pick(rng, LOCALES)]
        for loc in locs:
            rendered[loc] = render(notes, loc)
        again = {}
        if rng.random() < .3:      # in another thread
            def work():
                for loc in reversed(locs):
                    again[loc] = render(notes, loc, True)
            t = threading.Thread(target=work)
            t.start()
            t.join()
        else:
            for loc in reversed(locs):
                again[loc] = render(notes, loc, True)
        from httplint.i18n import set_locale, translate
        for loc in locs:
            for k, n in enumerate(notes):
                with set_locale(loc):
                    ts, tt = translate(type(n)._summary), translate(type(n)._text)
                same = again[loc][k] == rendered[loc][k]
                if used(ts) or used(tt) or not same:
                    r = show(n, loc, rendered[loc][k], ts, tt, same)
                    if r:
                        out["shown"].append(r)
        out["notes"] = [{"n": type(n).__name__} for n in notes]
        out["raised"] = ""
    except Exception as e:
        out["raised"] = f"{type(e).__name__}: {str(e)[:200]}"
    return out


def build_all(m, sc):
    req = None
    if sc.get("related"):
        req = drive.build(m, sc["related"])
        drive.feed(m, sc["related"], req)
    ln = drive.build(m, sc)
    if req is not None:
        if sc["kind"] == "response":
            ln.request = req
        else:
            ln.response = req
    drive.feed(m, sc, ln)
    return ln


def classes():
    """every kind of note there is, with the variables its texts use"""
    import importlib
    import pkgutil
    import httplint
    from httplint.note import Note
    for m in pkgutil.walk_packages(httplint.__path__, "httplint."):
        if ".cli" not in m.name:
            importlib.import_module(m.name)
    seen, todo = {}, [Note]
    while todo:
        k = todo.pop()
        todo += k.__subclasses__()
        if k is not Note and k.__module__.startswith("httplint") and getattr(k, "level", None):
            seen[k.__module__ + "." + k.__name__] = (k, sorted(used(k._summary) | used(k._text)))
    return seen


_ALL = {}


def direct(args):
    """a note of some kind, made of hostile text alone"""
    sc, _ = args
    from httplint.i18n import set_locale, translate
    drive.lib()
    if not _ALL:
        _ALL.update(classes())
    out = {"shown": [], "notes": []}
    try:
        k = _ALL[sc["note"]][0]
        n = k("subject", **{v: x for v, x in sc["vars"]})
        for loc in sc["locales"]:
            with set_locale(loc):
                ts, tt = translate(k._summary), translate(k._text)
            r = show(n, loc, render([n], loc)[0], ts, tt, True)
            if r:
                out["shown"].append(r)
        out["raised"] = ""
    except Exception as e:
        out["raised"] = f"{type(e).__name__}: {str(e)[:200]}"
    return out


# what gets out of a code span, and what needs no getting out
SHARP = ["x`<b>`x", "`<b>`", "x`<b>", "<b>", "a` *b* `c", "x`[a](b)`x", "x`\n\n<p>`x", "\"><b>", "'><b>", "x`&lt;`x", "`` <b> ``", "x`_a_`x", "%(x)s<b>", "&#60;b>"]


def check(c):
    rng, th = c.rng, core.THOROUGH
    ps = [k["p"] for k in c.model("MC_Html", sub={"Pieces": "<- PiecesLong", "MaxPieces": 3} if th else None)]
    pieces = [p for p in ps if 0 < len(p) <= 24]
    n = 60000 if th else 6000

    def payload():
        r = rng.random()
        if r < .4:
            return pick(rng, SHARP)
        if r < .6:
            return pick(rng, pieces)
        if r < .75:
            return "zq" + pick(rng, pieces) + "zq"
        return pick(rng, ["", "`", " "]) + pick(rng, ps) + pick(rng, ps) + "zq"
    drive.lib()
    kinds = {k: v for k, (_, v) in sorted(classes().items())}
    once = [{"note": k, "vars": [[x, payload()] for x in vs if x not in KEPT] + [[x, "http://e.com/"] for x in vs if x in KEPT], "locales": ["en"] + (LOCALES if th else [pick(rng, LOCALES)])} for k, vs in kinds.items() for _ in range(40 if th else 3)]
    c.run(once, WANT, "Tr_Html", "JudgeC16", "every class", fn=direct)
    c.cov["note_classes"] = len(kinds)
    todo = [anylib.inject(rng, anylib.anything(rng, .3), payload) for _ in range(n)]
    outs = core.execute(todo, WANT, observe)
    c.lap(f"execute {n}")
    judged = {r["n"] for o in outs for r in o["shown"]}
    c.cov["note_classes_judged"] = c.cov.get("note_classes_judged", 0) + len(judged)
    c.cov["renderings_judged"] = sum(len(o["shown"]) for o in outs)
    c.validate("Tr_Html", todo, outs, "random", "JudgeC16")
