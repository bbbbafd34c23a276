"""All the texts of messages' notes in one locale, by a process that never uses another."""
import gettext
import hashlib
import json
import os
import sys

from harness import drive, units

LANGS = ["en", "es", "fr", "ja", "zh"]
_CAT = {}


def digest(s):
    return hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:14]


def catalogue(lang):
    if lang not in _CAT:
        import httplint
        f = os.path.join(os.path.dirname(httplint.__file__), "translations", lang, "LC_MESSAGES", "messages.mo")
        _CAT[lang] = gettext.GNUTranslations(open(f, "rb")) if lang != "en" else gettext.NullTranslations()
    return _CAT[lang]


def templates(text):
    return {x: catalogue(x).gettext(text) if text else "" for x in LANGS}


def flat(notes):
    out = []
    for n in notes:
        out += [n] + flat(n.subnotes)
    return out


def notes_of(sc):
    u = units.Unit(sc).run()
    return flat(u.ln[1].notes), u


DESCRIBED = ["Allow", "cache-control", "Set-Cookie", "Vary", "Date", "No-Such-Field"]


def plain():
    """texts that don't come from a message"""
    from datetime import timedelta
    from httplint import get_field_description
    from httplint.i18n import format_timedelta, ngettext, translate
    from httplint.util import relative_time
    return ([translate("ahead"), translate("behind"), translate("not in any catalogue"), ngettext("ahead", "behind", 1), format_timedelta(timedelta(hours=5)), str(relative_time(90000, 0, 2)), str(relative_time(0, 400, 1))]
            + [str(get_field_description(x)) for x in DESCRIBED])


def judged(loc):
    """the texts of plain(), and what they should be: by language"""
    from babel.core import Locale
    from babel.dates import format_timedelta
    from datetime import timedelta

    def time(secs, **kw):
        own = {}
        for lang in LANGS:
            try:
                x = Locale.parse(loc) if lang == loc.split("_")[0].split(".")[0].split("@")[0] else Locale(lang)
            except Exception:
                x = Locale("en")
            own[lang] = format_timedelta(timedelta(seconds=secs), locale=x, threshold=kw.get("threshold", .85), add_direction=kw.get("add", False))
        return own
    ahead, behind = templates("ahead"), templates("behind")
    day = time(90000, threshold=1.2)
    from httplint.field.finder import HttpFieldFinder
    desc = []
    for x in DESCRIBED:
        k = HttpFieldFinder.find_handler_class(x)
        desc.append(templates(k.description) if k else {l: "None" for l in LANGS})
    want = [ahead, behind, {l: "not in any catalogue" for l in LANGS}, None, time(18000), {l: day[l] + " " + ahead[l] for l in LANGS}, time(-400, threshold=1.2, add=True)] + desc
    return [{"k": "plain", "tmpl": w, "vars": [], "shown": s} for w, s in zip(want, plain()) if w is not None]


def main(loc):
    from httplint.i18n import set_locale
    drive.lib()
    with set_locale(loc):
        for line in sys.stdin:
            req = json.loads(line)
            if req is None:
                print(json.dumps({"texts": judged(loc), "digests": [digest(x) for x in plain()]}), flush=True)
                continue
            notes, _ = notes_of(req)
            texts = []
            for n in notes:
                sm = templates(type(n)._summary)
                texts.append({"k": type(n).__name__, "tmpl": sm, "vars": [[k, str(v)] for k, v in sorted(n.vars.items()) if "%(" + k + ")" in "".join(sm.values())], "shown": str(n.summary)})
            print(json.dumps({"texts": texts, "digests": [[digest(str(n.summary)), digest(str(n.detail))] for n in notes]}), flush=True)


if __name__ == "__main__":
    main(sys.argv[1])
