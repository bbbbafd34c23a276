"""Runs scenarios against the real httplint through its public API and records what it did.

A scenario is JSON: see DESIGN.md ("Scenario format").  Wire text is carried as str whose
characters are the bytes (ISO-8859-1).  Nothing here knows what the right answer is."""
import base64
import gzip
import os
import signal
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def lib():
    import httplint
    from httplint import message
    assert os.path.realpath(httplint.__file__).startswith(os.path.realpath(REPO)), httplint.__file__
    return message


def b(s):
    return s.encode("latin-1") if isinstance(s, str) else bytes(s)


def chunk_bytes(c):
    """a chunk is text, or {"hex": ...} or {"b64": ...}"""
    if isinstance(c, str):
        return c.encode("latin-1")
    if "hex" in c:
        return bytes.fromhex(c["hex"])
    return base64.b64decode(c["b64"])


def text(v):
    s = str(v)
    if all(ord(c) < 256 for c in s):
        return s
    return "\\u" + s.encode("utf-8", "surrogatepass").decode("latin-1")


def body(sc, coded=True):
    """a long content, written short: [unit, repetitions, tail]; gzipped if so said"""
    unit, n, tail = sc["body"]
    data = b(unit) * n + b(tail)
    return gzip.compress(data, mtime=0) if coded and sc.get("gz") else data


def canon(v):
    """parsed values as flat tagged text: comparable in TLA+ without type or size limits"""
    import datetime
    if v is None:
        return "None"
    if v is True:
        return "True"
    if v is False:
        return "False"
    tn = type(v).__name__
    if isinstance(v, int):
        try:
            return "i" + str(v)
        except ValueError:
            return "ibig"
    if isinstance(v, float):
        return "f" + repr(v)
    if tn == "Token":
        return "t" + text(v)
    if tn == "DisplayString":
        return "p" + str(v).encode("utf-8").decode("latin-1")
    if tn == "Decimal":
        return "n" + str(v)
    if isinstance(v, str):
        return "s" + text(v)
    if isinstance(v, bytes):
        return "b" + v.decode("latin-1")
    if isinstance(v, datetime.datetime):
        return "@" + str(int(v.timestamp()))
    if isinstance(v, dict):
        return "{" + ",".join(canon(k) + ":" + canon(x) for k, x in v.items()) + "}"
    if isinstance(v, tuple):
        return "(" + ",".join(canon(x) for x in v) + ")"
    if isinstance(v, (set, frozenset)):
        return "<" + ",".join(sorted(canon(x) for x in v)) + ">"
    if isinstance(v, list):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if hasattr(v, "__dict__"):
        return "O{" + ",".join(k + ":" + canon(x) for k, x in sorted(vars(v).items())) + "}"
    return tn + ":" + text(v)


# what tells two notes of one class apart: shown in the note's key as CLASS(value,...)
KEYVARS = {
    **{n: ["param"] for n in ("PARAM_REPEATS", "PARAM_SINGLE_QUOTED", "PARAM_STAR_BAD", "PARAM_STAR_QUOTED", "PARAM_STAR_ERROR", "PARAM_STAR_NOCHARSET", "PARAM_STAR_CHARSET")},
    "CC_MISCAP": ["directive_lower"],
    "CC_SHOULD_NOT_HAVE_VALUE": ["directive"],
    "CC_BAD_VALUE_TYPE": ["directive"],
    "CC_MAX_AGE_TOO_LARGE": ["directive"],
    "CC_CONFLICTING": ["directive", "conflicts"],
    "CC_WRONG_MESSAGE": ["directive", "other_message"],
    "CC_DUP": ["directive"],
    "BAD_CDN_CC_TYPE": ["bad_directive"],
    "DUPLICATE_KEY": ["context", "key"],
    "BAD_SYNTAX": ["field_name"],
    "BAD_SYNTAX_DETAILED": ["field_name"],
    "STORE_PUBLIC_AUTH": ["directive"],
    "BAD_Q_VALUE": ["media_type", "language"],
    "TRANSFER_CODING_UNWANTED": ["coding"], "ENCODING_UNWANTED": ["coding"], "CONTENT_LANGUAGE_DUP": ["lang"],
    **{n: ["param"] for n in ("CACHE_STATUS_UNKNOWN_PARAM", "CACHE_STATUS_BAD_PARAM_VAL", "PROXY_STATUS_UNKNOWN_PARAM", "PROXY_STATUS_BAD_PARAM_VAL")},
    "USE_AS_DICTIONARY_BAD_TYPE": ["param", "expected", "got"], "DEPRECATION_BAD_TYPE": ["item_type"],
    **{n: ["got"] for n in ("AVAILABLE_DICTIONARY_BAD_TYPE", "CACHE_GROUPS_BAD_TYPE", "CACHE_GROUP_INVALIDATION_BAD_TYPE")},
    **{"PERMISSIONS_POLICY_" + n: ["feature"] for n in ("WILDCARD", "INVALID_VALUE", "INVALID_ITEM_TYPE")},
    "PERMISSIONS_POLICY_UNKNOWN_TOKEN": ["token", "feature"],
    "PERMISSIONS_POLICY_QUOTED_KEYWORD": ["value", "feature"],
    **{"SET_COOKIE_" + n: ["cookie_name"] for n in ("EMPTY_MAX_AGE", "LEADING_ZERO_MAX_AGE", "NON_DIGIT_MAX_AGE", "EMPTY_DOMAIN", "NOT_SECURE", "PRIORITY", "VERSION", "PARTITIONED_NO_SECURE",
                                                    "TOO_LARGE", "PREFIX_SECURE_MISSING", "PREFIX_HOST_BAD_DOMAIN", "PREFIX_HOST_BAD_PATH")},
    "SET_COOKIE_BAD_DATE": ["cookie_name", "why"], "SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE": ["cookie_name", "attribute_name", "attribute_value"],
    "SET_COOKIE_UNKNOWN_ATTRIBUTE": ["cookie_name", "attribute"], "SET_COOKIE_ATTRIBUTE_DUP": ["cookie_name", "attribute"],
    "SET_COOKIE_VALUE_TOO_LARGE": ["cookie_name", "set_cookie_value_length"], "SET_COOKIE_LIFETIME_TOO_LONG": ["cookie_name", "duration"],
    "SET_COOKIE_NAME_DUP": ["cookie_names"], "SET_COOKIE_HARDENED": ["cookie_names"],
    "HSTS_DUPLICATE_DIRECTIVE": ["directive"], "HSTS_BAD_MAX_AGE": ["max_age"], "HSTS_VALUE_NOT_ALLOWED": ["directive"],
    "CONTENT_SECURITY_POLICY": ["report_only"], "CSP_REPORT_TO_MISSING": ["endpoint"],
    **{"CSP_" + n: ["directives_list"] for n in ("DUPLICATE_DIRECTIVE", "WIDE_OPEN", "UNSAFE_INLINE", "UNSAFE_EVAL", "HTTP_URI")},
    **{n: ["report_only"] for n in ("COOP_SAME_ORIGIN", "COOP_SAME_ORIGIN_ALLOW_POPUPS", "COOP_UNSAFE_NONE", "CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE",
                                    "COEP_REQUIRE_CORP", "COEP_CREDENTIALLESS", "COEP_UNSAFE_NONE", "CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE")},
    "COOP_REPORT_TO_MISSING": ["endpoint", "report_only"], "COEP_REPORT_TO_MISSING": ["endpoint", "report_only"],
    "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE": ["value"],
    "REFERRER_POLICY_UNKNOWN": ["policy"], "REFERRER_POLICY_STRICT": ["policy"], "REFERRER_POLICY_MULTIPLE": ["effective"],
    "ENDPOINT_NOT_SECURE": ["name", "url"], "BAD_REPORTING_ENDPOINT_SYNTAX": ["name", "found_type"],
    "REPORT_TO_MISSING_KEY": ["key"], "REPORT_TO_BAD_TYPE": ["key", "expected"],
    "NEL_MISSING_KEY": ["key"], "NEL_BAD_TYPE": ["key", "expected"], "NEL_BAD_VALUE": ["key"], "NEL_CONFIGURED": ["endpoints"], "NEL_REPORT_TO_MISSING": ["key", "value"],
    "SERVER_TIMING_MISSING_DUR": ["metric"], "SERVER_TIMING_MISSING_DESC": ["metric"], "SERVER_TIMING_BAD_PARAM": ["metric", "param", "value"],
    "EXPECT_UNKNOWN": ["expectation"], "CSD_UNKNOWN_VALUE": ["value"], "CSD_UNQUOTED": ["values"], "CSD_PRESENT": ["values"],
    "SPECULATION_RULE_NOT_SECURE": ["url"], "SPECULATION_RULES_BAD_TYPE": ["found_type"],
}


def note_rec(n, want):
    r = {"n": type(n).__name__, "s": " ".join(sorted(set(str(n.subject).split())))}
    r["k"] = note_key(n)
    r["l"] = n.level.name
    r["c"] = n.category.name
    if "sm" in want:
        r["sm"] = str(n.summary)
    if "dt" in want:
        r["dt"] = str(n.detail)
    if "fld" in want:
        r["fld"] = str(n.vars.get("field_name", ""))
    if "vars" in want:
        r["v"] = {k: canon(n.vars[k]) if not hasattr(n.vars[k], "utime") else "rt" + str(int(n.vars[k].utime))
                  for k in want["vars"] if k in n.vars} if isinstance(want, dict) else {}
        r["v"]["_"] = ""
    r["sub"] = [note_key(x) for x in n.subnotes]
    return r


def note_key(n):
    name = type(n).__name__
    kv = KEYVARS.get(name)
    return name + "(" + ",".join(listtext(n.vars.get(v)) if v == "conflicts" else keytext(n.vars.get(v)) for v in kv) + ")" if kv else name


def listtext(v):
    """the members of a list shown as Markdown"""
    return " ".join(x.strip(" -`") for x in str(v).split("\n"))


def keytext(v):
    if v is None:
        return "None"
    if hasattr(v, "utime") and abs(v.utime - v.now) >= 10 ** 9:
        return "far"
    return str(v)


def build(m, sc, related=None):
    kw = {}
    if "start" in sc:
        kw["start_time"] = sc["start"]
    if sc.get("no_content"):
        kw["no_content"] = True
    if sc["kind"] == "request":
        return m.HttpRequestLinter(**kw)
    return m.HttpResponseLinter(**kw)


def feed(m, sc, ln):
    """drive one linter through its lifecycle"""
    if sc.get("base_uri"):
        ln.base_uri = sc["base_uri"]
    if sc.get("head"):
        ln.is_head_response = True
    top = sc.get("top")
    if top is not None:
        if sc["kind"] == "request":
            pad = b(sc["pad"][0]) * sc["pad"][1] if "pad" in sc else b""   # long URIs, written short
            ln.process_request_topline(b(top[0]), chunk_bytes(top[1]) + pad, b(top[2]))
        else:
            args = [b(x) for x in top]
            ln.process_response_topline(*args)
    if "headers" in sc:
        ln.process_headers([(b(n), b(v)) for n, v in sc["headers"]])
    for c in sc.get("chunks", []):
        ln.feed_content(chunk_bytes(c))
    if "body" in sc:
        data, cuts, p, k = body(sc), sc.get("cuts") or [1 << 30], 0, 0
        while p < len(data):
            ln.feed_content(data[p:p + cuts[k % len(cuts)]])
            p += cuts[k % len(cuts)]
            k += 1
    if "trailers" in sc:
        ln.finish_content(sc.get("complete", True), [(b(n), b(v)) for n, v in sc["trailers"]])
    else:
        ln.finish_content(sc.get("complete", True))


def observe(ln, sc, want):
    o = {"notes": [note_rec(n, want) for n in ln.notes]}
    if "fields" in want:
        for sec in ("headers", "trailers"):
            s = getattr(ln, sec)
            o[sec] = {"text": [[n, v] for n, v in s.text], "size": s.size}
    if "parsed" in want:
        for sec in ("headers", "trailers"):
            s = getattr(ln, sec)
            o.setdefault(sec, {})["parsed"] = [[k, canon(v)] for k, v in s.parsed.items()]
    if "content" in want:
        o["content"] = {
            "length": ln.content_length,
            "hash": (ln.content_hash or b"").hex(),
            "complete": bool(ln.complete),
            "dlength": ln.decoded.length,
            "dhash": (ln.decoded.hash or b"").hex(),
            "slen": len(ln.content_sample),
            "sample": ln.content_sample.hex(),
            "enc": canon(ln.character_encoding),
        }
    if "uri" in want and sc["kind"] == "request":
        o["uri"] = canon(ln.uri)
        o["iri"] = canon(ln.iri)
    if "caching" in want and sc["kind"] == "response":
        c = getattr(ln, "caching", None)
        o["caching"] = {}
        if c is not None:
            for k in ("age", "store_private", "store_shared", "freshness_lifetime_private",
                      "freshness_lifetime_shared", "is_fresh", "is_shared_fresh"):
                if hasattr(c, k):
                    o["caching"][k] = canon(getattr(c, k))
    return o


class Timeout(Exception):
    pass


def run(sc, want, limit=60):
    """run a scenario; returns the observation.  Not finishing within the limit counts as raising."""
    def late(*_):
        raise Timeout("did not finish")
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return run1(sc, want)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run1(sc, want):
    m = lib()
    req = None
    out = {}
    step = "related"
    try:
        if sc.get("related"):
            rs = sc["related"]
            req = build(m, rs)
            feed(m, rs, req)
        step = "message"
        ln = build(m, sc)
        if req is not None:
            if sc["kind"] == "response":
                ln.request = req
            else:
                ln.response = req
        feed(m, sc, ln)
        step = "observe"
        out.update(observe(ln, sc, want))
        if req is not None:
            out["rel"] = observe(req, sc["related"], want)
        out["raised"] = ""
    except Exception as e:  # recorded, never swallowed: the specification has no such step
        out["raised"] = f"{step}:{type(e).__name__}: {str(e)[:200]}"
        out.setdefault("notes", [])
    return out
