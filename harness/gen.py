"""Scenario generation: concrete messages from model scenarios, and seeded random ones."""
import calendar
import time

NOW = 1700000000
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def imf(t):
    g = time.gmtime(t)
    return f"{DAYS[g.tm_wday]}, {g.tm_mday:02d} {MON[g.tm_mon-1]} {g.tm_year:04d} {g.tm_hour:02d}:{g.tm_min:02d}:{g.tm_sec:02d} GMT"


def rfc850(t):
    g = time.gmtime(t)
    return f"{LDAYS[g.tm_wday]}, {g.tm_mday:02d}-{MON[g.tm_mon-1]}-{g.tm_year%100:02d} {g.tm_hour:02d}:{g.tm_min:02d}:{g.tm_sec:02d} GMT"


def asctime(t):
    g = time.gmtime(t)
    return f"{DAYS[g.tm_wday]} {MON[g.tm_mon-1]} {g.tm_mday:2d} {g.tm_hour:02d}:{g.tm_min:02d}:{g.tm_sec:02d} {g.tm_year:04d}"


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def some(rng, xs, p=0.5):
    return [x for x in xs if rng.random() < p]


def casing(rng, s, p=0.3):
    """random letter case, sometimes"""
    r = rng.random()
    if r > p:
        return s
    if r > p / 2:
        return "".join(c.upper() if c < "\x80" else c for c in s)
    return "".join(c if c >= "\x80" else c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def response(headers, status="200", start=None, related=None, **kw):
    sc = {"kind": "response", "top": ["HTTP/1.1", status, "OK"], "headers": headers}
    if start is not None:
        sc["start"] = start
    if related is not None:
        sc["related"] = related
    sc.update(kw)
    return sc


def request(headers=(), method="GET", uri="http://example.com/", start=None, version="HTTP/1.1", **kw):
    sc = {"kind": "request", "top": [method, uri, version], "headers": [list(h) for h in headers]}
    if start is not None:
        sc["start"] = start
    sc.update(kw)
    return sc


def sample(rng, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return rng.sample(xs, n)


def split_lines(rng, name, members, p=0.5, sep=", "):
    """one list field as one or several lines"""
    out, cur = [], []
    for m in members:
        cur.append(m)
        if rng.random() < p * 0.4:
            out.append([casing(rng, name, 0.2), sep.join(cur)])
            cur = []
    if cur or not out:
        out.append([casing(rng, name, 0.2), sep.join(cur)])
    return out
