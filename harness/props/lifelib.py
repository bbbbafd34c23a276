"""Scenarios for C02 and C03: message content in every split, coded and broken in known ways."""
import gzip
import hashlib
import struct
import zlib

import brotli

from harness import core, drive
from harness.gen import *

WANT = {"content": 1, "vars": ["content_length"]}
SAMPLE = 8192
MAXD = 100 * 1024 * 1024


def md5(b):
    return hashlib.md5(b).hexdigest()


def chop(rng, data, ways=None):
    """split bytes into chunks: whole, bytewise, random, with empty ones"""
    how = ways or pick(rng, ["whole", "one", "few", "few", "many", "head", "edge"])
    if how == "whole":
        return [data]
    if how == "one" and len(data) <= 400:
        return [data[i:i + 1] for i in range(len(data))]
    if how == "head":
        k = rng.randrange(0, min(len(data), 24) + 1)
        return [data[:k], data[k:]]
    if how == "edge":
        ks = sorted({min(len(data), k + rng.randrange(-1, 2)) for k in (1, 2, 10, 12, SAMPLE, 2 * SAMPLE, 65536)})
        ks = [k for k in ks if k >= 0]
    else:
        ks = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(1, 4 if how == "few" else 30)))
    out, a = [], 0
    for k in ks:
        out.append(data[a:k])
        a = k
    out.append(data[a:])
    if rng.random() < .2:
        out.insert(rng.randrange(len(out) + 1), b"")
    return out


def gzheader(rng, bad=False):
    """a gzip header with random optional parts"""
    f = rng.randrange(32) if rng.random() < .7 else 0
    if rng.random() < .2:
        f |= pick(rng, [32, 64, 128])
    h = b"\x1f\x8b\x08" + bytes([f]) + rng.randbytes(6)
    if bad:
        k = rng.randrange(3)
        h = h[:k] + bytes([h[k] ^ (1 << rng.randrange(8))]) + h[k + 1:]
    if f & 4:
        x = rng.randbytes(pick(rng, [0, 1, 2, 5, 255, 256, 300]))
        h += struct.pack("<H", len(x)) + x
    if f & 8:
        h += bytes(rng.randrange(1, 256) for _ in range(pick(rng, [0, 1, 5, 20]))) + b"\0"
    if f & 16:
        h += bytes(rng.randrange(1, 256) for _ in range(pick(rng, [0, 1, 5]))) + b"\0"
    if f & 2:
        h += rng.randbytes(2)
    return h


def stored(rng, data, fault=None):
    """deflate made of stored blocks"""
    parts, a = [], 0
    while a < len(data):
        n = rng.randrange(0, min(len(data) - a, 40) + 1)
        parts.append(data[a:a + n])
        a += n
    parts = parts or [b""]
    broke = rng.randrange(len(parts)) if fault else -1
    out = b""
    for i, p in enumerate(parts):
        last = i == len(parts) - 1
        if i == broke:
            if fault == "type":
                out += bytes([6 + last])
                return out + rng.randbytes(10)
            out += bytes([int(last)]) + struct.pack("<HH", len(p), (~len(p) & 0xffff) ^ (1 << rng.randrange(16))) + p
        else:
            out += bytes([int(last)]) + struct.pack("<HH", len(p), ~len(p) & 0xffff) + p
    return out


def gz_stored(rng, data):
    r = rng.random()
    if r < .1:
        return gzheader(rng, bad=True) + stored(rng, data)
    body = stored(rng, data, pick(rng, ["type", "nlen"]) if r < .3 else None)
    body = gzheader(rng) + body + struct.pack("<II", zlib.crc32(data), len(data))
    if .3 < r < .4:
        body = body[:rng.randrange(len(body) + 1)]
    return body


def gz_real(rng, data):
    c = zlib.compressobj(pick(rng, [0, 1, 6, 9]), zlib.DEFLATED, -15)
    return gzheader(rng) + c.compress(data) + c.flush() + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


def text(rng, n):
    r = rng.random()
    if r < .4:
        return bytes(rng.choice(b"abc <>\n") for _ in range(n))
    if r < .7:
        return rng.randbytes(n)
    return (b"0123456789abcdef" * (n // 16 + 1))[:n]


def method_or_status(rng):
    r = rng.random()
    if r < .35:
        return {"kind": "request", "top": [pick(rng, ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "TRACE", "OPTIONS", "PATCH", "get", "Delete", "PROPFIND"]),
                                            "http://example.com/", pick(rng, ["HTTP/1.1", "HTTP/2", "HTTP/1.0"])]}
    return {"kind": "response", "top": [pick(rng, ["HTTP/1.1", "HTTP/2"]), pick(rng, ["200", "304", "204", "206", "100", "304 ", "404", "+304", "0304", "205", "x", "500", "301", "-304"]), "OK"]}


def cl_lines(rng, n):
    r = rng.random()
    if r < .25:
        return []
    if r < .55:
        v = str(n)
    elif r < .75:
        v = str(max(0, n + pick(rng, [1, -1, 10, 2, 100, -n, n])))
    elif r < .85:
        v = pick(rng, ["00", "0", " ", ""]) + str(n)
    else:
        v = pick(rng, ["", "x", "-" + str(n), "+" + str(n), str(n) + ".0", str(n) + " " + str(n), str(n) + ", " + str(n), "1_0", "\xb2", "99999999999999999999", str(n) + "\x0b", "0x10", "-0"])
    out = [[casing(rng, "Content-Length", .2), pick(rng, ["", "", " "]) + v]]
    if rng.random() < .15:
        out.append(["content-length", pick(rng, [str(n), str(n + 1), "x"])])
    return out


def finish(rng, sc, chunks, extra=()):
    n = sum(map(len, chunks))
    hs = list(extra)
    more = cl_lines(rng, n) + some(rng, [["Content-Type", "text/plain; charset=utf-8"], ["Content-Type", "text/html; charset=shift_jis"],
                                                     ["User-Agent", "x"], ["Content-Type", "application/json"], ["Content-Type", "image/png"]], .2)
    for h in shuffled(rng, more):
        hs.insert(rng.randrange(len(hs) + 1), h)
    sc["headers"] = hs
    sc["chunks"] = [{"hex": c.hex()} for c in chunks]
    sc["complete"] = rng.random() < .7
    if sc["kind"] == "response" and rng.random() < .15:
        sc["head"] = True
    if rng.random() < .15:
        sc["no_content"] = True
    if rng.random() < .2:
        sc["trailers"] = [["X-T", "1"]] + ([["Content-Length", str(n + 7)], ["Content-Encoding", "gzip"]] if rng.random() < .4 else [])
    raw = b"".join(chunks)
    sc["ref"] = {"md5raw": md5(raw), "md5empty": md5(b""), "rawprefix": raw[:SAMPLE].hex()}
    return sc


def coding_lines(rng, names):
    ms = [casing(rng, n, .2) for n in names]
    return split_lines(rng, "Content-Encoding", ms, sep=pick(rng, [", ", ",", " , ", ",,"])) if ms else []


def small(rng):
    """uncoded, or gzip of stored blocks: the specification decodes it by itself"""
    sc = method_or_status(rng)
    data = text(rng, pick(rng, [0, 1, 3, 10, 40, 100]))
    names, raw = [], data
    for _ in range(pick(rng, [0, 0, 1, 1, 1, 2, 3])):
        n = pick(rng, ["gzip", "gzip", "gzip", "x-gzip", "identity", "foo", "deflate", "zstd"])
        if n in ("gzip", "x-gzip"):
            raw = gz_stored(rng, raw)
        names.append(n)
    if rng.random() < .03:
        names.append("gzip")          # declared but not applied
    sc = finish(rng, sc, chop(rng, raw), coding_lines(rng, names))
    return sc


def real(rng):
    """really compressed, possibly damaged: the reference implementations say what it means"""
    sc = method_or_status(rng)
    data = text(rng, pick(rng, [0, 1, 100, 3000, SAMPLE - 1, SAMPLE, SAMPLE + 1, 20000, 70000]))
    names, raw = [], data
    for _ in range(pick(rng, [1, 1, 1, 2, 2, 3])):
        n = pick(rng, ["gzip", "br", "br", "x-gzip", "identity", "foo"])
        raw = brotli.compress(raw, quality=pick(rng, [0, 1, 5])) if n == "br" else gz_real(rng, raw) if n != "identity" and n != "foo" else raw
        names.append(n)
    known = [n for n in names if n in ("gzip", "x-gzip", "br")]
    fault, safe = "", 0
    hurt = len(known) == 1 and rng.random() < .4
    if hurt:
        i = rng.randrange(len(raw)) if raw else 0
        raw = raw[:i] + bytes([raw[i] ^ (1 << rng.randrange(8))]) + raw[i + 1:] if rng.random() < .7 else raw[:i]
    chunks = chop(rng, raw)
    if hurt:
        data, fault, safe = oneshot(known[0], raw, chunks)
    sc = finish(rng, sc, chunks, coding_lines(rng, names))
    sc["ref"].update(len=len(data), md5=md5(data), prefix=data[:SAMPLE].hex(), fault=fault, atleast=safe)
    return sc


def oneshot(coding, raw, chunks):
    """reference result of the whole input: (plain text or all of it before the fault, fault, least deliverable)"""
    if coding == "br":
        def upto(b):
            d, out = brotli.Decompressor(), b""
            for k in range(len(b)):
                out += d.process(b[k:k + 1])
            upto.over = d.is_finished()
            return out
        err, name, off = brotli.error, "BAD_BROTLI", 0
    else:
        off = header_length(raw)
        if off < 0:
            return b"", {-1: "open", -2: "BAD_GZIP"}[off], 0

        def upto(b):
            d, out = zlib.decompressobj(-15), b""
            for k in range(len(b)):
                out += d.decompress(b[k:k + 1])
            upto.over = d.eof
            return out
        err, name = zlib.error, "BAD_ZLIB"
    body = raw[off:]
    lo, hi = 0, len(body)
    try:
        plain = upto(body)
        return plain, "" if upto.over else "open", 0     # unfinished: when output is released is the decoder's business
    except err:
        pass
    while hi - lo > 1:                      # longest prefix that decodes
        mid = (lo + hi) // 2
        try:
            upto(body[:mid])
            lo = mid
        except err:
            hi = mid
    plain = upto(body[:lo])
    done = 0                                # whole chunks before the fault
    for c in chunks:
        if done + len(c) - off > lo:
            break
        done += len(c)
    return plain, name, len(upto(body[:max(0, done - off)])) if coding != "br" else 0


def header_length(b):
    if len(b) < 10:
        return -1
    if b[:3] != b"\x1f\x8b\x08":
        return -2
    i = 10
    if b[3] & 4:
        if len(b) < 12:
            return -1
        i = 12 + b[10] + 256 * b[11]
    for bit in (8, 16):
        if b[3] & bit:
            i = b.find(b"\0", i) + 1
            if i == 0:
                return -1
    if b[3] & 2:
        i += 2
    return i if i <= len(b) else -1


def huge(coding, total, step):
    """more than the limit, or just the limit"""
    if coding == "br":
        d = brotli.Compressor(quality=1)
        raw = b"".join(d.process(bytes(1 << 20)) for _ in range(total >> 20)) + d.process(bytes(total & 0xfffff)) + d.finish()
    else:
        d = zlib.compressobj(1, zlib.DEFLATED, -15)
        raw = b"\x1f\x8b\x08\0\0\0\0\0\0\0" + b"".join(d.compress(bytes(1 << 20)) for _ in range(total >> 20)) + d.compress(bytes(total & 0xfffff)) + d.flush() + bytes(8)
    chunks = [raw[i:i + step] for i in range(0, len(raw), step)] if step else [raw]
    h = hashlib.md5()
    for _ in range(total >> 20):
        h.update(bytes(1 << 20))
    h.update(bytes(total & 0xfffff))
    # output is dropped a chunk at a time (at most 1 MB of it for gzip): what must be there at least
    least = MAXD - (1 << 20) if coding == "gzip" else 0 if not step else MAXD - 60 * (1 << 20)
    sc = {"kind": "response", "top": ["HTTP/1.1", "200", "OK"], "headers": [["Content-Encoding", coding]], "complete": True,
          "chunks": [{"hex": c.hex()} for c in chunks],
          "ref": {"md5raw": md5(raw), "md5empty": md5(b""), "rawprefix": raw[:SAMPLE].hex(), "len": total, "md5": h.hexdigest(),
                  "prefix": "00" * SAMPLE, "fault": "", "atleast": least}}
    return sc


def from_model(k):
    sc = dict(k["cfg"])
    sc["chunks"] = [{"hex": h} for h in k["chunks"]]
    raw = bytes.fromhex("".join(k["chunks"]))
    sc["complete"] = len(raw) % 2 == 0
    sc["ref"] = {"md5raw": md5(raw), "md5empty": md5(b""), "rawprefix": raw[:SAMPLE].hex()}
    return sc


def slim(sc, out):
    """what the specification gets to see of a scenario"""
    s = {k: v for k, v in sc.items() if k not in ("chunks", "trailers")}
    s.setdefault("complete", True)
    hexes = [c["hex"] for c in sc["chunks"]]
    s["lens"] = [len(h) // 2 for h in hexes]
    if "len" not in sc["ref"]:
        s["hex"] = hexes
    if "content" in out:
        s["ref"] = dict(sc["ref"], md5sample=md5(bytes.fromhex(out["content"]["sample"])))
    return s


def judge(c, judge, scs, label):
    outs = core.execute(scs, WANT)
    c.lap(f"execute {len(scs)}")
    slims = [slim(s, o) for s, o in zip(scs, outs)]
    traces = [{"id": i, "in": s, "out": o} for i, (s, o) in enumerate(zip(slims, outs))]
    return c.validate_traces("Tr_Life", traces, scs, outs, label, judge)
