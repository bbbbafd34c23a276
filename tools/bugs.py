"""Planted bugs: (file, old text, new text) edits with a demonstration.  See plant.py."""
C = "httplint/cache.py"
P = "httplint/field/parsers/"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c09-auth-proxy-revalidate", "C09",
    [(C, 'elif "must-revalidate" in self.cc_dict:\n                self.notes.add(\n                    "field-cache-control",\n                    STORE_PUBLIC_AUTH,',
      'elif {"must-revalidate", "proxy-revalidate"} & set(self.cc_dict):\n                self.notes.add(\n                    "field-cache-control",\n                    STORE_PUBLIC_AUTH,')],
    "a request with Authorization and a response with proxy-revalidate but none of public, must-revalidate, s-maxage",
    "A response to an authenticated request is reported as storable by shared caches on the strength of proxy-revalidate.",
    '''
req = request([(b"Authorization", b"Basic x")])
r = response([(b"Cache-Control", b"max-age=5, proxy-revalidate")], req=req)
assert r.caching.store_shared is False, names(r)
assert "STORE_PRIVATE_AUTH" in names(r)
''')

bug("c09-vary-star-list", "C09",
    [(C, 'if "*" in self.vary_value:', 'if self.vary_value == {"*"}:')],
    "Vary with * among other members",
    "A response whose Vary contains * together with other members is reported as storable.",
    '''
r = response([(b"Cache-Control", b"max-age=5"), (b"Vary", b"Accept"), (b"Vary", b"*")])
assert not r.caching.store_private and not r.caching.store_shared
assert "STORE_STORABLE" not in names(r)
''')

bug("c10-delay-needs-age", "C10",
    [(C, "if self.request_time and self.response_time:", "if self.request_time and self.response_time and self.age_value:")],
    "both start times known and no (or zero) Age in the response",
    "The response delay is left out of the current age when there is no Age.",
    '''
req = request([], start=1700000000)
r = response([(b"Date", b"Tue, 14 Nov 2023 22:13:50 GMT"), (b"Cache-Control", b"max-age=60")], req=req, start=1700000030)
assert r.caching.age == 30, r.caching.age
''')

bug("c10-skew-direction", "C10",
    [(P + "date.py", "elif abs(skew) > MAX_CLOCK_SKEW:", "elif abs(skew) > MAX_CLOCK_SKEW + age_value:")],
    "a skewed clock together with an Age",
    "A wrong server clock is called correct when the response has an Age about as large as the error.",
    '''
r = response([(b"Date", b"Tue, 14 Nov 2023 22:12:20 GMT"), (b"Age", b"33")], start=1700000000)
assert "DATE_INCORRECT" in names(r), names(r)
''')

bug("c11-shared-boundary", "C11",
    [(C, "self.is_shared_fresh = shared_freshness_left > 0", "self.is_shared_fresh = shared_freshness_left >= 0")],
    "a shared lifetime exactly equal to the current age",
    "A response whose age equals its lifetime counts as fresh for shared caches.",
    '''
r = response([(b"Date", b"Tue, 14 Nov 2023 22:13:20 GMT"), (b"Age", b"60"), (b"Cache-Control", b"s-maxage=60, max-age=60")], start=1700000000)
assert "FRESHNESS_STALE_ALREADY" in names(r), names(r)
''')

bug("c11-expires-from-now", "C11",
    [(C, "self.date_value or int(self.response_time)", "max(self.date_value or 0, int(self.response_time))")],
    "Expires without max-age, and a Date earlier than the response's start time",
    "The lifetime of an aged response is measured from its receipt and not from its Date.",
    '''
r = response([(b"Date", b"Tue, 14 Nov 2023 22:11:40 GMT"), (b"Expires", b"Tue, 14 Nov 2023 22:15:00 GMT")], start=1700000000)
assert r.caching.freshness_lifetime_private == 200, r.caching.freshness_lifetime_private
''')

bug("c12-proxy-private-freshness", "C12",
    [(C, '            if self.is_shared_fresh:\n                self.notes.add("field-cache-control", FRESH_PROXY_REVALIDATE)',
      '            if self.is_shared_fresh or self.is_fresh:\n                self.notes.add("field-cache-control", FRESH_PROXY_REVALIDATE)')],
    "s-maxage shorter than max-age with the age between them",
    "The shared-cache revalidation verdict is worded by the private freshness.",
    '''
r = response([(b"Date", b"Tue, 14 Nov 2023 22:13:20 GMT"), (b"Age", b"30"), (b"Cache-Control", b"s-maxage=10, max-age=60")], start=1700000000)
assert "STALE_PROXY_REVALIDATE" in names(r), names(r)
''')

bug("c12-sie-over-must-revalidate", "C12",
    [(C, 'elif "must-revalidate" in self.cc_dict:\n            if self.is_fresh:', 'elif "must-revalidate" in self.cc_dict and "proxy-revalidate" not in self.cc_dict:\n            if self.is_fresh:')],
    "must-revalidate and proxy-revalidate together",
    "must-revalidate no longer takes precedence over proxy-revalidate.",
    '''
r = response([(b"Cache-Control", b"max-age=60, must-revalidate, proxy-revalidate")], start=1700000000)
assert "FRESH_MUST_REVALIDATE" in names(r), names(r)
''')

bug("c08-dup-same-value", "C08",
    [(P + "cache_control.py", "if directive in KNOWN_CC and cc_list.count(directive) > 1:",
      "if directive in KNOWN_CC and len({v for (d, v) in self.value if d == directive}) > 1:")],
    "a directive repeated with the same value",
    "Repeating a Cache-Control directive with an equal value is not reported.",
    '''
r = response([(b"Cache-Control", b"max-age=60"), (b"Cache-Control", b"Max-Age=60")])
assert "CC_DUP" in names(r), names(r)
''')

bug("c08-prepost-order", "C08",
    [(P + "cache_control.py", "if pre_check == 0 and post_check == 0:", "if not (pre_check and post_check):")],
    "post-check=0 with a non-zero pre-check, or the reverse",
    "A pre-check/post-check pair with one zero is reported as both being zero.",
    '''
r = response([(b"Cache-Control", b"post-check=0, pre-check=5")])
assert "CHECK_POST_ZERO" in names(r) and "CHECK_ALL_ZERO" not in names(r), names(r)
''')

bug("c13-lm-equal", "C13",
    [(P + "last_modified.py", "if lm_value > serv_date:", "if lm_value >= serv_date:")],
    "Last-Modified equal to Date",
    "A resource modified at the very time of the response is reported as modified in the future.",
    '''
d = b"Tue, 14 Nov 2023 22:13:20 GMT"
r = response([(b"Date", d), (b"Last-Modified", d)])
assert "LM_FUTURE" not in names(r), names(r)
''')

bug("c13-asctime-local", "C13",
    [("httplint/field/utils.py", "if re.match(rf\"^{rfc9110.obs_date}$\", value, RE_FLAGS):", "if re.match(rf\"^{rfc9110.rfc850_date}$\", value, RE_FLAGS):")],
    "a date in asctime form",
    "asctime dates are no longer reported as being in an obsolete format.",
    '''
r = response([(b"Expires", b"Tue Nov 14 22:13:20 2023")])
assert "DATE_OBSOLETE" in names(r), names(r)
''')

M = "httplint/message.py"
CE = "httplint/content_encoding.py"

bug("c02-sample-overrun", "C02",
    [(M, "self.content_sample += chunk[: self.content_sample_size - len(self.content_sample)]",
      "self.content_sample += chunk[: self.content_sample_size]")],
    "a second chunk that crosses the end of the 8192-byte sample",
    "The content sample holds more than the first 8192 bytes.",
    '''
r = response([], content=[b"a" * 8000, b"b" * 8000])
assert len(r.content_sample) == 8192, len(r.content_sample)
''')

bug("c02-trailers-length", "C02",
    [(M, 'if "content-length" in self.headers.parsed and not self.no_content:',
      'if (\n                "content-length" in self.headers.parsed\n                and not self.no_content\n                and (complete or self.content_length)\n            ):')],
    "an incomplete message that declares a Content-Length and received nothing",
    "A truncated message with no content at all gets no Content-Length verdict.",
    '''
r = response([(b"Content-Length", b"5")], complete=False)
assert "CL_INCORRECT" in names(r), names(r)
''')

bug("c02-undefined-decoded", "C02",
    [(M, "            self.content_length > 0\n            and self.method", "            self.decoded.length > 0\n            and self.method")],
    "a GET whose coded content decodes to nothing",
    "Content in a GET goes unreported when its content coding yields no bytes.",
    '''
import gzip
q = request([(b"Content-Encoding", b"gzip")], content=[gzip.compress(b"")])
assert "REQUEST_CONTENT_NOT_DEFINED" in names(q), names(q)
''')

bug("c03-extra-split", "C03",
    [(CE, 'if len(content) < offset + xlen:', 'if len(content) < xlen:')],
    "a gzip header with an extra field, split inside that field",
    "A chunk boundary inside the gzip extra field corrupts decoding.",
    '''
import gzip, struct
g = gzip.compress(b"hello")
g = g[:3] + b"\\x04" + g[4:10] + struct.pack("<H", 6) + b"abcdef" + g[10:]
for k in range(len(g)):
    r = response([(b"Content-Encoding", b"gzip")], content=[g[:k], g[k:]])
    assert r.content_sample == b"hello", (k, r.content_sample, names(r))
''')

bug("c03-hcrc-before-comment", "C03",
    [(CE, '            if len(content) < offset + 2:\n                raise IndexError("Header not complete yet")\n            offset += 2\n\n        return', '            offset += 2\n\n        return')],
    "a gzip header with a header CRC, split inside the CRC",
    "A chunk boundary inside the gzip header CRC loses track of the header's end.",
    '''
import gzip
g = gzip.compress(b"hello")
g = g[:3] + b"\\x02" + g[4:10] + b"\\x99\\x98" + g[10:]
for k in range(len(g)):
    r = response([(b"Content-Encoding", b"gzip")], content=[g[:k], g[k:]])
    assert r.content_sample == b"hello", (k, r.content_sample, names(r))
''')

bug("c03-layer-order", "C03",
    [(CE, "        for coding in content_codings:", "        for coding in sorted(content_codings, key=lambda c: c not in (\"gzip\", \"x-gzip\")):")],
    "brotli applied first and gzip second",
    "Content coded with br and then gzip is decoded in the wrong order.",
    '''
import gzip, brotli
r = response([(b"Content-Encoding", b"br, gzip")], content=[gzip.compress(brotli.compress(b"hello"))])
assert r.content_sample == b"hello", (r.content_sample, names(r))
''')

S = "httplint/field/section.py"
FI = "httplint/field/finder.py"
HF = "httplint/field/__init__.py"
SF = "httplint/field/structured_field.py"
SI = "httplint/field/singleton_field.py"

bug("c04-utf8-name-size", "C04",
    [(S, "field_size = len(name) + len(value)", 'field_size = len(name.decode("utf-8", "replace")) + len(value)')],
    "a field name with non-ASCII bytes that happen to be valid UTF-8",
    "Section and line sizes count characters instead of bytes in field names.",
    '''
r = response([("X-\\u2013\\u2013".encode(), b"abc")])
assert r.headers.size == 11, r.headers.size
''')

bug("c04-cp1252", "C04",
    [(S, 'value.decode("iso-8859-1", "replace")', 'value.decode("cp1252", "replace")')],
    "a field value with a byte from 0x80 to 0x9f",
    "Those bytes are recorded as other characters than the ones received.",
    '''
r = response([(b"X-A", b"a\\x85b")])
assert r.headers.text == [("X-A", "a\\x85b")], r.headers.text
''')

bug("c04-section-boundary", "C04",
    [(S, "if self.size > self.max_total_size:", "if self.size > self.max_total_size - self.max_field_size * self.is_trailer:")],
    "a trailer section between 24K and 32K",
    "Trailer sections that are within the limit are reported as very large.",
    '''
r = response([], trailers=[(b"X-A" + str(k).encode(), b"x" * 5996) for k in range(5)])
assert "FIELD_SECTION_TOO_LARGE" not in names(r), names(r)
''')

bug("c05-first-nonempty", "C05",
    [(SI, "first_raw = self.raw_values[0]", "first_raw = next((v for v in self.raw_values if v.strip()), self.raw_values[0])")],
    "a singleton field whose first line is empty and whose second is not",
    "A repeated single-valued field takes its value from a later line.",
    '''
r = response([(b"Age", b""), (b"Age", b"5")])
assert r.headers.parsed["age"] is None, r.headers.parsed
''')

bug("c05-sf-skip-empty", "C05",
    [(SF, '        self.value.append(field_value)\n        self._sf_parsed = False', '        if field_value or not self.value:\n            self.value.append(field_value)\n        self._sf_parsed = False')],
    "a structured field over several lines, one of them empty",
    "An empty line of a structured list or dictionary is dropped instead of making the combined value invalid.",
    '''
r = response([(b"Cache-Status", b"a; hit"), (b"Cache-Status", b"")])
q = response([(b"Cache-Status", b"a; hit, ")])
assert (r.headers.parsed["cache-status"] is None) == (q.headers.parsed["cache-status"] is None), r.headers.parsed
''')

bug("c06-unnecessary-case", "C06",
    [(FI, "if field_name.lower() in unnecessary.UNNECESSARY_FIELDS:", "if field_name.casefold() in unnecessary.UNNECESSARY_FIELDS and not field_name.isupper():")],
    "an unnecessary field in upper case",
    "Unnecessary fields are not recognised in every letter case.",
    '''
a, b = response([(b"X-ASPNET-VERSION", b"1")]), response([(b"x-aspnet-version", b"1")])
assert names(a) == names(b), (names(a), names(b))
''')

bug("c06-max-forwards", "C06",
    [(P + "max_forwards.py", "class max_forwards(SingletonField[RequestLinterProtocol]):", "class max_forwards(SingletonField):  # type: ignore")],
    "Max-Forwards in a response",
    "A request-only field in a response is not reported.",
    '''
r = response([(b"Max-Forwards", b"1")])
assert "REQUEST_HDR_IN_RESPONSE" in names(r), names(r)
''')

ST = "httplint/status.py"
bug("c14-416-range-list", "C14",
    [(ST, 'if self.request and not get_header(self.request.headers.text, "range"):\n            self.add_note("", STATUS_416_WITHOUT_RANGE)',
      'if self.request and not any(get_header(self.request.headers.text, "range")):\n            self.add_note("", STATUS_416_WITHOUT_RANGE)')],
    "a 416 to a request whose Range is present but empty",
    "A request with an (empty) Range is reported as having none.",
    """
r = response([], status=b"416", req=request([(b"Range", b"")]))
assert "STATUS_416_WITHOUT_RANGE" not in names(r), names(r)
r = response([], status=b"416", req=request([]))
assert "STATUS_416_WITHOUT_RANGE" in names(r), names(r)
""")

bug("c14-304-date-parsed", "C14",
    [(ST, 'if "date" not in self.response.headers.parsed:', 'if not self.response.headers.parsed.get("date"):')],
    "a 304 with a Date that can't be parsed",
    "A 304 with a malformed Date is said to have no Date.",
    """
r = response([(b"Date", b"yesterday")], status=b"304")
assert "NO_DATE_304" not in names(r), names(r)
r = response([], status=b"304")
assert "NO_DATE_304" in names(r), names(r)
""")

bug("c14-412-if-range", "C14",
    [(ST, '                "if-unmodified-since",\n                "if-range",\n            ]', '                "if-unmodified-since",\n            ]')],
    "a 412 to a request whose only precondition is If-Range",
    "A 412 answering If-Range is called a misuse.",
    """
r = response([], status=b"412", req=request([(b"If-Range", b'"a"'), (b"Range", b"bytes=0-1")]))
assert "STATUS_412_WITHOUT_PRECONDITION" not in names(r), names(r)
""")

CO = "httplint/field/cors.py"
bug("c15-default-port", "C15",
    [(P + "origin.py", 'port = int(port_str) if port_str else None', 'port = int(port_str) if port_str else None\n            if (scheme, port) in [("http", 80), ("https", 443)]:\n                port = None')],
    "an Origin with an explicit default port and an Access-Control-Allow-Origin that repeats it",
    "An explicitly given default port is dropped before comparing, so an allowed origin is called a mismatch.",
    """
req = request([(b"Origin", b"https://a.com:443")], method=b"GET")
r = response([(b"Access-Control-Allow-Origin", b"https://a.com:443")], req=req)
assert "CORS_ORIGIN_MATCH" in names(r), names(r)
""")

bug("c15-preflight-only-any-options", "C15",
    [(CO, '        is_preflight = is_cors_preflight_request(message.request)', '        is_preflight = is_cors_preflight_request(message.request) or (\n            message.request.method == "OPTIONS"\n            and "access-control-request-headers" in message.request.headers.parsed\n        )')],
    "a response to OPTIONS with Access-Control-Request-Headers but without Origin or Access-Control-Request-Method",
    "An incomplete preflight is treated as one when its response is judged.",
    """
req = request([(b"Access-Control-Request-Headers", b"x")], method=b"OPTIONS")
r = response([(b"Access-Control-Max-Age", b"5")], req=req)
assert "CORS_PREFLIGHT_ONLY" in names(r), names(r)
""")

bug("c27-ext-value-quotes", "C27",
    [("httplint/field/utils.py", """enc, lang, esc_v = val.split("'", 3)""", """enc, lang, esc_v = val.split("'", 2)""")],
    "an extended parameter value with more than two single quotes",
    "A malformed extended parameter is accepted.",
    """
r = response([(b"Link", b"</>; rel=x; title*=utf-8'en'a'b")])
assert "PARAM_STAR_ERROR" in names(r), names(r)
assert "title*" not in r.headers.parsed["link"][0][1]
""")

bug("c27-long-uri-fragment", "C27",
    [(M, """        if len(self.uri) > self.max_uri_chars:""", """        if len(self.iri) > self.max_uri_chars:""")],
    "an IRI whose URI form crosses the limit while the IRI doesn't, or the reverse through its fragment",
    "The length limit is applied to the IRI instead of the URI.",
    """
r = request([], uri=b"http://a.com/" + "\u00e9".encode() * 3000)
assert "URI_TOO_LONG" in names(r), names(r)
r = request([], uri=b"http://a.com/#" + b"a" * 9000)
assert "URI_TOO_LONG" not in names(r), names(r)
""")

bug("c27-hint-one-rel", "C27",
    [(P + "link.py", "            for token in rel.lower().split():\n                if token not in hints:\n                    continue\n", "            for token in rel.lower().split():\n                if token not in hints:\n                    break\n")],
    "a rel with several relation types, the hint not being the first",
    "A resource hint after another relation type isn't seen.",
    """
r = response([(b"Link", b'</a.css>; rel="stylesheet preload"')])
assert "LINK_RESOURCE_HINTS" in names(r), names(r)
""")

bug("c27-anchor-absolute", "C27",
    [(P + "location.py", "if not re.match(rf\"^\\s*{rfc3986.URI}\\s*$\", field_value, re.VERBOSE):", "if not re.match(rf\"^\\s*{rfc3986.scheme} :\", field_value, re.VERBOSE):")],
    "a Location that starts like an absolute URI but isn't one",
    "Only the start of a Location is looked at, so a malformed one isn't reported as not absolute.",
    """
r = response([(b"Location", b"http://a.com/a b")], status=b"302")
assert "LOCATION_NOT_ABSOLUTE" in names(r), names(r)
""")

bug("c28-ascii-start", "C28",
    [("httplint/charset.py", "any(b & 0x80 for b in sample)", "any(b & 0x80 for b in sample[:1024])")],
    "content whose first kilobyte is ASCII and whose later bytes don't decode as declared",
    "Content that starts with enough ASCII is never checked against its charset.",
    """
r = response([(b"Content-Type", b"text/plain;charset=utf-8")], content=[b"a" * 2000, b"\\xff\\xfeb"])
assert "CHARSET_UNDECODABLE" in names(r), names(r)
""")

bug("c28-json-anywhere", "C28",
    [("httplint/charset.py", 'subtype.endswith("+json")', 'subtype.endswith("json")')],
    "a media type whose subtype ends in json without the suffix, and content that isn't UTF-8",
    "A type that merely ends in json is taken to require UTF-8.",
    """
r = response([(b"Content-Type", b"application/x-ndjson")], content=[b"caf\\xe9"])
assert "CHARSET_UNDECODABLE" not in names(r), names(r)
r = response([(b"Content-Type", b"application/a+json")], content=[b"caf\\xe9"])
assert "CHARSET_UNDECODABLE" in names(r), names(r)
""")


bug("c07-qvalue-digits", "C07",
    [("httplint/syntax/rfc9110.py", "1 (?: \\. [0]{{,3}} )?", "1 (?: \\. [0]{{,4}} )?")],
    "a quality value of one with more zeros than the grammar allows",
    "A malformed quality value isn't reported.",
    """
for v, bad in ((b"en;q=1.0000", True), (b"en;q=1.000", False)):
    r = request([(b"Accept-Language", v)])
    assert bool([n for n in names(r) if n.startswith("BAD_SYNTAX")]) is bad, (v, names(r))
""")

bug("c07-etag-high", "C07",
    [("httplint/syntax/rfc9110.py", """etagc = rf"(?: ! | [\\x23-\\x7E] | {obs_text} )\"""", """etagc = rf"(?: ! | [\\x23-\\xff] )\"""")],
    "an entity-tag with a DEL character in it",
    "An entity-tag holding a control character is accepted.",
    """
for v, bad in ((b'"a\\x7fb"', True), (b'"a\\xffb"', False)):
    r = response([(b"ETag", v)])
    assert ("BAD_SYNTAX" in names(r)) is bad, (v, names(r))
""")

bug("c07-list-first-bad", "C07",
    [("httplint/syntax/rfc9110.py", "language_range = rf\"(?: (?: {ALPHA}{{1,8}} (?: \\- (?: {ALPHA} | {DIGIT} ){{1,8}} )* ) | \\* )\"", "language_range = rf\"(?: (?: {ALPHA}{{1,8}} (?: \\- (?: {ALPHA} | {DIGIT} | \\* ){{1,8}} )* ) | \\* )\"")],
    "an extended language range such as en-*",
    "A language range with a wildcard subtag, which the grammar doesn't allow, isn't reported.",
    """
for v, bad in ((b"en-*", True), (b"en-a1", False), (b"*", False)):
    r = request([(b"Accept-Language", v)])
    assert bool([n for n in names(r) if n.startswith("BAD_SYNTAX")]) is bad, (v, names(r))
""")

bug("c24-length-limit", "C24",
    [(P + "content_length.py", "if value > 9223372036854775807:", "if value.bit_length() > 64:")],
    "a Content-Length between 2^63 and 2^64 - 1",
    "A length that doesn't fit in 63 bits isn't reported as very large.",
    """
for v, big in ((b"9223372036854775807", False), (b"9223372036854775808", True), (b"18446744073709551616", True)):
    r = response([(b"Content-Length", v)])
    assert ("CL_TOO_LARGE" in names(r)) is big, (v, names(r))
""")

bug("c24-unwanted-first", "C24",
    [(P + "transfer_encoding.py", 'c[0] for c in self.value if c[0] not in ["chunked", "identity"]', 'c[0] for c in self.value if c[0] not in ["chunked", "identity"] and not c[1]')],
    "a transfer-coding with parameters that the request didn't ask for",
    "An unwanted transfer-coding isn't reported when it has parameters.",
    """
req = request([(b"TE", b"deflate")])
r = response([(b"Transfer-Encoding", b"gzip;level=9, deflate;level=1, chunked")], req=req)
assert names(r).count("TRANSFER_CODING_UNWANTED") == 1, names(r)
""")

bug("c25-dup-adjacent", "C25",
    [(P + "content_language.py", "                    seen.add(lang)", "                    seen = {lang}")],
    "a language tag repeated with another one in between",
    "A repeated language tag isn't reported unless its repetition follows directly.",
    """
r = response([(b"Content-Language", b"en, fr, EN")])
assert names(r).count("CONTENT_LANGUAGE_DUP") == 1, names(r)
r = response([(b"Content-Language", b"en, EN, fr")])
assert names(r).count("CONTENT_LANGUAGE_DUP") == 1, names(r)
""")

bug("c25-long-type", "C25",
    [("httplint/field/utils.py", "if any(len(name) > rfc6838.RESTRICTED_NAME_MAX_LEN for name in names):", "if len(names) > 1 and len(names[-1]) > rfc6838.RESTRICTED_NAME_MAX_LEN:")],
    "a media range whose type alone (before a wildcard, or a short subtype) is over 127 characters",
    "An over-long type isn't reported.",
    """
for v in (b"a" * 128 + b"/x", b"x/" + b"a" * 128, b"a" * 128 + b"/*"):
    r = request([(b"Accept", v)])
    assert "MEDIA_TYPE_LONG_NAME" in names(r), (v, names(r))
""")

bug("c26-sf-params-first", "C26",
    [("httplint/field/utils.py", 'if allowed_values and param_value not in allowed_values:', 'if allowed_values and str(param_value).lower() not in allowed_values:')],
    "a Cache-Status fwd reason in upper case",
    "A reason for forwarding that isn't one (tokens are case-sensitive) is accepted.",
    """
for v, bad in ((b"a;fwd=Miss", True), (b"a;fwd=miss", False), (b"a;fwd=MISS", True)):
    r = response([(b"Cache-Status", v)])
    assert ("CACHE_STATUS_BAD_PARAM_VAL" in names(r)) is bad, (v, names(r))
""")

bug("c26-deprecation-zone", "C26",
    [(P + "deprecation.py", "dep_time = item.timestamp()", "dep_time = item.timestamp() // 86400 * 86400")],
    "a deprecation later on the same day (UTC) as the message",
    "A deprecation still to come today is reported as past.",
    """
for d, want in ((b"@1700000001", "DEPRECATION_FUTURE"), (b"@1700000000", "DEPRECATION_PAST")):
    r = response([(b"Deprecation", d)], start=1700000000)
    assert want in names(r), (d, names(r))
""")

bug("c26-groups-inner", "C26",
    [(P + "cache_groups.py", "if not isinstance(val, str):", "if not isinstance(val, (str, list)):")],
    "an inner list as a cache group",
    "An inner list is accepted where a cache group must be a string.",
    """
for v, bad in ((b'("a" "b")', True), (b'"a", "b"', False)):
    r = response([(b"Cache-Groups", v)])
    assert ("CACHE_GROUPS_BAD_TYPE" in names(r)) is bad, (v, names(r))
""")

bug("c26-accept-ch-safe", "C26",
    [(P + "accept_ch.py", 'request.uri.lower().startswith("http:")', 'request.uri.startswith("http:")')],
    "a request URI whose scheme is in upper case",
    "Accept-CH over plain HTTP isn't reported when the scheme is written in capitals.",
    """
r = response([(b"Accept-CH", b"DPR")], req=request([], uri=b"HTTP://example.com/"))
assert "ACCEPT_CH_IN_PLAIN_HTTP" in names(r), names(r)
""")

bug("c30-vary-any", "C30",
    [(P + "content_encoding.py", 'if any(enc in ["dcb", "dcz"] for enc in ce_values):', 'if ce_values and ce_values[-1] in ["dcb", "dcz"]:')],
    "a dictionary coding that isn't the last one",
    "A dictionary-compressed response whose last coding is another isn't checked.",
    """
r = response([(b"Content-Encoding", b"dcb, gzip"), (b"Cache-Control", b"max-age=60")])
assert "DICTIONARY_COMPRESSED_MISSING_VARY" in names(r), names(r)
""")

bug("c30-shared-only", "C30",
    [(P + "content_encoding.py", "self.message.caching.store_shared or self.message.caching.store_private", "self.message.caching.store_shared")],
    "a dictionary-compressed response that only private caches may store",
    "A dictionary-compressed private response without Vary isn't reported.",
    """
r = response([(b"Content-Encoding", b"dcz"), (b"Cache-Control", b"private, max-age=60")])
assert "DICTIONARY_COMPRESSED_MISSING_VARY" in names(r), names(r)
""")

bug("c30-dest-any", "C30",
    [(P + "use_as_dictionary.py", "if all(isinstance(i, tuple)", "if not val[0] or any(isinstance(i, tuple)")],
    "a match-dest list with a string and something else",
    "A match-dest with a member that isn't a string is accepted.",
    """
for v, bad in ((b'match-dest=("document" style)', True), (b'match-dest=("a" "b")', False), (b'match-dest=()', False)):
    r = response([(b"Use-As-Dictionary", v)])
    assert ("USE_AS_DICTIONARY_BAD_MATCH_DEST" in names(r)) is bad, (v, names(r))
""")

bug("c23-suffix-zero", "C23",
    [(P + "range.py", "if first_byte_pos is None and last_byte_pos is None:", "if not first_byte_pos and last_byte_pos is None:")],
    "an open-ended range that starts at position zero",
    "bytes=0- is reported as malformed.",
    """
from httplint.message import HttpRequestLinter
r = request([(b"Range", b"bytes=0-")])
assert "RANGE_BAD_SYNTAX" not in names(r), names(r)
assert r.headers.parsed["range"].ranges == [(0, None)]
""")

bug("c23-zero-length", "C23",
    [(P + "content_range.py", "if complete_length is not None and last_byte_pos >= complete_length:", "if complete_length and last_byte_pos >= complete_length:")],
    "a Content-Range with positions and a complete length of zero",
    "Positions past the end of an empty representation aren't reported.",
    """
r = response([(b"Content-Range", b"bytes 0-0/0")], status=b"206")
assert "RANGE_INVALID" in names(r), names(r)
""")

bug("c23-both-wrong", "C23",
    [(P + "content_range.py", "last_byte_pos >= complete_length:", "first_byte_pos >= complete_length:")],
    "a range that starts inside the representation and ends at or after its end",
    "A range whose last position is past the complete length isn't reported.",
    """
r = response([(b"Content-Range", b"bytes 5-10/10")], status=b"206")
assert "RANGE_INVALID" in names(r), names(r)
""")

bug("c19-dup-name-case", "C19",
    [(P + "set_cookie.py", "seen.add(name)", "seen.add(name.lower())")],
    "two cookies whose shared name has an upper-case letter",
    "Cookies repeated with the same mixed-case name aren't reported.",
    """
r = response([(b"Set-Cookie", b"SID=1"), (b"Set-Cookie", b"SID=2")])
n = [n for n in r.notes if type(n).__name__ == "SET_COOKIE_NAME_DUP"][0]
assert "SID" in str(n.vars["cookie_names"]), n.vars
""")

bug("c19-hour-24", "C19",
    [(P + "set_cookie.py", "if hour_value > 23:", "if hour_value > 24:")],
    "an Expires date whose hour is 24",
    "24:00:00 is taken for a time.",
    """
r = response([(b"Set-Cookie", b"a=b; Expires=Wed, 09 Jun 2021 24:00:00 GMT")])
assert "SET_COOKIE_BAD_DATE" in names(r), names(r)
""")

bug("c19-two-digit-year", "C19",
    [(P + "set_cookie.py", "if 99 >= year_value >= 70:", "if 99 >= year_value > 70:")],
    "a two-digit year of exactly 70",
    "70 isn't read as 1970.",
    """
r = response([(b"Set-Cookie", b"a=b; Expires=Thu, 01-Jan-70 00:00:01 GMT")])
assert r.headers.parsed["set-cookie"] == [("a", "b", [("Expires", 1)])], r.headers.parsed["set-cookie"]
assert "SET_COOKIE_BAD_DATE" not in names(r)
""")

bug("c19-default-path", "C19",
    [(P + "set_cookie.py", 'cookie_path = uri_path[: uri_path.rindex("/")]', 'cookie_path = uri_path[: uri_path.index("/", 1)]')],
    "a Path attribute that isn't absolute and a request path more than two segments deep",
    "The default path is cut at its second slash rather than its last.",
    """
from httplint.message import HttpResponseLinter
r = HttpResponseLinter()
r.base_uri = "http://example.com/a/b/c"
r.process_headers([(b"Set-Cookie", b"a=b; Path")])
assert r.headers.parsed["set-cookie"] == [("a", "b", [("Path", "/a/b")])], r.headers.parsed["set-cookie"]
""")

bug("c20-first-repeat", "C20",
    [(P + "strict_transport_security.py", "            if name in seen_directives:\n", "            if name in seen_directives and value is not None:\n")],
    "a flag directive that's repeated without a value",
    "A repeated includeSubDomains or preload isn't reported, and the policy is called valid.",
    """
r = response([(b"Strict-Transport-Security", b"max-age=31536000; preload; includeSubDomains; preload")])
assert "HSTS_INVALID" in names(r) and "HSTS_VALID" not in names(r), names(r)
""")

bug("c20-invalid-elsewhere", "C20",
    [(P + "strict_transport_security.py", "for note_cls, _ in self._deferred_notes:", "for note_cls, _ in self._deferred_notes[:1]:")],
    "a fault in a directive, and a trailing semicolon",
    "Only the first of the notes on directives decides whether the policy is valid.",
    """
r = response([(b"Strict-Transport-Security", b"max-age=31536000; preload=1; ")])
assert "HSTS_INVALID" in names(r) and "HSTS_VALID" not in names(r), names(r)
""")

bug("c20-name-space", "C20",
    [(P + "strict_transport_security.py", "name = parts[0].strip().lower()", "name = parts[0].lower()")],
    "white space before the equals sign of max-age",
    "`max-age =31536000` isn't recognised as max-age.",
    """
r = response([(b"Strict-Transport-Security", b"max-age =31536000")])
assert "HSTS_VALID" in names(r), names(r)
""")

bug("c21-last-wins", "C21",
    [(P + "content_security_policy.py", """                duplicate_directives.append(name)
                continue
""", """                duplicate_directives.append(name)
                if not parsed_directives[name]:
                    parsed_directives[name] = value
                continue
""")],
    "a repeated directive whose first occurrence has no value",
    "The second one is used.",
    """
r = response([(b"Content-Security-Policy", b"script-src; script-src 'unsafe-inline'")])
sub = [type(c).__name__ for n in r.notes for c in n.subnotes]
assert "CSP_DUPLICATE_DIRECTIVE" in sub and "CSP_UNSAFE_INLINE" not in sub, sub
""")

bug("c21-tab", "C21",
    [(P + "content_security_policy.py", "parts = directive.split(None, 1)", 'parts = directive.split(" ", 1)')],
    "a tab after a directive's name",
    "The name and its first source are taken for the name.",
    """
r = response([(b"Content-Security-Policy", b"script-src\\t'unsafe-eval' https:")])
sub = [type(c).__name__ for n in r.notes for c in n.subnotes]
assert "CSP_UNSAFE_EVAL" in sub, sub
""")

bug("c21-one-report-to", "C21",
    [(P + "content_security_policy.py", """                if value in known_endpoints:
                    continue
""", """                if value in known_endpoints:
                    return
""")],
    "two policies, the first with a report-to that's declared, the second with one that isn't",
    "Later policies' endpoints aren't checked.",
    """
r = response([(b"Reporting-Endpoints", b'a="https://e.com/"'), (b"Content-Security-Policy", b"report-to a, report-to b")])
sub = [type(c).__name__ for n in r.notes for c in n.subnotes]
assert "CSP_REPORT_TO_MISSING" in sub, sub
""")

bug("c22-referrer-first", "C22",
    [(P + "referrer_policy.py", "effective_policy = valid_policies[-1]", "effective_policy = self.value[-1]")],
    "a Referrer-Policy with an unknown policy last",
    "The last policy decides even when it's unknown.",
    """
r = response([(b"Referrer-Policy", b"unsafe-url, future-policy")])
assert "REFERRER_POLICY_UNSAFE" in names(r), names(r)
""")

bug("c22-coep-report-only", "C22",
    [(P + "cross_origin_embedder_policy.py", """        params = self.value[1]
        report_to = params.get("report-to")
""", """        params = self.value[1]
        report_to = params.get("report-to") or None
""")],
    "a COEP header whose report-to parameter is an empty string",
    "The endpoint with no name isn't reported as missing.",
    """
r = response([(b"Cross-Origin-Embedder-Policy", b'require-corp; report-to=""')])
assert "COEP_REPORT_TO_MISSING" in names(r), names(r)
""")

bug("c22-corp-case", "C22",
    [(P + "cross_origin_resource_policy.py", "return field_value\n", "return field_value.lower()\n")],
    "a Cross-Origin-Resource-Policy in the wrong letter case",
    "A value that user agents ignore is called good.",
    """
r = response([(b"Cross-Origin-Resource-Policy", b"Same-Origin")])
assert "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE" in names(r) and "CORP_SAME_ORIGIN" not in names(r), names(r)
""")

bug("c29-clean-index", "C29",
    [(P + "nel.py", """        for idx, policy in enumerate(self.value):
            if not isinstance(policy, dict):
                continue
""", """        for idx, policy in enumerate(p for p in self.value if isinstance(p, dict)):
""")],
    "a NEL field with a member that isn't an object before a faultless policy",
    "The policy is judged by the verdict on the member before it.",
    """
r = response([(b"Reporting-Endpoints", b'a="https://e.com/"'), (b"NEL", b"1"), (b"NEL", b'{"report_to": "a", "max_age": 1}')])
assert "NEL_CONFIGURED" in names(r), names(r)
""")

bug("c29-first-endpoint", "C29",
    [(P + "report_to.py", """                    if "url" not in endpoint:
                        add_note(REPORT_TO_MISSING_KEY, key="endpoints[].url")
""", """                    if "url" not in endpoint:
                        add_note(REPORT_TO_MISSING_KEY, key="endpoints[].url")
                        break
""")],
    "a Report-To group whose endpoints have a fault after one without a url",
    "Endpoints after one without a url aren't checked.",
    """
r = response([(b"Report-To", b'{"max_age": 1, "endpoints": [{}, {"url": 1}]}')])
assert "REPORT_TO_BAD_TYPE" in names(r), names(r)
""")

bug("c29-endpoint-stops", "C29",
    [(P + "reporting_endpoints.py", """                    found_type=type(url).__name__,
                )
                continue
""", """                    found_type=type(url).__name__,
                )
                break
""")],
    "a Reporting-Endpoints field with an insecure endpoint after one that isn't a string",
    "Endpoints after one of the wrong type aren't checked.",
    """
r = response([(b"Reporting-Endpoints", b'a=1, b="http://e.com/"')])
assert "ENDPOINT_NOT_SECURE" in names(r), names(r)
""")

bug("c29-line-join", "C29",
    [("httplint/field/json_field.py", """        self.value.append(field_value)
""", """        if field_value:
            self.value.append(field_value)
""")],
    "a JSON field with an empty line",
    "An empty line is passed over rather than reported.",
    """
r = response([(b"Report-To", b""), (b"Report-To", b'{"max_age": 1, "endpoints": []}')])
assert "BAD_JSON" in names(r), names(r)
""")

N = "httplint/note.py"
bug("c16-summary-squeeze", "C16",
    [(N, "        return translate(self._summary) % self.vars\n", "        return \" \".join((translate(self._summary) % self.vars).split())\n")],
    "message data with adjacent or unusual whitespace in a summary",
    "Runs of whitespace in message data are squeezed in summaries.",
    '''
r = response([(b"Set-Cookie", b"a=b; x  y")])
n = [n for n in r.notes if type(n).__name__ == "SET_COOKIE_UNKNOWN_ATTRIBUTE"][0]
assert "x  y" in str(n.summary), n.summary
''')

bug("c16-link-type", "C16",
    [(P + "link.py", 'type=param_dict["type"]', 'type=MarkdownSafe(param_dict["type"])')],
    "a Link's type parameter with a backtick and markup",
    "The type parameter is taken for Markdown.",
    '''
r = response([(b"Link", b'<a>; type="x`<b>`x"')])
for n in r.notes:
    assert "<b>" not in str(n.detail), n.detail
''')

bug("c16-accept-query-value", "C16",
    [(P + "accept_query.py", "from httplint.note import Note, categories, levels\n", "from httplint.note import MarkdownSafe, Note, categories, levels\n"),
     (P + "accept_query.py", "add_note(ACCEPT_QUERY_BAD_TYPE, value=str(val))", "add_note(ACCEPT_QUERY_BAD_TYPE, value=MarkdownSafe(val))")],
    "an Accept-Query member that is a Display String holding a backtick and markup",
    "The value of the wrong type is taken for Markdown.",
    '''
r = response([(b"Accept-Query", b'%"x`<b>`x"')])
assert "ACCEPT_QUERY_BAD_TYPE" in names(r), names(r)
for n in r.notes:
    assert "<b>" not in str(n.detail), n.detail
''')

bug("c16-cookie-attribute", "C16",
    [(P + "set_cookie.py", """            SET_COOKIE_UNKNOWN_ATTRIBUTE,
            cookie_name=cookie_name,
            attribute=attribute_name,
""", """            SET_COOKIE_UNKNOWN_ATTRIBUTE,
            cookie_name=cookie_name,
            attribute=MarkdownSafe(attribute_name),
""")],
    "an unknown cookie attribute whose name has a backtick",
    "An unknown cookie attribute's name is taken for Markdown.",
    '''
r = response([(b"Set-Cookie", b"a=b; x`<b>`x")])
for n in r.notes:
    assert "<b>" not in str(n.detail), n.detail
''')

bug("c01-version-strict", "C01",
    [(M, '''        self.set_uri(iri.decode("utf-8", "replace"))
        self.version = version.decode("ascii", "replace")''', '''        self.set_uri(iri.decode("utf-8", "replace"))
        self.version = version.decode("ascii")''')],
    "a request line whose version isn't ASCII",
    "A non-ASCII version in a request line raises.",
    '''
ln = HttpRequestLinter()
ln.process_request_topline(b"GET", b"http://e.com/", b"HTTP/\\xff")
''')

bug("c01-status-class", "C01",
    [(M, "        if self.status_code in [304]:", "        if self.status_code // 100 == 1 or self.status_code in [304]:")],
    "a response whose status code isn't a number",
    "A response without a numeric status code raises when it ends.",
    '''
ln = HttpResponseLinter()
ln.process_response_topline(b"HTTP/1.1", b"abc", b"OK")
ln.process_headers([])
ln.finish_content(True)
''')

bug("c01-bad-age", "C01",
    [(P + "date.py", 'age_value = self.message.headers.parsed.get("age", 0) or 0', 'age_value = self.message.headers.parsed.get("age", 0)')],
    "a response with a start time, a Date and an Age that isn't a number",
    "A response with a malformed Age raises when it ends.",
    """
response([(b"Date", b"Tue, 14 Nov 2023 22:13:20 GMT"), (b"Age", b"x")], start=1700000000)
""")

FU = "httplint/field/utils.py"

bug("c18-date-memo", "C18",
    [(FU, '''    """Parse a HTTP date. Raises ValueError if it's bad."""
''', '''    """Parse a HTTP date. Raises ValueError if it's bad."""
    if value in _parsed_dates:
        return _parsed_dates[value]
'''),
     (FU, "    return calendar.timegm(date_tuple)", "    _parsed_dates[value] = calendar.timegm(date_tuple)\n    return _parsed_dates[value]"),
     (FU, "def parse_http_date(", "_parsed_dates: Dict[str, int] = {}\n\n\ndef parse_http_date(")],
    "the same obsolete date twice in the life of the process",
    "Dates are remembered without the notes on them, so that an obsolete date is only reported the first time it is seen.",
    """
h = [(b"Last-Modified", b"Sunday, 06-Nov-94 08:49:37 GMT")]
a, b = response(h), response(h)
assert names(a) == names(b), (names(a), names(b))
""")

bug("c18-deferred-class", "C18",
    [(P + "set_cookie.py", '''        super().__init__(wire_name, message)
        self._deferred_notes: List[DeferredNoteType] = []
''', '''        super().__init__(wire_name, message)
        self._deferred_notes = self._deferred_by_name.setdefault(wire_name, [])
'''),
     (P + "set_cookie.py", '''            note_adder(note, category=category, **kwargs)
''', '''            note_adder(note, category=category, **kwargs)
        self._deferred_notes.clear()
'''),
     (P + "set_cookie.py", '''    nonstandard_syntax = True
    deprecated = False
''', '''    nonstandard_syntax = True
    deprecated = False
    _deferred_by_name: "dict[str, List[DeferredNoteType]]" = {}
''')],
    "two messages with Set-Cookie whose header sections are linted at the same time",
    "Cookie notes wait in a list shared by all linters: a concurrent linter can lose or take them.",
    """
import threading, sys
sys.setswitchinterval(1e-6)
h = [(b"Set-Cookie", b"a=b; secure=%d; foo" % k) for k in range(60)]
want = names(response(h))
out = []
def work():
    for _ in range(15):
        out.append(names(response(h)))
ts = [threading.Thread(target=work) for _ in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert len(out) == 90 and all(x == want for x in out)
""")

bug("c18-md-shared", "C18",
    [(N, "class _MdLocal(local):", "class _MdLocal:")],
    "notes rendered by two threads at once",
    "The Markdown renderer is shared by all threads, and it isn't safe to use from several.",
    """
import threading, sys
sys.setswitchinterval(1e-6)
r = response([(b"Set-Cookie", b"a=b; foo; bar"), (b"Cache-Control", b"max-age=1, foo=bar, public, private, no-store"), (b"Content-Language", b"en, en")])
want = [str(n.detail) for n in r.notes]
bad = []
def work():
    try:
        for _ in range(20):
            if [str(n.detail) for n in r.notes] != want:
                bad.append(1)
    except Exception as e:
        bad.append(e)
ts = [threading.Thread(target=work) for _ in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
""")

bug("c18-pickle-subnotes", "C18",
    [(N, '''    def __str__(self) -> str:
        return str(self.summary)
''', '''    def __str__(self) -> str:
        return str(self.summary)

    def __reduce__(self) -> Any:
        return (_restore_note, (type(self), self.subject, self.category, dict(self.vars)))
'''), (N, '''class Note:
    """
    A note about''', '''def _restore_note(cls: Any, subject: str, category: Any, vrs: Any) -> Note:
    note: Note = cls(subject, **vrs)
    if category is not note.category:
        note.category = category
    return note


class Note:
    """
    A note about''')],
    "a pickled linter with notes that have subnotes",
    "Notes lose their subnotes when pickled.",
    """
import pickle
r = response([(b"Content-Security-Policy", b"script-src 'unsafe-inline' *")])
q = pickle.loads(pickle.dumps(r))
f = lambda x: [(str(n), [str(s) for s in n.subnotes]) for n in x.notes]
assert any(s for _, s in f(r)), f(r)
assert f(q) == f(r)
""")

I18 = "httplint/i18n.py"

bug("c17-thread-local", "C17",
    [(I18, '_locale_var: ContextVar[str] = ContextVar("locale", default="en")', '''

class _Scopes(local):
    def __init__(self) -> None:
        self.stack = ["en"]

    def get(self) -> str:
        return self.stack[-1]

    def set(self, locale: str) -> int:
        self.stack.append(locale)
        return len(self.stack) - 1

    def reset(self, token: int) -> None:
        del self.stack[token:]


_locale_var = _Scopes()'''), (I18, "from contextvars import ContextVar\n", "from threading import local\n")],
    "two asyncio tasks in one thread with different locales",
    "The locale is kept per thread, so tasks of one thread see each other's.",
    """
import asyncio
from httplint.i18n import set_locale, translate
async def a(ev, go):
    with set_locale("fr"):
        go.set()
        await ev.wait()
        return translate("ahead")
async def b(ev, go):
    await go.wait()
    x = translate("ahead")
    ev.set()
    return x
async def main():
    ev, go = asyncio.Event(), asyncio.Event()
    return await asyncio.gather(a(ev, go), b(ev, go))
assert asyncio.run(main()) == ["en avance", "ahead"]
""")

bug("c17-exception-scope", "C17",
    [(I18, '''    try:
        yield
    finally:
        _locale_var.reset(token)
''', '''    try:
        yield
    except Exception:
        _locale_var.reset(token)
        raise
    _locale_var.reset(token)
''')],
    "a scope left by an exception that isn't an Exception, such as the cancellation of a task or KeyboardInterrupt",
    "A scope left by KeyboardInterrupt, SystemExit or CancelledError stays in force.",
    """
from httplint.i18n import set_locale, translate
try:
    with set_locale("fr"):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert translate("ahead") == "ahead"
""")

bug("c17-nested-default", "C17",
    [(I18, '''        _locale_var.reset(token)
''', '''        _locale_var.set("en")
''')],
    "nested scopes",
    "Leaving an inner scope selects English instead of the outer scope's locale.",
    """
from httplint.i18n import set_locale, translate
with set_locale("fr"):
    with set_locale("ja"):
        pass
    assert translate("ahead") == "en avance"
""")

bug("c17-static-detail", "C17",
    [(N, '''    detail = property(_get_detail)
''', '''    _static: "Dict[type, Markup]" = {}

    def _detail(self) -> Markup:
        "The text of a note without variables is always the same."
        if "%(" in self._text:
            return self._get_detail()
        if type(self) not in self._static:
            self._static[type(self)] = self._get_detail()
        return self._static[type(self)]

    detail = property(_detail)
''')],
    "a note without variables shown in one locale and later in another",
    "The detail of notes without variables stays in the language it was first shown in.",
    """
from httplint.i18n import set_locale
r = response([(b"Set-Cookie", b"a=b"), (b"Content-Length", b"0")])
with set_locale("fr"):
    a = [str(n.detail) for n in r.notes]
b = [str(n.detail) for n in r.notes]
assert all(x != y for x, y in zip(a, b) if y), (a, b)
""")

bug("c17-relative-once", "C17",
    [("httplint/util.py", '''                output = delta_string
        return output
''', '''                output = delta_string
        self.__dict__["_shown"] = output
        return output
'''), ("httplint/util.py", '''    def __str__(self) -> str:
        delta_secs = self.utime - self.now
''', '''    def __str__(self) -> str:
        if "_shown" in self.__dict__:
            return str(self.__dict__["_shown"])
        delta_secs = self.utime - self.now
''')],
    "a note with a duration shown in one locale and later in another",
    "Durations stay in the language they were first shown in.",
    """
from httplint.i18n import set_locale
r = response([(b"Cache-Control", b"max-age=600"), (b"Date", b"Tue, 14 Nov 2023 22:13:20 GMT")], start=1700000000)
with set_locale("fr"):
    a = [n.summary for n in r.notes]
b = [n.summary for n in r.notes]
assert any("10 minutes" in x for x in b)
with set_locale("ja"):
    c = [n.summary for n in r.notes]
assert not any("minutes" in x for x in c), c
""")

# ---- C31 ------------------------------------------------------------------
CLI = "httplint/cli/"
RUN = '''
import subprocess, sys
def cli(wire, *argv):
    p = subprocess.run([sys.executable, "-c", "from httplint.cli import main; main()"] + list(argv), input=wire, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    assert p.returncode == 0, p.stderr
    return p.stdout.decode("utf-8").split("\\n")
'''

bug("c31-same-summary", "C31",
    [(CLI + "http_parser.py", "        notes = sorted(self.linter.notes, key=lambda n: n.category.value)\n",
      "        unique = {f\"{n.level.name} {n.summary}\": n for n in self.linter.notes}\n        notes = sorted(unique.values(), key=lambda n: n.category.value)\n")],
    "two notes of a message with one level and summary",
    "The command shows one of them.",
    RUN + """
out = cli(b"HTTP/1.1 200 OK\\r\\nSet-Cookie: a=b; Foo\\r\\nSet-Cookie: a=c; Foo\\r\\nContent-Length: 0\\r\\n\\r\\n")
assert len([x for x in out if "unknown attribute" in x]) == 2, out
""")

bug("c31-subnote-twice", "C31",
    [(CLI + "http_parser.py", "            for subnote in note.subnotes:\n",
      "            for subnote in {str(x): x for x in note.subnotes}.values():\n")],
    "a note with two subnotes of one summary (a directive repeated twice over)",
    "The command shows one of them.",
    RUN + """
m = b"Permissions-Policy: camera=(1 2 3), geolocation=(1)"
out = cli(b"HTTP/1.1 200 OK\\r\\n" + m + b"\\r\\nContent-Length: 0\\r\\n\\r\\n")
n, v = m.split(b": ", 1)
r = response([(n, v), (b"Content-Length", b"0")])
want = sorted(f"  * [{x.level.name}] {x.summary}" for k in r.notes for x in k.subnotes)
assert len(want) > len(set(want)), want
assert sorted(x for x in out if x.startswith("  * ")) == want, (out, want)
""")

bug("c31-coded-request", "C31",
    [(CLI + "http_parser.py", "            allows_body = bool(content_length and content_length > 0) or (transfer_codes != [])\n",
      "            allows_body = bool(content_length and content_length > 0) or (\n                transfer_codes == [b\"chunked\"]\n            )\n")],
    "a request whose content has another transfer-coding under chunked",
    "Its content and trailers are left out of the report.",
    RUN + """
out = cli(b"GET / HTTP/1.1\\r\\nHost: a\\r\\nTransfer-Encoding: gzip, chunked\\r\\n\\r\\n3\\r\\nabc\\r\\n0\\r\\nHost: b\\r\\n\\r\\n", "-i", "request")
r = HttpRequestLinter()
r.process_request_topline(b"GET", b"/", b"1.1")
r.process_headers([(b"Host", b"a"), (b"Transfer-Encoding", b"gzip, chunked")])
r.feed_content(b"abc")
r.finish_content(True, [(b"Host", b"b")])
assert sorted(x for x in out if x.startswith("* ")) == sorted(f"* [{n.level.name}] {n.summary}" for n in r.notes), out
""")

bug("c31-odd-final", "C31",
    [(CLI + "http_parser.py", "            is_final = not status_code.startswith(b\"1\")\n",
      "            is_final = status_code[:1] in [b\"2\", b\"3\", b\"4\", b\"5\"]\n")],
    "a response with a status code outside the registered classes",
    "The command reports nothing on it.",
    RUN + """
assert [x for x in cli(b"HTTP/1.1 600 Odd\\r\\nContent-Length: 0\\r\\n\\r\\n") if x.startswith("* ")]
""")

bug("c31-locale-translated-groups", "C31",
    [(CLI + "http_parser.py", "        notes = sorted(self.linter.notes, key=lambda n: n.category.value)\n        current_category = None\n        for note in notes:\n            if note.category != current_category:\n",
      "        notes = sorted(self.linter.notes, key=lambda n: n.category.value[:1])\n        current_category = None\n        for note in notes:\n            if note.category != current_category:\n")],
    "notes of two categories whose names begin with the same letter, in turns",
    "Notes of a category are split over several headings.",
    RUN + """
lines = [b"Cache-Control: max-age=x", b"Connection: a, , close, Host", b"Content-Encoding: zstd", b"Vary: x", b"Content-Type: text/html; charset=x", b"Content-Security-Policy: x", b"Set-Cookie: a=b; Foo", b"Accept-Ranges: foo", b"Date: x", b"Content-Language: x, x", b"ETag: x", b"Access-Control-Allow-Origin: x", b"Cache-Status: x; foo"]
out = cli(b"HTTP/1.1 200 OK\\r\\n" + b"\\r\\n".join(lines + lines[::-1]) + b"\\r\\nContent-Length: 0\\r\\n\\r\\n")
heads = [x for x in out if x.startswith("###")]
assert len(heads) == len(set(heads)), heads
""")

bug("c32-altsvc-first", "C32",
    [(P + "alt_svc.py", "            has_clear = \"clear\" in self.value\n", "            has_clear = bool(self.value) and self.value[0] == \"clear\"\n")],
    "Alt-Svc with clear after another member",
    "The conflict isn't reported.",
    """
assert "ALTSVC_CLEAR_LIST" in names(response([(b"Alt-Svc", b'h2="a:1"'), (b"Alt-Svc", b'clear')]))
""")

bug("c32-cookie-last-equals", "C32",
    [(P + "cookie.py", "name, value = item.split(\"=\", 1)", "name, value = item.rsplit(\"=\", 1)")],
    "a cookie whose value has an equals sign",
    "The name takes in part of the value.",
    """
r = request([(b"Cookie", b"a=b=c; d=e")])
assert [(p.name, p.value) for p in r.headers.parsed["cookie"][0]] == [("a", "b=c"), ("d", "e")]
""")

bug("c32-csd-letter-case", "C32",
    [(P + "clear_site_data.py", "        if value not in self.KNOWN_VALUES:\n", "        if value.lower() not in (v.lower() for v in self.KNOWN_VALUES):\n")],
    "a Clear-Site-Data value that is known in another letter case",
    "It isn't reported as unknown.",
    """
assert "CSD_UNKNOWN_VALUE" in names(response([(b"Clear-Site-Data", b'"Cache"')]))
""")

bug("c32-timing-last-metric", "C32",
    [(P + "server_timing.py", "        for metric_name, params in self.value:\n", "        for metric_name, params in dict(self.value).items():\n")],
    "two Server-Timing metrics of one name",
    "Only the last is judged.",
    """
r = response([(b"Server-Timing", b'a;desc=x, a;dur=1;desc=y')])
assert "SERVER_TIMING_MISSING_DUR" in names(r)
""")

bug("c32-expect-parameters", "C32",
    [(P + "expect.py", "            if expectation.lower() == \"100-continue\":\n", "            if expectation.lower().startswith(\"100-continue\"):\n")],
    "an expectation that begins with 100-continue",
    "It passes for 100-continue.",
    """
assert "EXPECT_UNKNOWN" in names(request([(b"Expect", b"100-continued")]))
""")

bug("c18-equal-summaries", "C18",
    [(N, "            and self.vars == other.vars\n", "            and self.summary == other.summary\n")],
    "two notes on one subject that differ only in what their details show (two lines of a field, each with something of its own wrong)",
    "Notes that say different things are equal when their summaries are the same.",
    """
same = lambda a, b: type(a) is type(b) and a.subject == b.subject and str(a.detail) == str(b.detail)
one, two = response([(b"Allow", b"GET, a b")]), response([(b"Allow", b"GET, a c")])
seen = set()
for a in one.notes:
    for b in two.notes:
        assert (a == b) == same(a, b), (a, a.vars, b.vars)
        seen.add((a == b, type(a) is type(b)))
assert (False, True) in seen
""")
