"""Writes known_findings.json: repaired defects, and genuine ones that are recorded and not repaired."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, subject of the fix commit, what failed)
FIXED = [
    ("C10", "fix: treat an invalid Age as zero when both message times are known", "an unusable Age with both start times known raised TypeError"),
    ("C09", "fix: make store_private and store_shared agree with the storability note", "the attributes stayed true when the note said the response is not storable"),
    ("C09", "fix: an Expires at the epoch still makes a response storable", "Expires: Thu, 01 Jan 1970 00:00:00 GMT did not count as an Expires"),
    ("C08", "fix: report CDN-Cache-Control integer directives that have no value", "a numeric CDN-Cache-Control directive without a value was taken as an integer"),
    ("C08", "fix: parse Cache-Control no-cache and private without a value as having none", "no-cache and private without a value parsed as the text None"),
    ("C04", "fix: count every field line in note offsets, including ignored ones", "offsets after an ignored line named the wrong line"),
    ("C10", "fix: judge Date and Last-Modified once the whole message is known", "the clock verdict depended on the order of Date and Age lines"),
    ("C01", "fix: match From without exponential backtracking", "a From value of many spaces and parentheses made the linter hang"),
    ("C02", "fix: make CONTENT_NOT_ALLOWED renderable and give it its text", "rendering CONTENT_NOT_ALLOWED raised, and it had no text"),
    ("C06", "fix: keep whitespace in field names so that they are reported and not mixed up", "a field name with surrounding whitespace was silently taken as the trimmed name"),
    ("C01", "fix: don't raise on URI references and base URIs that can't be parsed", "an unparseable Location, Link or base URI raised ValueError"),
    ("C01", "fix: report JSON fields that Python can't parse instead of raising", "deeply nested or huge-number JSON in NEL or Report-To raised"),
    ("C01", "fix: render durations longer than a timedelta can hold", "a very large max-age raised OverflowError"),
    ("C17", "fix: format durations in locales that babel doesn't know", "a duration in an unknown locale raised instead of falling back to English"),
    ("C31", "fix: accept the input mode given on the command line", "-i request and -i response were rejected"),
    ("C31", "fix: read standard input as bytes", "non-UTF-8 input raised"),
    ("C24", "fix: read integers in fields as their syntax defines them", "Content-Length, Age, max-age and others took +1, 1_0 and non-ASCII digits as integers"),
    ("C23", "fix: report superscript digits in ranges and Max-Age as bad values", "a superscript digit in Content-Range, Range or Max-Age raised ValueError"),
    ("C21", "fix: match Content-Security-Policy without exponential backtracking", "a CSP value of many spaces made the linter hang"),
    ("C05", "fix: split list fields without cubic backtracking", "a list value of many quotes and backslashes made the linter hang"),
    ("C01", "fix: match parameters and ranges without exponential backtracking", "a value with many parameters made the linter hang"),
    ("C28", "fix: don't call content undecodable because its sample ends inside a character", "text over 8192 bytes with a character across the sample's end was reported undecodable"),
    ("C06", "fix: recognise field name aliases, and don't mix up names with underscores", "misspelt Connection and X-Pad aliases were unknown, and Cache_Control was taken for Cache-Control"),
    ("C24", "fix: report Expect in HTTP/1.0 requests when the version is given in full", "EXPECT_HTTP_1_0 was only found when the version was given as 1.0"),
    ("C27", "fix: allow more than one character of userinfo in URIs", "a URI with userinfo longer than one character was bad syntax"),
    ("C27", "fix: allow an empty path in URIs and URI references", "http://e.com and ?x were bad syntax"),
    ("C27", "fix: match IPv6 addresses that compress fewer groups than they could", "valid IPv6 literals such as [1::2:3] were bad syntax"),
    ("C27", "fix: match IPvFuture addresses in either case", "[V1.x] was bad syntax"),
    ("C07", "fix: match variants, extensions and private use in language tags", "de-CH-1996, en-a-bbb and x-whatever were bad syntax"),
    ("C07", "fix: require a question mark before the query in a partial URI", "a partial-URI's query was matched without its question mark"),
    ("C07", "fix: allow letters in From comments", "a From value with a comment in letters was bad syntax"),
    ("C07", "fix: allow whitespace around = in Link parameters", "Link parameters with whitespace around = were bad syntax"),
    ("C07", "fix: allow nested comments in User-Agent, Server and Via", "a nested comment was bad syntax"),
    ("C07", "fix: keep the parameters of an authentication challenge together", "a challenge with more than one parameter was split at its commas and bad syntax"),
    ("C14", "fix: ignore case when looking for 100-continue in Expect", "Expect: 100-Continue was taken as no request for a 100 (Continue)"),
    ("C14", "fix: don't look for a method called request in Allow", "a 405 without a known request and with Allow: request was said to list the method request"),
    ("C27", "fix: convert only the host of an IRI with userinfo to its IDNA form", "the host of an IRI with userinfo was converted together with the userinfo"),
    ("C27", "fix: keep URIs as they are when converting IRIs", "an empty query was dropped, http:/x became http:///x, and URIs with an empty or long label were reported bad"),
    ("C27", "fix: compare the Referer's origin without regard to case, userinfo and default ports", "a Referer of the same origin written differently was reported as cross-origin"),
    ("C27", "fix: allow commas and semicolons in the target of a Link", "</a;b> was parsed as /a minus its last character, and </a,b> as two members"),
    ("C28", "fix: ignore whitespace after the disposition type", "attachment ; filename=x was an unknown disposition"),
    ("C28", "fix: look for both path characters in both filename parameters", "a backslash in filename and a slash in filename* weren't reported"),
    ("C28", "fix: don't check the content of any informational response", "the content of a 199 was checked"),
    ("C28", "fix: don't call content mismatched when there's none, or nothing to recognise it by", "no content, or any video/mp4 content, was said to look like undefined/undefined"),
    ("C28", "fix: don't call content mismatched for starting with a byte order mark", "UTF-8 with a byte order mark was called mismatched"),
    ("C07", "fix: don't take a backslash in an entity-tag as an escape when splitting a list", 'If-Match: "a\\", "b" was bad syntax'),
    ("C07", "fix: allow nested comments in From", "a comment within a comment in From was bad syntax"),
    ("C07", "fix: allow empty directives in Strict-Transport-Security", "max-age=1;;preload was bad syntax, and two empty directives a repeated one"),
    ("C07", "fix: allow whitespace at the end of a quoted string in From", "whitespace at the end of a quoted string in From was bad syntax"),
    ("C07", "fix: don't take a control character for whitespace around a Content-Disposition parameter", "a control character next to the semicolon of Content-Disposition wasn't reported"),
    ("C24", "fix: don't take a Content-Length of -0 for an integer", "Content-Length: -0 was read as 0"),
    ("C24", "fix: report Content-Length with Transfer-Encoding in either order", "Content-Length before Transfer-Encoding wasn't reported"),
    ("C24", "fix: allow whitespace after a coding in Transfer-Encoding", "Transfer-Encoding: gzip ;a=b was read as a coding with a space at its end"),
    ("C24", "fix: allow whitespace after a coding in TE", "TE: gzip ;q=1 was read as a coding with a space at its end"),
    ("C24", "fix: only take codings as requested if Accept-Encoding or TE accepts them", "a coding asked for with a weight of zero wasn't unwanted, and one covered by * was"),
    ("C25", "fix: report every quality value that isn't one in Accept and Accept-Language", "q=1e-1, q=.5, q=+1 and the like were taken for quality values"),
    ("C25", "fix: name the language in the note about its q value", "the note about a bad quality value showed {language}"),
    ("C25", "fix: allow whitespace after a coding in Accept-Encoding", "Accept-Encoding: gzip ;q=1 was read as a coding with a space at its end"),
    ("C25", "fix: allow whitespace after a language in Accept-Language", "Accept-Language: en ;q=1 was read as a language with a space at its end"),
    ("C26", "fix: compare Accept-CH with Vary regardless of case", "Accept-CH: DPR with Vary: DPR was reported as missing"),
    ("C26", "fix: don't fail on a Cache-Status parameter that is false", "Cache-Status: a;hit=?0 made the linter raise"),
    ("C26", "fix: don't take a Boolean for an Integer in Cache-Status and Proxy-Status", "Cache-Status: a;ttl wasn't reported"),
    ("C26", "fix: only say that the tokens in Accept-CH are missing from Vary", "inner lists and strings in Accept-CH were said to be missing from Vary"),
    ("C26", "fix: allow a Byte Sequence as next-protocol in Proxy-Status", "Proxy-Status: a;next-protocol=:aDI=: was reported"),
    ("C26", "fix: only strip whitespace that is allowed around a structured field's value", "a control character or no-break space around a structured value was overlooked"),
    ("C26", "fix: say that the last of the duplicate keys is used, not the first", "the note about a duplicate key said that the first of them is used"),
    ("C30", "fix: don't count a dictionary coding with a weight of zero as supported", "Accept-Encoding: dcb;q=0 counted as support for dictionaries"),
    ("C30", "fix: don't take a Boolean for an Integer in Use-As-Dictionary", "Use-As-Dictionary: ttl=?1 wasn't reported"),
    ("C30", "fix: expect a Token as the type in Use-As-Dictionary", "Use-As-Dictionary: type=raw was reported"),
    ("C30", "fix: name the parameter that has the wrong type in Use-As-Dictionary", "the note named the value instead of the parameter"),
    ("C23", "fix: ignore empty members of Range", "Range: bytes=0-1,,2-3 was reported as malformed"),
    ("C23", "fix: report a Content-Range with neither a space nor a slash", "Content-Range: bytes was dropped without a note"),
    ("C23", "fix: don't expect Content-Range in a multipart/byteranges response", "a 206 of multipart/byteranges was said to lack Content-Range"),
    ("C19", "fix: read the parts of a cookie's Expires date as RFC 6265 does", "Expires=1994-Nov-06 08:49:37 was read as the 19th of 2006, and 8:49:37 as no time"),
    ("C19", "fix: report a cookie's Expires date that doesn't exist", "Expires on 30 February was read as 1 March"),
    ("C19", "fix: accept a negative Max-Age on a cookie", "Max-Age=-1 was reported as not numeric, and dropped"),
    ("C19", "fix: use the default cookie path when the base URI's isn't absolute", "with a base URI a/b/c the default path was a/b"),
    ("C19", "fix: convert a cookie's domain to lower case", "Domain=E.com was kept as it was written"),
    ("C19", "fix: judge a cookie by the last of each of its attributes", "SameSite=None; SameSite=Lax was reported as None, and Path=/; Path=/a passed for __Host-"),
    ("C19", "fix: let a cookie's Max-Age take precedence over its Expires", "Max-Age=10 with a far Expires was said to live too long"),
    ('C20', "fix: Strict-Transport-Security's one-year threshold is a year", 'max-age 31535999 and below 1536000..31536000 were called a year or more'),
    ('C20', "fix: Strict-Transport-Security semicolons in quoted strings don't separate directives", 'a semicolon inside a quoted value started a directive'),
    ('C20', 'fix: an empty Strict-Transport-Security has no trailing semicolon', 'HSTS_TRAILING_SEMICOLON on an empty value'),
    ('C20', 'fix: recognise http URIs in any case when checking Strict-Transport-Security', 'HTTP://... was not recognised as plain HTTP'),
    ('C21', 'fix: CSP keywords and schemes are case-insensitive, and are whole sources', 'sources matched as substrings and case-sensitively'),
    ('C21', 'fix: an undefined CSP report-to is reported on the policy that names it', "CSP_REPORT_TO_MISSING was not reported under the policy's note"),
    ('C22', 'fix: X-Content-Type-Options is case-insensitive, and its first value counts', 'NoSniff was called unknown, and a later nosniff counted'),
    ('C22', 'fix: an X-Frame-Options value needs to be DENY or SAMEORIGIN, not contain it', 'DENYX and the like were called DENY'),
    ('C22', "fix: a COOP report-to that isn't text doesn't name an endpoint", 'report-to=1 was looked up as an endpoint'),
    ('C22', "fix: a COEP report-to that isn't text doesn't name an endpoint", 'report-to=1 was looked up as an endpoint'),
    ('C29', "fix: booleans aren't numbers in NEL and Report-To", 'true was taken for an integer and a number'),
    ('C29', "fix: NEL and Report-To max_age can't be negative", 'a negative max_age was accepted'),
    ('C29', 'fix: an empty NEL report_to names an undefined endpoint', 'an empty report_to was not looked up'),
    ('C16', "fix: don't interpret message data in notes as Markdown", 'markup in parameter values, targets and repeated keys, and line breaks in link targets, reached the HTML of notes'),
    ('C01', "fix: don't show the catalogue's header as the translation of an empty text", 'a note without a text showed the metadata of the translation'),
    ('C18', 'fix: report Cache-Control directives in the order they appear', 'the order of notes on directives, and of the conflicts named, depended on the hash seed'),
    ('C18', 'fix: report duplicated language tags in the order they appear', 'the order of notes depended on the hash seed'),
    ('C18', 'fix: report unwanted transfer-codings in the order they appear', 'the order of notes depended on the hash seed'),
    ("C17", "fix: translate the kinds of messages and sections when notes are shown", "words for messages and sections stayed in the locale they were made in"),
    ("C17", "fix: translate the other kind of message a cache directive belongs to", "the other kind of message was never translated"),
    ("C17", "fix: format durations in English when there is no translation", "durations in a locale without translations were in that locale's language, the rest in English"),
    ("C31", "fix: keep the Chinese summary of a bad Accept-Language q to one line", "a summary took three lines of the report in Chinese"),
    ("C31", "fix: leave the whitespace around a field's value out of it in the CLI", "sizes reported by the command counted whitespace around values"),
    ("C07", "fix: don't split Server and Via at commas in comments", "valid comments with commas in Server and Via were split and reported as bad syntax"),
    ("C32", "fix: don't report intermediaries when Via names none", "a Via without members was reported as naming intermediaries"),
    ("C32", "fix: report Server-Timing durations that aren't numbers but that Python reads as ones", "durations such as nan, inf and 1_000 were accepted"),
    ("C32", "fix: count a quoted Clear-Site-Data value when it is there without quotes too", "a value sent both quoted and unquoted was reported only as unquoted"),
    ("C32", "fix: don't unescape backslashes in entity-tags", "two different entity-tags were read as the same one"),
    ("C21", "fix: split policies in Content-Security-Policy at every comma", "a quote in a policy hid what came before it"),
    ("C18", "fix: compare relative times by what they are relative to", "a note with a relative time in it (an age, a lifetime, a clock's skew) wasn't equal to itself restored from a pickle or made again"),
    ("C30", "fix: name inner lists as such in Use-As-Dictionary", "an Inner List where an item was expected was called a `list`"),
    ("C31", "fix: keep each note on a line of its own in the command's output", "a line break in what a note quotes (from JSON) broke it into several lines, which could look like other notes"),
]
# recorded and not repaired: id, property, what, clauses, contains
KNOWN = []

if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
    out = {"findings": [dict(k, status="known") for k in KNOWN],
           "fixed": [f"fixed: property={p} {h[s]} {w}" for p, s, w in FIXED]}
    json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
    print(len(KNOWN), "known,", len(FIXED), "fixed")
