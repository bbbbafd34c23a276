H = "httplint/"
F = "httplint/field/"
PR = "httplint/field/parsers/"

p("C01", "Linting is total: no input or history raises, and every note renders",
  "Feeding any request or response to a linter - any top line, field names and values, content in any chunking, any trailers, complete or not, with or without a related message, start time or no_content - never raises, and finishes. Every note it produces (and every subnote) then yields a non-empty summary and a detail in every shipped locale without raising.",
  ["inputs", "histories", "configurations"], "all byte strings in every position of the protocol, all call histories in lifecycle order, all locales",
  "The tests feed a few hundred hand-picked field values, one at a time; a crash on one unusual value, on a combination of fields, or only when a note is rendered is outside what they reach.",
  [H + "message.py", F + "section.py", H + "note.py", F + "utils.py", PR + "*"],
  [("field parsing guarded by ValueError", F + "singleton_field.py"), ("lazy note rendering", H + "note.py"), ("field handlers' evaluate/post_check", PR + "*")],
  ["public linter API return/raise", "note.summary", "note.detail", "note.subnotes"])

p("C02", "Content accounting and Content-Length agreement over the message lifecycle",
  "After any history of content chunks, the reported content length and hash are those of the concatenated raw bytes, `complete` is what the caller said, and the decoded-content sample holds exactly the first 8192 decoded bytes. A message that may have content and has a Content-Length gets exactly one verdict on it, correct iff it is usable and equals the number of bytes received; a response to HEAD or a 304 that received bytes is instead reported once as not allowed content, and a GET, HEAD, DELETE, CONNECT or TRACE request with content is reported as having undefined content. In no_content mode bytes are still counted but nothing is hashed or sampled and none of these (or content-type/charset) verdicts appear.",
  ["inputs", "histories", "configurations"], "all chunk sequences, declared lengths, statuses, methods, no_content settings",
  "Existing tests feed one or two chunks with one declared length; the guarantee ranges over every split, every length relation and every status/method/mode combination.",
  [H + "message.py", H + "content_encoding.py", PR + "content_length.py"],
  [("byte counter and hash per chunk", H + "message.py:feed_content"), ("verdict at finish", H + "message.py:finish_content"), ("can_have_content", H + "message.py")],
  ["linter.content_length/content_hash/content_sample/complete", "linter.notes"],
  [("content_length", "raw bytes received so far", H + "message.py"), ("content_sample", "first decoded bytes", H + "message.py")])

p("C03", "Content decoding is correct and independent of chunking",
  "For any stack of gzip, x-gzip, br and unrecognised codings listed in Content-Encoding (applied in list order by the sender, unrecognised ones passed through), the decoded length, hash and sample equal those of the original content however the encoded bytes are split into chunks, including splits inside the gzip header with any optional header parts. Corrupt coded data yields one note for the layer that fails (bad gzip header, corrupt deflate data, corrupt brotli data; at most one note per layer), after which that layer yields nothing further; valid data yields none, and decoding stops with one limit note once a layer's output passes 100MB.",
  ["inputs", "histories"], "all coding stacks, all contents, all chunk splits, all corruption points",
  "Tests decode a handful of fixed gzip/brotli bodies, fed whole or in two pieces.",
  [H + "content_encoding.py", PR + "content_encoding.py", H + "message.py"],
  [("pipeline construction", H + "content_encoding.py:_build_pipeline"), ("gzip header buffering", H + "content_encoding.py:GzipProcessor")],
  ["linter.decoded.length/hash", "linter.content_sample", "linter.notes"])

p("C04", "Field sections are recorded faithfully and sized correctly",
  "After processing any list of header (or trailer) lines, the recorded text has one (name, value) pair per line in order, equal to the input decoded as ASCII names (non-ASCII bytes dropped) and ISO-8859-1 values, with a per-line note exactly on lines with a non-ASCII name or value. The section size is the sum of name and value byte lengths; a line over 8192 bytes gets a size note on that line (unless the line is ignored as misplaced or misnamed), and a section over 32768 bytes gets one section note naming header or trailer. Every note tied to a line by offset identifies the line it is about (its index in the recorded text).",
  ["inputs", "histories"], "all sequences of byte-string pairs, in headers and trailers, including invalid and misplaced fields in between",
  "Tests never check offsets, sizes or non-ASCII lines in sections that also contain skipped (invalid or misdirected) lines.",
  [F + "section.py", F + "__init__.py"], [("line loop", F + "section.py:process")],
  ["linter.headers.text/size", "linter.trailers.text", "note.subject"],
  [("offset", "index of the current line", F + "section.py")])

p("C05", "Repeated field lines combine as HTTP says",
  "Field names are case-insensitive; a list-based or structured field spread over several lines has the same parsed value and the same evaluation notes as those lines joined by commas into one (list members are split at commas outside quoted strings, with empty members ignored and whitespace trimmed). A single-valued field uses its first line and is reported as repeated exactly when it occurs on more than one line; Set-Cookie and Cookie lines are never joined. Headers and trailers are combined separately.",
  ["inputs", "histories"], "all splits of a value over lines, all name casings, all interleavings with other fields",
  "Per-field tests give one fixed list of lines; none compare a split against its combination or permute unrelated lines.",
  [F + "section.py", F + "finder.py", F + "list_field.py", F + "singleton_field.py", F + "structured_field.py", F + "broken_field.py", F + "utils.py"],
  [("handler reuse per lower-cased name", F + "finder.py:find_handler"), ("split_list_field", F + "utils.py")],
  ["linter.headers.parsed", "linter.notes"])

p("C06", "Field applicability, deprecation and naming are reported exactly",
  "Each line whose field is defined only for requests (responses) but occurs in a response (request) gets exactly one misplacement note on that line and is otherwise ignored, having no parsed value; a correctly placed field never gets one. A line whose name is not a token gets a bad-name note; fields in the deprecated and unnecessary registries, and known misspelled or padding fields, are recognised case-insensitively and reported with their own note (the unnecessary ones once per list member); unknown fields get no note and descriptions are returned for known fields and None for unknown ones.",
  ["inputs", "configurations"], "every field name the library knows, any casing, both message kinds, headers and trailers, plus arbitrary other names",
  "Tests check each field in its proper place with one spelling; the wrong direction, casing variants and near-miss names are not explored.",
  [F + "finder.py", F + "__init__.py", F + "deprecated.py", F + "unnecessary.py", F + "description.py", PR + "*"],
  [("direction check", F + "__init__.py:pre_check"), ("registry lookup", F + "finder.py")],
  ["linter.notes", "linter.headers.parsed", "get_field_description"])

p("C07", "Syntax complaints appear exactly when a value breaks its field's grammar",
  "Every field that has a published grammar is judged by it: a list field's lines are split at commas outside quoted strings (a backslash in an entity-tag is not an escape), empty members are skipped, and each member that, without surrounding whitespace, doesn't match the grammar gets one syntax note on its line; a singleton's first line gets one if it doesn't match. A value that matches is never complained about. Letter case never matters (except for Access-Control-Allow-Credentials), obsolete forms of RFC 5322 are not part of the grammar, minimum numbers of list members are not enforced, comments may nest (to 5 levels in From, 10 elsewhere), and parameters that continue a challenge belong to it. A detailed note names the offending character, its position and its surroundings, and points where the grammar can get to. Fields that explain their own problems (Range, Content-Range, Content-Length, Age, Access-Control-Max-Age) give no syntax note.",
  ["inputs"], "all byte strings as values of the fields with a declared grammar",
  "Per-field tests try one to three values per field.",
  [F + "list_field.py", F + "singleton_field.py", F + "broken_field.py", H + "syntax/*", PR + "*"],
  [("verbose regexes", H + "syntax/rfc9110.py")], ["linter.notes"])

p("C08", "Cache-Control and CDN-Cache-Control directives are parsed and judged right",
  "Every directive name is lower-cased and known numeric directives are converted to integers; a directive given a value it must not have, missing one it needs, given a non-numeric or wrongly quoted one, or repeated is reported as such, and a bad one takes no effect on later decisions. Directives meant for the other message kind, conflicting or redundant combinations (no-store with others, private with public, immutable, pre-check/post-check pairs, misspelled names) are reported exactly when they occur, in any order, casing or split over lines.",
  ["inputs"], "all directive lists over known and unknown names, values, quoting and orders",
  "Tests cover one or two values per directive and no interactions between orders, duplicates and malformed values.",
  [PR + "cache_control.py", PR + "cdn_cache_control.py"], [("parse and evaluate", PR + "cache_control.py")],
  ["linter.headers.parsed['cache-control']", "linter.notes"])

p("C09", "Storability by private and shared caches follows the HTTP caching rules",
  "A response is reported (attributes and notes) as not storable by any cache if Vary contains *, the request method is other than GET or HEAD, no-store is present, or nothing (public, private, max-age, s-maxage, a usable Expires, or a heuristically cacheable status among 200, 203, 206, 300, 301, 410) allows it; as storable by private caches only with private, or with an authenticated request lacking public, must-revalidate and s-maxage; by shared caches only when s-maxage alone allows it; otherwise by both. Exactly one storability note is given except for the Vary * case (none) and a private/public conflict (one more), and a missing Date is reported, with an extra note when Expires or Last-Modified is present.",
  ["inputs", "configurations"], "all combinations of directives, Vary, Expires, status, method, authorization, related request present or not",
  "test_cache.py checks six fixed responses; no combination with methods, Authorization, Vary or unusual status is tested.",
  [H + "cache.py"], [("check_basic/check_storable", H + "cache.py")], ["response.caching.store_private/store_shared", "notes of response and request"],
  [("store_private, store_shared", "who may store the response", H + "cache.py")])

p("C10", "Current age is computed as HTTP defines it",
  "When a response may be stored, its reported age is the maximum of zero-floored apparent age (response start minus Date, when both known) and the Age value (missing or invalid counts as zero) plus the response delay (when both start times are known); an age note appears exactly when it is at least one second and states that duration. A Date too far from the response's start time, allowing for Age, is reported as clock skew with its direction and otherwise the clock as correct.",
  ["inputs", "configurations"], "all start times, Date and Age values, present, absent or malformed",
  "Tests never set start times together with Age and Date.",
  [H + "cache.py", PR + "age.py", PR + "date.py"], [("check_age", H + "cache.py"), ("date skew", PR + "date.py")], ["response.caching.age", "linter.notes"])

p("C11", "Freshness lifetime and freshness verdicts are right",
  "For a storable response the private lifetime comes from max-age, else from Expires minus Date (an unparseable Expires counts as already expired), and the shared one from s-maxage if present, else likewise; the response is fresh for a cache class iff lifetime exceeds age. Exactly one verdict is reported: no-cache (with or without validator) first, else explicit freshness (fresh, already stale, or differing shared/private with each status), else heuristic for heuristically cacheable statuses, else none; having both max-age and Expires, and a public that changes nothing, are reported alongside.",
  ["inputs", "configurations"], "all combinations of max-age, s-maxage, Expires, Date, Age, start time, status, no-cache, validators, public",
  "Tests cover five fixed header sets without times.",
  [H + "cache.py"], [("check_freshness", H + "cache.py")], ["response.caching.freshness_lifetime_*", "response.caching.is_fresh", "linter.notes"])

p("C12", "Stale-serving permissions are reported exactly",
  "For a storable response without no-cache, stale-while-revalidate is reported exactly when present, and exactly one (or no) stale-serving verdict follows in this precedence: stale-if-error allows it; must-revalidate forbids it (worded by whether the response is currently fresh); proxy-revalidate or s-maxage forbids it for shared caches (likewise by shared freshness); otherwise it may be served stale. No such verdict is given when the response is not storable or must always be revalidated.",
  ["inputs", "configurations"], "all combinations of the revalidation and stale directives with fresh and stale states",
  "Tests check presence of two notes on fresh responses only.",
  [H + "cache.py"], [("check_stale", H + "cache.py")], ["linter.notes"])

p("C13", "HTTP dates parse to the right instant or are rejected",
  "In every date-valued field, a value in IMF-fixdate, RFC 850 or asctime form is converted to the exact epoch second it denotes (two-digit years mapped into 1969-2068), with an obsolete-format note exactly for the two old forms; any other value is reported as a bad date and treated as absent. Last-Modified, Expires, Sunset and If-* verdicts that compare dates follow those instants.",
  ["inputs"], "all date strings in the three formats and perturbations of them, all calendar days",
  "Tests use about ten literal dates.",
  [F + "utils.py", PR + "date.py", PR + "last_modified.py", PR + "expires.py", PR + "sunset.py", H + "syntax/rfc9110.py"],
  [("parse_http_date", F + "utils.py")], ["linter.headers.parsed", "linter.notes"])

p("C14", "Status code verdicts agree with the request and response fields",
  "For every status code, the status verdicts depend only on the code, the related request's method, URI length and fields (Expect, Upgrade, Range, Accept*, conditional fields) and the presence of the response fields that the code calls for (Location, Content-Range, Date, Allow, and representation metadata on a 304), exactly as documented for that code; unregistered codes are reported as non-standard and non-numeric ones as such. Request-dependent verdicts are not given without a request.",
  ["inputs", "configurations"], "all status codes x methods x presence of each relevant request/response field",
  "test_status.py has one or two examples per status out of thousands of combinations.",
  [H + "status.py", H + "message.py"], [("one rule per status", H + "status.py")], ["linter.notes"])

p("C15", "CORS preflight and origin verdicts are right",
  "A request is treated as a preflight iff its method is OPTIONS and it has Origin and Access-Control-Request-Method; a request with Access-Control-Request-* that lacks the method, Origin or OPTIONS is reported for each lack, and preflight-only response fields are reported exactly when the response does not answer a preflight. Access-Control-Allow-Origin is compared with the request's origin (scheme, host and non-default or explicit port): null, star, match and mismatch are distinguished, multiple values are reported, and nothing is compared without a request origin.",
  ["inputs", "configurations"], "all methods, field presence combinations, origins and allowed origins",
  "test_cors.py covers a dozen fixed pairs.",
  [F + "cors.py", PR + "origin.py", PR + "access_control_allow_origin.py", PR + "access_control_request_headers.py"],
  [("preflight detection", F + "cors.py"), ("origin comparison", F + "cors.py")], ["linter.notes"])

p("C16", "Message data can never inject markup into a note's HTML detail",
  "Whatever bytes occur in a message, a note's detail contains no HTML element, attribute or link that the note's own template does not produce: message-supplied text appears there only as escaped character data. The summary is plain text containing message data unaltered, and rendering either never depends on what was rendered before.",
  ["inputs"], "all wire-supplied strings reaching any note variable of any note class, with HTML and Markdown metacharacters",
  "test_note_escaping.py tries a few payloads on selected notes.",
  [H + "note.py", H + "util.py", PR + "*"], [("backtick stripping and code spans", H + "note.py:_get_detail")], ["note.detail", "note.summary"])

p("C17", "Locale selection is scoped, isolated per thread/context, and safe to share",
  "Text is produced in the innermost active locale of the current thread or async context, reverting to the previous one when that scope ends (also by exception) and to English by default; selecting a locale in one thread or task never changes what another produces. Notes can be rendered concurrently from many threads in different locales with the same result as when rendered alone, and the same note rendered under different locales changes language each time; untranslated or unknown locales fall back to English.",
  ["schedules", "histories"], "all interleavings of enter/exit/render steps over threads and tasks, all locales",
  "The thread test renders one locale under the default scheduler; interleavings of locale scopes are not controlled.",
  [H + "i18n.py", H + "note.py"], [("context variable", H + "i18n.py:set_locale"), ("per-thread Markdown renderer", H + "note.py")], ["note.summary", "note.detail", "translate()"],
  [("current locale", "per-context stack of selected locales", H + "i18n.py")])

p("C18", "Linters are independent, deterministic and picklable",
  "Interleaving the steps of any number of linters in one process gives each the same notes and attributes as when it runs alone; repeating a history gives equal results; the only cross-message effect is the documented note placed on a related request. A finished linter survives pickling with the same notes, parsed fields, text and content attributes. Two notes are equal exactly when they are of the same kind, on the same subject and of the same variables: so the notes of a linter equal, one by one, those of the same message linted again and those restored from a pickle. Dropping all references to a linter frees it.",
  ["schedules", "histories"], "all interleavings of lifecycle steps of several linters, sequential repetition in one process",
  "Tests run one linter at a time; shared mutable state between instances would not show.",
  [H + "message.py", H + "note.py", F + "section.py", F + "finder.py", PR + "*"], [("per-instance handlers and notes", F + "section.py")], ["linter.notes", "linter.headers.parsed", "pickle.dumps/loads", "note == note"])

p("C19", "Set-Cookie is parsed like RFC 6265 user agents do and its risks reported",
  "Each Set-Cookie line is parsed into name, value and attributes by the algorithm of RFC 6265, section 5 (semicolons split, then the first '=' of each piece; whitespace trimmed; attribute names in any letter case; Expires by the tolerant date algorithm, dates that don't exist excluded; Max-Age a decimal, perhaps negative; Domain without its leading dot and in lower case; a Path that isn't absolute replaced by the default path of the base URI), with a note naming the cookie for a line with neither name nor value, and for each malformed, empty, unknown, deprecated or repeated attribute. Where an attribute repeats the last one counts. SameSite=None or Partitioned without Secure, the promises of __Secure- and __Host- prefixes (in any letter case), a lifetime over 400 days (Max-Age deciding before Expires), cookies over 4096 bytes and values over 128, names set more than once, and cookies that are Secure, HttpOnly and SameSite are each reported exactly when they hold.",
  ["inputs", "configurations"], "all Set-Cookie lines over attribute sets, orders, casings, duplicates, malformed parts, dates, base URIs and clocks, and several cookies per message",
  "Tests have a fixed list of cookie lines; combinations of attributes and prefixes are sampled only.",
  [PR + "set_cookie.py"], [("loose_parse / date parse", PR + "set_cookie.py")], ["linter.headers.parsed['set-cookie']", "linter.notes"])

p("C20", "Strict-Transport-Security is parsed and judged per RFC 6797",
  "Directives are separated by semicolons outside quoted strings, their names are case-insensitive, the first of repeated ones counts and unknown ones are ignored. A missing max-age, one that isn't a non-negative integer (perhaps quoted), each repeated directive, each value on includeSubDomains or preload, and a trailing semicolon are each reported under one note that calls the policy valid or invalid: valid exactly when max-age is a non-negative integer, nothing is repeated, no flag has a value, and it wasn't received over plain HTTP on a response other than 301. max-age=0, a max-age under a year, includeSubDomains, and preload (suitable only with includeSubDomains and a year) are reported exactly when they hold.",
  ["inputs"], "all directive lists, orders, casings, quoting, numeric values",
  "Tests check about a dozen literal values.",
  [PR + "strict_transport_security.py"], [("parse/evaluate", PR + "strict_transport_security.py")], ["linter.notes", "linter.headers.parsed"])

p("C21", "Content-Security-Policy parsing and security verdicts are right",
  "Policies are separated by commas and directives by semicolons; a directive's name is case-insensitive, its first occurrence in a policy counts and later ones are reported. Under one note for each of Content-Security-Policy and Content-Security-Policy-Report-Only, exactly these are reported with the directives they occur in: whole, case-insensitive sources 'unsafe-inline', 'unsafe-eval' and http:, * in script-src, style-src or object-src, and the deprecated report-uri; and every report-to whose value isn't a key of Reporting-Endpoints, on the field that names it.",
  ["inputs"], "all policies over directives and sources, several policies and lines, with and without reporting fields",
  "Tests check a few literal policies.",
  [PR + "content_security_policy.py", PR + "content_security_policy_report_only.py"], [("parse/evaluate", PR + "content_security_policy.py")], ["linter.notes"])

p("C22", "Single-token security policies are classified exactly",
  "X-Content-Type-Options (its first value, any letter case), X-Frame-Options and Referrer-Policy (any letter case), Cross-Origin-Opener-Policy and Cross-Origin-Embedder-Policy (Tokens) with their report-only variants, Cross-Origin-Resource-Policy and Access-Control-Allow-Credentials (exact) classify each value into its documented verdict, never a recognised value as unknown or the reverse; Referrer-Policy reports each unknown policy, none recognised, and more than one, where the last recognised one counts; a report-only variant equal to the policy enforced, and a report-to (String or Token) that isn't a key of Reporting-Endpoints, are reported.",
  ["inputs"], "all values of these fields, several members and lines, combined with CSP where it supersedes",
  "One or two values per field are tested.",
  [PR + "x_content_type_options.py", PR + "x_frame_options.py", PR + "referrer_policy.py", PR + "cross_origin_opener_policy.py", PR + "cross_origin_embedder_policy.py", PR + "cross_origin_resource_policy.py"],
  [("value tables", PR + "*")], ["linter.notes"])

p("C23", "Ranges and partial-content metadata are interpreted right",
  "Range is read as its unit and its ranges in order, each a first and a last position either of which may be missing (empty list members don't count), or reported as malformed and not used; each range whose last position comes before its first is reported. Content-Range is read as unit, positions and complete length, or the one thing that's wrong with it is reported and it's not used: no unit, no slash, no hyphen, a position or length that is not a non-negative decimal, asterisks for both. A range that's reversed or reaches the complete length is reported, as is an unknown length, an unsatisfied range (*) on a 206, and any Content-Range on a status other than 206 and 416. A 206 or 416 whose request has no Range is reported, and a 206 with no Content-Range unless it is multipart/byteranges; unknown Accept-Ranges units are reported. Positions are compared as the numbers they are, whatever their size.",
  ["inputs", "configurations"], "all integer positions and lengths, units, statuses, content types, with and without a related request",
  "A few literals are tested.",
  [PR + "range.py", PR + "content_range.py", PR + "accept_ranges.py", "httplint/status.py"], [("parse/evaluate/post_check", PR + "content_range.py")], ["linter.notes", "linter.headers.parsed"])

p("C24", "Message framing fields are judged exactly",
  "Content-Length is read as the decimal it is, or reported as malformed and taken as absent when it is anything else (a sign, a list, a blank, non-ASCII digits); one over 2^63-1 is reported as very large, and one together with Transfer-Encoding is reported whichever comes first. Transfer-Encoding and TE are split into members outside quoted strings, each a lower-cased coding with its parameters (repeated, single-quoted or extended ones reported); a transfer-coding other than chunked and identity is reported as unwanted, once, unless the related request's TE lists it with a weight other than zero (with no such request nothing was asked for), identity as unnecessary, and parameters on a coding as unusual. Connection, Keep-Alive, Upgrade and Trailer are read as the members they list, in order, Keep-Alive's as lower-cased names with unquoted values.",
  ["inputs", "configurations"], "all values and member lists, orders of fields, parameters and weights, related requests",
  "One or two values per field.",
  [PR + "content_length.py", PR + "transfer_encoding.py", PR + "te.py", PR + "connection.py", PR + "keep_alive.py"], [("parse/evaluate", PR + "transfer_encoding.py")], ["linter.notes", "linter.headers.parsed"])

p("C25", "Content negotiation fields are parsed and judged right",
  "Accept, Accept-Encoding and Accept-Language are read as lists of lower-cased ranges with their parameters and quality; a quality value that isn't a number from 0 to 1 with at most three decimals is reported with the range it is on (in Accept and Accept-Language) and not used, a parameter other than q on a language is reported, and so is an extended, single-quoted or repeated parameter. A member of Accept, Accept-Post or Accept-Patch that isn't a media type (with wildcards where those are allowed) is reported, and a type or subtype that couldn't be registered or is too long. Vary is a case-insensitive set: exactly its repetitions, *, Host, User-Agent, Negotiate and more than three names are reported. Content-Encoding reports each coding that the related request's Accept-Encoding doesn't accept (by name or else by *, with a weight other than zero), Content-Language each tag listed more than once, in any letter case, and Accept-Ranges each unknown unit.",
  ["inputs"], "all member lists with parameters, weights, casings, related requests",
  "One or two values per field.",
  [PR + "accept.py", PR + "accept_encoding.py", PR + "accept_language.py", PR + "vary.py", PR + "content_encoding.py", PR + "content_language.py", F + "utils.py"],
  [("parse_media_type/parse_params", F + "utils.py")], ["linter.notes", "linter.headers.parsed"])

p("C26", "Structured Fields parse per RFC 9651 and report violations once",
  "A structured field's lines, joined with commas, are read as the item, list or dictionary RFC 9651 defines, or are reported once as unparseable and nothing else of them is used or judged; each repetition of a dictionary key or parameter is reported, and the last one wins. On top of that, exactly these are reported: Accept-CH members that aren't tokens, tokens missing from Vary (in any letter case) when the response may be stored, and its use over plain HTTP; Accept-Query members that aren't media ranges (read lower-cased); Cache-Groups and Cache-Group-Invalidation members that aren't strings, and invalidation by a safe request; Cache-Status and Proxy-Status parameters that are unknown or whose value isn't of the type or one of the values their RFC gives; Deprecation as past or to come at the message's time, or of a wrong type; and for every Permissions-Policy feature, under the note that there is a policy, values that are no allowlist, unknown tokens, quoted keywords and other items in one, and sensitive features open to all.",
  ["inputs", "configurations"], "all byte strings as values of structured fields, over any lines; times, related requests, storability",
  "A few literals per field.",
  [F + "structured_field.py", F + "utils.py", PR + "cache_status.py", PR + "proxy_status.py", PR + "permissions_policy.py", PR + "deprecation.py", PR + "accept_ch.py", PR + "accept_query.py"],
  [("http_sf.parse", F + "structured_field.py"), ("check_sf_params", F + "utils.py")], ["linter.notes", "linter.headers.parsed"])

p("C27", "URI-valued data is normalised and judged right",
  "The request URI is stored as the URI form of the given IRI (percent-encoded UTF-8, IDNA host) without its fragment, unchanged if it already was a URI; it is reported when that form isn't a valid URI or is longer than 8000 characters, with its length. Location, Content-Location, Referer and Host are reported when malformed, a Location that isn't absolute with what it resolves to, a Location where the status gives it no meaning, and a Referer that leaks a secure origin to an insecure or different one. Link values are split into targets and parameters whatever characters the target contains, and reported for rev, a malformed anchor or type, bad parameter encodings, resource hints, and hints whose target, resolved against the base, isn't http(s).",
  ["inputs"], "all IRIs and URI references, with and without base",
  "A few literal URIs.",
  [H + "message.py", H + "util.py", PR + "location.py", PR + "referer.py", PR + "origin.py", PR + "link.py", PR + "host.py", H + "syntax/rfc3986.py"],
  [("set_uri", H + "message.py"), ("link hints", PR + "link.py")], ["request.uri/iri", "linter.notes"])

p("C28", "Declared content type and charset are checked against the content soundly",
  "Content-Type and Content-Disposition are parsed into a lower-cased type and decoded parameters; repeated, badly quoted, single-quoted, badly encoded and misplaced parameters are reported, as are malformed or over-long media type names, unknown dispositions, an attachment without a filename, a percent sign in a filename, and a slash or backslash in either filename parameter. A response's content is judged by its first 8192 bytes after content decoding, however it is chunked. Text with a declared charset, and JSON (application/json, text/json, +json; always UTF-8), is called undecodable exactly if those bytes aren't ASCII and don't decode in it - a character cut off by the limit, or by an incomplete message, doesn't count. Content that decodes is called mismatched only if its encoding is confidently detected to be another one that yields a different text; content that is well-formed UTF-8 and declared so never is. Content declared as an image, audio or video type is called mismatched exactly if it starts with another image type's signature, or is declared image/gif, image/png, image/jpeg, image/webp or image/x-icon and starts with none. None of these is said of 1xx, 204, 205, 206, 304, HEAD or no_content responses, of requests, or without content.",
  ["inputs", "configurations"], "all contents (any length and encoding), declared types, charsets, parameters, statuses",
  "Short fixed bodies only.",
  [H + "charset.py", H + "content_type.py", PR + "content_type.py", PR + "content_disposition.py", F + "utils.py"],
  [("verify_charset", H + "charset.py"), ("parse_params", F + "utils.py")], ["linter.notes", "linter.character_encoding"])

p("C29", "Reporting configuration fields are validated member by member",
  "Report-To and NEL lines are members of one JSON array, read as RFC 8259 has it or reported once as invalid and not used; Reporting-Endpoints and Speculation-Rules are Structured Fields. Exactly these are reported, for every member in any order: in Report-To and NEL a member that isn't an object, each required member missing and each of the wrong type or out of range (max_age a non-negative integer, fractions from 0 to 1, booleans never numbers); endpoint and rule values that aren't Strings, and those whose URL, resolved against the base, is neither https nor wss; NEL's report_to naming no declared endpoint, and that network error logging is configured when a faultless policy names a secure one.",
  ["inputs"], "all JSON/structured values of the reporting fields and their combinations",
  "A few literals.",
  [PR + "nel.py", PR + "report_to.py", PR + "reporting_endpoints.py", F + "json_field.py"], [("evaluate/post_check", PR + "nel.py")], ["linter.notes"])

p("C30", "Compression dictionary transport rules are enforced",
  "Exactly these are reported: an Available-Dictionary that isn't a byte sequence, or that comes with no dcb or dcz coding of a weight other than zero in Accept-Encoding; a Use-As-Dictionary whose match or id isn't a string, type isn't a token, ttl isn't an integer or match-dest isn't a string or a list of strings, each by name; and a response that private or shared caches may store, with dcb or dcz among its content codings and no Available-Dictionary in its Vary.",
  ["inputs", "configurations"], "all combinations of codings, weights, Vary members, cacheability and dictionary values",
  "Six fixed messages.",
  [PR + "available_dictionary.py", PR + "use_as_dictionary.py", PR + "content_encoding.py"], [("post_check", PR + "content_encoding.py")], ["linter.notes"])

p("C31", "The command line reports exactly what the library finds",
  "For a well-formed HTTP/1 request or response on standard input, with content of either length-, chunk- or connection-delimited framing, whitespace around field values, chunk extensions, trailers and an interim response before it, the command exits successfully having printed every note and subnote that the library has on that message (told of the same lines, content and trailers) exactly as often as the library has it, one line each with level and summary (control characters in it escaped), subnotes under their note, and notes under one heading for each category, in the locale asked for. The input mode, the locale and whether the exchange happens now are taken from the arguments in any of their spellings; by default a response is read, in English, at an unknown time.",
  ["inputs", "configurations"], "all messages, input modes, locales, with and without --now",
  "smoke.py only runs one response.",
  [H + "cli/__init__.py", H + "cli/http_parser.py"], [("input_start/input_end", H + "cli/http_parser.py")], ["stdout", "exit status"])

p("C32", "Fields with a small rule of their own follow it, and the rest are read whole",
  "Via is reported as naming intermediaries exactly when it names one, and Server members over 64 characters as long, commas in comments and quoted strings separating nothing. Of every Server-Timing metric, on whichever line, a missing duration or description is reported, and a duration that is no decimal number. In requests: Pragma with anything but no-cache in any letter case, Max-Forwards with a method other than TRACE and OPTIONS, expectations other than 100-continue (and any Expect in HTTP/1.0), and a missing User-Agent. Clear-Site-Data reports which known quoted values clear data, which known ones lack quotes, and each unknown or empty one; Alt-Svc, clear among other members. Age and Access-Control-Max-Age are read as non-negative integers, and otherwise reported as no integer or as negative and not used; an Age over 2^31 is reported. Cookie is read as the pairs on each line, ETag as its strength and opaque tag (backslashes are not escapes), If-Match and If-None-Match as lists of tags, challenges with the parameters that follow them, and other single values as they are.",
  ["inputs", "configurations"], "all values and member lists over any number of lines, methods and versions",
  "One or two lines per field.",
  [PR + x + ".py" for x in ("via", "server", "server_timing", "pragma", "max_forwards", "expect", "clear_site_data", "alt_svc", "age", "access_control_max_age", "cookie", "etag")] + [F + "challenge_field.py"],
  [("parse/evaluate", PR + "clear_site_data.py")], ["linter.notes", "linter.headers.parsed"])
