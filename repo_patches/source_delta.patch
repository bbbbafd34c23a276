From 2b2149da213e7df958248ba4bb7d6c271ce75de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 001/112] fix: treat an invalid Age as zero when both message
 times are known

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..ca5831d 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -129,7 +129,7 @@ class ResponseCacheChecker:
 
         if self.request_time and self.response_time:
             response_delay = self.response_time - self.request_time
-            corrected_age_value = self.age_value + response_delay
+            corrected_age_value = (self.age_value or 0) + response_delay
         elif self.age_value is not None:
             corrected_age_value = self.age_value
         else:
-- 
2.43.0


From 1391ac211839642f0fb8e99fe51f12340f072722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 002/112] fix: make store_private and store_shared agree with
 the storability note

---
 httplint/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/cache.py b/httplint/cache.py
index ca5831d..9110116 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -114,8 +114,10 @@ class ResponseCacheChecker:
             ):
                 self.notes.add("field-cache-control", STORE_STORABLE)
             elif "s-maxage" in self.cc_dict:
+                self.store_private = False
                 self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
             else:
+                self.store_shared = self.store_private = False
                 self.notes.add("field-cache-control", STORE_UNSTORABLE)
                 return False
 
-- 
2.43.0


From 4a66ecf859dca95d70a571ab6e0b3695aef0449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 003/112] fix: an Expires at the epoch still makes a response
 storable

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 9110116..39443f1 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -108,7 +108,7 @@ class ResponseCacheChecker:
             if (
                 "public" in self.cc_dict
                 or "private" in self.cc_dict
-                or self.expires_value
+                or self.expires_value is not None
                 or "max-age" in self.cc_dict
                 or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
             ):
-- 
2.43.0


From 21e5b9f88eb04f65f0dba55ce82b3e18963514fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 004/112] fix: report CDN-Cache-Control integer directives that
 have no value

---
 httplint/field/parsers/cdn_cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cdn_cache_control.py b/httplint/field/parsers/cdn_cache_control.py
index fe58dab..5d7a3bb 100644
--- a/httplint/field/parsers/cdn_cache_control.py
+++ b/httplint/field/parsers/cdn_cache_control.py
@@ -46,7 +46,8 @@ The `CDN-Cache-Control` header field targets cache directives to Content Deliver
                         )
                 elif value_func is int:
                     # Expecting integer
-                    if not isinstance(directive_val, int):
+                    # (a directive without a value is a Boolean, which is an int in Python)
+                    if isinstance(directive_val, bool) or not isinstance(directive_val, int):
                         add_note(
                             BAD_CDN_CC_TYPE,
                             bad_directive=directive_name,
-- 
2.43.0


From a22dad642e4b6b2cf235ca1243f566a9e1ac7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 005/112] fix: parse Cache-Control no-cache and private without
 a value as having none

---
 httplint/field/parsers/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..3db5d2e 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -114,7 +114,7 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            else:
+            elif directive_val is not None or value_func is not unquote_string:
                 try:
                     val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
-- 
2.43.0


From f202eca0ea343256c44aa7bb938ab292a750524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 006/112] fix: count every field line in note offsets,
 including ignored ones

---
 httplint/field/section.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..432c19c 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -39,9 +39,8 @@ class FieldSection:
             - calculate the total section size
             - call msg.add_note as appropriate
         """
-        offset = 0  # what number field we're on
-
-        for name, value in raw_fields:
+        # offset is what number field we're on
+        for offset, (name, value) in enumerate(raw_fields):
             add_note = partial(self.message.notes.add, f"offset-{offset}")
 
             # track size
@@ -76,7 +75,6 @@ class FieldSection:
                     field_name=handler.canonical_name,
                     field_size=f_num(field_size),
                 )
-            offset += 1
 
         if self.size > self.max_total_size:
             self.message.notes.add(
-- 
2.43.0


From 0bf63e9fa84692c5cfcc23b4183a4374fa285c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 007/112] fix: judge Date and Last-Modified once the whole
 message is known

---
 httplint/field/parsers/date.py          | 2 +-
 httplint/field/parsers/last_modified.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..751280d 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if self.message.message_type == "response" and self.message.start_time and self.value:
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 9ccce42..6192a2b 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -24,7 +24,7 @@ representation was last modified."""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
         if lm_value:
-- 
2.43.0


From 6adb0e063ea4655aa469ebdea24d3ead9fd3dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 008/112] fix: match From without exponential backtracking

---
 httplint/syntax/rfc5322.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..df59909 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -27,7 +27,7 @@ ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
@@ -39,7 +39,7 @@ comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
@@ -71,7 +71,10 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# Written so that there is only one way to match a run of atext; a repeated word
+# backtracks exponentially, because a run of atext can be split into words anywhere.
+
+phrase = rf"(?: (?: {CFWS}? (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) ){{1,}} {CFWS}? )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From 9dd52173a5353ffec4001b920b0b0179feaa177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 009/112] fix: make CONTENT_NOT_ALLOWED renderable and give it
 its text

---
 httplint/message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..b8fc37c 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -145,7 +145,11 @@ class HttpMessageLinter:
                     )
         else:
             if self.content_length and not self.no_content:
-                self.notes.add("message", CONTENT_NOT_ALLOWED)
+                self.notes.add(
+                    "message",
+                    CONTENT_NOT_ALLOWED,
+                    message=translate(self.message_type).capitalize(),
+                )
         self.post_checks()
 
         for section in [self.headers, self.trailers]:
@@ -338,7 +342,7 @@ class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
     _summary = "%(message)s can not have content."
-    _note = """\
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From 83cd19faf6e2dc04aff9ea1ed95d1d207196cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 010/112] fix: keep whitespace in field names so that they are
 reported and not mixed up

---
 httplint/field/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/__init__.py b/httplint/field/__init__.py
index 0f2afab..c684d52 100644
--- a/httplint/field/__init__.py
+++ b/httplint/field/__init__.py
@@ -98,7 +98,7 @@ class HttpField(ABC, Generic[TMessage]):
             cls._valid_in_responses = True
 
     def __init__(self, wire_name: str, message: TMessage) -> None:
-        self.wire_name = wire_name.strip()
+        self.wire_name = wire_name
         self.message = message
         self.norm_name = self.wire_name.lower()
         if not hasattr(self, "canonical_name"):
@@ -140,7 +140,7 @@ class HttpField(ABC, Generic[TMessage]):
                 return False
 
         # check field name syntax
-        if not re.match(f"^{rfc9110.token}$", self.wire_name, RE_FLAGS):
+        if not re.fullmatch(rfc9110.token, self.wire_name, RE_FLAGS):
             add_note(FIELD_NAME_BAD_SYNTAX)
             return False
 
-- 
2.43.0


From fcbc433c47658b299015429de652fdd99a8f8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 011/112] fix: don't raise on URI references and base URIs that
 can't be parsed

---
 httplint/field/parsers/link.py                |  4 ++--
 httplint/field/parsers/nel.py                 |  5 ++---
 httplint/field/parsers/reporting_endpoints.py |  7 +++----
 httplint/field/parsers/set_cookie.py          |  5 ++++-
 httplint/field/parsers/speculation_rules.py   |  7 +++----
 httplint/util.py                              | 14 +++++++++++++-
 6 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..90e545c 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -1,6 +1,5 @@
 import re
 from typing import Tuple
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
@@ -14,6 +13,7 @@ from httplint.types import (
     NoteClassListType,
     ParamDictType,
 )
+from httplint.util import target_scheme
 
 
 class link(HttpListField[AnyMessageLinterProtocol]):
@@ -58,7 +58,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                scheme = target_scheme(base_uri, link_value)
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..1654794 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -1,5 +1,4 @@
 from typing import Any, List, Set
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
@@ -10,6 +9,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import target_scheme
 
 
 def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
@@ -19,8 +19,7 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
+        scheme = target_scheme(base_uri, url)
         if scheme and scheme not in ("https", "wss"):
             continue
         valid.add(name)
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..d2864fa 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -1,5 +1,4 @@
 from typing import Any
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
@@ -10,6 +9,7 @@ from httplint.types import (
     ResponseLinterProtocol,
     SFDictionaryType,
 )
+from httplint.util import target_scheme
 
 
 class reporting_endpoints(StructuredField[ResponseLinterProtocol]):
@@ -35,9 +35,8 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
-            if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
+            scheme = target_scheme(self.message.base_uri, url)
+            if scheme and scheme not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
 
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..7e86e06 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -42,7 +42,10 @@ requests to the server."""
         ) -> Any:
             self._deferred_notes.append((add_note, note, category, kwargs))
 
-        path = urlsplit(self.message.base_uri).path
+        try:
+            path = urlsplit(self.message.base_uri).path
+        except ValueError:
+            path = ""
         return loose_parse(field_value, path, self.message.start_time, deferred_add_note)
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..4979c6f 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -1,5 +1,4 @@
 from typing import Any
-from urllib.parse import urljoin, urlsplit
 
 from httplint.field.structured_field import (
     STRUCTURED_FIELD_PARSE_ERROR,
@@ -13,6 +12,7 @@ from httplint.types import (
     ResponseLinterProtocol,
     SFListType,
 )
+from httplint.util import target_scheme
 
 
 class speculation_rules(StructuredField[ResponseLinterProtocol]):
@@ -35,9 +35,8 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
-            if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
+            scheme = target_scheme(self.message.base_uri, url)
+            if scheme and scheme not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
 
diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..fac2f49 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -5,7 +5,7 @@ from binascii import b2a_hex
 from datetime import timedelta
 from typing import Any, List
 from urllib.parse import quote as urlquote
-from urllib.parse import urlsplit, urlunsplit
+from urllib.parse import urljoin, urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
 from httplint.note import MarkdownSafe
@@ -27,6 +27,18 @@ def iri_to_uri(iri: str) -> str:
     return urlunsplit((scheme, authority, path, quer, frag))
 
 
+def target_scheme(base_uri: str, reference: str) -> str:
+    """
+    The lowercased scheme of a URI reference, once resolved against a base URI.
+
+    Empty if there isn't one, or if either can't be parsed as a URI.
+    """
+    try:
+        return urlsplit(urljoin(base_uri, reference)).scheme.lower()
+    except ValueError:
+        return ""
+
+
 def f_num(i: int, by1024: bool = False) -> str:
     "Format a number according to the locale."
     if by1024:
-- 
2.43.0


From 7bc9a24070c990a90d1db081f9a46547ab72b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 012/112] fix: report JSON fields that Python can't parse
 instead of raising

---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..c72beeb 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From 3774f029358b3e75b575502137bbfb146a3acfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 013/112] fix: render durations longer than a timedelta can
 hold

---
 httplint/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index fac2f49..80516b3 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -90,7 +90,9 @@ class RelativeTime:
 
     def __str__(self) -> str:
         delta_secs = self.utime - self.now
-        delta = timedelta(seconds=delta_secs)
+        # the furthest from zero that timedelta can represent in both directions
+        max_secs = -timedelta.min.total_seconds()
+        delta = timedelta(seconds=max(-max_secs, min(max_secs, delta_secs)))
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
         else:
-- 
2.43.0


From bcb19f831a7eff6f683660ef4d902433067fc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 014/112] fix: format durations in locales that babel doesn't
 know

---
 httplint/i18n.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..c9ae2b0 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -4,6 +4,7 @@ from contextvars import ContextVar
 from datetime import timedelta
 from typing import Any, Dict, Generator, Optional
 
+from babel.core import Locale, UnknownLocaleError
 from babel.dates import format_timedelta as babel_format_timedelta
 from babel.support import NullTranslations, Translations
 
@@ -55,7 +56,10 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     """
     Format a timedelta object.
     """
-    locale = _locale_var.get()
+    try:
+        locale = Locale.parse(_locale_var.get())
+    except (UnknownLocaleError, ValueError):
+        locale = Locale("en")  # as messages do when there is no translation
     return babel_format_timedelta(delta, locale=locale, **kwargs)
 
 
-- 
2.43.0


From e8e304811b95106b45469003098e77ae1255e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 015/112] fix: accept the input mode given on the command line

---
 httplint/cli/http_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index e9bbb5e..67ce06c 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -22,7 +22,7 @@ class HttpCliParser(HttpMessageHandler):
 
     def __init__(self, args: Namespace, start_time: Optional[float] = None) -> None:
         self.start_time = start_time
-        self.mode = args.mode
+        self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
         HttpMessageHandler.__init__(self)
 
-- 
2.43.0


From 51dc85873ab4f5b5f14d702a8482052e20d40eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 016/112] fix: read standard input as bytes

---
 httplint/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/__init__.py b/httplint/cli/__init__.py
index f0a01c0..8eebd20 100644
--- a/httplint/cli/__init__.py
+++ b/httplint/cli/__init__.py
@@ -11,7 +11,7 @@ def main() -> None:
     with set_locale(args.locale):
         start_time = time.time() if args.now else None
         parser = HttpCliParser(args, start_time)
-        parser.handle_input(sys.stdin.read().encode("utf-8", "replace"))
+        parser.handle_input(sys.stdin.buffer.read())
 
 
 def getargs() -> Namespace:
-- 
2.43.0


From 4c66fc6776c27ba5dcb77b34ecf2bbedaa2ea6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 017/112] fix: read integers in fields as their syntax defines
 them

---
 httplint/field/parsers/access_control_max_age.py    |  3 ++-
 httplint/field/parsers/age.py                       |  3 ++-
 httplint/field/parsers/cache_control.py             |  7 +++++--
 httplint/field/parsers/content_length.py            |  5 ++++-
 httplint/field/parsers/strict_transport_security.py |  8 +++++---
 httplint/message.py                                 |  4 ++--
 httplint/util.py                                    | 12 ++++++++++++
 7 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index bf87e72..116c868 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -8,6 +8,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import parse_integer
 
 
 class access_control_max_age(SingletonField[ResponseLinterProtocol]):
@@ -24,7 +25,7 @@ request (as scoped by the `Access-Control-Allow-Methods` and
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            val = int(field_value)
+            val = parse_integer(field_value)
         except ValueError:
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
             raise
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..624f863 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -7,6 +7,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import parse_integer
 
 
 class age(SingletonField[ResponseLinterProtocol]):
@@ -22,7 +23,7 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            age_value = int(field_value)
+            age_value = parse_integer(field_value)
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 3db5d2e..a308317 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -10,7 +10,7 @@ from httplint.types import (
     AnyMessageLinterProtocol,
     NoteClassListType,
 )
-from httplint.util import markdown_list
+from httplint.util import markdown_list, parse_integer
 
 # known cache directives; assumed to not allow duplicates
 # values are (valid_in_requests, valid_in_responses, value_type, value_type_str)
@@ -116,7 +116,10 @@ ignoring it there."""
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
             elif directive_val is not None or value_func is not unquote_string:
                 try:
-                    val = value_func(directive_val)
+                    if value_func is int:
+                        val = parse_integer(directive_val)
+                    else:
+                        val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
                         add_note(CC_MAX_AGE_TOO_LARGE, directive=directive_name)
                     return (directive_name, val)
diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..77d1470 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -8,6 +8,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import parse_integer
 
 
 class content_length(SingletonField[AnyMessageLinterProtocol]):
@@ -26,7 +27,9 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            value = int(field_value)
+            value = parse_integer(field_value)
+            if value < 0:
+                raise ValueError("Content-Length is negative")
         except ValueError:
             add_note(CL_BAD_SYNTAX)
             raise
diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..85c3dfb 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -10,6 +11,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import parse_integer
 
 sts_dir = rf"(?: {rfc9110.token} (?: {rfc9110.BWS} = {rfc9110.BWS} {rfc9110.parameter_value} )? )"  # pylint: disable=invalid-name
 
@@ -54,10 +56,10 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
             if name == "max-age":
                 try:
-                    if value is not None:
-                        parsed["max-age"] = int(value)
-                    else:
+                    max_age = parse_integer(unquote_string(value or ""))
+                    if max_age < 0:
                         raise ValueError
+                    parsed["max-age"] = max_age
                 except (ValueError, TypeError):
                     self._deferred_notes.append((HSTS_BAD_MAX_AGE, {"max_age": str(value)}))
             elif name == "includesubdomains":
diff --git a/httplint/message.py b/httplint/message.py
index b8fc37c..5c7af8e 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -26,7 +26,7 @@ from httplint.types import (
     ResponseLinterProtocol,
     SectionProtocol,
 )
-from httplint.util import f_num, iri_to_uri
+from httplint.util import f_num, iri_to_uri, parse_integer
 
 
 class HttpMessageParams(TypedDict):
@@ -291,7 +291,7 @@ class HttpResponseLinter(HttpMessageLinter):
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
         try:
-            self.status_code = int(self.status_code_str)
+            self.status_code = parse_integer(self.status_code_str)
         except ValueError:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
         if status_phrase:
diff --git a/httplint/util.py b/httplint/util.py
index 80516b3..784fb8c 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -1,4 +1,5 @@
 import locale
+import re
 import time
 import unittest
 from binascii import b2a_hex
@@ -27,6 +28,17 @@ def iri_to_uri(iri: str) -> str:
     return urlunsplit((scheme, authority, path, quer, frag))
 
 
+def parse_integer(value: str) -> int:
+    """
+    Parse an ASCII decimal integer, raising ValueError if it isn't one.
+
+    Unlike int(), this doesn't allow a plus sign, underscores or surrounding whitespace.
+    """
+    if not re.fullmatch(r"-?[0-9]+", value):
+        raise ValueError("Not an integer")
+    return int(value)
+
+
 def target_scheme(base_uri: str, reference: str) -> str:
     """
     The lowercased scheme of a URI reference, once resolved against a base URI.
-- 
2.43.0


From aa5e68c6529dbd86ccb2feb2ce301fa63bbbe518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 018/112] fix: report superscript digits in ranges and Max-Age
 as bad values

---
 httplint/field/parsers/content_range.py | 6 +++---
 httplint/field/parsers/range.py         | 4 ++--
 httplint/field/parsers/set_cookie.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..840b05e 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -92,7 +92,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        if not len_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
         return int(len_str)
@@ -108,10 +108,10 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
+        if not first_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=first_str)
             return None, None
-        if not last_str.isdigit():
+        if not last_str.isdecimal():
             add_note(RANGE_INVALID_INTEGER, value=last_str)
             return None, None
 
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..b692ff8 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -52,7 +52,7 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                if not first_str.isdecimal():
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
@@ -62,7 +62,7 @@ parts of the representation that are specified."""
                 first_byte_pos = int(first_str)
 
             if last_str:
-                if not last_str.isdigit():
+                if not last_str.isdecimal():
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 7e86e06..13c71d4 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -202,7 +202,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        if not attribute_value.isdecimal():
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
-- 
2.43.0


From ea73a9bb8e445a5860932d4d612fbfa4c38f2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 019/112] fix: match Content-Security-Policy without
 exponential backtracking

---
 httplint/field/parsers/content_security_policy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..7bdde0b 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -14,10 +14,12 @@ from httplint.types import (
 # directive-name = 1*( ALPHA / DIGIT / "-" )
 DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 # directive-value = *( WSP / <VCHAR except ";" and ","> )
-DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
+# Matched as whitespace-delimited words, leaving any trailing whitespace to what follows, so that
+# there's only one way to match it.
+DIRECTIVE_WORD = r"[\x21-\x2B\x2D-\x3A\x3C-\x7E]+"
 
 
-csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
+csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_WORD} )* )"  # pylint: disable=invalid-name
 
 
 class content_security_policy(HttpListField[ResponseLinterProtocol]):
-- 
2.43.0


From 2886567c36da7bfbe6654680eaf788c7e0a9e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 020/112] fix: split list fields without cubic backtracking

---
 httplint/field/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..9240d49 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -165,7 +165,8 @@ def split_list_field(field_value: str) -> List[str]:
         for stripped in (
             f.strip()
             for f in re.findall(
-                r'((?:[^",]|%s)+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
+                # capturing in a lookahead makes the member atomic, to avoid backtracking into it
+                r'(?=((?:[^",]|%s)+))\1(?=,|\Z)' % rfc9110.quoted_string,
                 field_value,
                 RE_FLAGS,
             )
-- 
2.43.0


From 0f52ddd065a86bfc94030235aadc08d7de89d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 021/112] fix: match parameters and ranges without exponential
 backtracking

---
 httplint/syntax/rfc9110.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..1fa55fa 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,10 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+# Whitespace after a ";" belongs to the parameter or, at the end, to the last (empty) one; otherwise,
+# there would be many ways to match it.
+
+parameters = rf"(?: (?: {OWS} ; (?: {OWS} {parameter} )? )* (?: (?<= ; ) {OWS} )? )"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
@@ -518,7 +521,10 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# other-range also matches anything that the other two do; listing them here would only give
+# many ways to match a range-set.
+
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 6335d5664da89dd18b2131379b9f72037f555030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 022/112] fix: don't call content undecodable because its
 sample ends inside a character

---
 httplint/charset.py | 36 +++++++++++++++++++++++++-----------
 httplint/types.py   |  1 +
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..269175d 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -80,12 +80,11 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     if not any(b & 0x80 for b in sample):
         return
 
+    # The sample might end in the middle of a character when it isn't all of the content.
+    truncated = linter.decoded.length > len(sample) or not linter.complete
+
     # Primary check: does the declared encoding actually decode the content?
-    try:
-        sample.decode(effective_charset_raw, errors="strict")
-        decodes = True
-    except (UnicodeDecodeError, LookupError):
-        decodes = False
+    decodes = _decode(sample, effective_charset_raw, truncated) is not None
 
     detection = chardet.detect(sample)
     detected_raw = detection.get("encoding")
@@ -105,7 +104,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         detected_canonical
         and detected_canonical != declared_canonical
         and confidence >= CHARDET_CONFIDENCE_THRESHOLD
-        and not _encodings_compatible(declared_canonical, detected_canonical, sample)
+        and not _encodings_compatible(declared_canonical, detected_canonical, sample, truncated)
     ):
         if is_implicit:
             linter.notes.add(
@@ -124,17 +123,32 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
 
 
-def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
+def _decode(sample: bytes, encoding: str, truncated: bool) -> Optional[str]:
+    """
+    Decode `sample`, or return None if it can't be. If `truncated`, an incomplete
+    character at its end is ignored.
+    """
+    try:
+        return sample.decode(encoding, errors="strict")
+    except (UnicodeError, LookupError) as why:
+        if not truncated or not isinstance(why, UnicodeDecodeError):
+            return None
+    try:
+        return codecs.getincrementaldecoder(encoding)("strict").decode(sample)
+    except (UnicodeError, LookupError):
+        return None
+
+
+def _encodings_compatible(declared: str, detected: str, sample: bytes, truncated: bool) -> bool:
     """
     Return True if decoding `sample` with `declared` and with `detected`
     yields the same text. This catches cases where chardet picks a
     different name (e.g. windows-1252 vs iso-8859-1) for content that is
     identical under both.
     """
-    try:
-        declared_text = sample.decode(declared, errors="strict")
-        detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    declared_text = _decode(sample, declared, truncated)
+    detected_text = _decode(sample, detected, truncated)
+    if declared_text is None or detected_text is None:
         return False
     return declared_text == detected_text
 
diff --git a/httplint/types.py b/httplint/types.py
index ea86437..255060b 100644
--- a/httplint/types.py
+++ b/httplint/types.py
@@ -100,6 +100,7 @@ class LinterProtocol(Protocol):
     content_hash: Optional[bytes]
     content_sample: bytes
     complete: bool
+    decoded: Any
 
     @property
     def as_request(self) -> Optional[RequestLinterProtocol]: ...
-- 
2.43.0


From d22de5d0854b699c7567a946f97a1d7cbedec4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 023/112] fix: recognise field name aliases, and don't mix up
 names with underscores

---
 httplint/field/finder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..283c586 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -9,11 +9,11 @@ from httplint.types import AddNoteMethodType, LinterProtocol, SectionProtocol
 class HttpFieldFinder:
     """Finds the linter for a given HTTP field."""
 
-    # map of field name aliases, lowercase-normalised
+    # map of field name aliases, tokenised
     field_aliases = {
-        "x-pad-for-netscrape-bug": "x-pad",
-        "xx-pad": "x-pad",
-        "x-browseralignment": "x-pad",
+        "x_pad_for_netscrape_bug": "x_pad",
+        "xx_pad": "x_pad",
+        "x_browseralignment": "x_pad",
         "nncoection": "connectiox",
         "cneonction": "connectiox",
         "yyyyyyyyyy": "connectiox",
@@ -70,10 +70,10 @@ class HttpFieldFinder:
         Return a module for the given field name, or None if it can't be found.
         """
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token[0:1] == "_":  # these are special
-            return None
         if name_token in HttpFieldFinder.field_aliases:
             name_token = HttpFieldFinder.field_aliases[name_token]
+        elif "_" in field_name:  # not the same field as the one with dashes
+            return None
         try:
             module_name = f"httplint.field.parsers.{name_token}"
             return sys.modules[module_name]
-- 
2.43.0


From fed7fa5be0bb0a4582ae4547a979862837b80a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 024/112] fix: report Expect in HTTP/1.0 requests when the
 version is given in full

---
 httplint/field/parsers/expect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/expect.py b/httplint/field/parsers/expect.py
index fe43ec6..bac8f7c 100644
--- a/httplint/field/parsers/expect.py
+++ b/httplint/field/parsers/expect.py
@@ -19,7 +19,7 @@ fulfilled by the server in order to properly handle the request."""
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.version == "1.0":
+        if self.message.version in ["1.0", "HTTP/1.0"]:
             add_note(EXPECT_HTTP_1_0)
 
         unknown_expectations = []
-- 
2.43.0


From dee2d9e8a930c50a626080c575d60b3be72267c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 025/112] fix: allow more than one character of userinfo in
 URIs

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..bb6c92d 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
-- 
2.43.0


From 7fe31f0bbcfea2387a8fe8c3dd96b5d2847b2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 026/112] fix: allow an empty path in URIs and URI references

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index bb6c92d..715bcd7 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = rf"{pchar}{{0}}"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 7f52947af872bbffb6d4b6653424832b0a37b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 027/112] fix: match IPv6 addresses that compress fewer groups
 than they could

---
 httplint/syntax/rfc3986.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 715bcd7..f88c611 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -75,15 +75,15 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *4( h16 ":" ) h16 ] "::"              ls32
 #                 / [ *5( h16 ":" ) h16 ] "::"              h16
 #                 / [ *6( h16 ":" ) h16 ] "::"
-IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
-                                                 :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+IPv6address = rf"""(?:                                (?: {h16} : ){{6}} {ls32} |
+                                                   :: (?: {h16} : ){{5}} {ls32} |
+                        (?:                  {h16} )? :: (?: {h16} : ){{4}} {ls32} |
+                        (?: (?: {h16} : ){{,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                        (?: (?: {h16} : ){{,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                        (?: (?: {h16} : ){{,3}} {h16} )? ::     {h16} :        {ls32} |
+                        (?: (?: {h16} : ){{,4}} {h16} )? ::                    {ls32} |
+                        (?: (?: {h16} : ){{,5}} {h16} )? ::                    {h16}  |
+                        (?: (?: {h16} : ){{,6}} {h16} )? ::
                     )
 """
 
-- 
2.43.0


From bd28ed0e432c6333bbdb2767349c89f32a4b9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 028/112] fix: match IPvFuture addresses in either case

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index f88c611..d79a018 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -88,7 +88,7 @@ IPv6address = rf"""(?:                                (?: {h16} : ){{6}} {ls32}
 """
 
 #   IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
-IPvFuture = rf"v {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
+IPvFuture = rf"[vV] {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
 
 #   IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
 IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
-- 
2.43.0


From 24f171deeae58c3060316819121f301239894db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 029/112] fix: match variants, extensions and private use in
 language tags

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 63a9bc169e8fd31e53fb64e4dc45333cfa7ad6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 030/112] fix: require a question mark before the query in a
 partial URI

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 1fa55fa..c74bdbb 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -265,7 +265,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
-- 
2.43.0


From 238715eb1af70386d436dfc896bc62d683ccbb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 031/112] fix: allow letters in From comments

---
 httplint/syntax/rfc5322.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index df59909..a8c3def 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,7 +23,7 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-- 
2.43.0


From 6f30b7c3b36c1a1f89751da2f632a36a271996e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 032/112] fix: allow whitespace around = in Link parameters

---
 httplint/syntax/rfc8288.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc8288.py b/httplint/syntax/rfc8288.py
index 3f654f8..75d3cd8 100644
--- a/httplint/syntax/rfc8288.py
+++ b/httplint/syntax/rfc8288.py
@@ -12,13 +12,13 @@ They should be processed with re.VERBOSE.
 
 
 from .rfc3986 import URI_reference
-from .rfc9110 import OWS, list_rule, quoted_string, token
+from .rfc9110 import BWS, OWS, list_rule, quoted_string, token
 
 SPEC_URL = "http://httpwg.org/specs/rfc8288"
 
 #  link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
 
-link_param = rf"(?: {token} (?: = (?: {token} | {quoted_string} ) )? )"
+link_param = rf"(?: {token} (?: {BWS} = {BWS} (?: {token} | {quoted_string} ) )? )"
 
 #  link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
 
-- 
2.43.0


From 618ecfd029550832723f29df1e48a036db142ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 033/112] fix: allow nested comments in User-Agent, Server and
 Via

---
 httplint/syntax/rfc9110.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index c74bdbb..9696ae4 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -567,7 +567,10 @@ ctext = rf"(?: {HTAB} | {SP} | [\x21-\x27] | [\x2A-\x5b] | [\x5D-\x7E] | {obs_te
 
 #   comment = "(" *( ctext / quoted-pair / comment ) ")"
 
+# Comments nest; a regular expression can only follow that to a fixed depth.
 comment = rf"(?: \( (?: {ctext} | {quoted_pair} )* \) )"
+for _ in range(9):
+    comment = rf"(?: \( (?: {ctext} | {quoted_pair} | {comment} )* \) )"
 
 #   Server = product *( RWS ( product / comment ) )
 
-- 
2.43.0


From 6f81e982ba8b1695e19f03b85085bc6ebd881cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 034/112] fix: keep the parameters of an authentication
 challenge together

---
 httplint/field/challenge_field.py            | 26 ++++++++++++++++++++
 httplint/field/parsers/proxy_authenticate.py |  4 +--
 httplint/field/parsers/www_authenticate.py   |  4 +--
 3 files changed, 30 insertions(+), 4 deletions(-)
 create mode 100644 httplint/field/challenge_field.py

diff --git a/httplint/field/challenge_field.py b/httplint/field/challenge_field.py
new file mode 100644
index 0000000..6a72866
--- /dev/null
+++ b/httplint/field/challenge_field.py
@@ -0,0 +1,26 @@
+import re
+from typing import Generic
+
+from httplint.field.list_field import HttpListField
+from httplint.field.utils import RE_FLAGS, split_list_field
+from httplint.syntax import rfc9110
+from httplint.types import AddNoteMethodType, TMessage
+
+
+class ChallengeField(HttpListField[TMessage], Generic[TMessage]):
+    """
+    A HTTP field that lists authentication challenges.
+
+    Commas separate both challenges and the parameters of one challenge, so a
+    member that's a parameter belongs to the challenge before it.
+    """
+
+    description = "Authentication challenges."
+    reference = f"{rfc9110.SPEC_URL}#challenge.and.response"
+
+    def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
+        for member in split_list_field(field_value):
+            if self.value and re.fullmatch(rfc9110.auth_param, member, RE_FLAGS):
+                self.value[-1] += f", {member}"
+            else:
+                super().handle_input(member, add_note, offset)
diff --git a/httplint/field/parsers/proxy_authenticate.py b/httplint/field/parsers/proxy_authenticate.py
index 96587be..be28037 100644
--- a/httplint/field/parsers/proxy_authenticate.py
+++ b/httplint/field/parsers/proxy_authenticate.py
@@ -1,9 +1,9 @@
-from httplint.field.list_field import HttpListField
+from httplint.field.challenge_field import ChallengeField
 from httplint.syntax import rfc9110
 from httplint.types import ResponseLinterProtocol
 
 
-class proxy_authenticate(HttpListField[ResponseLinterProtocol]):
+class proxy_authenticate(ChallengeField[ResponseLinterProtocol]):
     canonical_name = "Proxy-Authenticate"
     description = """\
 The `Proxy-Authenticate` response header consists of a challenge that indicates the authentication
diff --git a/httplint/field/parsers/www_authenticate.py b/httplint/field/parsers/www_authenticate.py
index b1ace16..ee9c4b5 100644
--- a/httplint/field/parsers/www_authenticate.py
+++ b/httplint/field/parsers/www_authenticate.py
@@ -1,10 +1,10 @@
-from httplint.field.list_field import HttpListField
+from httplint.field.challenge_field import ChallengeField
 from httplint.field.tests import FieldTest
 from httplint.syntax import rfc9110
 from httplint.types import NoteClassListType, ResponseLinterProtocol
 
 
-class www_authenticate(HttpListField[ResponseLinterProtocol]):
+class www_authenticate(ChallengeField[ResponseLinterProtocol]):
     canonical_name = "WWW-Authenticate"
     description = """\
 The `WWW-Authenticate` response header consists of at least one challenge that
-- 
2.43.0


From a8a23028e68e22350199a7047cd97872b8f8d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 035/112] fix: ignore case when looking for 100-continue in
 Expect

---
 httplint/status.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..84115de 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -57,7 +57,9 @@ class StatusChecker:
         status_method()
 
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
+        if self.request and not "100-continue" in [
+            v.lower() for v in get_header(self.request.headers.text, "expect")
+        ]:
             self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
@@ -241,7 +243,7 @@ class StatusChecker:
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-            if "100-continue" in expect_headers:
+            if "100-continue" in [v.lower() for v in expect_headers]:
                 self.add_note("", STATUS_417_WITH_100_CONTINUE)
                 return
         self.add_note("", STATUS_EXPECTATION_FAILED)
-- 
2.43.0


From 9e7b875084e0221aa7cd62941f342b6a705486af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 036/112] fix: don't look for a method called request in Allow

---
 httplint/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index 84115de..c410c47 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -172,7 +172,7 @@ class StatusChecker:
 
     def status405(self) -> None:  # Method Not Allowed
         method = self.request.method if self.request else "request"
-        if method and "allow" in self.response.headers.parsed:
+        if self.request and method and "allow" in self.response.headers.parsed:
             if method in self.response.headers.parsed["allow"]:
                 self.add_note("field-allow", STATUS_405_METHOD_IN_ALLOW, method=method)
                 return
-- 
2.43.0


From ff3ba661aa5103f04a292f0ee221b75f079073ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 037/112] fix: convert only the host of an IRI with userinfo to
 its IDNA form

---
 httplint/util.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/httplint/util.py b/httplint/util.py
index 784fb8c..997284a 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -15,13 +15,16 @@ from httplint.note import MarkdownSafe
 def iri_to_uri(iri: str) -> str:
     "Takes a string that can contain an IRI and return a URI."
     scheme, authority, path, query, frag = urlsplit(iri)
-    if ":" in authority:
-        host, port = authority.split(":", 1)
-        authority = host.encode("idna").decode("ascii") + f":{port}"
-    else:
-        authority = authority.encode("idna").decode("ascii")
     sub_delims = "!$&'()*+,;="
     pchar = "-.+~" + sub_delims + ":@" + "%"
+    userinfo, at_sign, hostport = authority.rpartition("@")
+    userinfo = urlquote(userinfo, safe=pchar)
+    if ":" in hostport:
+        host, port = hostport.split(":", 1)
+        hostport = host.encode("idna").decode("ascii") + f":{port}"
+    else:
+        hostport = hostport.encode("idna").decode("ascii")
+    authority = userinfo + at_sign + hostport
     path = urlquote(path, safe=pchar + "/")
     quer = urlquote(query, safe=pchar + "/?")
     frag = urlquote(frag, safe=pchar + "/?")
-- 
2.43.0


From 6fe7a72078926d4f0a3285575214f1526054c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 038/112] fix: keep URIs as they are when converting IRIs

---
 httplint/message.py |  6 +++---
 httplint/util.py    | 43 +++++++++++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 5c7af8e..a2fd30e 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -222,9 +222,9 @@ class HttpRequestLinter(HttpMessageLinter):
         except (ValueError, UnicodeError):
             self.notes.add("uri", URI_BAD_SYNTAX)
             self.uri = iri  # hope?
-            return
-        if not re.match(rf"^\s*{rfc3986.URI}\s*$", self.uri, re.VERBOSE):
-            self.notes.add("uri", URI_BAD_SYNTAX)
+        else:
+            if not re.match(rf"^\s*{rfc3986.URI}\s*$", self.uri, re.VERBOSE):
+                self.notes.add("uri", URI_BAD_SYNTAX)
         if "#" in self.uri:
             # chop off the fragment
             self.uri = self.uri[: self.uri.index("#")]
diff --git a/httplint/util.py b/httplint/util.py
index 997284a..4c2fd0e 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -6,29 +6,44 @@ from binascii import b2a_hex
 from datetime import timedelta
 from typing import Any, List
 from urllib.parse import quote as urlquote
-from urllib.parse import urljoin, urlsplit, urlunsplit
+from urllib.parse import urljoin, urlsplit
 
 from httplint.i18n import format_timedelta, translate
 from httplint.note import MarkdownSafe
 
 
+# RFC 3986, Appendix B
+URI_PARTS = re.compile(
+    r"(?:(?P<scheme>[^:/?#]+):)?(?://(?P<authority>[^/?#]*))?(?P<path>[^?#]*)"
+    r"(?:\?(?P<query>[^#]*))?(?:#(?P<frag>.*))?",
+    re.DOTALL,
+)
+
+
 def iri_to_uri(iri: str) -> str:
     "Takes a string that can contain an IRI and return a URI."
-    scheme, authority, path, query, frag = urlsplit(iri)
+    parts = URI_PARTS.fullmatch(iri)
+    if not parts:
+        raise ValueError("Not an IRI")
+    scheme, authority, path, query, frag = parts.groups()
     sub_delims = "!$&'()*+,;="
     pchar = "-.+~" + sub_delims + ":@" + "%"
-    userinfo, at_sign, hostport = authority.rpartition("@")
-    userinfo = urlquote(userinfo, safe=pchar)
-    if ":" in hostport:
-        host, port = hostport.split(":", 1)
-        hostport = host.encode("idna").decode("ascii") + f":{port}"
-    else:
-        hostport = hostport.encode("idna").decode("ascii")
-    authority = userinfo + at_sign + hostport
-    path = urlquote(path, safe=pchar + "/")
-    quer = urlquote(query, safe=pchar + "/?")
-    frag = urlquote(frag, safe=pchar + "/?")
-    return urlunsplit((scheme, authority, path, quer, frag))
+    uri = ""
+    if scheme is not None:
+        uri += f"{scheme}:"
+    if authority is not None:
+        userinfo, at_sign, hostport = authority.rpartition("@")
+        userinfo = urlquote(userinfo, safe=pchar)
+        if not hostport.isascii() and not hostport.startswith("["):
+            host, colon, port = hostport.partition(":")
+            hostport = host.encode("idna").decode("ascii") + colon + port
+        uri += f"//{userinfo}{at_sign}{hostport}"
+    uri += urlquote(path, safe=pchar + "/")
+    if query is not None:
+        uri += "?" + urlquote(query, safe=pchar + "/?")
+    if frag is not None:
+        uri += "#" + urlquote(frag, safe=pchar + "/?")
+    return uri
 
 
 def parse_integer(value: str) -> int:
-- 
2.43.0


From 0e3f627c6cff75fb1489de3a990719d15a1ff85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 039/112] fix: compare the Referer's origin without regard to
 case, userinfo and default ports

---
 httplint/field/parsers/referer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/referer.py b/httplint/field/parsers/referer.py
index 8cf8a48..9227de2 100644
--- a/httplint/field/parsers/referer.py
+++ b/httplint/field/parsers/referer.py
@@ -1,4 +1,5 @@
-from urllib.parse import urlparse
+from typing import Optional, Tuple
+from urllib.parse import ParseResult, urlparse
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
@@ -9,6 +10,17 @@ from httplint.types import (
     RequestLinterProtocol,
 )
 
+DEFAULT_PORTS = {"http": 80, "https": 443, "ws": 80, "wss": 443}
+
+
+def uri_origin(uri: ParseResult) -> Tuple[str, str, Optional[int]]:
+    """
+    The origin of a URI: its scheme, host and port. Raises ValueError if its port isn't usable.
+    """
+    scheme = uri.scheme.lower()
+    port = uri.port if uri.port is not None else DEFAULT_PORTS.get(scheme)
+    return scheme, (uri.hostname or "").lower(), port
+
 
 class referer(SingletonField[RequestLinterProtocol]):
     canonical_name = "Referer"
@@ -32,6 +44,8 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
         try:
             parsed_referer = urlparse(referer_uri)
             parsed_request = urlparse(request_uri)
+            referer_origin = uri_origin(parsed_referer)
+            request_origin = uri_origin(parsed_request)
         except ValueError:
             return  # Already handled by URI syntax checks
 
@@ -39,9 +53,6 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
             if parsed_request.scheme.lower() in ["http", "ws"]:
                 add_note(REFERER_SECURE_TO_INSECURE)
 
-            referer_origin = (parsed_referer.scheme, parsed_referer.netloc)
-            request_origin = (parsed_request.scheme, parsed_request.netloc)
-
             if referer_origin != request_origin:
                 add_note(REFERER_SECURE_TO_DIFFERENT_ORIGIN)
 
-- 
2.43.0


From 39044145055978b57b99c1eb383fc21cf03ec038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 040/112] fix: allow commas and semicolons in the target of a
 Link

---
 httplint/field/list_field.py   | 10 ++++++++--
 httplint/field/parsers/link.py | 15 +++++++++------
 httplint/field/utils.py        | 10 +++++++---
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 183f00f..11d99de 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -1,6 +1,6 @@
 import re
 from functools import partial
-from typing import Any, Generic
+from typing import Any, Generic, List
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
 from httplint.field.utils import RE_FLAGS, split_list_field
@@ -20,8 +20,14 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
         """
         return field_value
 
+    def split(self, field_value: str) -> List[str]:
+        """
+        Split a line of the field into values.
+        """
+        return split_list_field(field_value)
+
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        values = split_list_field(field_value)
+        values = self.split(field_value)
         i = 0
         for value in values:
             offset_add_note = partial(
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 90e545c..8758474 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -1,10 +1,10 @@
 import re
-from typing import Tuple
+from typing import List, Tuple
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import PARAM_REPEATS, parse_params
+from httplint.field.utils import PARAM_REPEATS, parse_params, split_list_field
 from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
@@ -26,11 +26,14 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
     syntax = rfc8288.Link
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        return split_list_field(field_value, rf"<[^>]*>|{rfc9110.quoted_string}")
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-        try:
-            link_value, param_str = field_value.split(";", 1)
-        except ValueError:
-            link_value, param_str = field_value, ""
+        # a semicolon in the target doesn't end it
+        target = re.match(r"(?:<[^>]*>)?[^;]*", field_value)
+        link_value = target.group() if target else field_value
+        param_str = field_value[len(link_value) :]
         link_value = link_value.strip()[1:-1]  # trim the angle brackets
         param_dict = parse_params(
             param_str, add_note, ["rel", "rev", "anchor", "hreflang", "type", "media"]
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 9240d49..5268d6e 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -158,15 +158,19 @@ def split_string(instr: str, item: str, split: str) -> List[str]:
     return [h.strip() for h in re.findall(rf"{item}(?={split}|\s*$)", instr, re.VERBOSE)]
 
 
-def split_list_field(field_value: str) -> List[str]:
-    "Split a field field value on commas. needs to conform to the #rule."
+def split_list_field(field_value: str, opaque: str = rfc9110.quoted_string) -> List[str]:
+    """
+    Split a field field value on commas. needs to conform to the #rule.
+
+    Commas in what the regex ``opaque`` matches aren't separators.
+    """
     return [
         stripped
         for stripped in (
             f.strip()
             for f in re.findall(
                 # capturing in a lookahead makes the member atomic, to avoid backtracking into it
-                r'(?=((?:[^",]|%s)+))\1(?=,|\Z)' % rfc9110.quoted_string,
+                r'(?=((?:%s|[^",])+))\1(?=,|\Z)' % opaque,
                 field_value,
                 RE_FLAGS,
             )
-- 
2.43.0


From 3ba4c9e1a06788b76224a62e8f5853591d7be6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 041/112] fix: ignore whitespace after the disposition type

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..94a91ca 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip().lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
-- 
2.43.0


From b56980b3ce52e7bc848644663c7cbfeeb47f846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 042/112] fix: look for both path characters in both filename
 parameters

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 94a91ca..b35a10c 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -39,7 +39,7 @@ the file, rather than display it."""
         filename_star = param_dict.get("filename*", None)
         if filename and "%" in filename:
             add_note(DISPOSITION_FILENAME_PERCENT)
-        if (filename and "/" in filename) or (filename_star and r"\\" in filename_star):
+        if any(char in (name or "") for name in (filename, filename_star) for char in "/\\"):
             add_note(DISPOSITION_FILENAME_PATH_CHAR)
         return disposition, param_dict
 
-- 
2.43.0


From 67a4450a4024c6c39de0058cf601444e1c587408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 043/112] fix: don't check the content of any informational
 response

---
 httplint/charset.py      | 2 +-
 httplint/content_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 269175d..044a30d 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -41,7 +41,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 646e2b4..eb5822d 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -22,7 +22,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
 
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From d5ea4a8d634c5d6a41c92b26feb0744b50283020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 044/112] fix: don't call content mismatched when there's none,
 or nothing to recognise it by

---
 httplint/content_type.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index eb5822d..3aabf9c 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -3,6 +3,9 @@ import sniffpy  # type: ignore[import-untyped]
 from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 
+# types whose content always starts with something that sniffpy looks for
+SNIFFABLE_TYPES = ["image/x-icon", "image/gif", "image/webp", "image/png", "image/jpeg"]
+
 
 class CONTENT_TYPE_MISMATCH(Note):
     category = categories.GENERAL
@@ -17,7 +20,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
     """
     Verify that the content matches the declared Content-Type.
     """
-    if not linter.content_hash:
+    if not linter.content_hash or not linter.content_sample:
         return
 
     # Don't verify content type for responses that don't carry a full representation
@@ -40,6 +43,10 @@ def verify_content_type(linter: LinterProtocol) -> None:
         # If sniffpy fails (e.g. invalid declared type), we can't verify.
         return
 
+    # Nothing matched; that only means something for types that sniffpy can recognise.
+    if str(sniffed_type) == "undefined/undefined" and declared_type not in SNIFFABLE_TYPES:
+        return
+
     if str(sniffed_type) != declared_type:
         # workaround for https://github.com/mnot/httplint/issues/112
         if declared_type == "text/html" and str(sniffed_type) in [
-- 
2.43.0


From 47b25e7014c4af629717f837c8bbc30e670e0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 045/112] fix: don't call content mismatched for starting with
 a byte order mark

---
 httplint/charset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 044a30d..85af625 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -144,13 +144,13 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes, truncated
     Return True if decoding `sample` with `declared` and with `detected`
     yields the same text. This catches cases where chardet picks a
     different name (e.g. windows-1252 vs iso-8859-1) for content that is
-    identical under both.
+    identical under both. A byte order mark isn't part of the text.
     """
     declared_text = _decode(sample, declared, truncated)
     detected_text = _decode(sample, detected, truncated)
     if declared_text is None or detected_text is None:
         return False
-    return declared_text == detected_text
+    return declared_text.removeprefix("\ufeff") == detected_text.removeprefix("\ufeff")
 
 
 class CHARSET_MISMATCH(Note):
-- 
2.43.0


From 8524c1d9c59a6201f0f1bf9bf3b8d0a857785d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 046/112] fix: don't take a backslash in an entity-tag as an
 escape when splitting a list

---
 httplint/field/parsers/if_match.py      | 7 +++++++
 httplint/field/parsers/if_none_match.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/httplint/field/parsers/if_match.py b/httplint/field/parsers/if_match.py
index 992b882..a15116a 100644
--- a/httplint/field/parsers/if_match.py
+++ b/httplint/field/parsers/if_match.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -16,6 +19,10 @@ having a current representation of the target resource."""
     syntax = rfc9110.If_Match
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # A backslash in an entity-tag doesn't escape anything.
+        return split_list_field(field_value, rfc9110.opaque_tag)
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
diff --git a/httplint/field/parsers/if_none_match.py b/httplint/field/parsers/if_none_match.py
index 02d90f4..2f55310 100644
--- a/httplint/field/parsers/if_none_match.py
+++ b/httplint/field/parsers/if_none_match.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +22,10 @@ any current representation of the target resource."""
     category = categories.VALIDATION
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # A backslash in an entity-tag doesn't escape anything.
+        return split_list_field(field_value, rfc9110.opaque_tag)
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
-- 
2.43.0


From a2d340c6d31a467407bcd855884bb2ea143afe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 047/112] fix: allow nested comments in From

---
 httplint/syntax/rfc5322.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index a8c3def..f77dc35 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -35,7 +35,11 @@ FWS = rf"(?: (?: {WSP}* {CRLF} )? {WSP}{{1,}} )"
 
 # comment         =   "(" *([FWS] ccontent) [FWS] ")"
 
+# Comments nest; a regular expression can only follow that to a fixed depth.
+
 comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
+for _ in range(4):
+    comment = rf"(?: \( (?: {FWS}? (?: {ccontent} | {comment} ) )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-- 
2.43.0


From db3ebf0763d73c53a7aa18c750edf4d97aca16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 048/112] fix: allow empty directives in
 Strict-Transport-Security

---
 httplint/field/parsers/strict_transport_security.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 85c3dfb..1dc79c2 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -22,9 +22,8 @@ class strict_transport_security(SingletonField[ResponseLinterProtocol]):
 The `Strict-Transport-Security` response header (often abbreviated as HSTS) lets a web site tell
 browsers that it should only be communicated with using HTTPS, instead of using HTTP."""
     reference = "https://www.rfc-editor.org/rfc/rfc6797"
-    syntax = (
-        rf"(?: {sts_dir} (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir} )* (?: {rfc9110.OWS} ;)? )"
-    )
+    # [ directive ] *( ";" [ directive ] )
+    syntax = rf"(?: {sts_dir}? (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {sts_dir} )? )* )"
     category = categories.SECURITY
     deprecated = False
 
@@ -45,6 +44,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
         seen_directives = set()
         for directive in directives:
+            if directive == "":
+                continue
             parts = directive.split("=", 1)
             name = parts[0].strip().lower()
             value = parts[1].strip() if len(parts) > 1 else None
-- 
2.43.0


From e99ff3a593893a2ead1c42443805b6149b83c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 049/112] fix: allow whitespace at the end of a quoted string
 in From

---
 httplint/syntax/rfc5322.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index f77dc35..c954f92 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -49,7 +49,7 @@ CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* {FWS}? \" {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -78,7 +78,7 @@ word = rf"(?: {atom} | {quoted_string} )"
 # Written so that there is only one way to match a run of atext; a repeated word
 # backtracks exponentially, because a run of atext can be split into words anywhere.
 
-phrase = rf"(?: (?: {CFWS}? (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) ){{1,}} {CFWS}? )"
+phrase = rf"(?: (?: {CFWS}? (?: {atext} | \" (?: {FWS}? {qcontent} )* {FWS}? \" ) ){{1,}} {CFWS}? )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From 57f2a43b4f8a3faaef968a49424bacce86d5ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 050/112] fix: don't take a control character for whitespace
 around a Content-Disposition parameter

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index b35a10c..0e578e2 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -21,7 +21,7 @@ The `Content-Disposition` header suggests a name to use when saving the file.
 When the disposition (the first value) is set to `attachment`, it also prompts browsers to download
 the file, rather than display it."""
     reference = "https://www.rfc-editor.org/rfc/rfc6266.html"
-    syntax = rf"(?:{rfc9110.token}(?:\s*;\s*{rfc9110.parameter})*)"
+    syntax = rf"(?:{rfc9110.token}(?:{rfc9110.OWS};{rfc9110.OWS}{rfc9110.parameter})*)"
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-- 
2.43.0


From eba665d98638a851aa44bc75f0f70331ccdb3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 051/112] fix: don't take a Content-Length of -0 for an integer

---
 httplint/field/parsers/content_length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 77d1470..668448b 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -28,7 +28,7 @@ store the response (since they can't be sure if they have the whole response).""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
             value = parse_integer(field_value)
-            if value < 0:
+            if field_value.startswith("-"):
                 raise ValueError("Content-Length is negative")
         except ValueError:
             add_note(CL_BAD_SYNTAX)
-- 
2.43.0


From 1e51221ca01ed18ab073a8f9f71a080d4fed82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 052/112] fix: report Content-Length with Transfer-Encoding in
 either order

---
 httplint/field/parsers/content_length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 668448b..5d358e9 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -37,7 +37,7 @@ store the response (since they can't be sure if they have the whole response).""
             add_note(CL_TOO_LARGE)
         return value
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if "transfer-encoding" in self.message.headers.parsed:
             add_note(CL_AND_TE_PRESENT)
 
-- 
2.43.0


From c68cc62daff9fa412e8dcbd5efe87859a2c2810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 053/112] fix: allow whitespace after a coding in
 Transfer-Encoding

---
 httplint/field/parsers/transfer_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index f4f1366..790902f 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -39,7 +39,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             coding, param_str = field_value.split(";", 1)
         except ValueError:
             coding, param_str = field_value, ""
-        coding = coding.lower()
+        coding = coding.strip().lower()
         param_dict = parse_params(param_str, add_note, True)
         if param_dict:
             add_note(TRANSFER_CODING_PARAM)
-- 
2.43.0


From e44ef06ebf97641f01e2c3a81e94d5ced91665b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 054/112] fix: allow whitespace after a coding in TE

---
 httplint/field/parsers/te.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index 830a2a0..010e538 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -26,7 +26,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
-- 
2.43.0


From 17d7574f5a2697c2010d058010a38edd90dd2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 055/112] fix: report every quality value that isn't one in
 Accept and Accept-Language

---
 httplint/field/parsers/accept.py          | 5 +++--
 httplint/field/parsers/accept_language.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index fd2c048..191c8c4 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -1,10 +1,11 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_media_type
+from httplint.field.utils import RE_FLAGS, parse_media_type
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -48,7 +49,7 @@ acceptable in responses."""
                 q_str = param_dict.pop("q")
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:  # 0.123
+                if not re.fullmatch(rfc9110.qvalue, q_str, RE_FLAGS):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c86f6dd..3317be6 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -1,10 +1,11 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import RE_FLAGS, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -45,7 +46,7 @@ preferred in the response."""
             try:
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:
+                if not re.fullmatch(rfc9110.qvalue, q_str, RE_FLAGS):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
-- 
2.43.0


From 7e9e6657af965fc64acb117a2f38780b42e2f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 056/112] fix: name the language in the note about its q value

---
 httplint/field/parsers/accept_language.py     |   2 +-
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173719 -> 173723 bytes
 .../translations/es/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177180 -> 177184 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196564 -> 196568 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |   4 ++--
 httplint/translations/messages.pot            |   2 +-
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155217 -> 155221 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   4 ++--
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 3317be6..dd5273c 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -68,7 +68,7 @@ preferred in the response."""
 class BAD_Q_VALUE(Note):
     category = categories.CONNEG
     level = levels.WARN
-    _summary = "The q value on '{language}' is invalid."
+    _summary = "The q value on '%(language)s' is invalid."
     _text = """\
 The `q` parameter must be a decimal number between 0 and 1, with at most 3 digits of precision."""
 
diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 4c32bc3a11bf844a27ba614de667dda188e516e0..77c1948f59f78fae2ef327a91e0c5734a66ec4e1 100644
GIT binary patch
delta 6520
zcmY+|cVJFeAHeb7IX0!*8VQ1E5{XS>&qRn(F_I=oLqaR5+M9|8C8^k>QBr%fMweMy
z)lzDfDn)f@YrX1iYZR^G{r>KG{(1lU+}}BOocp_HJ<sCf#q*CB|Da$gUxbJpdB%u(
z2UD<e86&Yc0UP38Y=D1ZI);~Z=jEbacLf_^>2gNuV;ok;@u>Byum&E*DtH&GV!86h
zC(m)vxV(`LI1RPpIO+p`$EFw@U?c!jFc?Q+Ma;vpxCQIrA&kU(SQTpq8d+{cp2KM3
z-zvC<)~@Ip_F_e!k$P0jp&$(R`n`hPiAz>8UIY80#+$J#KEh5IA7rEwE<wG12X@9E
zFbX3o8>xkTurkg>&CEvB7eD3WAd!PARoo3mVKw4>)Ej(?+Q8eGh9OmrG{@<fho56@
z>>2DnSvIyKK8m~WscJ@YG{#k!@T`&X_!l-NGrplAM)pzgcBqjo92jQgNh+?Pw)lQ^
zm-6!AMha5i6!pzpMHm^2GjJiA8b(^;8yJt@;B~B4)5sYtS<Bt$SJW3QRNKgQo-g4X
zY@y&sOvCwgjI_a9s2PZ?Yosk^Vl-~XR`@&i#M<>-inCG6xBBB-s12=B-$*hJMD5J`
zQ15#mQ+dABZeXMf1vBw^JdeGxZlsZL%th@~Td_4>#Wq+y%1C?6#5jB(b@bdr%|t>&
z*U9E%H{y@|@e_@VJSLNkum#VTMonCAABi!<>rvn2KYqiT(rLIL1GNEjn;993Cs2oJ
z>*lT@(@-;V6m>L&v~Vw$fO_9mSROC=%l}26eydI`-8Wl;`bO6<3G23Uakk&%*n;vh
ztzBliV<_<i)ReA7ZO|Fi-d&-MYd{8S{dUw$UPt|;m7^K|eR;Ef(MEdUz8E7nsVEz3
zBo~Xcb2nUo`k=Ge1Rr7uHfnF=9H!uHjEXZ-9K$;pnTwIA58jVDOz)#+rff$e|MI-p
zjy@x=Q4rnP$TA8J;6>v8UEE9-8*gMI@fg$w1$Q-a2sh(I9No=`;ksM+E%BZ1MmFJ5
z-lh<aO)ydzv+yWR^T*v1jT9kH_W2L`Vo?e*{P8fH%Z<mO&V)si+&s|S?;zBSEJID@
ze$?JwB-xd>M19l#*bWz<_NjAt&5D%oX=Em`Pg0DG;9wT&36D`Hm{u<^LEr>jhg<MH
z?3wB;(#Oaw8n^?WrMzvLo7*!`*MJ<<QLqbjg1U!wF*M!X_j!Dz&!5e~F)C*DbKkUA
ze>a{dAstyZA^lOVzG!4Hh7NGOcwvU??VC_DQ83dzs0QkA?1?pTC29tbp=RhY24KUN
zHA9TQcn)?`kcEi_M4AjVQjB;uPYcAws44ys!|*TEZ&zuEo5?~@GZlxri1~0E9zyM;
zSwoGC!qwP|7bri>NIvoK;S6K?pOhToZkRRFNDvj%u_~^?ZG5XQus7$8AHy5r>9KS|
zl<`JN;^7G_%Xs!xIvqC6auZbRNk&$3+GGr%JeY^|AZ|99Hz%HrzC;Q>nZguI!BbO7
zC4TXmk&%>NpJwDB_L=Thwa{$WnTDfIG&@nhb?F?pR>Yu=|8(q3!`GwM-<sh@Pe`tj
z@3{Z_m`;7}EXF@smm718aE>I+BNJ3yoX<BTzP8ZKboJhF6Vgi5<@6o~QXi7%CZbl0
z-MXHEovB}rt*F0_kr=UrhG6Pacir54`U3HWw@3;7PJUwWYYJml7@5Eg)~+=26joVf
z<UH2LpQtaf+Q=p1-`2QJb#kqdY~ljz+`b?e?{MCCsF^+SwvmAt@(xosFE$sOYWYT&
zsbaoOMkY}Zk1ybHOvM_T-3?zyU6jtD4$C_4x+!@eMiGCAx+Yvfof*U4a}De3cLC}!
zJb?Pi3cPQmBffyW(6^og-Mh&L?!?A^M`L%2x1z3Ig+6q1cM|Fvkc;}@FHuKF5js#=
z-n=vF1Jk#<d1D1GCvLaRJ@^u~C$6*I>!dyz&4J!%2iCy5sEbnY4wtH7sKaX`Hp5>~
z&kx$^OvM=DWqvQBHt^Yx+;wTF6Wg1pJE^mNi|*2LAH#(Mtr&;857>Y@f!sr#v0CqT
z^+Rzu@k-o^Pk-!Eeh_tnd5oQ~!6)w1WTCEhTTt(N1$FpE?Qspx!8SZ!j&PvEq{OH0
zK`l`mFa(ov2WkdN?RCSiJth#(LY;aqqP{@E&s+u@qGl)!HPtIoGjtWTFV*<moi`bM
z`i7f0(9UxKHC1KyxfCW~SK@i7^%qeWlfeDXzNj<aI@ApOjynE>zi>OB0e<KC-Hm#m
zOQ;PBI>7kXUY~Zr-Ea@;4~7B<-8ip}dO>g04aGv#OkG4x?bBbn2e(IEWX7Xj|2FE2
zeT_Qj8>UOmP-E2Lmx<b!Rv+@YRQy1JUQqO~kyo(^Y74iaHsBuWo7X$y9D~8cpP)`i
zKcY@NC5}3iQLkHrn$ho3?^p4d%WNO4M4a#AK)>}zsBa+0-J($kbuCChZP;+s7Oz5G
zx4%d28<}6ZIsP*&$?!`*VdMzqLr)s%kIlX|@+L0FIoSA=k=OAcu0dbdZ;YJc;5P2o
ziqkHha>i}P6TfwCN8J;aJ8R@69E`d)e1mOp={Yy<FQ7Iw@Vv`FBIXg#MjbUF-?^R8
zIizp-WbFml$?o7hPKf=U8}KG)uo9O3(M{2{e=<^zc-}?V(6@g!@-pZ5`^9a&j$u(t
z%70}s;=Ik5jeJG@(JMyI;?k=|*5Zh3ZWS&6AGUt<KWTfNMT85!{LR~u$e%YDUc`U=
zm%SUd{lmy%F6{KDk%w63CgYp(r*9eALmYS8$RaFs$4%u+aRYJSU+%j7s59W~yGGu{
zTKC+V@f}{%@t=O54F@;u^tbydmH3a5?<v2A`mGK;F!Bq=|LZQS|Io<S#2?`T%zb2J
zH3mI4vL8Rg&v2Sp@26QiW4%v%9*6UsMb=6N^@R&s@!jEI2nV~ce<3T0oDfvlN+}${
zTFj&-Q^;#3^(~8Ad4TJYIZIZTuwLg%E9q|dH)>}~FJ--r$3K`(od2ZtcE1mCAfM=P
zX)B*#)HBv68@SQUveuh8^2=M9#RV5}3=R&k-d5=nYVVyKXuak3$qH5)aa|q`ru=wC
zD{ZiOCF@PK6Oqm(N3b_m2y*dgJWYH6h3l7A_E|6W`BkhuL&3VLR&H^^u3)PRqHL~a
zz266^A=aBfe#QaRKOJi2eH@RP%7`%Qt$OoO*ZUK=7@JkM-X}SQI&Aa8t=BiIMeqW|
z$9x=|<e)$eQi7*(BF?XAWjdCsWo11s!e!XJwtJ)V_=q^Fj`ccUWL;N&2z69EThGdI
zoQ+>%N_{K$wY-6qWL~UNq?PAMf^Srm^|oF|8d-^^BC(0}cBy$yU1t7l=2G=fb1Uy~
zg9k0Fw>Mnd(t2C0fL7L9WRlt5<WRpHb1|%ql{fH1)J_~1ZM{)*5;cQ`+FJd|=957j
z=(tXcbq^fd&U!Q1l=fD%bIy(9n^HfmgOw0G)zQjRc(0T7HXOyCvr>z=N*C+>UU)9v
zb>7#zy6YBqvl37J<?hxkzX>#)`{rO{UH=bq5Kh4()ETaNqLqC(2~)W+nmjGS6-m}x
zR-<}aZ=D~7t2l2j>gt!?OK-@h!qRvQbxQvMbrCAj+jY`t)OaeU==lGL1KshINul%c
zp#E5gI4RY7JEG}+KR`|01=Q6rrjPY@I&)DMn`1Z@3-z@!1hY^Zb^~?qSS8JRTeTFd
zLA(NeH90uKfwuH6hG9s$JE1dnA|8Xfu78fzuy8+8juEIgPQn0OfVyaH!isnp%i?9!
z<@y1(z`Fgd_dnpE{*3>fyzwjw5~+xN$=z@XYD3PTrs`kRPt;(5%S;NsNSurP@DJ>c
zJu<Af>a9h+U(rnK?FUj(UoZ#ba69U!dYI{RDQft#d$UZ`4aQ9Di+fNX6vVWp<8>;A
z;x5#b|Ae}+2zbTHIP8egxDR!)DLBYIcmuX4KI^ygU^g$k<l{gmhKM27`_Z@^vxx@|
zWqgvEo2cVBZn&Ed%8np~l;>k0<>y9PZx47&rM%oI>uuMYjpo}@KNB}%i81cm@4#f@
zf3OJW`+AJ^#-a2c$MB*ee!NTdNIXyc7VgC{6Rf;~jb619gR4<9a2d5TR-Wkk$}6b#
zJMek@8?`fc&2kNxgt|Z2hY33VA9B!(g6@;tg`2P)@$WbYqxeMH;#H`h<ZslSO|QwW
zQ|&?RR5wu@QfG=A=dYq(_Z8~>!=}0!axz8}U%*JsQP68{+;>ME7VltF%gzS%O-g3F
zH|T~Ph<&Jw%OTW;2IRP9wGVbCKKZ)!e$rK%;Tn*S-6+3}x){agx`wa79{P>G;UE^n
zW?Jtr*H<u|I2ZN88>lyKIm<Z%Q;E-@&Kr@lUGJZYdj4tD;TAf_4bxtz8Olb@#D3K4
zg67gkx^OUvgSNQa?<3Umn0d_Ibdq^E5d#-6zA<m1Tj#eea+&Dzh8wQSup`%ffl*j0
z&&pkFiw(K1*<vdth=;vty?@CjzRCEHrXYNYn=l5VcB*V-Qk1<ohq%I9Y&^KZ27Ch7
zEqC+6mKAQ)T*KEmZ`n#K7ch908$}OM_kz<_Te(d6nl)}T%~)%_f7_DRHD(x4k+#ly
z|88euapJ-2UHLdHMm*VXE*2(Uw6$3EuWvjN8a^m}NXF>&jF%!t?!5Gj35qdIa%_^>
RX_M@{BL83gR;qo_;eVf+Hh};D

delta 6516
zcmYk=cVJIf8^H1B9II$igb*oWiy1Su62x91qDDlNNY$uNQNd56A{DE4Uc^j|4wO<_
zd(^0wwy5!HtEjfxDxy^JexG}Of4qNv?sLxXo_p?d&q|h^DzxNOp)Glf_^OG>i4sO?
z;2rFb<w_c9ixaRB?!hp;iwRgY!2K=*^}cJ^7>krLQXivG+f6~OUx_vGIF`qISOH6x
zHa_XXMWfP2I$#=V#Yxl$-okJ!A7~^H`(i~*#vojX0k{S0;8ARVxmW>flrfTRL^@$4
z@h@dvM?-^L#|8)ajMSrI76nytkKbz;O<cH~@j4iX8gIhx_%C+CF2P31;S$vQw_|6#
zgblIU3r1?;0DJ-8M$OCy)E7VP<06KO;PS44WDFtBLT%tP)DHfIgD|9mk!Cmz7vnyx
zjj<KoCwmK{h>zngEE-~DhQ_!WqbnJC1MgxJGUFRr*~mc(a;g}aj7e3E6s6(@YLD+%
zb14s~ZX_?|O;F#wc?}~eI0F~pQ*40?Y8vT=XYg075NhNs7Ov&m`4RO6^VBx-G0&H(
zTzo{qWgLWa>llf^+o&0+U)M+*OvFgsge~zFzJ#ImT#Da9E#K;oZ=-fJxW17-n1ni*
z_oKFZALDqwgoYXEO2OOM8_#1utlhv!b<98=R9mqXUdITm($GjdOvLv10qX3@Ma@KX
zBR9zAVh`e7{<u(MBTva>Lu}6TrD0Py+Q(pP;&rHR^0VKn;S3sX7>e3~*)JLyji*qj
zX^UpABWb7^IgUCTLYli5i$-mCC6>mk{_=m&r{AhW3-`^IpuW)!jK$h5UHq2clh~Z{
z;;md}x?>gM38*Q}M(xlysG~bD!gXLMYW+6UOx{HOq~#)+|M9%pphzP<aer$ge^F7Q
zt&y3SFUmDI5A{K3u_->n%Gj`-k?*iC-o>!?Mhaoo4o2o;ebfgZK%J)dQ8QDbqmh4k
zUh9rNBhx5o)!E1j3J&29#0g#9O4hoYkxj(oP&-t<yOCqK2`Ay$9!3oJ-NtjoccP8F
zhsSxFeE51VBl$5EPhy%s?iORD0C8`h{~`{bp<t*#9))vhcs%M#m_OF71L1y$qh@3o
zYAO$)j_!PYTzNCpH%-7OoQFE5&f!ff67Z6dOk&@YenyhHnAzX`;4$g~(|iC61Wv#l
z+=3rsY@9RSKqIs0;C8G;dE_9swhu+!1E!<Sf}N-fR4&%VN(rvrUid`ke<l}SP%(3`
z`=)(fcJp}>GLU5>G9Kmn5F;b8QlcBh?+kOJeIsfnY?6CWb=2t?i=mi}n!yvO8G4L?
z*x(h-5c97K7rQA)#h5%IjfWd4NSw*j%HSf@6mLdd<L{z=yRxI)N*02esVLM<Y%*@g
zqo{*4b+nOjxC;C70s*fXSw=j14AYqLCxw$;gQ;VU1XD2$E8uF}&bK;<d?iU4&l};_
zDGWk<GQr4m`1wS(Wjve8pu;AU-2&BOijh^cGX(=FFVDkz5;vX7n-gcEFNT8MZ?Xha
zP&AEH;=yS~#!`OsEh9&9z;w5(RZ4e*X*B9W^D*kTE;7UI6%nZOKOQ^N@pY*6x8HWN
zCuF9Pi?sg%CQzR-i}_F1<<~hz_>IKOBNJ3yd53REd}D!I>FO+U3sN@fcAAT9=@PQo
zEkw<ixP5&ncBXzgwxs?hHo$6GbOihV$K5x38DoKX{c=*mxRd`f`89<RD~(K~fi<g)
zJdeSvja<OG_&xOn*BH4*{L5N5sJ>ihB%RpgxN|`U-s5-Qp=S2fdLzRzWCKe#FE$&)
zwS1GyQ~}?6My62E1qa|sjKk{hy9U!yH>Go^)3VkFZb?qUhQymu_k?SxD`VvkUB}}5
z&O@DshfqJ6*=(dE_QSsDTgQc--JYQSu+bLhSd1p#in@E{+3MEr7}Px=1NFg2P-jOz
z22cQR-VwE(_-$_8Sb^EZZMM4yU&VIBwLbO+sZYjop$%=vns^U&Q!2m1rD_!F^xA+g
z;t#0558CPMkFAN9`MrYL!HS=_`v#(}e2Y;}QfK|<-=*a~rVAHZF&_0CupV^*$wghU
zTI_c9BXJCIHg3aWpSqMEMqOYYV<)Wlnfo-UsJq=3)ON3-PQS1{uEWzYg6GRIE_9j{
z-0L3H47CFzun%rW&A_w!-1KXUy@+R`F1=S!U%>8n8Ek->p@FEW&PL79b=0v`{eb)3
z6!hsEZsbA-&jr*}6+h@w7>(VD=b+YKLETJBA9BW_u6S!vGjI!a{+B=OPCi5Y&hh&R
zYCBg^I}~(;`LCmX;1Sp0r>K80n4@l<hoau_66%5C9n?%+K}~J3&)tLDqHZ!NsQ2ff
zzSvi&YyMNz3^iie)ajRqI+j))^SM-9qCjuRf80naHb(8?N2ndhMSb%+C!FK3BJpn2
z1?e*C!c*|1vp4E}t5Gw05w*QCU%1Q;z;eV{J}&fI??8QnC#ai7ty69<h(_($Xw)9B
zMBTS9qK=KkFWnly7oTJL#eZew1mz=78+jR<o-wi%m*X64^tF);JdA76*Yz7CUvu#n
z?$(NLUF<vSj^jPgIk%yn2}_<gG8A7$-5bte1TOu~&HD?e9W8yqWuPZ6CeB2iH6a(>
zN$4ChwtTYYk{e`qa2`KseVGP$lW(vb7P;b<=+N(tlp>z<gX?I{k49eM_k*swqt^+1
z#**@%*o^qyrt3z&r2hB~Bj<7H&qmhaYd7648t@B8KgOR#{>mo84M%?SP9*ZjEv6Uo
z@4s_)!^l649OuRkw~ai;;(sx}DKB=%$R6UTyG9mbo_lU7Uy2)vOXs@#4xp}pnfHx+
zfHnVid&YNoQ|EvD0}dQC*x{l3Q>y1bMlMr+1NB=SdSv7(cKO%cSog7!GsHV^K4v^I
zvIc{m8aae}aX+Ss_5L(#W32aS&*K=LGv8VnMt$DAR($uk7{SFZOvq;?h93mww^9UO
zV=rb=6CZg^qP|%nE01s;vS!Ju!qyvH1D|sZ{*5}=;)_`C;PC(xh_i}X@AUf!hx3U(
zFJ|R43@c%MvXO@V46xq9kyYBtEN-}h<MGu%>m8M@qK@7vWvsW|K3CRCWA0msBPl-_
zWF-Q_%UN%!ornxBIfnf(FxbUo@mu0UDBQpF1)ud&pH<#U2@2L$uyThV?5t>ojZZd(
zSnuzH{*|q_fP9aM)EBE_WizIrrm|X9>+O1TQTO{(xCEP4v)(5;jXG@?R=3{Rs8E9!
zAU@&a;xregCMm(MaT3lAwK5%_t!3q1oR2FoytaFz^Z0}~td8{tU;VnS{3z<Is94X+
zDa^#rv2T4V541eYN*`XVYy&I3NrErAq4kbl#~NFSq@rh2>zz^;hP%xC@uExBgJxDX
z(7?my);k-nX<@x1R;iZO+hlrkyqQ7$a-4~kBdjdK&8UMoD$;th=1bHJ=4oT~Pd1+n
z=R)W8z_#vzuSZ#LCG)kjqJwjGd%h|4X&tOo#?u|GJde4Ztasoj(8WqE;^3~<`+K2N
zH#d0GySw`q^{~>7`k$h$+kSh|aoU}ZO?3Z1%tdty{zYBks>E11h?6jm8(Wd5g}5Tt
zdfRH)OV-=xlW{e_+k?9M#rM?)`BYd8PoOU8mrysMg8keeZG{?7#r`_~cW|L6p5px(
zd^{)t>k!ApxsFZ4n#Av;rtUoIZrF05^-emOsGH3(OhFTGWfZ=F+OeCcXUCvH);p^8
zL2Yjt`a-!l%7ymy4pzkq3GN5&u@iAJ>b|}QL(mQ;<yZx^;hq?Xb1)d!V-Oy}0Q?bk
zyZ#%SW9ZA)`#)gP%gq0sym1BvF;qkhbqy{;?Z_F_R6RibM0FBfX8Pa|;&dF0zhN|X
z8)m&-Zxw2Ld6TSn9_Wkug43`)Zbki650iW@MfG2CZ#D$=fH4E(aTn@?%CKzde4T<-
z@MF}JUqU@tlzi371dPH++>5%|$O!k~9BfDUjo-2(-MWzA<3bmPDx<9TN8?sZCr%vA
z{3J8Kqt4?tW88Z1d@?Ddd<mAJ{M)hCI|KfqQeJ$V^^WU}U+3FWKLa;mf${F!e}sLA
z?_&Xe@9UQ0%|nTu!1SV`(;F_;qwxaqQrw5h6Ro_8VX0PHV>W6AencINWhc3@G7Po;
zBkYa2sDrulWY>X-sON*d*h}aCLoWJK&~=KtaXm&6|B5599-l~iyaM%;<f5KzdQWwO
zY8UFD`W>|+HQ#jeJO%Z>6R7Qnq`4Jx5=IiA#|E0CGSl3=?}|Dt)?v8i@QC^*1=HOd
zbioe9si>RFVbqS6oZ+_Be%P7#iwx`iNf-FG>%bE1LHVDkn^D9}*YRc8Q@_zyT(rfI
zOzZv2br>cPr=#9@6Sd*+S<dMgM|=i#-Kaa;js7X9zdwyS-73y;)3i5ghSE?ou@CjW
zGIJRtUAai&q7Clw`wwb)%XzHb43b$m2?ORczj6Kox6f}`=rYl9k(;hr*pd78V?!*o
z*vfrug^jqc@e(VAiAOB8-has^EM@*jQcyX|Ef|TYgDMSK6y;N#LtJV(2M-#^!Dn%G
zwp$lIT<K=bHJrxpvQ}BSgu$!bEP9A~7M!}q%5}<Du646%`a0|Vx2;!B6Q%(b19GhQ
z-|Zn-i1?LvUHLdHNIc1JI_4*yx2<5cGq(z*jz}0a?Dd3ULnrUNQNjebHce*ajWs*-
Q#@cxW{=afnoPE^ce@6E-_y7O^

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index 4955c31..f10c43a 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -2443,8 +2443,8 @@ msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "El valor q en '{language}' es inválido."
+msgid "The q value on '%(language)s' is invalid."
+msgstr "El valor q en '%(language)s' es inválido."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index fe2ae280141c28d569bfb18726ea2d64895380a7..0e69aa2dbcf9c958350bdbce58c8c10a14b654e1 100644
GIT binary patch
delta 6520
zcmY+|d34TK8o=@AUbWQTu}dcrK_n5oSV|=Jpkj@XT2dlJ?fcTcc4{xRRcou7(%7P?
zQH+>w(NJ5BsUQ`kYSgH$tuo)|ci(^JoSgHy&;4z8zxU1i`9(M77v1whNne<VWR)?Z
zKENalENi3<PQ^xe4C~`VOvak!+<gmCpSy`sSh~ECde|OAaSH17%@~d+F$f=F6)a!D
z_@pz5#ubcoz&WTFvQa;H7n@>mMI#k434?Jw2H<KehZ$HKzs3gm7^`4JB_kV*NN0>C
z{<*R%Xk>sZ*x&%4k-A)1N=6Ml=JzIcBQEi>@d`KqHBQHPe1;vd%U_MWjO$RJKY*Pu
z2ODBoppjbG9|Lg_YRl|Et@v3ViJl~ag4_$nV^!kys4qB*TEJg%AXckl<Q1HYtMNES
zVq&oCvU%8+_#_^}m#P|>uQ6`M9wA1i;6rRo%lJlBGm=Th->MsV6VqxKDaD0+)Dk}l
zbxmHOrjZxOZ;D#;=rALb@NHa)CfrC1T!mfm9NxyN5k@XxiCXSG*HJ52Fw)3=zArUN
zWRP(M2jV-mjl|%6)D~z^$4F}&im{lE(RddVF|w{};(4g~`~2~J)Pe@pGtwK=PzQ4+
z>U*DHKfW)K^^Lqr#v<&6m#{C^X<(!#E<_zv`>-Y6!Wax~Xrvtu#rC)xb@n_)ZHXR@
z+#q`gyAmJv$Hk+JJf|h2usPqCs3vZ-kHc2P+fZxrli!+688keQidukW&5Vq~)2P$5
z<twfrb5L94B<gIa*4$OB2kLt_V+G9f=RZZC_EpCguFuw?)+iqnuuim#=lRXX=H!=c
z=~|{6Rwtf{+N7IM3v>Z>bXSgX1xQ7`z8|$EZ=-f;U@Y^005y9()<}2EY-QxXTqxJZ
z$U-dK*1d2A>W4036Z{jaVN^RK|H35v6&toUQWR@;FtQ9ApnmuS>NI_V+A`(hj6CIg
zZQ^`JW|I-y$;by}e1X@92fgZ6vNm0e>>!?qTA<)~BVS`WPR9vdjToN0kKYqN=w{>-
zJV|W|;-nr%3gMf066g5iu04$uChqO?Ck9{<GE)8VXk5yRC!?-}g%ey&n)w}ty0mUZ
zZR%5~O&ieLEimz@>%=6C!F|{rAD}6~5}oKO?u$!u3q&@?aYL`y+-Tj1IxFs>)+oB4
zYl+)_SM_H>p@1>;pU#pW2f7w3mh1}B0%OP@gSrA{U>&@Qx<HkBoh6*{C%s5~t2YjE
zn?&?r*H^=kR+o9$8ZV?!Vyu+v_JR+Fy3u|BwNFb8b1f8&T9I+6E9Vi^mbi<$mxQMo
zDS?Brna=;QB=(T86X()2{f8TQkvMOpn=W@zo4C*@SCby7eK!MjP%c1SSazX~{yfaa
zu+grI9^(w+;4!XCx1hFYy>YC#j6caCp&v||;FiV|3?p8EM=VW;{K@Fa)EIA0G4chr
zoMxmr7JSoqv*<5xu@?}J<)u1}H_f1ZiEm*=Or2$95cxA`Mkbo%p-&f#(78swB4Y;X
z3p&g<GM@a23yge&KckL?{cpR4q`*SA(zU~8<ZnT3i5%3Gu)rcCJt%l5)Oh0(w^`l7
z-+2F9jO;#KpS+y;&ogp%g%JuT{oZAh;lj05Mi_T;V~vp^yr9)OH+r{YDDhJ)&-H5W
zxk2^HdbchN#|~WIii}VB4>I7TGjqEoZr#8xi+LMaVX@d|+Giq(j$4e-Epq%rw+lA-
zh+U8u?Zta|94l*AY%_9$IQwHa*!FEVvYt2}b&Sl}!QkS)GZ;sFHQmTa4BN?WO8#1m
zBtE#?UBBTYF^!Bmd+0;_1p8yLy{-?_P&cE!s7+lw!!4cdQAhV8)V}^4^$1pApBtpj
z{HCI=nD1g&%*I#@{M5}J-#`+&*&Oow1a-PJ-tYE+ahOD$g<60b2iyyiQJeZh)SBPH
zKw7ZrK{xLcKQpqN{B^hz!w<Ov97P=yrT*@1&pzo*LQAv-bs@<^ePM~iu5bHdW8#IV
zn@=X{{m-#A#(wVh_qnJGOAhMx8*;=wmyEh=u0x&wmr$QCb5!qR{`VrGOXo_|ru+)E
z?@AtX(=gHRESySyIv&H&f4CRkLT&os<L<dc)E3=>x-R6Ro+~P3x})9*)PiPWd%iD4
zPPjF`E7l;Mje5fl?1T4EKhW`?ZkwLz_dC>GFz5?67~5b3@f6hOKSEuQenxGPx?dVe
z!I7wg@I3nTyl$EN+B6MOn|`D}K8ziSAELHU%-8M|JRW-ze~J2mfN$K|KM-SxSD;qp
z9BP;Tj=J`TWVtca1GP(*W-<TcNt_}>ZwNf;=64s=6>uWz=-q_+z$MfgR{GWzxGic0
zd{`a#qJHoq)<Vg4&qt!ZZwP8dm;3XxvVCsTDR9a)ac$J;nBtFfQ9n@ev>SXKQ42C3
zgYYZVmbrxq81S8&R%1~Q9w$-9fShr&D$4Iz3?O@#kA#lmEYub#dDhh=8bgQ&qt5dM
zs4Z~_bz0p=otCrDdB<qEij|putIiwwj{H3r+{!ugdn3Dv^YMLLd(kb$js9ii@5H`u
zNn9r}|B{hAIQ-v6?qcE(?tI_=GAktUG3<g-Iqt)A@icKRcE!C{T;JNO&K9T#m&v#a
zKfxmyd(B8LK1ZJONp7xtLH!?%tl+|IOrs{{uQQl%W}e#%GH=j_#6h==oZ!B=e7CKZ
z_{kM~DaNtHPP<K$bKe(tj9lctKmKFn3ZA=b<Zqbq3oXj^zW1mg<4+d-*KG;~e&t-w
z4dD;m2g4s4c|bh>k&)v#{jrfJ82yAn$O{_(X5=jKpx@nLGwKib)9OoHMt;mw*W}-!
zo*hU0>3)(u!P&$a&-n4`<3&-=-A}I0V&yX~yk@Ld;&Rr?65<E=GtMety@SL^w#Z||
zzu*SkUC?^Jpt=;Ya+%l^wqDJz;D^Kqide4#eP6WRX7_SYD}%{jS<H&>PZCc^9Kc7#
ztqh|;JK4f2Vueyx7}!#`w3Rfj%U`VM{lk&9Lxz=cAE;Z-N;3K9Q3qR8c`MuSCicfA
z6|9`XJNO}8bhx6G92^i}eX@-gwP0_I=Z3r>E8DSQ6)U6h3U0*sVC$U&enDND6RKLN
z#dDi*GI4f@^%kmj)vPy2-$7lVu3;)Rs_qK%0e(aL6zlN(mo<D=N|SgLYNZku4zu1Y
z2oATxIFXVOR@U*rvs%_$2i8Vf8AzOkdoiN6l`)uuy2QrUvGO`DK`r<_)G@NWu9dYo
zsGgN{e2TiMZTHo;-p}t`JWj^e2G-kThBTyah;uOmlN(vtgk_^#P4?q+jT>9pqBgPe
z8Xm;*8aH)gAp*}47ingtC>6SlZ{V$0=xVya*RzF{<zyUfX{8;;$66VRt6NzqgwI=B
z?*vq+t*g;ve2W*ZX=i05*UPuJ-hVvicCg;4KZ9EEWai@An2U>Wct<Nux&JZh;H%f!
zN*g`@uO^{=@x!auo0rAntv9`zcXfkpXg9_N*N1d>gYp0;%ksphds=zOi*ELE&tFck
z-kGj=qLruQcjAQEiTgVAwbB9KO|srfoAa9Ms^EUw1r&7viMl+n27BYzn1faNyV>vz
zr}2WJ1E~S|dC6{&1-@?eKNvCsb+ZW>WWAG9SA2<hF^1p<e|{#mBz}fb7(JLls!cV4
zgdU}`keMfCQv4-MbuS*^cQFp*zC)OZAw#XV&rio#;!K>6FVL~-V$=ecO|ue%T~O~^
zhGBRHec>ejAfYW#W4M*d*c)}59gF>N1L{8i6#t5`Z&+__AAoVhD=-KzV^zHm12JfX
z_5R@yje2%W!1nkK>iw5SF#p-G<To<(1E)s08_SHg-Z{Su>h?Jib$?GsE!bIP^N?q#
zN4EGeuIpB#t|ND`8%B?HEwCK509n`>3yyR7-N!Ni>yWXS3@!QRsQdO+)P<w$c<UXR
zrlaQnh}E#d1lL8)Q42T~r{EsciiA(J-X=8)>k&7Y<XS2P^+dHB&*Set5;{#zPqwlT
z`%JMi6H83x!?esYyg~eMnw2&9!*nZy$RGEnEAYj)T#NjU(d6rbrd^gY!^#9afjhA2
zOxIF*m`ofoi!R`P-x3l+V&`ltRk*Ngj%)hUc!c;dX5#+2ZV#9|&-LMT)FzFXZ@u4!
zLr~8LpP~-t0t?)SI%9p}UDye8QCGgmx4nY;B!z^Q=mcuhRbS{#!{NlcaVQ2XqUJaU
zHO@yJ-Q5<u7casD;)|$jf9)mK`$aVy_5IgTPfTr>x>>LpqjmmYC!r5kU1q&g>l9=h
z$|lqglwRTHbw|{}H4l5?_kL@wWND@aXQ8%0$SNzda4ZhQhp2s?u-Yxrn^9Zf87Aob
zk6PnuyaaW6okgwTJ?xHs*1Fv<9rb5;nRTuv$*9xs2=>6j@3|E&33X6zL>=50umu)e
z?`BDB96-DteSJv$K_V7=z3=*V4QgLq#Vyn<;sYy-@ze$@B{6A}^?uW(ZFV(#hN0Xa
zx5Z7bF{m{>ihBPeY=Q;1vI&tN{gL(l8y5Ew^Ir!`xouX0u|GD)8AxU22(Bki*lvYW
znB2$W_|qqDIzCFba+K>4JFR?-xA8iz++}4cPTKAEltO!~TqAD0*UDk6m|?yDxSY>u
z>=IYVD8Y;Ku?ROj+GoB0@jOS33xDb?jfIFS?Rzow%$?%ZYrc^@GIc_7YD(C+gL!4l
Z%dJe4`6j^}GzoUZOaFg)a;n|h`G0WaO~?QM

delta 6524
zcmYk=cX*Fi8^H1V9HSK!wFx055qm_f5HVwm5tJZ^QN&hiJT|FWO4=G#U4&Mws<uk!
zi<BBwZG&its;bvaTczIb{hZ$)?{($6KIcBqI{TboHeU<ca4jf3?^9m5h#V_!Bm(bX
ze+({Rqzz8PhIkO`<6TU|u#)b+C8*C`!DsQQQby`wTh#ZyfO`E6td2)91n*%bEK%Bc
z(wRiV(nex&9_ob*)DPakCKyu2NEz&hm2o1L$5*f<rekgV1{>ggtb`F|jchU^9WjRZ
zw{otaHOjk!4Jq##smq0BWQ5_tfLAb%xL~mH3z&c!r(rjIh#j$W1tY<jiu(Ls?1Y&Z
ziQyHE)WiW;5mQiGW-DsNPkJPJk*E;jUN8|uiC;r~!KbJNyp4k~w33l#I3L&HA*_Y*
zm0g!Dz_!Fk@c<SHHL_S^d=ulIF)|(RVk26{8(YQ57i7Fs)yOOy8D^vi7p|g~I5*ri
zdC6)<@{->OwdPR~Mqa?hxCS3%b6iv1NLM_C*RfI!BWJN-P4}K(P%D_HmXUpYU&2W2
zCgVH~#+9{=w8UGeEl{tHk=8gIV=xU{;0^4HHR`%1UVxgvD-hp8Eog;$M*84L)WLih
z^}V^6!1tv_eIs4SNWtEC4xhtX4UAO7C8&dH7e-?aw#2HDM%v+UY>)4w&Yt_IEfLqy
z4YHNko%lc?4tmzeV_Gs2qxil=Hg=<Z0=6Q48?`3C1`KP$py7ce)B-GTYGfQ9N1dk4
zo4JC_Lv4|xsIwt7%2g~5^}TOkY0M7fKR{3WDz>@nvsBa?UB!5;)xyOK0%l+o`A<i?
zmg$C7iKn49=_b?yok1PlWm>udB%xm4gW8hUP`flZhWS5;nhlOI(gP2-GIE;>#oHKp
z3G=meFI<KCp|jW+|G_F4+0Mw1*bnbw{q{zJFf7){O00+a;m=X0X)bEZ6z^c<A>V7&
z!80<SjOb2AHj?orULsEH;#RU&U5%s>Pev_JNH-%#Fb!wor0zxx&)vcwi0{N1*^Wo4
zO+K8`(@1`tff+b25O?im<O$;5ULcWxPm+-oh?8*zFP@6J66T9{HEA4hEb7v_1+}Ta
zMQz%$ecS@m1$CX6f-P|u_P{%6@~}krbrtv8_je0K26o_vo&(%y-H19XZlcyGD#5kH
zwSa2|vY=4F7WALal1qbKixo(81!;yY$sdQh0;Xdfynwnu6&}J8&iIp_B)-)fhq_H7
zYMAS*5lE}c0&I<Ek|;5j9^v+a^&{PA-;3I(g-5v-ibAc(1k{!D6V#Ttfx4Ged)`Q4
z9D+@C{*Nb-PR4dzNYe}$ZKMEkcCwo;H&B~6?>JYJIMlwIjXEe7p)M>tP)C0@9>?(U
zu8Z#D9O94(u1hzgwrHJ6thkIn$t0m4>^H?NjYBblco817G#&CM$<wGYUYTy>YivHl
zNFmHK%lNaX=xp`^;_<vxr}3sav@dZEmcgWXMuw6<n`UI9Nj7@AU{qab<UeH0MtwoM
z#YQHRKY59fqxc)@SlE-|783K4Tj|<hQ}Q>XwnQfCN@$iE=}EympvD`QyUi*G|K|NO
z8QJ}~K6MrIpJ(LcY9ka*`oF>^!-b1$jWF)ya;lNxyrAW4ZuGu~;lvNH6xTyvcY~_Q
zdbci&!dR|vLB^;2jtqF|$lQ*`Et}Y7G5ZZxSS;`+?K71`>=q+*iyV5(?Sl2*VHe~@
zJMk7C!gAUb?;6P=&e-Y(+pcX!))QYv9V7G77+l=<9d;nTu)|0)hQH5lO8z>mMZ9mP
zyMEatF@ua+>GUCP!+}^}m+QlksGHGF)TR#F?Uv5AsG~atwXZ)$J%X7%Zjd$(n1s4w
zuEy?|fiW1o*UcVpAPL=U_6N*Goh}XcxjkS4_9s4qT7W7ax)%&WZR$5sYknOo(t?fl
zyLlh~k&#v8r{Wr{cEA<jQ`9k0_+x*2_M|rnEzxGwg(MsGg#|xxecKls5iddAd=8`D
z{|H-S^rvorpO3n*WTI}rl@Ge-2BGensi^b+9P0DMKGXY{|2;|Q()luKQ+|!wcZCkQ
zX&4`H4!%f!8Xm%`husTvP@6vFbN5_4YKv}0T^F)Y&lM%Va7Vq-s0BTY?fJgs|I)4T
zT``P!F6s?iu^-+<{XpzjZkzT3o<Q9ND}3z+V=Jsd`~vFpZ=o(ozoE8B?Qe`E;TY6G
zcp5!Duj}O3rm2tG^kV|?0qjV87qx|29C4@MiP($yE7T8^J?hr}f!LCG6>3FJp?2wC
zsB3@aV{Qz^p?1l#W6b|<B)%m>ZwStC^Sd+Z3OE^c^ln0Z;2dfVOMmMM+#0n4v#=`e
zME&4dtcm}kK40Uwd*3kBimpJ-KXTl2n~pi*nz$zFbQ~Ipvrs=!>N_|1Vo?jS5JT{5
z)RxJ?cr1I;O{?*!2altuW8h!ZSrvK8IUdUs@9;?IC_aMP0)<Yynnd9<#6wW$`6AR3
z??;_hw@|0$+%x_$S}tHYrr(<HjhrO^gR^es^nNh1llUrbz;)-`QrzH2BOeoc$4Fcz
zvG6A&H*nO?Ms8w!raRxaJ<keBd=R^0<OTQP`S=}i7Iw#-7hT^<ma`e^!DTA0#cg;H
zqc0ix1s@^Ld6M;udqLf7BdfVE7oVplB`!0V(7WRHg2OrVA#sIYjeN;{?XS6Qwcu~A
z;LETBOYHRPG&%QudBey#?)&=>BNy@1O(XAN`hRIruJ^q~1sQ*ma@%bR<}T-QZm4$8
zeX!bnBln0G<{J4NU;NX^Ul{clgOC?A{M*QB;=~8;uo?M}`)TzRt|Y(3L)YXdP|uE|
zAGx1oxj3IV{a=2(db}v|vHQu@QLKE#h3Aa*OI+MqSx$Thf5$m_tbdRg!xnjn_z&EK
z@8`4rFR0G>t(+%*j9T;aPgr>i_daR;3iK^t{mrgikd<NNzg*CY_lQI;i4XB!AuFRO
z&~~=4GFY;R6$ZA{E^6g@uK!!iirzo!X)CN9GNQQqK<$!N63IV}I@lshS$P+);6Pkj
z+R6#Mj&IRL2g+EvfC=TTC-3s2X6%jKxFI{l$~LTD$;x;<k8fa?%GN&z{DHbO_X@RA
zljk<!G~$eBtiMpTsbc*>x)ODPx`-pNK~-0f^>~!{0oLL9ufjYlMM>NXw^A1KMOc3p
zgjBb}IFUj%th~kp4{KU~9avY(%3$InxC<j{TbY2Fs7q{@I#!0@Qq+RqL>(h5>RNdf
z6YE*ofe%nOwfDUG*8lmPg`bnLrGfP~nPHLi4RIFk#z76OY{sXbbv4<8k2P*&WsBO_
z$^hJlr8I8h#zF+1A<o~_N)Q$L8OLBwGrF2C@Om`2vWkpPqph^VE-_X{;w!DJ<i|&?
zt$zZ_+t$_SKF;QaYui~#=6Z?t*8h*k{8;Oc`tMK+K8U%Pf?2o}M|HH)g!}KK4!$~_
zt+dhe|0^W4FMjG`{drlSoAswx)9!At4Uc1NaD7-0Hz@aVvMfb>yqA^xyy!}A_x#WC
z)<4q)^|kVl{0^KjJ8@sT=d8ry>i*VWX)_17t_n%eE}*ChB<k|OTI_@0;03HW(9MR2
zID;1qA50C%&rWoMEO?03|6s^y)Xk>yQ0uSpU9lMPOZW_K2;?8eXyS+XEJh7ukZMy+
zBB4jABgo8?Vo8A#j<Ei}%@R;QumnfpKJ1GjBdx#BPs14E&u}qn$Er(E3taShD=o1j
z>U~Qw0*|9toy4Ccv;{&(TPcS<QMcJ-Ou*Ms_xZoD0yZCG{k6S6b|7AXA^0PP>U~%d
z%a67GKOCB(o*jE&dt8os|Jkw3e>N<+PlkTr*f@7%k@40)=XXTiJ}08??^{s|b^_Tv
z<N@lDt<wb8b*oX=k?R<TO((h*ScY1FZ?H3(NiM(ZB<6n|GM12`CI1L@-_Ar`IEqfT
z{*h@KYW_v6g2kt}E^3Tgz^OPLcc4}zY^wD)snJ-ExXuf%r4mt3RNL`;%=Jj<G|8A|
zWe@hAZe=bOc##j&GD|Us`1TAdsd#Rtm7(O1o8=08X0~gQTx>ypC>7E!OPph63Le5V
zY&h4o)Fn(L4xdLCaKD#ALP%_zZ>16!(iXU;&%lGkckv6{wb1PWlNY%@%tCF_@Ws~u
zZ8!w=e2|Vhm>;8lD0Yb(D{0t?_yX$67m?x@)RROKdgCF~rmOstb2yGB-i{-&^ipb$
zb5P?esH3~fGWX)e7*Bi#b?vXd-1@($Jk<ARp`MsxR=8QP5nJf|&my4@R$OWQQ|lCD
z9LfgN4-{JM=5;&N!8H$i<LQ9a*03}iem$eMK*(Av^Dr3)<89PF@3GD;(Hl`)-~q<#
z{I8$tYMg>Py-uLk@CNq4-mkjdZ!7B0@FK6dnk1l3zXRA4^Stg>xIU<Zay{zcK84NE
ztaq~{8V3=lqSueapCn>1ZiDOFHK=`+iCd^y_(m(s@Yp6RPhp?U*8fd6{7qN02N=%%
zZMV4TH5RpoAEVxX2OFb#n@x!Prtet)zhQ0PVgBo2DfX_F%J>{c;Y_5masby8_t<8I
zQ<&VuLYTANO~*SstbE4x@b|53#jAK3SAJk+1y0)O_7t0L<q~m&T~<E961%PcAD5H6
z8@a^KWEAGbSMW)0xU<Ll|Ks@wHO{lwSqSqJm)uhz{M3!08DkQYM@&f^ku+=n)#4_&
hRo+Im>jtGJ$D82Aq48#aXuR!O?Ei0?Il{i(`G3kHPC)<w

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index 95924fb..e870bbd 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -2444,8 +2444,8 @@ msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "La valeur q sur '{language}' est invalide."
+msgid "The q value on '%(language)s' is invalid."
+msgstr "La valeur q sur '%(language)s' est invalide."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index f61319f12a558a49a8c32b5dcf48173f5e8b94c6..b2f8ae7b7fa7a175480332068a98f9f5c03c83da 100644
GIT binary patch
delta 6528
zcmY+|cVLg#{=o6iIaW(uHIgVbq9PGOh{h<1kRtYIBPxi5CZ$G=8r6Pn7cE*fTGwcm
zG^w8*lv|^yUAMK>tWc};nxVmcf1dOG=l9p^`J88+@j2%_-|x|9#ZEpewz}XyeAPu{
ze`zD?J?xGZ%NU8r(fBHE!@77Mdt+FDyKWlleOE9VUko%-2U}t&jzT^E6^7#htb`A+
zG6n`2pS0zmevpw?I1%;4A=DS%!iE@J)<{|Gj=?w#%i~-Oz_nNl_hJ-2#L8IXB_oTB
zNL!2}zERFqG@`t#SfBDfBaxh#K|wX#=JyJAA};>2@haF0HC}-o@F}*&_7#l0j9;MM
zzX99eS*(ZED;lYZJ+UHAN9~zx)Q11+<KPVrDphh17=~4d7oa|1D{2MrVhUERY~(eZ
zgmZBRMqpB~8?wpxI`IMg9!pj+GDTzj3cI{wWE9@V`t*!%P*o#8Qji&9<U{ON%}5DO
zTt%&MUa0HxpfDo^DQ}3{@|fyIM&MMOjV9bk6P$zX@d#eWDm9E8!{RmFb1tDauuz1N
z9NsTs9IU0_9H!u>wTv{yJE%PnRoh5&%)mHYfiZXslQ1IEb@61>@^$|B4r)a!)iKf)
z`=KWDkEqYh!ydd}BI+7xN5OP_6Hnn=SUbu{7*0b?s&yEPe_&G#t!JbKW?)NPg*tm4
zqV`0WS6z~QiXDl!_~RF%jXa|#qp>mXm*@sA+lOK^;^n9<x#l;lAxXmx>8KT$*~rKs
zJd8R`V_$O>nTXmW2T*52)yA%2T~MF<6$W9hzdRp(I##WlxH0<zwMADk5o^b|c(UI^
z*qHJ%v94!2VF>YP)Gl3uTA^d8*<G%wt3W#H`5e@qypB4g72}xyy=Yl#oRQA>V>2WF
z<wQWdk!e`ub@#x}P+xQc8{iYHiqS2MoW$;U7wfe&QWV2l8JUSus4w1$I!*IXdnO>k
zNIvh2Pw*L;KtWs^BMT|mjTea1+PRf1zP*ub;`dQ26x_kcUR;4=aCk=}hWqZ|apHTO
zjC_X&XiXs;(Zxt%{16Y|M1S1z4I@Q}yZZbGz3@2-(*5yZ{3j0{iJF`y(Ir_2)Rl6c
z-wXIQarLe)$!4Lp_#$do2PV0pXpNfG^KfGUDvYy;ec8!IR&wxK4>$d;V=8f*o^D}U
ziI0d2Fisco37*FDDMs#5!Ogwh3s<GNy&)I1!Y%r^+3-2W5&z}4ZeKUch9UXull>g9
z+Df5xw>Af7IFoQZ<ug%pq*OmvJRH*BElkf3FfxP(hoSBf3s95u7`Dbz16@z`z&PUN
zs6BHPOJRjUx}-DzB00EB!FcRbkoi2=joG1LZmm9wI<4|iU-ag1cYY>vxy(g<;R4iY
zb_H)>_4i#v0!A2_N8A?Y(12Y0nRxUla*q6ygwgJSe|+F-cndYlUm3&DFjmR9fa{8l
zHS!Z?jx$omiVU1!gd&+R$;c8cIK?ILG7?8OtLD>K+9{ud-7x86m$Yj?p+dy9XVCv2
zap9hsWGfGBF^kQD6Ky{;@(JZfXEVl_`neIkt}E5omFzfb9Ljj;zP}u`>(8RDgynep
zdY+exx?2W)Y2;H($F-C{!XO&9Vj=VYF)!Rj^-FSM+t)^>;xFGA`IGYQnVKQ=P?nK&
z+=sd{*2!j<<NRQZAl~pDEyP^Z>tj~%Le6i+sn~I)>zUK5m<_}u*O08ZdoBG>Z%XKT
zb}`J#F*2VAG}-7rERJJY%5P!=Dpu%w)^y^SEp89U__vY8T%UzqFyRM2IJj;h_9Je*
z-Bl<Pw^AOu!%fR8JIOW9m-Fp1GK>Rt2HwNTIAOQ@kSNN4_aaWjSloa*y&hmAjNjwt
zw+|DD4`O``-0RM_$2j7tn2ZNddn#<7k$2HIo`ZM}ZlkXG_4d1LpN<*Cxi|pZ9q{jB
zsO2vl)a{cM5L598hR`$7hur<iKO5Oic@7@N4-UKaq|JZa^-GY3`J})vu4ZYd`}20}
zjSo;ak)&T;QZ2*RiT^}R!l)yzB@?kZ@j2{?RgSuz8;3fJ4q*xwKIVEN9rgY!Oww$5
z%t0Lrx*Rvs7bjr~-avgo+Y|1_Nw|V|4?e|VC*6yOo^lo2h?)aWP`@KOopvqG#Qwzj
zs2?I3zqyKT$5`GkmCm>q^+KIa^HIC@FzN~yan_Cf64V~JfJs>GoZA(BsAInjb*yir
zR-n##cij}!WW0bn9ot-RyWj%!X;SUyK==Kk7hQ67!p_8tQIqBl>eAWach|y+s4Lz{
zfBecNcmD{~9NLPJ7?A5$%ocvfqTaU|bs87C%={nBLHuPmmN}@qR*5UFCCyQ@eG+Qd
z9zm^0=pXJu$*5zQiFGj#bs?&8)!m<gnnT$bjt{XtR=MVS^u24$f9=vW6zD8?h?}wT
zb=RVYs4tAU;aWBnwFUdJDhAwiL(m8{cT#W!{)9S|F|1;moWoI*`+L+C@-~KHecvrt
zqZF)7!78kT=TTeq40VX=-gXrlg1SI`kNUCM`7a|s;7SZ<`n~&KBgJsu9ljqZUwYS_
zuX&FJi1<2c1GDbC4-#LW2X2jzd}!o1PK4yKz48F_$bCXpW_{Kdu0~z468?5SC{|(-
zu8Yn$@($%OPuwi}7B!bnqxNj@Q};!bj!TG3KXXaB9vM=f6c_7_ZEwuxf*fS6kQ8IR
z%_y>fmHEV*3R>xkoeEp;gCwhnm1SJN^f@apQJ(O;l}#+MX+^E{BYwHKm1;QUA6A}m
z-O3VH&ZsY1$)bEZ8_r?!PhKr;r7s1A0<7HOg8qS4))My&vXX!$U$RmLyO*=l69<>K
zvI-BsY`xvlSJ8SyFszdGev;L#Y`v9lAMWRQGlQ+{#J8$gIe`^lvEEQTz-aPMa;jSI
z>-T1e^*$0~L#<S$yjYm^KD8pNTW?5;g<EeM4X<J42@m==Zo|zrt!%*25mx@dI<>6#
zHT+U-D~pJWM_TvMij0;FuVZBr<wK&Z_&QLK$APZVtzM;zh|5M>c@OW`x57L4;bCPe
z=V!lWr5WWF8e3^jc}f#2J1GAq)_Nb4Z#T7)OZ*V^oAOMY^^$OUGb_(?Um0$SEI<#$
zTj`G-T3Vlw;IgH)^}b@W+ge%3jV0Sz`2bg;c43Y7bU8l2FK~GWD?PZcX-DgQ=P&AH
zy@je)XX~ve)3G1d<>QB#-o<*~50_DsyxkjCT5*5%H+@zHaWEv&N+SN=)k<w_*v(1-
zTKLXeR@QODfMn|}oxwe<j3#~$ci~MOj%#|7oEX~6dcTH!s6ARb#U<w@{1@?)-d6VD
zm#NlUqEmfoR<2O62_NC&KJJBI^d$+2+r90QOVVA^Y(=fWhZ$C?P|-Zp2bb^XdTbL;
zBd*uq$~oMIrMPa<yH;A`ngMP$<qxz{iy`pM8El2AEW3tUS&Z9<)5VxF!b&}SJd&Qk
z+N0eNM19~YcnKF#K5q<T$%~>ta?|l^)MRW$&#uO2xD;29welU;zcJ3r`@}NAn^is;
z!9fd7d_2)g7#^AAYMMXUN;%?||8zr?%7>xO|6iwBiNWxXUCZA2gsvnWGlOK)^E0i)
zWA{(3Ou!|dQ9-Qwx%GYl&6;DqFP|IOM)&`uxq3hrV>14Qh8x<=vvLSK%(udZCKbN4
z-hVmfU)K91tA#qoGf=-1dM@O}I1hvH3|7Q@sGCsfMJ~xxuodwh9K`$O#l_b91{{l<
zNxJ)}6<YnZ^}cTN{e~}PL83ef)9`ETjD^2($=MC(5@+Ez*mRkD@nwu9uDjfNzYB(7
z9Puvn=~`Vl(|X%xJJjuWn%}M1koXSj8ej8U<}c1g-Np7`3YN%X*5F_a#U+0C`uz)=
zQC>FNHLN@8b277;|C+rgDR>))f9Ja94C)ObD_op`jfvNwR_GRLg~I-iJpw;NordLB
zS{aA4a6Fb;#S)8iP`msf>NE{l?e?4jtI19syB!pS<73ntLe|hVn2d>d2K9W@T33Od
zsO9rfKTvMtTx_z=4areFPaMk6phj3E$CWq3zQl9z8vgC$K*#Fx1}nF4+D0oAaTHsb
zE}2j9G4XRG#!M`*g%yqR*{I(KC4X=gibvh`KEhFyU)#!b#<Xo#j_7^cnPqqawZ|&%
zAQ!max156t9OV7z#wKu=OOjL+%GcvgZphi~7M@W*Ss6%t5A{c8+8*ou9>~Go`ry6R
z`#2qopAeryO}_Mf?4Fp3I@E>tll{8?58y!8`m^{Jc01r6ydJeD3LkVWpN?Ad@`qgc
zQq&v?``IO7f7Bc}h&))D9d@oooh?=V<2I?usP75-Mek>jhj8!_1v%Ih>-|d03y_Sc
zEqec$n?@&bJaNczx5R#n`ogFaR<6@iSvZdP^HXly4Lt3VGzYcCm40(h#@C7e#Bsb|
zqRzO5CkG>lOPzIH*Azz*|LnKrIrrl2s6El<ysN+w)TBzd;99l{TM`$&=w8$rQ;6rI
zHuMo{Lq`5il8@owZw~ktlaZIK_h<A$Od<}>wNix67>%Jg{)&|*v^4vw`&7Gn&AoW`
zb(UnVe}p}-!3{Swb1|6fPhlhc`=<5&4U4{I<to=TxyAhN#zD2)Bq5GPjThlAUYLh#
zh<~_4ONa;Eby=Hp->qOp9$LA``2^gDHS%}?FS?Igi1Qy=nM}Otv6VoK&9_nr6Q8(>
zBtNb14$_`lsmzIf_yRXhe`ciw&iDJR-%Wn^u6sW8mzytyguUB)VEXXh>3ypY-I!b2
k1U4(!pjKqjdE<_lz$s-C&Bii`_HNt%e_6?;c4zYc00If9rvLx|

delta 6516
zcmYk=dwkDj8^H1FzNdsDXF1Jeo8vZ`ggI<s4k5BRJj^B=A*T#sewkDA!g5YAm5Js!
zL<%Y7^a!DZ6d|W13{C9$T;Kcm$Me_wd)?pDeYo!X{{DWa3W}X5D7K+cabKv294u|5
z7T(7HVC6DKTH#o1h&!+W-oYdcDeJC#7xli2_#zfBXQV#1Mt$xW)bq=*HXgu0yo=Sa
zOnKvzS2$=`-bh<aM?G-}^@TUEF$PvJQUQBn5RSx3I3LU61`NaR@CD4nYFO(zBUwhI
zJw_8>t>`LRr;@8!ze+wM5uBJwK?v^fdl9=37prW%3id&bbFef1i|z51Dn=^fBGmgg
zV+TBgkr-OlNL}oWRWSp#XI7y${HTwEZX8qzbPpJb)rl9QK43d)1^>oGtX|DXQ=E(o
z@oTJy@j-6LreJI01Go)KR5vnRWBeGqJa6P}yn~JC8Q+^VjC@PMieMvYI55OW2~J!_
zt?|83*X3nv8Yx71Bh;2h)iN>$r{g><z-BnFwvkSF46k9eIz~=nvAXU#=TRFNP|wKc
zyk9~%*hs-yOvKDEBQ5b3Y7f*8H}W#3U^M1nbG(5)uug>Q;wh-*x&HVTYDKHmH_{yk
zq9*e$)aTyAKD=M*G%(VUf((qqpRgC!d%;Led>1vTa<K(o!j>2uX`~INU@WdhojrM|
zJ<+A1OR`LSm3W&!F8ZR80(vqMqj<kWzT~of1jZ0&qqgJ^zafoD8g58Nt-!1%Muy>G
z)M?tRsjEmjYL6U1oekBaT*JDcK6e?G#|!@QeDvv9wQc6cY!PaUE@M2_YwqGHeh*<3
z<)vD<p6QIi#A8vrGz+yt$5FGpLQ7YHWYqJUP<!$U>X25BX8!l3Wr@*7y5g=FBY$(E
zbSon>@QK#$f$yQd=p?>`53vSDwlQ)Fd*U5z5No6;hO{-3iS<!m{0-_fy@%Q}rP~?#
zm-ofA^BI{;L5mJXmQt`Ae<M!n=vK0rPDXNwN1;|Iu(Of<n1d7Wtyhg0?z@FQ65sA(
zWHlb3HBVsbYet^L@puT+{c)#mMhX+h`TPfc@F@zC{qazImj{nVP0oTimt-B|-AcK@
z?>S82d}w!<WV2CQ{3~i#m+9e#qAhAtFTkw<R2bhQ_O0q|WE}^M`?%?M1^W@VOK=O*
z8vKXYFiz+3A)dxx5{=xYf?p)L7p{HX?F|=DE8METn+<a@n)s&Qh-5d*Mk4v^ll>g9
z+DgCxw>Ae3bjD*k<+D(8<k>;2csP8pTbK&JX=Ef14nf@`7NaKTacqyz4s|{CAB-l>
zM(vr)SPCl*(<Pnx7skOQ3f{r~g_zI7-IyI3<<{ySP^VQs>Wf}Wb?0Xxm&<(A7cNGf
zW*6}~hK_a(DLux>BI5SAfCgN^?}^90P0o>j5<AX4@X~l!!yBks9yEcWVXS)Lhg?_W
z9V6f2ib+PwSdk%<jZh?$rW*MO?R1yK%SjyFtfFVIv{OD0dt&@dm$VyZQ6b`bv+4hd
zT(~!rY~_Ki-ea@iMEki$W>NmbJjNIk=Nr-M;;6o^WG7JLV8%oD{cO~(KZCjwR^aKI
zd0rywZdvvNBXckrH&T8d%hRx&rOf|)UidB5FUg4=pBTx&BiTm&q`c=!%@BI%Gb00V
zAL_~&p2IH3`Jq^kc=Kvnh!;?=k6ObEIlmn<u+uu%GpE)w8;D2elB~FUBmGZrO7LcO
zF<kk%k@tB()2;5q;sjQp{2IPQ#R9gmrV~ef<@SJ-?M9Yy{YrcdV|Vbu!F3<vAmS#w
zT!mKPPRfJ7anthRZgP$D6?}V)jN%{-XX9<0hLiTX4~eH3@V>;|umx^LonCjb3C8Sm
z^E(aO5g)`xSZ2RF{|ZJEPsiSP0JWz=4j37NzIQli#lfGbYkq@+F55G3An^r!6FVI8
z?_#LsMgObYCo3TK!($js&qN+}_xJkV$X?1f;SqfMh+9wE9d*}dAr141Ip%7Xgt|ZP
z#3a0nx{1X9;F4-NwkE!gnuPU_yOyNm%fx3f0jr&GJ?BH6MTamE3!QX5k&Jr(O6;N8
z@_>W-6m<E~NHR{wM7)anfc8JR8z<u$;=TA7N1k#o9`UoQ*ypG@@DTMoqVs9j;uScU
zI3M*xB;|~&=uT|G`=!cR_o6<i(`g}U*B(Y);p+V2#y$(R2hL#+tZ~lmifO20zZ`X}
z|3s}o_^<A|si?_#4s|-V`_1iwi_xb^wVwms_n$iNlB+XzC0>e}G`CQf&W;yc3)4|o
zydV8>(C_a4RMZ^WjuBY;qFXUr`JIS*-xsLUIN%cVe>ev*m)uxxLfy5Vx$IgJjhgL~
zQM>jSYDI$oa1ZK*I+iQ20p3Ghh-zJN_otxd&?>BrdDsc7U3EP=>?-qLyL3GTIt%jf
zOKft@wI~nug;CdC%SNEKU_aKt(l^`?yo8!N2{;D#pbljetC%L|Td2vs6?KLD6Ki5a
z-%VGe1PrHOEe7H*s4aSgIz$nFxe5(OU7)t2er&#a%g7E~gSDA{gZ?&B3>Vzy`+@S0
z@3`}|@3H_9UqNl)$~^Z$;_G+Mt?^;^jhx}c^AFfwc|ZYX5?5t?))%frU9n;xx*rs4
zurSv}{%hn7%A+2+S@bDtE}cT{*}%u{izpdCA}(3rl5!(5q&_Jo)*IWtn8O8|khMY*
zjP*97umCIX6K^SGr8{<h(s~~xD+^m$!Sx?MW#u`_V~be%f+aSosFgv)6`!#Zf>VoI
zDd4&_C9IrPpSAKC<r!=^N60^Up|q7`3IfVnxy=P{l(VvtxOaIg?XbjiR?1+{ik3>T
z=~S|^9uHTx-tL%I)p|oPGSGTI$s(#*Z{^#E2YKGCAS=7EM|CSdVddwoHxzgAMe<KJ
z)v(^z@3mm-eIzyuwNiufA~mh|sTEesdP7pAw)M8rnsux^;z3{H*Z4(UD_d}EJu81;
zc$oFRhRcUr$s#TmVckb7GFtLheJfKbAO3<BUuO#LaiD8-n}&1|ak&?*jKDjMtndzg
zcv#8c{G6s%VkoZ^W#whc6Pj81hVoBZSnp%9e@iPDiStmuDNjdRF9|bZtQ6tCQrr{~
zKo7LCG8j9?TAz^MvaP-KzG7FsVr3~emgs0@Jg!CU!dji^a=eR+F}t&sKHS&*RqG|`
zk}lR;sOomL-g=UOgSajq(=hop>wQ1`j+*2hx>;$<{h@I_E5kS#9&aTcf9q}~92@nt
z5<m+F^s*$R$l%`ATRH>#SQ$q=4ENwQOvUvHBqs*<wcfAcG}Im~ndp-9JT4)Am}F%i
zzTeM!OLU^|bt{)C*n<Dy(*Ev+i;_t~;tnY;xgMj=-|Yij1;!7wQk{z4Lw)dbgIteo
z!5PF223t9YJFpbjEg52^J+6P#&8GaJR>Bwp-@M^gn9B0)TUM6g&Q!V>6UJDH#0O*P
z39L8H4MF|!u7c+=i}D2%7)xFhInhnWk5H4b4L!R7AK`Lb_l}j-T;Fw)mC?kH)4f^c
zlhnyp+HhjV6e~6H*i={3{ApGy61RTW4N)Q=hC2U`&al!PYtD2n8!(HmBpx@LWYhDR
zR$5`tIaVfP)?6xx)#qF97trhl*8B3giXC+Sk6)+<WHI)}n`pS9!y+q(vE%zz*wCcX
z2iE&9r{F{DeUjB(;>LI;>UTo#rMwsyV0k=^Rq;0JCR8%ZC3yn2CEkm}c)t{1X1#B~
ziTEW+cL%jX>po%nVLs|tZpd;LB<zN-V-|Kro9&V_4i^%yz-)|K;a+?mTM&nRYQ5hD
zLou3o7y5Lqwkxf-ZMH+*ey92U5*riWL|x-+u44Y;T-04`Hzs1S&zLnh1VeF&-#vbB
zU<~DDa$Li@qdsSO4)b5L_XGtgIAXQynp3DZ1g&v#e~cnti&~*;s1>TQmOTPzqfWze
z>#R(|nV62n*R#ap9Mmq~k2+0DZg6|f8ym<@9lISA)W&<LHw5L<HP{2=@f7O$@Qtnl
zy->^Nqkf=V$A#E<lN*ww_$%@A{0!31^nlM@d2>uAo`YBMzK;VPtMgl|+{9^HtxUmG
zwlZBZ^D&>e5Q&kA1(-&8=2zDHK6qw_t58eSU2hz|&2^V{GM%yS*H(_}eW*iye3$F7
zir<h6T<`mYgDM={{nm|5sXZ=95>P1LfV;UdcduJ`Qopk@l=v3vkIcUNtoM5$7n6u9
z?zi5@=>(ibd=fSJUO&L@iOW%k+8!kPb^m{Z16}KX#$FhA$US%iYERhzx|UBz9qaOk
zUHLN99I5fWOTq!DIj|pjurxp7T!%VasvdQlR66Q=N*~kv8RVfHOr#(eTVliyv^;=h
zL~YT?lWrQFz;xoEAKen0jrzjypR8P?r&i!3;`e@b+it1TE=hAyTU_akGaXwKU&Tqh
zU&7D2g(nwvo)`bcbzKyWB|hl)<#X=E+fjQW_E%SdBdAH$`Zw3I)fh|s<azg^PMAnM
zAGM)*s0|r)fh3>6!F>++7L!rGTkp^4{n&%J%0(-M>5S1BiW4teX+}#wz2ZLAE?#vn
z&b-Ew%=LNL2P3b$p_z+8Tz?Xq;Qbrc`!}q?O)FQpuJKLge@_mo|3wnw1l0Hg+`|j+
zVlMHv+q8su@Ew=6xp{5{3%GCPJm*{E0StY>3wY7r_!aSkf2>R+-kfix95(&e$`jc2
zk*i3L$Bo=U-^W&}aUunu=Ems-R!ZP}zuA5_``xptNa(Q}MaK_G8af~~X+Uz?*2|?$
axfs)E`lC3r^--LCy5s+!EW6z9?)^VUnx~Zj

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index af0b3b9..f7b903e 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -2149,8 +2149,8 @@ msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "The q値が '{language}' で無効です。"
+msgid "The q value on '%(language)s' is invalid."
+msgstr "The q値が '%(language)s' で無効です。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index d5e3c71..86ec78e 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -1787,7 +1787,7 @@ msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
-msgid "The q value on '{language}' is invalid."
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 
 #: httplint/field/parsers/accept_language.py:76
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 2a1fc91fc964b17e2461ce347ac60013dd430829..0ba3157c89eea645c794d575b9b6028c2d0abe81 100644
GIT binary patch
delta 6516
zcmY+|d4SH<8o=@AoW`0pX2?1t!^~jFFvdDYW8Wi;b!Zv1Aj`y!_bSG<glr`xRIWrW
zl0ueoRibOl7AZoq@402U-{<$d|J=Vm=Q+Ra?B~4izD)%VZYuDvh$5kQ5&5o!6ZIzc
z!U`pwq~jQ@i(9ZZ-opME7isrRL4EElCS$QECy!%Gtcs&iuP?>~+=UhKHb!GqDHoD<
zB<huN(h4V_UicpMgO{;B#*}ta8hc?3j=-`w4<m66CgQi4gnwW(R(sURLMPG=(}*vW
zv4YkpYXy6zY{*G1E=(t*3T_E|7CRFcF6V**_Ct+VU`M=<ZLmXmC*^QH>hqstTl@*@
zV0;B9)v+&Dz^SM$vmCYJ`$HtUlBihGUN8bH5idY}!DiF~-oQ+(9POkbPQ-b*4QpVJ
z80)eeY)-rjzr^B|oJ`Uf7h{*loQ%d>SdW$o4XNxTmyCbLIvI<Dt2imjg>$GSzEjnj
zyi}Z%2=eQr*1So)lWd%fv(Y6uX^eBR10KNhSgD$mgIKt_z2{fd3g)TdWF6m^I1+2f
zIDwh?W}=g(cpbF`l4?460taFmuD~XE8GB%jTGqrlsQGKd@paUKR(#w^cN~m5m~&Cz
zdk6dQeW_8~NqaJ;;!}7Odt%KbCvi9hbx^IvRQwH_V%0iMTHruziK|d&&mX8Q(WR~p
zvNy34@y2jmDA~yaS~3|M@qI~7vC%#pn-MQXt;z3U<LWbLcpwY405cjm8G?IIr)g?K
zE64=Y7TJY58!9)ligiJK?_w;4r^ESoF{FLfrm^+eeAF79!){o!iN!f#zsE-8mrS*m
z>5Q?&V^EuP5o&=BqK@t|O|1Y~sMpt_w&Z!#F0GKp{O?E22BbN85_6k5xyFUabSG0V
zUvqomEYuGj#uU7Vl`*-6lOxy*Z(yC4P6}dND<?BB3H8I<QK#u0)Ru{C?c^@sOK%-=
z@;Vu5ZJoSF#t!_2`04hxlBIWWvYdDnYJp-pI{6k?;Hx;YlM}~t*YObX&CX6f!CllQ
z4`z39k{8F~E}RgKJ9TxEkGOj%oal%7$;b-FL-8NH_!ZQp)pfJ=Ath`-)ajXnI;uZH
zU1*MBCCuO5TBsW8lH3Wk=C5It7g>$Ni9_FJ*l2Im)7I#>uqqdF!|{34g(k9>lQ(e%
zzJX18Qy>bs8?}jV^sx`b^|iP=>W8PH?g5)I0nee1ffDrl4xRrkNoZdc&a^fDJ$!`t
zbJRZFi8>~}>hGjDA6zwn1&Vmv(>56QVGMDRXRJkPp?;_%YW^71559}q0(()r<N?O%
z{LlNWlO<%-#Dz4?e$*R=4RlfnU%>`A5w&HuqFz6TTF@(~P45TUhihUEaZfCbC$S&?
ziJl7d9PH#Z;y%wixux^}7ZUoyLoYZfgFl76gO5|75--{yYd(bgctOjdPR3w|VNUjO
z|IU}4T*n2&o&1Q?N7$Y)Xe48S``*IC<Zl>dyX>rNCqEM(!;r3Y8((2x=EkVe*5t{&
z{aNx8{$_nY6LlM|`l>A?{ZZo&QJeY%>ULaUtbI5Zck{k3s4W)FEYlWfh5sUd8RlZf
zc;<gBiE^(yVO&VF2~HN_;)(Q`#*=i7X8QfZR=yul*MX9goovSjs2{kG+C^2SSi$;Z
zB+oCvLb!UWjh)TYoczvxd*5(Ug!~QDDM@J(J7+kliKk}T2OpVbeLoa+zK=y_jI@|-
z@xnPa&9dg&<}w9!kex!xE>ZJr+P?diod*u!FXUHz+orL+V+&c;5Q)A#n2EXxZ9!c+
z3oo#m^hDj1=Abt9dDIm!@?EQW2h^o>6xPNKsH6N6R>N}d+4-Rr>LxTAJK%Sy-wQpu
z&>qM_J!s5Bt;si-hJT^<b>sJ~<k_enT8Mi8KGXtv`b`I6L)5NFT<qj69E20mEwTJb
zsC!5*@?1zBSVB@hu=zR+wMMg1YjPNMdgcAl3YLUgpe)ptaWU!&cm(yuMLx2cw?$om
zvatq!jFs>(>KOVHgZUr5)J~<XQEM^?b^Bd{kKxI%dH!ifwRoIN{y5Z?FaI*z4I85t
z^f}a~pN-mOTTm->K5XL0c7%Hw6LtQ7N<v5RPpG?Ep5-=A6HxnTIBE^HVGF#1+C|Bq
zSeFb&t<jsP&#%XNcsy*$6&ANcZLtYh5jSE;o8%Y?eZhUy7gt_sAMAm;pXZ?7w+r>f
zmr=(+l~1itGf-bR2em6c!x%gtw$Lhz6H)hqPFMxUtYZE*C$X4}n)n-*!BVUedSmUd
zy-`1$gE}TQhx0FCG;yibW(w-An1Nd0S5UiR0cux%gW4q*P>*&|YeLrascW2+CnF1=
z!-=RbxQP0KqHC?D4N+@23L|j^md0GvmO6&oGSQ#ehq|B^cpU0|D^cI~HAdm}5D6X4
z1=iVxCr~d8L0wXFP+MjR>WlW{2y~x^=RHm!-hkg=>Ut;dV7@PG9a(|{h_B#KeDX^t
zBXK*9#ZdhXc79)vqsVBx(boK2)P*Tylanm`0(BHee`O2EGx!PdT5N;;Hd_UjqgLn;
zY7-aRVu#iGIE(mW%)mxl!}EWhC1ek3iSloAQj(=I2X)_HkZZoN-N_!}(7&y~9e3E$
z`zwAxe#5Vw%;&kE@gni)Z=Ec|=XN@ojzzz7@**z86If^$r(wpQTp)3UjEBB=vH)*j
zd0sT*KkQb-EB8405c}?RvQ6*X$N3$1pf>f6{Z^371Gaa3f!X9o{a|Or={S)1;e&R9
z8iAR_c@H^R$@e9Tgw`zbu$A--t|A_B#K}uo`KT?WvvDwSwIA)sHV^v|UqkKN&d2Px
zUT)Yn$DIr!e?RJ&Y4j6=n2N2&?!*^QF#p$+NdMWI^e)~fp81QDy*T3}zifCQ^OXI<
zS@vu2n@z4_J@S{HwzJ@gGq%gUaMsCqp8Eo|$s7D;V`C?NNnG-r6S`migLym$mGiWJ
z4Kn6jwEaEzk~N{fY`b12j^n}4QCq6+6@Dk+Iy{T{uR3`FuV4)JzGh4EIBZJ17JJ}L
z?1b&FJDGzE@hB$U2st@NqVP?dKDRNKc=IhMf1_aIZ`<g-_lM2r7w_0?cpGPMpZwRB
z>Y1pU&r#H-jr!BcTzm-^VZ>ifUdE4bDwe)$)A_>?iFITgKplLO@7V$rd*AwW8V)D_
z9=?Xd9yn=@H*q&M5g%+u4?7>Mq;s(Y`NwcECU_ql+jrw<#C;#~!BMY7gcpXBgp%lp
zRwN4N^HLDI<@Zt+`xo%?9S@8x=w&6gde{g1`EBe*JiU;Ydw2$QzW-X-2Q@5T#LM%<
zGsE6R9sL7~`rz=o4|@|IDdweu_G;bYKKO&6>mxqs>x2?MIK_U9T7U^9y%eB89V314
zQ!9g?FFH7TmGZI`tC#k20WYBr-lLCt`5KRuu>!td*2{6?_saQTa~o6M2fv0t#dsZ6
z*GMFAL)i*G*!NqYE*ujvf)6KF^imm<qLKU_F+SKv$Kq(>&oBlPE9nc_-LM#r!BRLC
z%i#y8-`R?~-Cw{uI;u-N=7Y7p73T1vY}Eb!eq|s0=~O+|K0FSeBL4%_CjT$SVNw+z
zY~Q_cDDi8kqy7eJf!kHJ4-P|p?|jq(eS@KjBu<mi8brkTU{|Yxy7@FhJrDH2S~x9y
z{VUWO96){HU*Y`tcpvO?sTirx;UoAGYC*=Mo(-3xzW-#r56J*(e2<JKWMo$J!4c|x
z)EjoA7VI2Wz=G8+KOU2bn`0w<72DvKn2HfKEKWy#eg^9Et5GYo7xioykr?v9ew>_W
zHx58OC``aExC}G#E^2}L)U+CoMs508s3)h5n29G*r)RTTKKN5>8df7t<#$|dd>-rJ
zLR^H0LL`Qf$gb^!h2eM91IWlEFPrc<zK!$i_+VkFUDwNP;wh*Hit)+TwC~_$;w_kh
zpVsri%J>^jBJP^vgB9^OW)PRJ?`0>3vPmo_k=DRobP=_L#T$Bg7hB^JJd0Ye$&Gw)
z2)&Bh_w^cElRk^u74uQ^4`Ex3Xu>GRPN-vMBI;OLiQFHO6C||H%BI>4y~4hZdN%w7
zwXd(CzA&z-IRdqBx1zrI6l&iVOf#FHzV~I+f~~=>cqN>l-b}kRL|>Cg=fWb?L2?Gy
zGbkgT@WEMcQ@Tx;>!<}N+T5mJuds7bx79tUA1c_=2Y=7CL@m&I)E2pbTA@c<*&y$S
zNqk?Xk<j_P6?NMDiTa^pt?h-qQRDfj)8`B}!{|14{b|(a7ooP)kEnyQcv~Bs4Nwb^
ziCUoPsIx5>Lz-~yYyoPD`hp?Y7?)xhYIYi9@j-iAl4Cpi;3#z!wLpD4+1QznI{G(b
z4Ce3b<p)f_)A#`M;^`-C)4K2^^Iv~5jqGAe<r36svH>|W$R!*?eDEnRbBLRF^T9tE
zKX&)Qsd!Bf+ucs#Ozs<z;pHpL)6)lM$?bTRIIWkLT&&&O2Y=(;LM_PO`!GE;F{zK2
zk8nCZgmwB_eoENXuq`kj*W0fxP<7wMLa}i#^nWR9WdE#Z<A<+5UBX2*b1Ccpddl_L
N^Z%Cy#QG~K{{y}561D&U

delta 6512
zcmYk=d0@}=AHea~`-90@*pOpvY|ddU!!~TWZ-u$$`ZaX8&%*CptlYPeBP2zW<fbNz
zB2=i5k|;4(j-mtkJzt;K_mAISkN4~Sx!(8t{r#TEE^s`%zz2DY2C9h2;Sx@&;ce`N
z<wBh_!}0h8?!mhFJNC!uFuQLW>T?&cJ{B$MBo>>azIPnz^;K9M4`BuT11n-^DHo7-
zB%Ubcq!ms^y>JBegV(SjRw(VHH1@y<9EoLd5r*LhSPKteJ-mYzvD)KKRyvV3m`r@R
zj1{y-Su5CpvH>S`xG;;1XxtO@0(K@YRL=PYOhb*cup{2bHrTGblXAEO_4#es7JtAv
ztP<{|Cicc~oQ~Qu>rpFyEI^_QiSiZf1tT$%cq!@&vQZ0o3;SVYMJEY31sCI9jKOXZ
z)@2#kocIv##z!NaOw}0Q#LktRyokSJJS`I#QrXEqGTx4IG6@GqJ9(4~7g0-mw~94+
zSXC!^$&W{^d15su<8Uf2#D|!K3#&WnfXDF)R;=OV1Qx1k?>UcJ!8|cew)1_7Cb5N#
zGuRL3)^gGmZ=$w9Y;7k`;y_HsENqO|ushbMV@;fan!h<1-$X5F`B*2ZI2d&>=b*m#
zE~fE)sZrNSdoreDS3HG1F{YlAsyGdGP;JI0_$xNWs5mDra3HqCji|Hd4r)tue!>RX
zT<k==I~W(N@8lsZ8Hb5{U*a0rXdi(o#A{J&aw%wZLk0~Gq@xyKb|WXl@JrNbnv`G#
znT*;ZhfrrjWTI89GwOR+VJZAMnEww3w69tvS)VOIt<gp7hB1vT&Io!06Ui^$#9F2!
zMiGxkZPJyf1^NbcbeC>w1xQD|z7@44b5XmrTr%^&FE#6z?BprTNpW(E3niL4nSuG5
z+Y9HRe&_@?z<XF3<61cR4twD5ShuB<f*9S($y|&@{qQHK)ATNC%amyC<UZd^X&rDf
zg^VU`oxDNDemqCqzrC$wDIJ_-5syYKP=$_8KF2Jah@(0=aXfbuPZHnm>|_HTqBi+(
z%+pRnZ~`8|$-%fo7bp3Ny9R=ZG<<}N^k6&`r}5&ks7vd^uC_kZ?`Ec<PR|U~QT-O`
zLUS4;F(lPms2b{$+yS-bFJnnhWD|}e4jkxVqrFj2Tcb0v3Kw#MaW3jYQ=*rX`Iv>X
zF|juVp@4@`oA_3meIUAz#a&T9JOgzP$j0h;5p@g{qu)Q%`QMy`_En*Nw#F~V;>6of
z`}82{nE0r_lVW^u;{X;Y;=TW|!FUuShzmbsEm8~hL+w%X$D@958EOlBh1w+#u&U1g
zyy;HXkP(9`X_{lGHw+u>q%e-fMmPnvWj;o|ei5~x*HN2Zp0y9h;A@24u{8dKeeo~!
zs6hAUoJ=O}^}LfiI{(j-&=-FDf|D}%L(sbzOM!|Fu|f9aFz(|8&4)XA3EPcua-91Q
zj&yPxmyUAsJ<b|!d%~bGj0Nt?#8c$&8f&}kym3x`B0h})UFmj@XJ6*V&=;-A<9K^I
z`Bf)a-_JqahNC9hLedvCUW3}yXHd7}{FCg%mGBGR*BQ0N!kJ~-0xj?Z^54OInEDFy
zKZ-<|DNYy{(lo=#YFzayeWvkLU89+P(`@DY8g(5gKHbTFY=HWK`>0)1d4?6NFNX2_
zQY?&{X4=@vp5^2+_kA_nNm255&7mZvNgSN(q&A+LXCHiQf%W}R)cHOEnK9CAp~Wi}
z*)&Vfw9RE2>L5FZlwCp>+q7M_#Lff9@f`W(U$^P|?^0XHq5{jPIS=+h-Gug_E}eyz
zTTQy7Zb}PKn>rVD1uU_`YTgcYDIJY<aTn?+zlt@m%o}!oXo0#3jl&N3IqLTUrB>Pl
z>8J;dMW{9T43qJ1)V@wwWhEbj`k@u5_a8+qkoKDn!iK0_QS(hFOK=driVsoqUtMF<
zHV1hwAP+1d_207jIt;Z&^HFPZ0(E-jU26r4MJ-S|>dLqZbp<?$x;Yho+iKn#bpaZK
zF}MyR@dWA^`V0N}AO4P=N?W4VWDx51yBaIuPeJpnv!hxSoKF5k)Riw}z3qkxs0Don
zwdv=hcG(`(3grf^`K}$|hGQ+A|L>8|QTzkyu9hdu=4n;bJ{o~qgT2@SucLNR+y?8C
z!KgKwi~9U_jK}YT7Jtv;HmEH&87ts!3}};_CZR95kNV=sjrPHAsQY;a>V1b$UwjR9
z3{-yK`ZN{wg$q!-VhcuKZqS08EUt;V7j(dA9KVVA-<-rMGHT<mSO&vbCG^HRL3^Tp
zI0JP|WC!!FVnyPx&1QYnT`?84z++LnVkv4@eumm5mr;*)p<4ph^hsNslqVw{2jUde
z7hFMoL6NOi(}t)u9F1X^g{3hEwWUs@woLdo`%q`p0#8J}Zv*Q4KE;xFGeAN|bN=mi
zAsO|;5Y#0#1GQyVqrT`Ej>d<mgKG2+CmFa44`R|zC(AJ3E?Y-d;{f98I2=3eb}|M(
z!ATg1|Ip6w+i@%ztv|9gKL>STO3ijM2zQ`<Fno_KAOmm%@n&p;X&+k!)}vPFTht~l
zy4Mb?@wk9^9rnORIl=kA$P)4;YKcNVaT3Z>nSr|RFWqO(-0$Ql@uW|!!0kV?rT09(
zMSjBrPFPjtN4!Qn?sF&W@tH$T=3tS-PKMwLJc|X7a2jU($z>8Z$Z%geS&p}`JTIF4
z6}uJjhNDi_V((*4KGFM*bAHGDs7<~9Yb!{fZ*1?_f#b*z{npNivv4qRffIIu8j1ag
z^PY6Fk?%`739VU)Q&!Sna1-&!@0<+9$kVoz&d2A7t9@@rwnf;N_y%g<cKpG9>*WM(
zb;ilF<R3#FGmU;^5L2;Dm`Z%*Ec1USiIktLN&mrriRYYiatvpm=a&r+^!eF-;k@&U
z|C>#I!+7%7Ua+&^nO|*}d+wr>S9op*YLhp(WMktX?j|mt>xAx?FEF3SLFEeVA4A51
zYqr1VT(>5a-)z_Gga75hZKy3(?*_jUa4TNKkeg0k!0Q-+J#X2PJQ14`Z^rI;8#`g!
z+fEkY3OtRmzXzP;k|^|tO`kt-A93~_Cle@G;I56{dw<$|e*Q0;4U2Iu_x+2laL(Vh
z`J6&++R%TTWa10B8ohf?M&esI6HDH=>AWUDVmlefQ3v1D2etrJ`q%n&296^C9!|z#
z51q8e+xP`0isx@e1)S%vqzkbF`KR$stm=9GvHdV^BkrBY^N)JP@_O7u1!L)mRwN4L
z_oN_pdBl^l*tdWuhk0N^K~FYfi$b2ipZ|f~h-Ve{<N^MII^WM1@%$Q=E$Yeh#B+lF
zgF5;LKI-|0*Q3~*_~c`rgln(XE9Uus5Ij}f^ZUAL3C};pu0t)r<WNrvP@wi<p8r!T
zm7gy<ID3@xBnPXP_T(yFMIF4S9{1z`o-AVpe50%<XNZ@V^Zd<ie0k6RHT)h{(@}MU
zM0IX>Jlym5{bsnHcnap_!!;{-QW;|_BKh4SJbxRVfG-kn!3eAwsV`)A!^dzumcr>+
z4&Oxm&c~?R{bh{PQC+N(=dbN8@HIX(26ex`U)l5jY^ok*AASkDlD`VI$?srQtR3z7
z+jn;yPW)fgQGWxqz^$s-2Zx}(Hxso$`!P^~#5odL14fI#t3{%2J`GUM16{BVP77Y&
zjaq}Fs4x68m>*Tm^LM!f4AbYZI6jA3kV&X#z%{7v|FN1EkO9>AZ!#K_(YuD{AEB0`
z-takU!7gAphSaqDD6CJMjEOiN+u(L=f)ZnKQ`F~YqCUS7wL)K@o((yFdH#M}x0c=5
z2P={PGCqxKu^;}0TA&`at%hSzn|==J$!RC{!yi$nXX84a|EJb8tU;W>@3^`+2;*@X
zuEwteBu0=JRoC+uhF?(+AS3E|l8xWt>zEnm`3p;}Cp@`J{2J<kVp4r;+Qs-A@kiJI
zv*JB}W&8!F5_f9g`77dg*n{}-hMpY4z$g+~B$680i*iv*SR}!d71$it;LoT9do|JX
z524pk`@UY1HEDm;uE<2q{~Ft(G-i}TJJd1r3hG#T7r8$m-;>ZjE7inqNDUf5JsYk=
z?d$8PFRa|u9FE$z*{Cl*i`us#$z~(e_YOrZ*!$Q8uLkp*rf8Q2=xY+qxUd3sketVz
z3`%*@^Ur#_n%Q*u4YdG;n%neC4LTonTRnpMp^%oI|M%RJs0G@J+9H=wD-_ns26->6
z$M<C#37yZ`sMF>y>W2!qwik9sjWbcF&v{J2a&7E-U)1MUptjUW)WKP#tqsols0HYa
zTA&%Iv+ZLHXyO5hTA0|*Uhq675wF2A)a)Ea;l1{@Bu8}g{G-%0)B^SFWMd~2b@YFT
z5tz5LC*NW;Uch@8g6E#HP3zKA%zypKG~#JnDp#UTlO4#JK`!Gk;^SRCSwx)N&GY}s
zIGO7Cr{ed!+wOK2=W*Zg9-iz$*VFUQl6&zcaZ)c&_F=8wp8q%AE!2WcOk;XzVoI7P
zZ{rNigLV2?eq7LmpedN2>#esIsB-*T!3i()A3A7E|3T@Kc3v#uN~XB@oe#RYw4?uj
LVPKSZqrv|G9di;Y

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index dd1792a..58eb09c 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -2077,11 +2077,11 @@ msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
-msgid "The q value on '{language}' is invalid."
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 "语言代码 'zh' 翻译：\n"
 "\n"
-"该语言代码 '{language}' 中的 q 值无效。"
+"该语言代码 '%(language)s' 中的 q 值无效。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
-- 
2.43.0


From 58fe33c04f62200f7ec094d0788b3ab37c633efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 057/112] fix: allow whitespace after a coding in
 Accept-Encoding

---
 httplint/field/parsers/accept_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index e4dbb2a..3effbac 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -27,7 +27,7 @@ acceptable in the response."""
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
-- 
2.43.0


From 0d5f6f7acd2448759a5e3350a5bf6fe099a47ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 058/112] fix: allow whitespace after a language in
 Accept-Language

---
 httplint/field/parsers/accept_language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index dd5273c..75991b7 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -37,7 +37,7 @@ preferred in the response."""
         except ValueError:
             language, param_str = field_value, ""
 
-        language = language.lower()
+        language = language.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
 
         q_val: Optional[float] = None
-- 
2.43.0


From e2dc829591399c76ae76f5b2525c98f065dd0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 059/112] fix: compare Accept-CH with Vary regardless of case

---
 httplint/field/parsers/accept_ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index 806ba1a..f785fe0 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,7 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if field_name not in vary_header:
+                if str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From 680309fa5f42c0a0aca65d3b9401fa5a41651255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 060/112] fix: don't take a Boolean for an Integer in
 Use-As-Dictionary

---
 httplint/field/parsers/use_as_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index abd8ed5..3b51932 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -66,7 +66,7 @@ as a compression dictionary for future requests."""
             )
             return
 
-        if not isinstance(val[0], expected_type):
+        if not isinstance(val[0], expected_type) or isinstance(val[0], bool):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
                 param=val[0],
-- 
2.43.0


From 9f5739785d9abb8f9228846f4e06c3b2a47b6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 061/112] fix: expect a Token as the type in Use-As-Dictionary

---
 httplint/field/parsers/use_as_dictionary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index 3b51932..a230658 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -1,5 +1,7 @@
 from typing import Any, List, Union
 
+from http_sf import Token
+
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -43,7 +45,7 @@ as a compression dictionary for future requests."""
             elif key == "id":
                 self._check_value_type(val, str, add_note)
             elif key == "type":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(val, Token, add_note)
             elif key == "ttl":
                 self._check_value_type(val, int, add_note)
 
-- 
2.43.0


From d4e17147f612ec20f10b4248c2cd54d49d0f367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 062/112] fix: name the parameter that has the wrong type in
 Use-As-Dictionary

---
 httplint/field/parsers/use_as_dictionary.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index a230658..33ada0e 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -28,7 +28,7 @@ as a compression dictionary for future requests."""
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         for key, val in self.value.items():
             if key == "match":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "match-dest":
                 # Can be a String or Inner List of Strings
                 is_valid = False
@@ -43,14 +43,15 @@ as a compression dictionary for future requests."""
                     add_note(USE_AS_DICTIONARY_BAD_MATCH_DEST, got=type(val[0]).__name__)
 
             elif key == "id":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "type":
-                self._check_value_type(val, Token, add_note)
+                self._check_value_type(key, val, Token, add_note)
             elif key == "ttl":
-                self._check_value_type(val, int, add_note)
+                self._check_value_type(key, val, int, add_note)
 
     def _check_value_type(
         self,
+        key: str,
         val: Union[tuple[Any, Any], List[Any]],
         expected_type: type,
         add_note: AddNoteMethodType,
@@ -62,7 +63,7 @@ as a compression dictionary for future requests."""
             # Inner List found where simple Item expected
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val,
+                param=key,
                 expected=expected_type.__name__,
                 got="Inner List",
             )
@@ -71,7 +72,7 @@ as a compression dictionary for future requests."""
         if not isinstance(val[0], expected_type) or isinstance(val[0], bool):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val[0],
+                param=key,
                 expected=expected_type.__name__,
                 got=type(val[0]).__name__,
             )
-- 
2.43.0


From 682cfa69c3c677b356c4056cb888b8d72d0ea803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 063/112] fix: only take codings as requested if
 Accept-Encoding or TE accepts them

---
 httplint/field/parsers/content_encoding.py  | 10 ++++++----
 httplint/field/parsers/transfer_encoding.py |  6 +++---
 httplint/field/utils.py                     | 10 ++++++++++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/content_encoding.py b/httplint/field/parsers/content_encoding.py
index c6b685d..9971e77 100644
--- a/httplint/field/parsers/content_encoding.py
+++ b/httplint/field/parsers/content_encoding.py
@@ -3,6 +3,7 @@ from typing import cast
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FakeRequestLinter, FieldTest
+from httplint.field.utils import is_accepted
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -36,10 +37,11 @@ of its underlying media type; e.g., `gzip` and `deflate`."""
             and response.request
             and response.request.message_type == "request"
         ):
-            accept_encoding = [
-                a[0] for a in response.request.headers.parsed.get("accept-encoding", [])
-            ]
-            if field_value.lower() not in accept_encoding:
+            accept_encoding = response.request.headers.parsed.get("accept-encoding", [])
+            coding = field_value.lower()
+            if coding not in [a[0] for a in accept_encoding]:
+                coding = "*"
+            if not is_accepted(coding, accept_encoding):
                 add_note(ENCODING_UNWANTED, coding=field_value)
         return field_value.lower()
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index 790902f..5d9bf93 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -3,7 +3,7 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FakeRequestLinter, FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import is_accepted, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9112
 from httplint.types import (
@@ -55,8 +55,8 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
                 and response.request.message_type == "request"
             ):
                 request = response.request
-                te = [t[0] for t in request.headers.parsed.get("te", [])]
-                unwanted = {c for c in unwanted if c not in te}
+                te = request.headers.parsed.get("te", [])
+                unwanted = {c for c in unwanted if not is_accepted(c, te)}
 
         if unwanted:
             for coding in unwanted:
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 5268d6e..e3ec219 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -232,6 +232,16 @@ def parse_params(
     return param_dict
 
 
+def is_accepted(name: str, preferences: List[Tuple[str, ParamDictType]]) -> bool:
+    """
+    Whether a list of preferences (e.g., from Accept-Encoding) has the name without a weight of zero.
+    """
+    return any(
+        member == name and not re.fullmatch(r"0(\.0{,3})?", params.get("q") or "")
+        for member, params in preferences
+    )
+
+
 def check_sf_params(
     params: Dict[str, Any],
     known_params: Dict[str, Dict[str, Any]],
-- 
2.43.0


From b6efac09d6530ce03b4e3d3fb76bf1d7db900b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 064/112] fix: don't fail on a Cache-Status parameter that is
 false

---
 httplint/field/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index e3ec219..07edd75 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -284,7 +284,7 @@ def check_sf_params(
                     param_list.append(f"* {desc}")
                 else:
                     param_list.append(f"* `{param_name}`: `{param_value}`")
-            elif "desc" in known_params[param_name]:
+            elif "desc" in known_params[param_name] and param_value is not False:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
                 else:
-- 
2.43.0


From 676632ee4901da95ceeb6c71652a0057d251a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 065/112] fix: don't take a Boolean for an Integer in
 Cache-Status and Proxy-Status

---
 httplint/field/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 07edd75..bd319f4 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -259,7 +259,10 @@ def check_sf_params(
             param_list.append(f"* `{param_name}`: `{param_value}`")
         else:
             expected_type = known_params[param_name].get("type")
-            if expected_type and not isinstance(param_value, expected_type):
+            if expected_type and (
+                not isinstance(param_value, expected_type)
+                or (isinstance(param_value, bool) and expected_type is not bool)
+            ):
                 add_note(
                     bad_param_val_note,
                     param=param_name,
-- 
2.43.0


From c37220f4c217c4b635c4fdf58670c869a1b4cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 066/112] fix: only say that the tokens in Accept-CH are
 missing from Vary

---
 httplint/field/parsers/accept_ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index f785fe0..bf1eb5e 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,7 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if str(field_name).lower() not in vary_header:
+                if isinstance(field_name, Token) and str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From da986967fb6821686de652e2c4135ad77ecc5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 067/112] fix: don't count a dictionary coding with a weight of
 zero as supported

---
 httplint/field/parsers/available_dictionary.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/httplint/field/parsers/available_dictionary.py b/httplint/field/parsers/available_dictionary.py
index 2ca240b..181b92b 100644
--- a/httplint/field/parsers/available_dictionary.py
+++ b/httplint/field/parsers/available_dictionary.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import is_accepted
 from httplint.note import Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
@@ -33,11 +34,7 @@ dictionary available for use in compressing the response."""
             return
 
         ae_values = self.message.headers.parsed.get("accept-encoding", [])
-        has_dictionary_support = False
-        for enc, _params in ae_values:
-            if enc in ["dcb", "dcz"]:
-                has_dictionary_support = True
-                break
+        has_dictionary_support = is_accepted("dcb", ae_values) or is_accepted("dcz", ae_values)
         if not has_dictionary_support:
             add_note(AVAILABLE_DICTIONARY_MISSING_AE)
 
-- 
2.43.0


From 155aea475f87c0c5952b172411950ee82b618d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 068/112] fix: only strip whitespace that is allowed around a
 structured field's value

---
 httplint/field/structured_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..d87842f 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -35,7 +35,7 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         if getattr(self, "_sf_parsed", False):
             return
 
-        combined_value = ", ".join(self.value).strip()
+        combined_value = ", ".join(self.value).strip(" \t")
 
         def on_duplicate_key(key: str, context: str) -> None:
             add_note(DUPLICATE_KEY, key=key, context=context)
-- 
2.43.0


From a33f5c03f41c9f684c17ba60bc39798d4457dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 069/112] fix: allow a Byte Sequence as next-protocol in
 Proxy-Status

---
 httplint/field/parsers/proxy_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..8959187 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -104,7 +104,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         },
     },
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
-    "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
+    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: %s"},
 }
-- 
2.43.0


From aed5c9f34589d2a88b928ff529c9816d370d9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:02 +0000
Subject: [PATCH 070/112] fix: say that the last of the duplicate keys is used,
 not the first

---
 httplint/field/structured_field.py            |   2 +-
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173723 -> 173724 bytes
 .../translations/es/LC_MESSAGES/messages.po   |   6 +++---
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177184 -> 177183 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |   6 +++---
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196568 -> 196580 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |   6 +++---
 httplint/translations/messages.pot            |   4 ++--
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155221 -> 155224 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   6 +++---
 10 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index d87842f..a23e297 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -89,7 +89,7 @@ class DUPLICATE_KEY(Note):
     level = levels.WARN
     _summary = "In %(field_name)s, the %(context)s key '%(key)s' is duplicated."
     _text = """\
-The %(context)s key '%(key)s' is duplicated. All instances after the first will be ignored."""
+The %(context)s key '%(key)s' is duplicated. All instances before the last will be ignored."""
 
 
 class STRUCTURED_FIELD_PARSE_ERROR(Note):
diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 77c1948f59f78fae2ef327a91e0c5734a66ec4e1..3291ca66d32107d25e97c89d287e3caee1468156 100644
GIT binary patch
delta 4087
zcmXZed3aC98o=>)<{?CFeLS&?RIRZuQA8CHvF{OEkPxJV5_|D0d8|RLjozdYYpqvn
z%SEZJwlr$5t=i~gyZ3smE!PtF`<}^PpLyq;nKS1-vz*lILTTBBz8hc4=M#}GTa66B
zvlxvvw;Ab*^Dz>yVJOz!Zlo=a#74LiKf!z01grhiNCO<4=W_g*_yqRBd^?P^$7t+}
z-|jFzX-vU<=WcA0=S1vI{ch}re%~8uh*8)alTjah3d6AAP9p(Eq!a1`V|N+ZfEk#M
zZFjo|-$8wWx_gYY#EE-+uA@vUf~k0cU9i$#BTaEEeuP`G8UBg-;J{4hKx|E%o@Wl~
z04x8?wTr<P#9w1Qyqc%~K3Ct&M?o)4!Opk^Bk(2G#g_Zs_0MoD@fzHPB@VchpF~Z$
z{9vR5G(`P0Gf*?O3$@>S*aJfjx&hC_mc+g+3iT-zKI9(M0(AgmFbXqKGf?bDBjFf<
zJ#i6!h&iY)kpHmDU}Mw_#h|8o4Qht&qt2z8N8Eigkr(vIHVQg<Zlb0t;HXPsFVso6
z6!m%z>Hx|fa}LIK#2ZmF@Ce&rrQ=3w;P5<`=6L|MpF5}n3j9eYy^oPn(2ftGHq3Xz
zNG+^`+Mqvn!WF2Q%0W$SiIeWZ5m=jeDr);psGsfvhM+y=GSmchPQ|0nrF9t0^W_!=
zZQy^}$miG;b%c9R2k;Vgfc4KfC*cRg2T=$5J9fmvS<XJF?bf4a^f%Q0%Kz*#I|$1Y
zr=d^3^*##v1}57`Wvq)8uovpU#-WaQEhgh{sB<I!tdR^nf<;(<vA-BOL;Tq}BSSFs
zypdJ78W&@e3r6PQNnD5BF0%eFP<VdP$bP+W$$0Us%SHwhM_zI6#oolFel-$@qwxe@
z!j_nN)vf!Rr~@r~&1E1Gzan0Yx@xLiH<E?dQ0LZ$8$MU~>xPjfRD|E81K#8cmdE#R
z8HvR@zZ)ruOaE{K-IQY_p8JQ~HgW~Cv7ja8e;NtozU_C6oTdKfyGDM+)O$wOW8!@y
zHMw5;fsrI^<NLRf>J(1>$4D+WJozuni}>+FBYt|rBO|A&@A%lrTMT%@`li0bQzHk7
z+dVU~0{xyFnSrUe8O#3V+8xJq;>CX(*^aee7@31N@ILxtUmEeJ!;b$mvYd*@S4M8)
z1JrMI;<b_6*!7KT*x;>^^Thjb87Ai%S&M=1j2y!wco=7k_4;dTtoLcJ<5-@v(pnkL
z^#b{<JlFL<hQdB7hUT}@iyH#{tQ5t>0#?}EWEOcH!Sxn}th~l=kv&V+y=T426;s4@
z_zHEh#TK>Rq<oDr#A(H>_sw(hQ$Ep|;#PjZkP=olGymjifb}+xv{F_U(jW&X;^@*=
zQt=Mz?44Q0dZ{a3)=Farkb()+pDkylB{nZ_y{&dS>g3A8eps%8iznhG;u9#ePYtx<
z&-|0LidIVC#vm(CxnchYRyg=%dnGGL!~-i^Z;QQ+!-z{%v9bfFqNXyqs`XC2W%w!a
zIZVOOYS#NC7g3jON_E~CKdiwEU^e>BQOFleO7JpH!(}xs-;X`NmX(dT62HObwcQ(C
zN1d!8b*wk}8r606r%_i$<$6}KaWS660rjoC)cOWiqIj_i4Xs3ygb9tTPv%pR)!0fa
zjBH}1FQzmlHTa~NOV#U8E1T%xO>--WxZz_fEx2B$h4l`ZKA%{bOZ{qGfYn-BS&2JQ
zCvm%0)>}2_Q8VZlX5|?sg!!zuu4CG`2Tl&R-cB~Ftv5SmNd(`N2hDD0r7~V@Z{>Y_
z*}-~09ECbrsYM*r*-9vO?&2oz{I0Ius%}=gP=B|(b;oZ{2F`=$p`NNIeH5xwc!#~Q
zdM_(S(TCAAY)zh4U`B829jhUItar{&z%|@=81?jv?dv*RiN%StQMdG4sE1JDer}Ss
zMvarOKl=7j&_AAl{!Bg|G!*L)M@3ujk7!Pw-=n7PChBPzHqd&1I!jOwn{1qfeuJ!x
z#u=ysdx)VJG}wB-Y6CEsI0I|y`p=@EBYlBYu}X})p%Zo>o`ia?AH_;oAeNM4Flxt9
zSQ?k39$MS59G<}dyo(L-4K~MmL#$N91kBX+zlcIFD#GJjhyOqw$Q9I7y+!>*4TrhR
z48Wnp$ry`|u{-u0ZoN})18RT%Bdqs7Fc9?x=V1iyMg8`<*g((!#_{gW;!%Gv7UCd0
zg!-UBwk=(+NmvE<qo({1)L*YMBdtuv4%iBhp&mB*N4W=Y!M4O#^Q@TQ_Jv{S(~Ti`
zw3Xes7w6!}F|1GK!c)|B+-|Jf4@!<Bh192E8S1YkTJIn5nM!@B@z(oY51l~ATwjP=
zu<%6p?K3fo_%#;b{+^Rq|GEzQPiA>x*C{U5<MA5tH~1q?nrdYve)PGO*0>He19wp;
zW5sE1u8cyxo{5q83UxAfo9+hSL;XKEhCMNNI_tkLg&s3p!)+K&{0K*32-kJQYf(SR
zD;$FTzHpQ35bC6QiaL<GGu=9$hT85I)c&i@ay#TqY(;z%by5cUlH9uQfx0X<V^hnY
z4eFZ|o#Wo1JGLYK0`+h?jXKaWbKS8z2s;v=pJ%=QfC}^70Mf7<_0Lfcqwodp!5P?t
z*msFS8w%ButpwsIjKO5oh7VCYZn4n00HcYopza%u7P;A<gnIvF)HkcT*e%n3s2Q4z
znu+76?E=5_PD`I8Pza;qK%Vd11qoZi-pwRgiqo*{GS)YyEO+Ppo)s<=T~@l~nvU)1
z=O=80#lEugH@3kL+J&ZAd5?JPDl1!YI=0ejTH|ZCVT?qbRCAF{Q4Zr`;&N&Hc+kNX
zEQ}k|-M+AEwOch0P><>K3@bOV(i*pla#8;UXRoz#hx+yF+-h2|-bz8@J{wpCI?@;l
z`M5D23lWdr$OW8&{x~zwWb`9mxy!#=M5iLLal^)piwhb*A}(lDOj2}WW^|&7Xi_p}
d^!T`O@mxs^is3@gvHhdQ$0ua&+iGsV`agh<;Mo8G

delta 4086
zcmXZecVLg#8o=@A9GgpBwSo|P@7OaEV#bQ3p&>yuMvTO~#?Pt|v!tlltJUbW=jBpr
z#i&^{+NLh*-s{%96s7$>@5x`E^PKlR=RNQ9p7E}_kT>;0-W{Wh`KE|SSelU!@d8F;
zwQWYa;vDRSH?bMk`pQT<9D;$k6I<bZY>buuZloUe%W?^}AU=s7V7Bc>I^c&Gg<G~8
zpERT(JKT+pvK)imsoss<Fvm_K^)UjQV>0T4Ph&9V+GV7O5$S~bz}VeJHse}cgKhV?
z2j4|~fm(Zww8k-eeXgT@R8*tl1%_eSeMXw#NNj{(VpF_>`e6V4&S-2yygJKF)B%=1
z;M&DtOX3w+2XADV`=G0D;-jD!#$y-UilO)tYh$ZJ?)nHEMZ6AoW1)Yzl%GOP`5)L3
z>m7EVW-@BVcA@rrAA4Zn5jWu3*qYdvPN6P^eE)P0YJoa{;TVbgP%}{AsFAkV4twH!
zERUI}FOdD1%U}c448@?PdL3$penFi})xLK3O+{YNCutOP@?@Z<s_=1_!k(y;a53uj
zOw<ARopAQU_Qab}Gw>^hVA*esRK-DAF3$20YCm^T2jqWJC%uo6QqYc%pf=2Q%18~Y
ziQ1qycE+WsnaV^>ZK2cd!R@dn@dVWNpQC=d%h&+T8JD3(sB<bFbuMkdYCK<lpr8$M
zpEWWO8>5bJ59$D3q7JZ5x^pa+B|eNg&>yiA<~!$%L~XYbHKVst`zv|gWwtMtB2Go0
ze(M7i^bO>KkqS@?{jn$Nz(%2tcs<U;+o*FR{-Tj}cntHi{9?Z~l1@D0l92(}^s<o^
zxCR$uqbo+{;3?dQU9YnKuTXe))yN^eaLst}wChG<h{L~g?!^e=qBo4hVFI4QtJoS>
z-gN6e19hN&w_FCoaT)Of)KydAdn4!YChFYUl;LxQ=NU#8QxS5T4tSI6SPBdNXrw>Z
z{K-gBT%73!`uWdB26KP^J4U|4^O)O`@_!jA&3)VM8M#RPx%)<L;L2Z&Y{J9`MyhkY
z*uRa;z+m5hj8vg;`oBiral_+>EHC0m|1*+PZ+K+nEcG298+nU`pRm5EFZ9&N5#rEi
zMp7`xb0br5C2mE(|GRc4a1HT-7e>Cq8ZV8^!te0``eJ`Gl7|jEzB00uityJ)ZsP;g
zZ*}sGkvkanyK7kYt&z*b2XF}{zcaD{{r@m>0*~P_oGI4pudT7(r@e)vcutD7@)6f_
zX1DTO*Z*(|2dNm4!%8?e_~*1z026arVN;W7<Tak_E%I7<gIkb2OE%=Q-sFnO?>c;i
zI@w|iSZ`9k##rLi_pJBL-{KHH(b<Al4rAc^R<<(#<Vg|hZ5*k^tjwoDCXU5~;#N}e
zF6!)^>Sw*wy;s6YLk6%66R5vX(n@P=R?2!??IhI6m5#l!gujc&;5FitD70T$+Dabg
zpQM(t@;+`3u=11}4wkigAj-CKR%Q@KSFqj|`!fzAE>zLVcAS8k%Bq#Dcj|qDLx{h{
z<=C{c^*+fJ)MdM@3U7?%s`3JO9(|W6WUEF>@ET6SPpVt_7z@;}vISFcH8!j1-sl$U
zWDTrky~$U<wyQsbx+==ov2p<y;A!kr*UE2NU(ZS;FIK9)m0l!abfERgTq@EVS_#7N
z##W+mSrbx&kDIzwy>4dZ3p#ky+)5H|YGI`%*NeBb-XRm&%F1l&*I+VMYHj6H+=)7g
zLxZfhYA&H>Fh{VJXE-d_XT5bD6XG5?uC4WUvT5zS*(r-c`KCN*W_v3Y@Ja_Of5n#_
zt@p!`r?ZtB#AUizX@;G{+~l3p)wNsR%}N;c_qtnm{PtwvJa{(hsd~ysp$dg}7=e|;
ztsKWG7)`?<@|1#WBdm9<27X|@bAB|g=f0z;r(bN8>o5fi5}!xi(tkibg!1)vlQal5
zo{oLccYuQa@f7aE<l{jDuoiJdwDtaoKF)FnYU(mjPs28St@o$12=%ZzkK-^$KP$s=
zGU~t{VlylgW4&LsK3I)-Emqg{pH4wX`T{Fqg;;k(C+tW(7WG{J8p~nM{-hkMqIMjC
z#c>Jhp_PUu@hld>dsrXeU~{ZJz)Be$hWmB>&!-ShMM#|M@H5nbTt`jS@2H=s-XNEm
zJ~)s#8T;cS?2bJ?vfin;3AMl6@z(nvh(>+E*%*p@QNR6Ltf%LHgTe02;!%Gv=3zfP
zg8CqTwk=(+)3G8RL{0fmsJ~vthgunr9WV%wqaHTdhq(uD#dgFuvMin8_Jug~>BdlX
zxRpJ)7iZy+5v)(<!V}bW96HMF2SpM|A@!-~NBzwt>-_^hRjDsJ+Iqk1O~=qN*XQAv
zm~X86_WLlB_%-I@{vP94|GEx)k7s#d*aVmAB)mnu3XkI0zgZcI4JTS@gBwsYa1V7d
zmY(G1%23qn`>+?jLY>TAC%XYmLH$2Cjy>`1WY&Kah3->a!!&G5{3{N_K(6bE*Q0)t
zS2zHprn*UW1a(q9K^;h~X>OfQL~VBwwf{=f-3~bwgNQRwC#An{hFkaDQJ2LR*u?T@
zgZd`<XSp}%hV6-csE5lL)PWYC?T*#H*opYk9P9lDl$z@Xkc!=?e};M(g(SNNuf-n3
zzN-{MC{&tfr8Ex3SWHH3_z<<@7W18RF`D=~>b_Bbft&r)QSZNo`eqdux@8)LnxR>!
znK*&k&VP}2TKZ%dg<vWUW%<rskT#3iyO|`5aT5A1VSVGWrS6>Hlj1Vb<x{s@S7QhI
z`33{Az%nZ@Fc=%quIX|s`G`lZu#$$8Fi59qmCxLUF$8r|%|bRsIf@I3ORVC@gATUh
zUvTppw=e8k>sHMJ)MI+}Ix87icD-9gZ&CjRXKt`^kNS-p-D;Y<$x3eG$jz(*9cc`O
z?A#cSd5IIYZ~@0-9-NwGGUg;s*`23yXy^Q~gGR?C28@o63m7ywaYl5~{^%qV+PKKT
gxTKL|PHasI7#J5YEH+?d;^2h1#QlfT%$?VN0tT7ifB*mh

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index f10c43a..4e2d591 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -2084,11 +2084,11 @@ msgstr "En %(field_name)s, la clave '%(key)s' de %(context)s está duplicada."
 #: httplint/field/structured_field.py:95
 #, python-format
 msgid ""
-"The %(context)s key '%(key)s' is duplicated. All instances after the "
-"first will be ignored."
+"The %(context)s key '%(key)s' is duplicated. All instances before the "
+"last will be ignored."
 msgstr ""
 "La clave '%(key)s' en el contexto '%(context)s' está duplicada. Todas las"
-" instancias después de la primera serán ignoradas."
+" instancias anteriores a la última serán ignoradas."
 
 #: httplint/field/structured_field.py:102
 #, python-format
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index 0e69aa2dbcf9c958350bdbce58c8c10a14b654e1..32af7b516999353af72fa554e92e85617cde38c6 100644
GIT binary patch
delta 4081
zcmXZfcbraF8o=@AJX*9!h_ZYzM%x+eXd{GCqKnR8lrhR^LG-%oWeBSat0d87v(ZNv
zEjtpj6TL*Nmcc5Cg!sg$8TR+wGk<;0bKZ0BJ>@y)-gougT&wQpN*+}>G(kk7lAZL#
z4H%EPwmE5n1F<V6<2#spyOW041S{h#w08Tk2I>wc6|q*P{jetSB5aGtu>ls}>7)zx
z-04D6m%?5u%qLhIYwU8;2}fWzOhxNJ+1>sI3D}HyEw;paSi*_a+~cG^ap%2G7T_{m
zgb`o*4jja$#INsj(gHi}3;7$aq2kX}+(f%!p8ZauFb?0wnOFx?&_?hQZ6@j;aMBs4
zVPm|4F&KW(UzdROh?ik4yoh#v{zJZ9#}I{TR4hcB%A?pE^M2(d0y}3q1#PJ|;#XMi
z-~NWT(WX8u#b4JMZ6?=XG^SxJ7CP*tBMwIEXbRd)gmQfCq$-6rSPqlW8mz}Se1P_V
z=HEDJjgvDyg=L6K9C1<|8)5|<hj#sE*a&|{n~|uaP7-klR>E^wh3AX=){mqb+SCup
zjQ63f(Id1Os`no!?QkU8NRFUAplE7vBk76ti9bRc$XT={eTKG_;otcjYLB)gbFmH2
zmlG7MLGfcw%3~|EsUMA&y{phJxQI5wBFBA)8zCc*Nmv$>(H?jKZ5O;kyT0NHf4@Yu
z9GH(*pNf$@U-YD(;z~G?xNl~hhW3EMr+o4?N9)LREQv?aX6829ZYg@&Z>!;GOY$9B
z4!lC!Rncd>!?76gW(-*tr&6#P$a~h0BnC?p_d(m|Gthdx7j0WTMBA20=bY@qYgm-+
z_mA^VP7`na-bp{4e8I_9yo1Ye=?_kpVD*bm_TjOM?Ejk-rvKN;FF5Full$2DvXimc
z<cgCqcnB@|qObY~Ps3BhY1kH%ulcogKYHt+CG}Wbj2rME)=zVC9bckdmv%km3sr77
zSx7|^4q_w)Z<0(n`F~EjW6CYo5KG)~@-^+6-E}e<^ZevHJ{Oy-$b_Gna@u|Ki<2Mt
z{rRs>uHo7HPX2}49x$W)9`_pq#95(-WGe;z-N`E&L_G2jj7WF#h<N&ACn-4biIb-o
z^OPi{eT`>M&Jy>2?qohjzi=`hkD$f%{_s<N3TF`y&T#T2KEbKD?WL1~+$R+M%1J&7
z?}^G@e(2^j=<!>sGMD&wyoXb=XfWa-Sv5F-?&C`8w`5b<j;*q*TtUg9!N{-TI>KGA
zX)u7eoGN2@PO)4neW_oVTP4Hx{}T$ksYuVGGLQzF@~RZULitokY>9e9We~r=dNa5{
z2IW`b?2rKk`~#v2s`TRbb7;vHT}b6~yoK>Nr?ARNyoc*pqJ2eFu3~&K+L3=!r-X74
zaQ2r}S&!AiREFVIT!pPmX^_qL(T?WWaFvR5U=@xdK3-abgQ{^E4U%*L+5z<=_Q&dF
zeMgpKD)9@9;`$@yRNf%}B)z=KpD=rb2D>0EQiVK`ycJYF=7Nlh8k_@5E2$(9r{Xq@
z{ENzPyn=SbwvJNijdRdC{s1jU=2uo(hP|t(Y{D04FSReKs)P<xNTZN~>#Aw+l1Z%2
z4_1%1wh7THtFb^0Ka!pJ%Hp?G)|xd{y5nvvWN|H@3z2w^ILA9Gxfsx89E`VXv(zj>
zhZqgX0xAyHQ)z;&8>kGx#qX+Q$CnLNe&Yt&8v7AF#!19Wny3ur_kvB8#O3wdOoOaH
zjn?r5_To%T!`V2fg-R{jKSoQw$}LqI*>hTk{90UUrNO?;)kcHuRlBWEw*KwN4H_o4
z_er^{10y6p*-<5(8{LZa*I(|WQkVMNT~z*{zC|1zBW~JNr5P^jros2ZmF|A2!g}~6
zh!0Vy%mqu(J|w=yt5`DL?}iMV$PM}@Faqjt_VP(qytf8N?_ji-O?V#-&iFR?Ch=@6
zjVm(iQ?MR!2G+oszCKAqqbS&?R4TIbB!6ON5BvKY$7ebl2hwgYcERug8ocKxVguq7
zoPk+bSaUX7hYJi+sgJGD+ReiVJdKgI|DRK^87TX{N>S{D_L?1zJ#Ym!!WUQ^>kro8
zY>&t0#2;Zvyo}-24ohH(Au5G22JPE17MtP%wDuSAyzT#|6zl;fKJX3m4^#ggfcE+v
zjrM-uh}N+)*cLOe3AP^Ymu@lIIr1yE!<Z3%2Iix6AQf9;){(xx9Y*ndnN7iZz8~$q
zeGTp4C@@NcPo{}z_1Ccs78>oBs5V*$$K!b1iZ+mlF&ez2hGG@ss$>03^+o%l+Jfit
z8HQ||oE)dJ1G|h@nSyyH@L-Z|9^N8;G*M+KUizy_AL>W^&3E|1BtIk1(6YZQyUCWU
z?_`zHco;We%_)ASZelOu$Rw74_H&Zh|3YEYRFyD(*gVZo{YgAX{1^}8&JX=NVC;0i
zhBwfrG;)SYD@;WDKG=bl%=&l#p!cvU@n*DhA`R{2t2i^WqciET_2@7aHg#oYc?aVA
z#9MFx7M;z=aVlDT2Q9nX&ha;%g`J2mpq>4d=Bo6>B((eAK>K29G|%sX)mYc+Llo@7
zQu8(VY8{8<p{zoCK)!{3UpGfft`9L5zt6P7B93Nea0=QCgfCV}!r_>JkI>dUc8Nct
zSEJ292HJB&(M$b^=b&w`GiW1xfbFr%GXM75h&I*vKlUR@K-+!?umfiQ#Gi0o(UNi{
zM&Wsk!K|P9UGgs4%zT1z!TzVvfQpXG{n{=;TdQlhmXSrSP?>`#R;s*?T~}-HpKjn9
zKe7xgPy1$T{q`D$Ho}8w?bER)X8nwp5cM(tR5@ntv6;Os-uhgn6cs(N4u+7y$^rb8
zICi}XUt#hP^Wfc$emkabQaQx$k(*V%z@P9YF5IFr565iv@04uGDrv+uwyEsL!rN7H
z;yKgy^;HUax$zx*jW~UWN)CL97H8k-&4<~Ei|oi*zG=(6y%YO=Fd{K*)PTgW!M&#T
i7`dm%NEZ>4XH2i5qo@e$n>b?Vj77<A&!S|Vo8|v!g6;4C

delta 4082
zcmXZfcVJi56~OUx53&i+vZW<~2$Y09!Vm(fY$KZxHW3mwLKw2@4~U2Y0R&|fMFh1X
zD{R>%RL~$BMaqnzpi-okC1TR=c{hK3?zzAF-n--6``+)pTSZpiDv~jwTxgnz)X8u%
z5ZB`XEV{)>TO5IXa0@oWVq2X&hwZQ~&O>Xr4`VRjHYYW)S)N0&3GrLl1&?DKR@&|)
z5eIE|A&I51n+o$0K8uZaI7z_q*cY?VI#6w=zd;hVCti#3cpED@k*2$xv?5OY)X5@T
zflDxIx9`9KY)4#TkCTqrYfs4Ea19lIq2dPG4a4?2se^s6G0w&2n29!mT(p^p+vlVg
z&c-%)8CziFet%sOwj^GGP4NQS^`#E@c0EHB8c?wWZ7Ppq2P}TjNexWQa~4h|-hc<O
z`ak^*Z=y|o<wO3uM6{V)gN-m7dt$jvCp~a9T1PX{W+GJRu#@@}x?nX-Lu>E}_Qtzt
z59s(WC!KI+o~Q5`;_%O$G{n{zjZ@IB{}5Z_PiQkz_lT2Z9D}v+9M<FcqDTEm8lp}8
zn7nu|+8W(Qo1s>pJL!rO&_;3u?Ew|P2yP^UuodxQw1J#OThhm9OBtEvbErGok}SZ^
zJYP;wum+WmIjN4F(58M8TK29+yWj%a2rGQ)JKP2tfrPLsZb5tCd9+<1$NlxS(C(Ll
zmII6O>a#G4=S#j5eu`_OZO7!iI2-K&<xl$L>xkBoIT(&d(Pri*+HR?M%5SSwv?V!)
zmIHFy@2Z$QQ?Vk|n=oWqoJGNAp!gX-l30u+9)h;dUq_pX-DunD7qo4ecGk%byoyh=
z{oX$3<P>qnS58uJ=GRU(<1Ks#m!EgC6dQfxWDkD%4g3E(g*g|T+{Tgrc5(+3FFJV{
z+g)-p2@j$rU(99y;MsVRI2*g*mMea3^{Tf8T2fEOw{bo0$GB@wvN0F!y6o(bFVz3m
z$zm$fa0DYMd!1y$nKzvD!_4nkLkz#^<S^|z+;TDl!+!7`Uw|D{WZI8RIqg2X?c_Ya
z|MnjzSMcl|C;z~$KQp8J-sdg@#Cf6rlC2c-{m)4*4WjP(2S(j@a*ue<11E=Y`a>s=
zF!m8iNc+aWIypl;__33P81tKxDR=}eZuP`Z`6--BJo<MhyYUgG;no}{Ww=i$Cf7*`
z3h|=yDL?dc8uYk~s-zR&!=G?gJ`F}Z<|z#hpr3IS^_%mnY{gCmR4$<_sKLmu;9BCH
zg)|sIpTa7Wc+Q`Ss0^WgNl}&GZT~-_u#<`h#Z-pVU}Km{c`R2#g~XP+B~?c7yZkY@
zKt>{GhYT;}A5gc9N)kVxLrb=pvML|p_c#F4%c-2e+qjk`+FM@bG7hXrJMvFjR8kHC
z&i-(fb=WXMWh`F7_pozi4YK)X>_D7QMWrSkSdEj3k4I{7P_=zVgCu<u?SQ(5L$Og+
z-;sCm3*skOhwG12Qz=RQ$%E=D6|i6p4R%50C>8QVibt!g;DVf*8k_^mYpDz(&cZDi
zU0Y=wUPe1&JJ(Tp5!2B+eitoA7S&Z*j)Uu|Y``aIFST{`RYI8*vMC(G4;pCjl1XXE
z4_1%1wn>dtR%7WHKaw4oYjI<hHD(i)ez*(ETHMs<LNuNwF4Rn=2m`u=qwwalEHz8e
zqlJcK5fukos<g$<aVo=b>0ea}VD57&cez1<Hhx48@fG4_ZB@qbd)am>&lAsXuR+$I
zM(cPId+`m-#(6lhqe@fSKSWEudhsf)?K$xwzZMr?&|qH{?X1D}YTm^s+pw<W1`SiX
z`J~+0oe>hB?4fd>8-3r?Uw<h<C6@YPi7HR1f4(;zBW~YEr9HmYSA*|`%l-UPRqpSX
zU|@(sT`pLL_95{(UdD(4emCUcG;T0#5F?=eMv_mmN-t_~^o~Y**+dT3;LE8C{(*Qt
zM&hcx`b=y|oP#kKJH#hxXd(ssl*&SOo|H<?>)}v;<AHh3$KkZwjfogJOoR9Qbc`d;
z#5wpB3v13t>u~82Dy^^+TDyf<15aa=?f>5>*bGz~sq!@TLVL}oVt-tPt?>!|8RJH2
zaJCP`4#bNw94}!NYloFEe6&hAj79r)Ou%;dCR+Ooc+U3!uN3S7CtmUmON~|k9f0=w
zoP_p%-+<P!GuQ=luq}2T=a+6N+BtFuyJBprpMgba9mv9X%s<}Ocf&e7U*=P=p6^3@
zZ(l__I7&~@;FD=OTK%{943?Ydm#8^f2dCl`%s?AR)FcgFQZHdW;s!7KnMy|cqS}n-
z@G*vLo1C1ivJHDrQJINhQ+Y5+w-CQ0zCTT68D5;OGMM`DfAbwa|B9cH$7tDKjooBR
zmOMjcA|A$1u<1-cQ#UY)IC>UKK>PGr?0=!KF-;|cA2z+}r~V}FCw_>TxMQ||2TXp=
zui<sHDUF_^@&cxyeIIN`OXhs9`v=8ied0}M=R`Kz$ye)*ypFy>kF7_Csj#W5I@db_
zM-p$wVOVh<Bga?K;#+9h-F3dd@jOf*K96?x*G^X%h-ql|zmE3B)MkO-1@B|5)rTn9
zg;f@6@YOm6$wOI<_JER${l4yqmRzr4Py9O1noBsEnZa3TGZ6W<$}CL9L3kf+%@daT
zBl>-`8OT9<ZYXA%A8|U`_Bw+$!n@cFdoTBIzYS<pU226NNfO%j+mGF`;NSfT*B31*
z-@`ii6}G_qEB!8c4sB*uV((!8Q;4IY=R1CFm!YlIRb0c!qTf}Sk0(~C6vw`+HTX|A
z;(b4|9IQ_J4r~1O8izK*18D6ZU=z&$0WTryV?R_mX6>=Py)DXoq*9rR0oWX8AcK|t
zxRN+woeE!J@(UKjAJ+Tr_+W#|0e+9(sPZxXh}Ut+CY1&F@@D@|DUhLZjkxg^mAzPg
zt4d)!XWG8LLLrPB-@-z~54Nck#9Xwv;C63GEI?dgTjA>M;=__sCM2guOc<6Nkup3r
nt^fF4{l~i+EyBj89{zZI#Hgf*v8l<U=Pb@}yB23?dcOYyWsU9%

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index e870bbd..9b5fb12 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -2082,11 +2082,11 @@ msgstr "Dans %(field_name)s, la clé %(context)s '%(key)s' est dupliquée."
 #: httplint/field/structured_field.py:95
 #, python-format
 msgid ""
-"The %(context)s key '%(key)s' is duplicated. All instances after the "
-"first will be ignored."
+"The %(context)s key '%(key)s' is duplicated. All instances before the "
+"last will be ignored."
 msgstr ""
 "La clé '%(key)s' pour le contexte '%(context)s' est dupliquée. Toutes les"
-" instances après la première seront ignorées."
+" instances avant la dernière seront ignorées."
 
 #: httplint/field/structured_field.py:102
 #, python-format
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index b2f8ae7b7fa7a175480332068a98f9f5c03c83da..94dcce16faafb84e7daf33e2e2746d6866c9a966 100644
GIT binary patch
delta 4100
zcmXZfdtlGy9>DR>_p@b_9LE$#<r-laau>$jFS(CK6EfB;>ok&RKik~R{bWu@?&`#j
z+l&q-JLWdzR<32$Mx!D{u5sR<-?M-AdOpwh`+T3<=lOnrJNLL$;p0-9$5rr65fNXm
zC-YGDdoms7V-GBUz?0W;1cu}P@D<d9p0vU~*c0bqH#~>UvHBr*eK58s{t#covlxX<
z4to-h^A3AH=}6%L6$7zdo+qzjI>zF!_!dST@uUwPM63VXQBR^V8Ao6~*7QUoj=A=+
zUwX2i`W!rtGmd*Q00*6L_h+C@tjtND8(G3hPnuG36o;dpax)u=U5K|}C%lI?knq!P
zCJV3w@iiQZVPCnGn~N=o&*Lx*`P!{SB3k<_w27ARo$;g*h1W3#7veCygZ6+|&$@;S
zF@yLtKEf&IT*toiZeaVcKlLRqcoK=xXfw{lF&KQ&lR-ERZJ<Zdw$xYm8`seoY(~Xe
zw57d>?_kSs-HjP&EATVg$X~j|lH(k-z2Abi*ALJJ&?evAw;1Dyf5zT8=sQos@Ka;}
zJ~>07GZp2(cgYov{fIZ9CCwvjf<u0AGhBe(i3^M41_iEtDq0TZVMDA|=t)cLS8N(u
zy93x3%U<^6ZTgo!6f7%qurWS&#m%HQTDC7lTiSfIfi(WnJt!7!FEjBa3@q}bH8w|E
ziE(JBV>^aoz*SFrVHn!de}J9nU$QCKDG0dc$xiHwwju#PxemLd&CG{3gELqItNrY@
zpfg(T#Nz}!g|?O5e{ngIjF#N{(USQA*2WIkJ@MIy;wd!1U04NwLYq;k8*Zd+(FT-+
zOL0FA!J)r;l8rktl;ii_O;1YUn%_K`N&TkZ-Srl?JlRA12igR)ZhLYB-~NO1e~Uuv
zJDyy`Mt41_%mYf_^JG48z5A}i-8hms@_{Eaa3=<FU&KRC-X!k+r#nU4&<1)1Em`Y7
z@?--h;!3RY*d^s&v@NYDKJ^#g5|#B-<lu209Pg>jz}5jOOEEW4We`S}P`Sr_SwSl6
za8s~KMd~9<s(h{@2~VoT5!WuQ@**z&i^^l}+gV2C8}qL!pHZJ)*7eigS575{in7nB
z{KgFv%ByT8j;o;34J%btc^XGQt1=WPKc}(@FFvpSm77yp{aY}lipmn&x2>xFH{aKo
zNBpm9D*JF$b(OOi`hxnmLTjir<2k+@3jHYDt*QP!=}}9i262VjDi>(bx{ms{q(Z35
zLgHq1RsO_7_yr!Qr?MTV*H`%w+k~n7jx`&oEXRrsRSx0j$Zkn;Bb8~yNsU!{lYbJ}
zgr%TjKvR~88)`ID`8#?oROmwzTdK_B`ihrTBB-y^TBQT^@okjt64@NCvH;&{r&5Rk
z?Nv5n5n2+aN2rvfT~!)23}6L1s*J%QT~w}<e{!(9$|!E!-c#jctn`Y?B;19zgw1=g
z<fy$>{)t;Lng{mmqy8ja-&g%Fs#g7!7YZF>90vDS`2Z7fG~Pr@@~8nSU1{GmQYFDh
zA!(q>K)gOkr2%$|QX%hT{9u(#8cckRrNa8rD(~Y5n2UFDJZ29iIkEBUDvNOr+KN^g
z=92RUE+Z~ELggTSg7%6Y`-Y0|3WZz>mem_Zx(?UHkc7lhqg--5HQFUj9@+qA#i~?i
zpn-3?2iJ;oE0&A1x!!J!$|XF4A>6k<UZp!`zvWI-aDqx0Td?YF^$AB=P9&<Vz@y_?
zVvL`l(gaIPWF_$B_uUqRPjUmify=31Gnu`lqlhGT95<pR;{cz^W-K*DWex7e4ctF0
zS>;{gr&8UiN=@a)&RkeJRi!rOPje#;o}uzAasQd@5ssbZ&i|#^Ds73IrMa1npUYAb
z&zwiH;idU19dYzRl~l}F!~n73KU4<O@v;xq|I6nN_8=bVTjC0v(Y|&M(W60By2>#e
zvQ&i+n$-D7r5@KyFH`?7msV(d{1Mvkgt(9C7}sD0EW*kt%hmr8s)Cl}@z@nlV*>h~
zU!gLNLK^NQ>AaP0K)Y9~)Tcgpjk6ircYY+kfg7<OhOBkT8H4r$%EGnSbDit>CWaHY
z{Y0fNCSiL#fxN1H67s3~Kbuk5m<vma&BK<&kI>%nE&k2<#nspaPvbCr?lVpePR3f8
zQS4X6KEw#>Ypiz@8;$myOk8H)|3V73G|3y>(iEXJXq4gNacJN5Y_tL0M;lO+|L~2#
z<!Hz7#f>V-xC~RU@+MxfxC(8_&!HXDYMb3RXCk(se>p}W6iaMz4H}`<$KpUNLc1Qm
z)eRsHt$r=q50nRJOW!TiZOM0-PuzH$`hTXE%X0O-Foyb7col=T(~s@dO$yg>$qtpN
zIE_!4y)vKtugZPmr%8<YSY{V*H0oEN{XVFa?FQ5b?W;E%CsKcV562l3zEC-B?e_Zj
zS_;rsEHsB);Qp;Soc~G`0{6MSsh;bSWGo8xdvPBPa`w9y&$I(7V~ORUyDtG_?K%#}
z&_n9~ahis6i7#U~CLZSNiJ53y9g^p=e_|fz-`@3Csj%}IbHqJ(FWO3k9Cb5KM;m#q
zW3GM^T8=dN(k0;pv>Z5xcC30GckV$uEnz3zM`{sTKQEkg?UQ^IlBmeRcG&I|GY=pc
z(PotLwL3<Im_pp>jC;jyL+dd7tjaZ3Dhrc|SDtsD-Rc)ylIEbzxb8*gBJ4zb5AA+m
z_&4swlY@5ND}U>jt|z`ne4*I>mt4n3(N<zmz8gS3T2e)R=VrDGyAYTE-gPt-hY_zu
zo9GiixQR@~$#(vO3fys+iUYXe9NIq^^$S&kSd8gd3+G)?X~Rsn7rCEmx30R5S6t(j
zY!Cj4&oXwz2waWTxc@S?!k}MNN>CqhU8M-SVU(S-mu{$3q9P5Wa6OWD68Nji7UILd
zF%#lRzq_o>x$WLy<?g6_&-F+=jLq-T0UdewRCW;u-&dJVoQvhL$3vATaKxW(AhD0o
z{-H>qP?Zbs;#0)wk5$Ux+G4jAn_KKxnI&s==~;S2%&3HSVycddjj0+xJT*FTM|7e$
vysz#_OW&L8Jrh!pGP59M_T^b~3z9b$q@?gSJ$ZyaJL7h)x8ruM7PR_5RB|};

delta 4086
zcmXZfcVLg#8o=@AeR4%nS5Xu-E26Q57}s90LXDb1B1o(vqGr8jtQxH%dI{GKE`pG9
zt=m|!O4?enLv5~=Amo0}@8qw~dCoh|dd_)&zqG787qjwgk1FCuiHMuz$b5W>(Kzjh
zBW*GFQAhe>S8Rm4F$iB{J#2o=k#^`}YdnRuvG8$wy*)M|o{hnH5_@2U6OIhUsV5v)
znp1d6MOUnu>_~T<ixHTH!!YQiBVXY@H1!{!a-=to#(tQBK8{GhY5RQe8Apy#pMYm^
z!dXYUVB6p9{j1On%<G(Mdlq)iky=z7!ccsTW@O#ZI}(WNumwIw(-Hp^JCf<xjQAS%
z!Lq;GnVW)jh)-h(djDZ(A{@>0acBnm)}>ILLgzmn8Gth|1RtV#LAwj~!5O%P_!xe`
zsEfAYQI~AT_F!k~-{aTV@v<H91{^}1iQO>bitXqjG)wB1O0^C3#Q-W|&`j-FjKs=U
z?TxF@%)kvaJuiQaDMuI0+OI>i)=$xNp!#)t-%K1#d;>dR+Z&El!G9tha3z^SODb~T
zw8_;GI}xu$lQhq<CU&@GM>rkZ5MRuWzqoCmAA=@`4q!Dbl;%iXY?<w3G|%nDhM41y
zBO_>Eno}@YnSlP7@2(w5Gc?&g1I^T?py`P3U-m`8Xx4HA*1!y`j}`CP=OfVM&?fZ5
zbZn1h@7oz2i7jYf;whM2kdAw?{sTLrbTkb%d}v2D3e5<Tu^bk9WS5{Gn%oJ&F?bZs
zQZ{^Sb7VA{<o*RsGC#!%So?`1uIW(-g{rs>OW}1iBg#V7NNPN_9g4&l;$N^Ac6#Q>
ze%y+FY`>xZb0iNgeeTFC>esxm*DJkr<N)ylGy{x#<;Y3w|C;^(l0vm~N3Nhxh9f0;
zf%C?Z1;nM_+6K2{f8y5f9GQt*F(>y0WI8g4xZ!)di#DRkrORlNwaf=cHe)!h!h%^g
zDR-e+(!AoTrw}SCo2W=Y&I$=}RAyo|FO?Wf{F_QQ?C7oXhWp}js;t8`AE^|jzI85@
zL=_3ktumPS^SmnMapvDuvbb++K9yACCn|B&&&_Y!spS?_89+sjLMqR>VMt+>9mIW#
zsI<oXMO8k<Ud2@U;E3WX+wkn?>X|vWq<WShs+7tSp080_JtyA@OeS7XM&(!RSytr&
zmi$6JOYs^5c#oS<PNfrtM?UIVlSaNO<%siCP`S(l)xK2ElH~DI`GMH4qRM;x4<5w5
zl~i`)_{u7OVf891FR*A;l~~MMP31UlK~_sfS67)q9O<vpf&7yU3g(P%Rf{R&hR*_2
zM&hg5DzqWtbya3_ebGNuno?h)zDhIdLmH?YrhaWBm4!I4u}T`I<5o;<qMjt2+f*eN
z&wa{6)x4O2<|;$5L!inN@=x})Q5nbso7$<Y!2Cff6L1@vDXiF@DaY5i4A*y1>CFop
zf2E!zjqRwOgQ`j=<v?L=aWH1$cNpGTB^>XdN%EjBDy?|_%db_2yA&e3s&vI$-BhY#
z-5x4ljBrp-m7P2=ESRanGQCyC<48=xM>rbe`;eUI+gD`~x@cy!V2Dl5+qj(geW=PY
z{JEccj_7`2D(+n>5-FIhUfJI^xNHDPNE|fKCYOZUq&a}51K&lcl%=B?XkJ`=u${3)
zoI_l5h{`oQhy}PWcBo1lj2~uqQ|31+Rak<>Bh(ePvLuaCS&4^6GsPG(Mx`dc9m`B$
z)$w)-{3qBB-o{w!mri6YX((Wl-Hxl#Bx5UAWjki!8r(ivWi$78nWFM7u}rhOYRoil
zXvu}|r>j)Jlo__Cnb9i6hy!P_M%Zt*-T&w3s5B(@``(Uh&^)G+c;bAL4bLx7X^y>q
zP??6Sex!p~?kAO=w7YPzdVcvl#J0rU-6giL7K5pHh7Jz|Emb*<9b#1Yph=0JRVs1a
zS+1U6E>+O1@q9GD6Z)*6VO)wuFcnMUOEe#$g0VKqL$DR`F&vKWCo5H=C``t^B;6}C
zJ=?xor7~t_>$ipjiMTt4;cD!J-fL}g_CRw0#o=0Pyv{a!2R+}A^(q~ykHjXJgdEkb
zcyCb8XEO->xiBZ&16Y^%Ihr%R(nj_#F2O)Nh9Q_Qj$MNz&=*%_dpz4`*p&LuHravo
zLi3&txZHgIFH$i3fAnTMHK}MG@Y!PH2&_*WkETOU&~&K6zxhVsk7%}Gv8^goa3M~`
z0^2xZaWR@HKZRzS7TRvVIm56H?aN^be)ty613vNWOAN-Yn2P4Q{|?)MK4|J=(ELDo
zic7G;PP-((<8@-+UF!Lno-@JLH^l+eFUI@$4qdZWcXo3W;+#Dy({UW1GIL~pz_-L7
zkr)fmYab^X^^4H_KFGh{cBna;uihjaNB#W+Y-bERsFGryJLFkwxqxQIN**Q`xPSd&
z_J0Wq8UM9wQ#i>cNk0_ocj2!*kZ{BvJmZe4d_(*aO)`ZYQ_uf_1PnDVKCYf0r;~9W
z@g;18;V1Zd;s!KJ?VW71e^|0>Pp+#}nElz~q<!%&G&A9S%8q<4nw}RwZR^*d$&m_Y
zY!VJZlLM#FY^$bctvk@{ma@Ouk5n|8c8Z*{&qulxCQ*@qjj`r=M(#y2q8ZV*f7oqw
z5vLOS{ArKajc6M5zo7DfnTo?H#6MlKpWVWjZIULS8F8sA)@W=&{20ysu79dMcoNX;
z_X1b#)HTMj#AmV%yk;9dgk~n%Ubh`cL6cOiZ`hG-!$9KPH*G_mFoZY;%|PFv8OYdM
zDih8Ae@CISskp74|7fSs{J|)brjnD%7>~X<^{z?-M!M;q{i$~EzHNBX1CC_#V(g7|
z9@?p0f@Qe>64t|ak5s(59`Hov9yY)pW}lURs#1cA$=Cy9F^L8<FrIk-b4Efu{DsZh
zgje<i%bBinlk2VV1Xj$T0UCOR`-n5&s6-PdzEvrVjWShoVAuDyBf%fg{JsyPP?`&a
z@nhn-St|K3CfkkKCT4qlXD;8sc6mbwMh%E89ThR4^uR%p(|V8E(|eQ?+EHh%Sb8YQ
bDde5DZ{7W6^OpWA)F~Q$#MymB)9U>nFke0J

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index f7b903e..2e57a10 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -1834,9 +1834,9 @@ msgstr "%(field_name)s では、%(context)s キー '%(key)s' が重複してい
 #: httplint/field/structured_field.py:95
 #, python-format
 msgid ""
-"The %(context)s key '%(key)s' is duplicated. All instances after the "
-"first will be ignored."
-msgstr "%(context)s のキー '%(key)s' が重複しています。最初のインスタンス以降は無視されます。"
+"The %(context)s key '%(key)s' is duplicated. All instances before the "
+"last will be ignored."
+msgstr "%(context)s のキー '%(key)s' が重複しています。最後のインスタンスより前のものは無視されます。"
 
 #: httplint/field/structured_field.py:102
 #, python-format
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index 86ec78e..98d2102 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -1529,8 +1529,8 @@ msgstr ""
 #: httplint/field/structured_field.py:95
 #, python-format
 msgid ""
-"The %(context)s key '%(key)s' is duplicated. All instances after the "
-"first will be ignored."
+"The %(context)s key '%(key)s' is duplicated. All instances before the "
+"last will be ignored."
 msgstr ""
 
 #: httplint/field/structured_field.py:102
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 0ba3157c89eea645c794d575b9b6028c2d0abe81..6ef269c671fc492e670ada56f616280f635aefa0 100644
GIT binary patch
delta 4089
zcmXZed0<Xg8i4Wl95g~LwZ$6IRD%ej#GVi|h}xH`*oUH8wN)we(P|^quGTPus9m&(
zy+mU$ZMBNpRVN{%M8wjXDdu_a`TqKy_uPBWzT9&M11}s5OdB8M8zdqFR~UH%Gq59;
zTxp~U_QRgI6l>vKY>efTjf7!WY>kt!J|4n4n1|t5b(N8N7>`|W3U<QpQR}O`+W5Q=
zMy_@*F2~n+a0*-DGt`E({D+ZOaWZN}DX0aXMQu=_HAeC=8k=Hdijk!_3O~hyYhC^<
zY)+hs`kh_pbBSi_j8r3IJZg`Yp!Vbv*2ci~u3=HA4H}72xE>qgWz>RSN_9Q&gptIP
zF#@;Z%XkT^<5R4Gp}q}9s*>o4+M-byjj0%lS$+$DX`}~nZA`-H*Z_-ebOp6UZRiNp
zp<jYJWf`a)y6ZP`laXe`6Hq(o+et#_@>hHX3vV{k4kJ+K=mXRqe2cGRKI#-T+2W?;
zUDO^eM*V(2Hp1(EgSNW3GwO&XqIUQ&G9o^?MnVfP+g!n6s1^3bHkgDubU&aLd>?fU
z)ZFgoGy%21rKnSpjyjch{g&9_;z+DXes|QhG!@%YzpN)wmyFw35i6#-7aRH=fLd`9
z>X04v=jUOFzQ5Di41<XiP#gRa>Qt;ooyt?FQ<951_Z7Zk<f&g`NmRj+I1Fc^7H|)>
zfKp$(o<^hga1xfq9atVSQAg?;>d1udauxMLZSZu|_tH?yJBj7+5&CpBzqs2ycpde@
zSgeFes3Vh#TF^Nhj|KPm_dU)aK7{|o*mNT+u*hC_j-=vX;(UA`d+swb0gvNUY`&lU
zzlg;C{YE~(P6v!E!A$Ir2?ve5jR#Oyap)m;fV_=ci1%Oz9DLYyU>j<OE}{-`>2HjT
z#^$&Xw_+cRIpTKP@+1EJe})WgQPHDD${2c%_lZ|$IOiWTa+>(#Z;jXBZka}U6W_#j
z7=7Hxa=!Zw?+{NpVPqqYIB8@qmO5qRT};7iSmIwsf_OjIN8%nCFMMxgB|gR~JXrXH
zku>78(?-_gpdXDK)%Sif@*Gc~4)uvMt|3EyHqwvy08YdTXN^q31vngwpEI%mC*nX1
zJa1$h`bLt_o|XT_wKNBJ5Kp{d<UI_#=#J7QIFh)|B_nU)avXpUQRlYDWh050>GzE*
zMn({yLtQg5S6Re#Y!~Xt-MeNaUH5<7bvLBX@fi;m{c7Y#TzJDs93Kq%4T-n>+sJNw
zfQ`uClx1WN@r`UF@i_XXk?D8<b;w)Xa%<x|+(#UgV}$9KpRkZ+WNvfLu>NG}9V0Qk
zka^b)VWC`i>kYxblfMsnO&Z@b(hc|GO)Q#cWEAFOH5_o?9m&(NCGj476aT<2*d^b{
zVobq{81=wNjuu?<q1!%BFoXE$BO@Qt(ixB4>Xkp;etsWyH>|{YSm22}su!VNK37nO
zw!(jne1T(d4F>$r$XMKnv$4`&ZaaU8J{{8YBy{n8{?r{nHJ-USormMdm*+-4hVj@Q
z|G@9Cm00gGDsC)CsmL<ygx4?yBdqln-D%uKJg9(`s&uSeK`SgLi7I4$(vC#Q04qhX
zPhl&S@Na=uPVvFCBGy}_@kOn7pFhD~<S%&9%2Uii-S0PxS+9p7#jU(UyvXl!)Ybn^
z2`ev9?paJAzFg8uFmdCTd{)kp(YuuO<~pLZl}p51Q5%q0#!4VBb}MVeU_v?TEzbTy
zR*vwzZh0%eV;<__y;8x-alBm7HE?YuD_4luRJPu&Ikk$FSmK?im(fEXiCQFrgROV(
zw?{oVW@14qjI3(q6^sf&^7~e^-ZeT6ClRM(HH>`O71$k15>Le-oQsul18P0TFbs3C
z0s6{?TJLO+$Iqx}GV1kfs$1!bbx|vxjy-V$>X841H8AQ`>s{XiP|tx+QCIzA)bBcn
zxeCXlmYa;)pi@{?_x~*t+Jk@^*1OeeqFz2Rs6QHgu^!IzKR<%ngY&2bKJ(|-u4%nn
zE*8t`cUTI?pf+R%HpNY-<!9kw-TzX{4gHXC>-|ElMSbBkYQuiVU@TVK<=4h2;&#{^
zeb@mHVhjdExHt~=`-Q0A??Ua+&#3=~0d=f|YyC|~=!-*9e-sk2J8r>&_#CxC1M9jT
zPC*^|FHrxS4&y+~LfxKi>sk2<=V3U;Mq2N`;5}?aoPulcBKpRVm|Wj_2g4oIACM1U
zvvLrx<1$QcV7-H-VM8mAiRYmHP|S#OL%Rxdi8HV<?rdbelkqkt68COwy%X^|_8|^w
zV&x=GZo>ZGOrlLwSI|Aw7M5vdB^f*7TKo@c!#;0ry`RtrsB_=6g&Wf0s8f-Qntu`F
zF(BHl^6sc>W+v)dN<)4BMl}0h=PWqJz0lw9XQ(IIcGS6kh+1HHOXoz?DLaN*a5n1P
z7Hj2fg<9?e)QWav56t)H$HlrSP4tmy!-I9GizElr4J~hNy??!L+PLlV2(<yF+Pdx6
z-|sTiYxN9jMaAN*_s7!#wL$w)M<f@uLzUaPMLrnyxo;i`-OtBRx6M=3ib}V41r9)s
zlTo)%4(bUO+QB^^hWh<F)RDT1x;V?kyT#c8wE;s=D_nrlnCbLM!H(_#YK>aJSZslt
zup&LXh1Jn^az}EF&er>tdVt!XL0#P1Nk(1$N3j|f?P}#LMqn1&ZrlNQ3zIMxYwN}S
zVRv^_reb{_976sXBo9XuU+8INF>$+IR(>JA+S_`6#k=2hw_7&OCx2oeD~GV~Th{xR
zJdSz9ZTectz=jD{X5pWx4f&)W>KQzXL@F-80@$d(d!d=%SikKtfahJl4h)OySZwgn
zVWY<m4H-XtXvnBRpY$7--fx@<4=aB&d0O`TxmkOsW$oRZy?u4o;n`XHW@jhONnf?X
H>^=5>dg;WI

delta 4086
zcmXZecYM!x9>DSU=OadpqQoB2nu(?=Mi62Iv13*UQg>Ddhmhl1ziN$#($E^$&_={K
zyJizR;&9Z}s;zoRaDrHMSF^A8_w)Pf`FVf7-|uIS@A=(<XLbi}N-XaiEFuYujda6(
z*cD4GG13eNU|(E-A$S`jFz8z&b+9|O!-?1scVZac#ZavBosk9@gRwXXyW>&R`YNUx
zpZCFtRQKW{4CldNY=h5G8`5&Ak=mGqT2U%$!6#80WYdg1#1_~b!<HHOJC4HXXwqH&
zOpGMXM*Z$py3ZvdmK&)-##q!I%}4FYIjoO`R=9?Rqc&&+Ho;}s7|){?{Mt&_^Dg)f
zaT30TYw!&`hqdr2*2Q4oDkIfNbV6;>C~Sr4_$FTUTks!7`ViN{SvUn7VUg9Ypq8i&
z9gaHm^HHa4A8Lng`wd%Tqy_Of)DHSKlF+&Q1#4o#wMJqv1a*$aqxN7wcEEhpDQdFL
zP09PHJ^Bju`wVP~m;IJq@8YhgBQ_1S!@H0X@yR6;TEI)xf@^MY752wy;u)wz_akb-
z_fXeB?Tv0u<4_A+fI1c1P^a>?-{Rl9I1KBNAB(z{CS!Z*mt`d0CgUbn!t$Hkiw*t8
zqgFfvb;$Pm^Y3D?zQ5TSfz^oPP#gSL)Tvm4I+ce}rz8(`?#pdq<f&hxNL0lUI2@;=
z7H|i(fRbBXPg|h&a3TibdaQuis3Ua=b!39Kxr%zDHh2o^dmB*8JA~!%A^LPR2X1!{
z+MzxegOzax>d2&{7IX>|(fr`w_c)DsCmzPA3?qxNaHcy)(s3wpKK=!J?JzO{58x-*
zY$yAFK8cK-MkZpHT}BpRHtN9?x7)}F%tT$q!F${R@@HH}ycIj+kiD)0Yf(FN7IlbA
z?K3h4o8i~E2IDX?%k8#BS^oWhoD6MIk^M%>8hVZoh?itLzdT^%II-`a#%pkogGSyZ
zzK+YW#UUdpeD^EfA)fRvBdc-v5hKZ1@~DxIFcq(0@gI$p=lwh%iF`5&{M*P9e1uhb
zF!v`Tn}|0YH?jf;pD?mt-#cmK6&^$#>Vv0TLlRCK8AP0kNm%Y@BOhZjj>KYTjC_TO
zn1F@O8rgup5hS!{LFZgcbMbrP#Pdc*W6cZhD4mb*6Ng?jG5{Ch5PX0-w>>WznTgqc
zJ6|?3iue@jnu+{{MNG#wqmJC2D@HPO|40AohV(hU<iWiE7&(D+uNvvd2MO1Zc=dH7
z+wnd&C4W_pkuQm_<QnOMAKoxB6*EzXy!lPHHjdy9;<C4lF#Ylq7PO4aZO$3ipDegz
zB#IZZ@46wh_uQ?QfK$l-0eMXt=NsvT+wle#xo_k{%*PrS|G*u|Q?NDhR_u?DF&4W$
zG_n9w@dAcFGIC1`F7eoHpC_12y!SUFf1{;SpSacg;(u;GfAoL18@|E0yeGfAqk10d
z<#PdbXv;k{vJgjO8U{QwG7eYbY^?CyZRZu}(;+=gLKokx7w!P6_0rAh92`&n3;Ybn
zzB1AYALB7>CDyx)iW$pMDzXr}<0V{%A=Y|}?ig+(9$dgmbvjlizzWMr!V6lT#E>Xa
z*h*3CSHwzXd@s<-Q9k&jsP$H9Ofl=-=TER7`N_qtyue)4{eHcK^?F$KH7g$w&-42n
zb@h)dX{8Y5p2T?K^QEj*BW_&UXXOkTeO|ZTT!)mga*=oqY6GT~wGzmSJ%X$lj4Nlo
z#W}FNl`NjuuV5t)@1ic=3l*&#!t<3}1D95|a+&zMD%QK)CRer6mUtuTW%R&DB7{Wc
zYSz2=JD?sM(=mVw!>U`UiQ&OWe*YTQyGB33NyOW*28O-i3XH{4#FMc+&c-UZ9JQV-
ztb=*j2z_PVwBFesgEOco3H82zS<^~StY6DjJO%p_FGn5n-?1)+*S6mE9glhre1^K}
zAE7q5YaLhNSk!V;P#bg@tLy&HA)!48sB67jtv2fA6N&mi&>tJ%9RKq@s69B1THrH(
ze!Y6uyXB%VNWa6^aWrZ}rebqkg<Aeq9IE^O1&LN<B!pV;7iuZ$3&&6!b_=Uv(fTgG
z9yTFvkCFH>cE%kTg#mB5I2!f)xv1Z7M(xlE)PKW(Fe{<D|C^A|7l)$$C``lNxEd4i
zIckFjz3qB933cedM*VZzg$Z~Sb$hmLU}X!=!BC8P$9n$-A7E4BR7}IO=o?ESsiE}_
zhX11efJ_LtvKuesH<;4MdIw9x##WvXe}Vc#F|~;s+QoQ}cppaK#-`Rg8E>NA34J20
zcOqWKIO3|!tQ^6lX6*m9B-%801>HeyVd)lDzQs<MjyF&nHY?J4KcV+g=e}u6H>AT*
zry>P4|15UFfL3mm$D*#8>8NXI1M2%%TCx9i&MHT_7Y6$M9Q8z7hdS2}Pz$Wv+L?$t
zWm%{NUqhYSqHUb5P|F>MTG1BlgZcja=(cW3r};=k^B@g%k>p~Aq2=wY_pi4*+HIGI
zs0}FD-fh2ueix!%tH)6*D%#O{e>@#g8<c@MB6+ACsu<%I`4H6SzBwdxKWCwCo2RH1
zmFnaQj7N=AP`6Jm>IoLy***Ug>i21=BXtpVahC4l7H4zR1|*<Xn2fsHvYkFLUEKlH
z8nu8i*b-M^C3=>FweVFpcO=*9VZC3e`=|{X9P8Fj3hL_Li#4!FPb)uT2<G4`EQC3|
z+@+O=_4Q(((AyoA>DZ7Lb|U`_au>%CpXqC50df0&R?ZP$eAjw^#asHj+wB_8BR?_D
z${s8@z<U3Z2k<^|n}Jrcv0=QGFYq_ihI~2*^$ea#VkIVH0c<qby%6Cy%5MiO%=2zr
z1M76`TH?LoiNnSPCypEzJbcu+&j*dq7&P95)(N_~etk~nr#YExb2p~u?46ynV|MPm
L<cze%CiB1_JOjlC

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index 58eb09c..8b778e2 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -1764,9 +1764,9 @@ msgstr "在 %(field_name)s 中，%(context)s 键 '%(key)s' 被重复了。"
 #: httplint/field/structured_field.py:95
 #, python-format
 msgid ""
-"The %(context)s key '%(key)s' is duplicated. All instances after the "
-"first will be ignored."
-msgstr "'%(context)s' 键 '%(key)s' 已重复。第一个实例之后的所有实例都将被忽略。"
+"The %(context)s key '%(key)s' is duplicated. All instances before the "
+"last will be ignored."
+msgstr "'%(context)s' 键 '%(key)s' 已重复。最后一个实例之前的所有实例都将被忽略。"
 
 #: httplint/field/structured_field.py:102
 #, python-format
-- 
2.43.0


From 6c65c6af8aa0f47815a069e5cb2552bd8f917429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 071/112] fix: ignore empty members of Range

---
 httplint/field/parsers/range.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index b692ff8..c3fd71a 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -39,6 +39,8 @@ parts of the representation that are specified."""
         ranges: List[Tuple[Optional[int], Optional[int]]] = []
         for rng in rest.split(","):
             rng = rng.strip()
+            if not rng:
+                continue
             if "-" not in rng:
                 add_note(
                     RANGE_BAD_SYNTAX,
@@ -88,6 +90,14 @@ parts of the representation that are specified."""
 
             ranges.append((first_byte_pos, last_byte_pos))
 
+        if not ranges:
+            add_note(
+                RANGE_BAD_SYNTAX,
+                ref_uri=self.reference,
+                problem="the range specifier must contain at least one range",
+            )
+            raise ValueError
+
         return RangeValue(unit, ranges)
 
 
-- 
2.43.0


From d6c93f03c5fa4fe584adc441170677f9ecc77de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 072/112] fix: report a Content-Range with neither a space nor
 a slash

---
 httplint/field/parsers/content_range.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index 840b05e..d576f25 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -43,6 +43,8 @@ in `416` (Requested Range Not Satisfiable) responses."""
             # if we see a slash, it's likely the unit is missing
             if "/" in field_value:
                 add_note(CONTENT_RANGE_MISSING_UNIT)
+            else:
+                add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
 
         try:
-- 
2.43.0


From 0dc5cf5004af1dfe637737ed8a27642d0c0aeccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 073/112] fix: don't expect Content-Range in a
 multipart/byteranges response

---
 httplint/status.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index c410c47..ccdeb17 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -99,8 +99,12 @@ class StatusChecker:
     def status206(self) -> None:  # Partial Content
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
-        if "content-range" not in self.response.headers.parsed:
-            self.add_note("field-location", PARTIAL_WITHOUT_RANGE)
+        media_type, _ = self.response.headers.parsed.get("content-type") or ("", {})
+        if (
+            "content-range" not in self.response.headers.parsed
+            and media_type != "multipart/byteranges"
+        ):
+            self.add_note("status", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
         pass
-- 
2.43.0


From 75da76683dd3bcd3419aa53dc398a917d6fa79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 074/112] fix: read the parts of a cookie's Expires date as RFC
 6265 does

---
 httplint/field/parsers/set_cookie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 13c71d4..14ec1a4 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -338,7 +338,7 @@ def loose_date_parse(cookie_date: str) -> int:
     for date_token in date_tokens:
         re_match = None
         if not found_time:
-            re_match = match(r"^(\d{2}:\d{2}:\d{2})(?:\D)?", date_token)
+            re_match = match(r"^(\d{1,2}:\d{1,2}:\d{1,2})(?!\d)", date_token)
             if re_match:
                 found_time = True
                 hour_value, minute_value, second_value = [
@@ -346,7 +346,7 @@ def loose_date_parse(cookie_date: str) -> int:
                 ]
                 continue
         if not found_day_of_month:
-            re_match = match(r"^(\d\d?)(?:\D)?", date_token)
+            re_match = match(r"^(\d\d?)(?!\d)", date_token)
             if re_match:
                 found_day_of_month = True
                 day_of_month_value = int(re_match.group(1))
@@ -356,7 +356,7 @@ def loose_date_parse(cookie_date: str) -> int:
             month_value = MONTHS[date_token[:3].lower()]
             continue
         if not found_year:
-            re_match = match(r"^(\d{2,4})(?:\D)?", date_token)
+            re_match = match(r"^(\d{2,4})(?!\d)", date_token)
             if re_match:
                 found_year = True
                 year_value = int(re_match.group(1))
-- 
2.43.0


From 9f1966aeb649e9f40bf15e45421bfef1a519adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 075/112] fix: report a cookie's Expires date that doesn't
 exist

---
 httplint/field/parsers/set_cookie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 14ec1a4..3b9fde0 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,4 +1,4 @@
-from calendar import timegm
+from calendar import monthrange, timegm
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
 from urllib.parse import urlsplit
@@ -386,6 +386,8 @@ def loose_date_parse(cookie_date: str) -> int:
         raise ValueError(f"{minute_value} is out of range for minute")
     if second_value > 59:
         raise ValueError(f"{second_value} is out of range for second")
+    if day_of_month_value > monthrange(year_value, month_value)[1]:
+        raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     parsed_cookie_date = timegm(
         (
             year_value,
-- 
2.43.0


From 9d870c9819879a6b66e2c0d19b0cace1d30b4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 076/112] fix: accept a negative Max-Age on a cookie

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 3b9fde0..fc033b7 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -202,7 +202,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdecimal():
+        if not attribute_value.removeprefix("-").isdecimal():
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
-- 
2.43.0


From a3c704dae8305a2edc421ae189fbd413a74ea772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 077/112] fix: use the default cookie path when the base URI's
 isn't absolute

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index fc033b7..5cea62f 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -230,7 +230,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             # use default path
             if uri_path == "" or uri_path[0] != "/":
                 cookie_path = "/"
-            if uri_path.count("/") < 2:
+            elif uri_path.count("/") < 2:
                 cookie_path = "/"
             else:
                 cookie_path = uri_path[: uri_path.rindex("/")]
-- 
2.43.0


From dbef00ca22ff6e495e6abbb89fcb9b020a760e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 078/112] fix: convert a cookie's domain to lower case

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 5cea62f..af681a4 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -223,7 +223,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             cookie_domain = attribute_value[1:]
         else:
             cookie_domain = attribute_value
-        cookie_attribute_list.append(("Domain", cookie_domain))
+        cookie_attribute_list.append(("Domain", cookie_domain.lower()))
 
     elif case_norm_attribute_name == "path":
         if attribute_value == "" or attribute_value[0] != "/":
-- 
2.43.0


From 26dcfda5443e7ce88289640a235755781e558fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 079/112] fix: judge a cookie by the last of each of its
 attributes

---
 httplint/field/parsers/set_cookie.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index af681a4..2ffebcd 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -75,7 +75,7 @@ requests to the server."""
 def _is_hardened(attrs: List[Tuple[str, Union[str, int]]]) -> bool:
     has_secure = ("Secure", "") in attrs
     has_httponly = ("HttpOnly", "") in attrs
-    has_safe_samesite = any(k == "SameSite" and v in ("Strict", "Lax") for k, v in attrs)
+    has_safe_samesite = dict(attrs).get("SameSite") in ("Strict", "Lax")
     return has_secure and has_httponly and has_safe_samesite
 
 
@@ -153,10 +153,8 @@ def loose_parse(  # pylint: disable=too-many-branches
             lifetime_note_added,
         )
 
-    if ("SameSite", "None") in cookie_attribute_list and (
-        "Secure",
-        "",
-    ) not in cookie_attribute_list:
+    attributes = dict(cookie_attribute_list)
+    if attributes.get("SameSite") == "None" and "Secure" not in attributes:
         add_note(SET_COOKIE_NOT_SECURE, cookie_name=cookie_name)
 
     if ("Partitioned", "") in cookie_attribute_list and (
@@ -298,11 +296,10 @@ def check_prefixes(
     if lower_name.startswith("__host-"):
         if ("Secure", "") not in cookie_attribute_list:
             add_note(SET_COOKIE_PREFIX_SECURE_MISSING, cookie_name=cookie_name)
-        if ("Path", "/") not in cookie_attribute_list:
+        if dict(cookie_attribute_list).get("Path") != "/":
             add_note(SET_COOKIE_PREFIX_HOST_BAD_PATH, cookie_name=cookie_name)
-        for attr_name, _ in cookie_attribute_list:
-            if attr_name == "Domain":
-                add_note(SET_COOKIE_PREFIX_HOST_BAD_DOMAIN, cookie_name=cookie_name)
+        if "Domain" in dict(cookie_attribute_list):
+            add_note(SET_COOKIE_PREFIX_HOST_BAD_DOMAIN, cookie_name=cookie_name)
 
 
 DELIMITER = r"(?:[\x09\x20-\x2F\x3B-\x40\x5B-\x60\x7B-\x7E])"
-- 
2.43.0


From 9e4309c2842616c5f11e9a28176eee30c52f528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 080/112] fix: let a cookie's Max-Age take precedence over its
 Expires

---
 httplint/field/parsers/set_cookie.py | 47 +++++++++++-----------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 2ffebcd..804f30e 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -117,7 +117,6 @@ def loose_parse(  # pylint: disable=too-many-branches
     cookie_name, cookie_value = name, value
     cookie_attribute_list: List[Tuple[str, Union[str, int]]] = []
     seen_attributes: set[str] = set()
-    lifetime_note_added = False
 
     while unparsed_attributes != "":
         if ";" in unparsed_attributes:
@@ -142,15 +141,13 @@ def loose_parse(  # pylint: disable=too-many-branches
             )
         seen_attributes.add(case_norm_attribute_name)
 
-        lifetime_note_added = _process_cookie_attribute(
+        _process_cookie_attribute(
             attribute_name,
             attribute_value,
             cookie_name,
             cookie_attribute_list,
             uri_path,
-            current_time,
             add_note,
-            lifetime_note_added,
         )
 
     attributes = dict(cookie_attribute_list)
@@ -163,6 +160,18 @@ def loose_parse(  # pylint: disable=too-many-branches
     ) not in cookie_attribute_list:
         add_note(SET_COOKIE_PARTITIONED_NO_SECURE, cookie_name=cookie_name)
 
+    lifetime: Optional[float] = None
+    if "Max-Age" in attributes:
+        lifetime = int(attributes["Max-Age"])
+    elif "Expires" in attributes and current_time:
+        lifetime = int(attributes["Expires"]) - current_time
+    if lifetime is not None and lifetime > 34560000:
+        add_note(
+            SET_COOKIE_LIFETIME_TOO_LONG,
+            cookie_name=cookie_name,
+            duration=relative_time(lifetime, 0, show_sign=0),
+        )
+
     check_prefixes(cookie_name, cookie_attribute_list, add_note)
     return (cookie_name, cookie_value, cookie_attribute_list)
 
@@ -173,10 +182,8 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
     cookie_name: str,
     cookie_attribute_list: List[Tuple[str, Union[str, int]]],
     uri_path: str,
-    current_time: Optional[float],
     add_note: AddNoteMethodType,
-    lifetime_note_added: bool,
-) -> bool:
+) -> None:
     case_norm_attribute_name = attribute_name.lower()
 
     if case_norm_attribute_name == "expires":
@@ -184,39 +191,25 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             expiry_time = loose_date_parse(attribute_value)
         except ValueError as why:
             add_note(SET_COOKIE_BAD_DATE, why=str(why), cookie_name=cookie_name)
-            return lifetime_note_added
+            return
         cookie_attribute_list.append(("Expires", expiry_time))
-        if current_time and expiry_time > current_time + 34560000 and not lifetime_note_added:
-            add_note(
-                SET_COOKIE_LIFETIME_TOO_LONG,
-                cookie_name=cookie_name,
-                duration=relative_time(expiry_time, current_time, show_sign=0),
-            )
-            lifetime_note_added = True
 
     elif case_norm_attribute_name == "max-age":
         if attribute_value == "":
             add_note(SET_COOKIE_EMPTY_MAX_AGE, cookie_name=cookie_name)
-            return lifetime_note_added
+            return
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
         if not attribute_value.removeprefix("-").isdecimal():
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
-            return lifetime_note_added
+            return
         delta_seconds = int(attribute_value)
         cookie_attribute_list.append(("Max-Age", delta_seconds))
-        if delta_seconds > 34560000 and not lifetime_note_added:
-            add_note(
-                SET_COOKIE_LIFETIME_TOO_LONG,
-                cookie_name=cookie_name,
-                duration=relative_time(delta_seconds, 0, show_sign=0),
-            )
-            lifetime_note_added = True
 
     elif case_norm_attribute_name == "domain":
         if attribute_value == "":
             add_note(SET_COOKIE_EMPTY_DOMAIN, cookie_name=cookie_name)
-            return lifetime_note_added
+            return
         if attribute_value[0] == ".":
             cookie_domain = attribute_value[1:]
         else:
@@ -258,7 +251,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
                 attribute_name=attribute_name,
                 attribute_value=attribute_value,
             )
-            return lifetime_note_added
+            return
         cookie_attribute_list.append(("SameSite", cookie_samesite))
 
     elif case_norm_attribute_name == "partitioned":
@@ -277,8 +270,6 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             attribute=attribute_name,
         )
 
-    return lifetime_note_added
-
 
 def check_prefixes(
     cookie_name: str,
-- 
2.43.0


From e4fbba12fd733aacbb39db1c725c8eb0c9a168e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 081/112] fix: Strict-Transport-Security's one-year threshold
 is a year

---
 httplint/field/parsers/strict_transport_security.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 1dc79c2..1dd7158 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -13,6 +13,8 @@ from httplint.types import (
 )
 from httplint.util import parse_integer
 
+ONE_YEAR = 31536000
+
 sts_dir = rf"(?: {rfc9110.token} (?: {rfc9110.BWS} = {rfc9110.BWS} {rfc9110.parameter_value} )? )"  # pylint: disable=invalid-name
 
 
@@ -96,7 +98,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if (
                 parsed["includesubdomains"]
                 and parsed["max-age"] is not None
-                and parsed["max-age"] >= 1536000
+                and parsed["max-age"] >= ONE_YEAR
             ):
                 notes_to_add.append(HSTS_PRELOAD)
             else:
@@ -111,7 +113,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             is_valid = False
         elif parsed["max-age"] == 0:
             notes_to_add.append(HSTS_MAX_AGE_ZERO)
-        elif parsed["max-age"] < 1536000:
+        elif parsed["max-age"] < ONE_YEAR:
             notes_to_add.append(HSTS_SHORT_MAX_AGE)
 
         if parsed["includesubdomains"]:
-- 
2.43.0


From 2653f18ed6963d7d8746127f36c1eecac4fc653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 082/112] fix: Strict-Transport-Security semicolons in quoted
 strings don't separate directives

---
 httplint/field/parsers/strict_transport_security.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 1dd7158..9ce88a5 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -1,8 +1,9 @@
+import re
 from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
+from httplint.field.utils import RE_FLAGS, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -39,7 +40,12 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "includesubdomains": False,
             "preload": False,
         }
-        directives = [d.strip() for d in field_value.split(";")]
+        directives = [
+            d.strip()
+            for d in re.findall(
+                rf"(?:^|;)((?:{rfc9110.quoted_string}|[^;])*)", field_value, RE_FLAGS
+            )
+        ]
         if directives and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
-- 
2.43.0


From 11e608bb0e4321240b7d1fd77a8aa5a4e1cb4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 083/112] fix: an empty Strict-Transport-Security has no
 trailing semicolon

---
 httplint/field/parsers/strict_transport_security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 9ce88a5..2e0f947 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -46,7 +46,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
                 rf"(?:^|;)((?:{rfc9110.quoted_string}|[^;])*)", field_value, RE_FLAGS
             )
         ]
-        if directives and directives[-1] == "":
+        if len(directives) > 1 and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
 
-- 
2.43.0


From d6d699301bf1e06498de69b79e4c4760635877ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 084/112] fix: recognise http URIs in any case when checking
 Strict-Transport-Security

---
 httplint/field/parsers/strict_transport_security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 2e0f947..b813a4f 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -127,7 +127,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
         else:
             notes_to_add.append(HSTS_NO_SUBDOMAINS)
 
-        if self.message.base_uri and self.message.base_uri.startswith("http:"):
+        if self.message.base_uri and self.message.base_uri.lower().startswith("http:"):
             if getattr(self.message, "message_type", None) == "response":
                 response = self.message
                 if response.status_code != 301:
-- 
2.43.0


From 114d9df32b2dd3ef38e18555bf2306a10944686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 085/112] fix: CSP keywords and schemes are case-insensitive,
 and are whole sources

---
 httplint/field/parsers/content_security_policy.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 7bdde0b..75249d7 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -90,22 +90,20 @@ sources of content that browsers are allowed to load on a page."""
 
         for parsed_directives in self.value:
             for name, value in parsed_directives.items():
+                sources = value.lower().split()
                 if name == "report-uri":
                     deprecated_report_uri = True
 
                 if name in ["script-src", "style-src", "object-src"]:
-                    if "*" in value.split():
+                    if "*" in sources:
                         wide_open_directives.append(name)
 
-                if "'unsafe-inline'" in value:
+                if "'unsafe-inline'" in sources:
                     unsafe_inline_directives.append(name)
-                if "'unsafe-eval'" in value:
+                if "'unsafe-eval'" in sources:
                     unsafe_eval_directives.append(name)
-                # Check for http: scheme or literal http://
-                if "http:" in value or "http://" in value:
-                    # Simple check, could be improved to parse source lists
-                    if "http:" in value.split():
-                        http_uri_directives.append(name)
+                if "http:" in sources:
+                    http_uri_directives.append(name)
 
         if deprecated_report_uri:
             parent.add_child(
-- 
2.43.0


From a58ebd0cd4ee15d8eb1deb6e967eb384321ba808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 086/112] fix: an undefined CSP report-to is reported on the
 policy that names it

---
 httplint/field/parsers/content_security_policy.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 75249d7..b62f50e 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -1,4 +1,4 @@
-from typing import Dict, List
+from typing import Dict, List, Optional
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
@@ -38,6 +38,7 @@ sources of content that browsers are allowed to load on a page."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._deferred_notes: List[NoteArgsType] = []
+        self._parent_note: Optional[Note] = None
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Dict[str, str]:
         parsed_directives: Dict[str, str] = {}
@@ -76,6 +77,7 @@ sources of content that browsers are allowed to load on a page."""
                 report_only=self.report_only_string,
                 report_only_text=self.report_only_text,
             )
+            self._parent_note = parent
         else:
             return
 
@@ -153,15 +155,8 @@ sources of content that browsers are allowed to load on a page."""
                 if value in known_endpoints:
                     continue
 
-                # Find the parent note
-                parent_note = None
-                for note in self.message.notes:
-                    if isinstance(note, CONTENT_SECURITY_POLICY):
-                        parent_note = note
-                        break
-
-                if parent_note:
-                    parent_note.add_child(
+                if self._parent_note:
+                    self._parent_note.add_child(
                         CSP_REPORT_TO_MISSING,
                         endpoint=value,
                         report_only_text=self.report_only_text,
-- 
2.43.0


From 0fa295bbfbcf699e335026bab004e545d096e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 087/112] fix: X-Content-Type-Options is case-insensitive, and
 its first value counts

---
 httplint/field/parsers/x_content_type_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/x_content_type_options.py b/httplint/field/parsers/x_content_type_options.py
index bc0c43d..978e94f 100644
--- a/httplint/field/parsers/x_content_type_options.py
+++ b/httplint/field/parsers/x_content_type_options.py
@@ -15,7 +15,7 @@ Indicates that the client should not 'sniff' the `Content-Type` of the message f
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "nosniff" in self.value:
+        if self.value and self.value[0].lower() == "nosniff":
             add_note(CONTENT_TYPE_OPTIONS)
         else:
             add_note(CONTENT_TYPE_OPTIONS_UNKNOWN)
-- 
2.43.0


From 90e850a136226766945f9af8d227caad749302a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 088/112] fix: an X-Frame-Options value needs to be DENY or
 SAMEORIGIN, not contain it

---
 httplint/field/parsers/x_frame_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/x_frame_options.py b/httplint/field/parsers/x_frame_options.py
index 194a7ec..aae9018 100644
--- a/httplint/field/parsers/x_frame_options.py
+++ b/httplint/field/parsers/x_frame_options.py
@@ -38,9 +38,9 @@ the transmitted content in frames that are part of other web pages.
         return field_value.upper()
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "DENY" in self.value:
+        if self.value == "DENY":
             add_note(FRAME_OPTIONS_DENY)
-        elif "SAMEORIGIN" in self.value:
+        elif self.value == "SAMEORIGIN":
             add_note(FRAME_OPTIONS_SAMEORIGIN)
         else:
             add_note(FRAME_OPTIONS_UNKNOWN)
-- 
2.43.0


From c60a4c37e8ec3cac11c3bc0bcc6d918bc986b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 089/112] fix: a COOP report-to that isn't text doesn't name an
 endpoint

---
 httplint/field/parsers/cross_origin_opener_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cross_origin_opener_policy.py b/httplint/field/parsers/cross_origin_opener_policy.py
index a430b29..40dca0a 100644
--- a/httplint/field/parsers/cross_origin_opener_policy.py
+++ b/httplint/field/parsers/cross_origin_opener_policy.py
@@ -67,7 +67,7 @@ it doesn't have a reference to the opener's window object."""
         # self.value is (item, params)
         params = self.value[1]
         report_to = params.get("report-to")
-        if not report_to:
+        if not isinstance(report_to, (str, Token)):
             return
 
         reporting_endpoints_field = self.message.headers.parsed.get("reporting-endpoints")
-- 
2.43.0


From e134517187a15c68d8c6f2b7ca60a62be2f457b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 090/112] fix: a COEP report-to that isn't text doesn't name an
 endpoint

---
 httplint/field/parsers/cross_origin_embedder_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cross_origin_embedder_policy.py b/httplint/field/parsers/cross_origin_embedder_policy.py
index ba74bde..a487881 100644
--- a/httplint/field/parsers/cross_origin_embedder_policy.py
+++ b/httplint/field/parsers/cross_origin_embedder_policy.py
@@ -67,7 +67,7 @@ resources that don't explicitly grant the document permission (using CORP or COR
         # self.value is (item, params)
         params = self.value[1]
         report_to = params.get("report-to")
-        if not report_to:
+        if not isinstance(report_to, (str, Token)):
             return
 
         reporting_endpoints_field = self.message.headers.parsed.get("reporting-endpoints")
-- 
2.43.0


From db1c20c2f1e177ec7eae495a9042009414854103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 091/112] fix: booleans aren't numbers in NEL and Report-To

---
 httplint/field/parsers/nel.py       | 10 +++++++---
 httplint/field/parsers/report_to.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 1654794..81344c6 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -65,7 +65,7 @@ It allows websites to declare that they want to receive reports about network er
             if "max_age" not in policy:
                 add_note(NEL_MISSING_KEY, key="max_age")
                 clean = False
-            elif not isinstance(policy["max_age"], int):
+            elif not isinstance(policy["max_age"], int) or isinstance(policy["max_age"], bool):
                 add_note(NEL_BAD_TYPE, key="max_age", expected="integer")
                 clean = False
 
@@ -77,7 +77,9 @@ It allows websites to declare that they want to receive reports about network er
                 clean = False
 
             if "success_fraction" in policy:
-                if not isinstance(policy["success_fraction"], (int, float)):
+                if not isinstance(policy["success_fraction"], (int, float)) or isinstance(
+                    policy["success_fraction"], bool
+                ):
                     add_note(NEL_BAD_TYPE, key="success_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["success_fraction"] <= 1.0:
@@ -89,7 +91,9 @@ It allows websites to declare that they want to receive reports about network er
                     clean = False
 
             if "failure_fraction" in policy:
-                if not isinstance(policy["failure_fraction"], (int, float)):
+                if not isinstance(policy["failure_fraction"], (int, float)) or isinstance(
+                    policy["failure_fraction"], bool
+                ):
                     add_note(NEL_BAD_TYPE, key="failure_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["failure_fraction"] <= 1.0:
diff --git a/httplint/field/parsers/report_to.py b/httplint/field/parsers/report_to.py
index ac38996..77b4cf9 100644
--- a/httplint/field/parsers/report_to.py
+++ b/httplint/field/parsers/report_to.py
@@ -25,7 +25,7 @@ It has been replaced by the Reporting-Endpoints header field."""
             # max_age is required
             if "max_age" not in group:
                 add_note(REPORT_TO_MISSING_KEY, key="max_age")
-            elif not isinstance(group["max_age"], int):
+            elif not isinstance(group["max_age"], int) or isinstance(group["max_age"], bool):
                 add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="integer")
 
             # endpoints is required
-- 
2.43.0


From d51a4ee47838ecc60928655bd611e92f59b4f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 092/112] fix: NEL and Report-To max_age can't be negative

---
 httplint/field/parsers/nel.py       | 5 ++++-
 httplint/field/parsers/report_to.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 81344c6..1046ea2 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -68,6 +68,9 @@ It allows websites to declare that they want to receive reports about network er
             elif not isinstance(policy["max_age"], int) or isinstance(policy["max_age"], bool):
                 add_note(NEL_BAD_TYPE, key="max_age", expected="integer")
                 clean = False
+            elif policy["max_age"] < 0:
+                add_note(NEL_BAD_VALUE, key="max_age", details="it must not be negative")
+                clean = False
 
             # optional members
             if "include_subdomains" in policy and not isinstance(
@@ -86,7 +89,7 @@ It allows websites to declare that they want to receive reports about network er
                     add_note(
                         NEL_BAD_VALUE,
                         key="success_fraction",
-                        details="itmust be between 0.0 and 1.0",
+                        details="it must be between 0.0 and 1.0",
                     )
                     clean = False
 
diff --git a/httplint/field/parsers/report_to.py b/httplint/field/parsers/report_to.py
index 77b4cf9..dd920e4 100644
--- a/httplint/field/parsers/report_to.py
+++ b/httplint/field/parsers/report_to.py
@@ -27,6 +27,8 @@ It has been replaced by the Reporting-Endpoints header field."""
                 add_note(REPORT_TO_MISSING_KEY, key="max_age")
             elif not isinstance(group["max_age"], int) or isinstance(group["max_age"], bool):
                 add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="integer")
+            elif group["max_age"] < 0:
+                add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="non-negative integer")
 
             # endpoints is required
             if "endpoints" not in group:
-- 
2.43.0


From 2860fedb72047fcc83326b93d65e5d40de528d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 093/112] fix: an empty NEL report_to names an undefined
 endpoint

---
 httplint/field/parsers/nel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 1046ea2..dc7633a 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -129,7 +129,7 @@ It allows websites to declare that they want to receive reports about network er
             if not isinstance(policy, dict):
                 continue
             report_to = policy.get("report_to")
-            if report_to and isinstance(report_to, str):
+            if isinstance(report_to, str):
                 if report_to not in known_endpoints:
                     add_note(NEL_REPORT_TO_MISSING, key="report_to", value=report_to)
                 elif report_to in valid_endpoints and self._clean_policies[idx]:
-- 
2.43.0


From 06fffa93a8286b26591186e9e51132ce08b2bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 094/112] fix: don't interpret message data in notes as
 Markdown

---
 httplint/field/parsers/cache_control.py       |  2 +-
 httplint/field/parsers/cache_status.py        |  8 +--
 httplint/field/parsers/clear_site_data.py     |  4 +-
 .../field/parsers/content_security_policy.py  |  5 +-
 .../content_security_policy_report_only.py    |  5 +-
 ...ross_origin_embedder_policy_report_only.py |  6 ++-
 .../cross_origin_opener_policy_report_only.py |  6 ++-
 httplint/field/parsers/link.py                |  5 +-
 httplint/field/parsers/nel.py                 |  4 +-
 httplint/field/parsers/proxy_status.py        | 12 ++---
 httplint/field/parsers/set_cookie.py          |  4 +-
 httplint/field/structured_field.py            |  6 +--
 httplint/field/utils.py                       | 15 +++---
 httplint/note.py                              | 50 +++++++++++--------
 httplint/status.py                            |  2 +-
 httplint/util.py                              | 14 +++---
 16 files changed, 81 insertions(+), 67 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index a308317..88319a8 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -147,7 +147,7 @@ ignoring it there."""
                         add_note(
                             CC_CONFLICTING,
                             directive=directive,
-                            conflicts=markdown_list(conflicts, markup="`"),
+                            conflicts=markdown_list(conflicts),
                         )
                         break  # only show the first conflict
 
diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..9562aa9 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -41,10 +41,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{markdown_code(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -87,7 +87,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         "type": bool,
         "desc": "The request was collapsed with another request.",
     },
-    "key": {"type": str, "desc": "The cache key was `%s`."},
+    "key": {"type": str, "desc": "The cache key was %s."},
     "detail": {"type": (Token, str), "desc": "Additional details: %s"},
 }
 
diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 4f49f07..575c51e 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -1,7 +1,7 @@
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.syntax.rfc9110 import list_rule, quoted_string
 from httplint.types import (
     AddNoteMethodType,
@@ -53,7 +53,7 @@ origin."""
             return
         valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
         if valid:
-            add_note(CSD_PRESENT, values=", ".join(f"`{v}`" for v in valid))
+            add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(f"`{v}`" for v in valid)))
 
 
 class CSD_PRESENT(Note):
diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index b62f50e..05ed6df 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -2,7 +2,7 @@ from typing import Dict, List, Optional
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -170,8 +170,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
-        return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
+        return MarkdownSafe("\n".join(f"* {markdown_code(item)}" for item in items))
 
 
 class CONTENT_SECURITY_POLICY(Note):
diff --git a/httplint/field/parsers/content_security_policy_report_only.py b/httplint/field/parsers/content_security_policy_report_only.py
index a602c00..417dcf4 100644
--- a/httplint/field/parsers/content_security_policy_report_only.py
+++ b/httplint/field/parsers/content_security_policy_report_only.py
@@ -4,6 +4,7 @@ from httplint.field.parsers.content_security_policy import (
     content_security_policy,
 )
 from httplint.field.tests import FieldTest
+from httplint.note import MarkdownSafe
 from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
@@ -18,7 +19,9 @@ the effects of a content security policy without enforcing it."""
     reference = "https://www.w3.org/TR/CSP3/"
     deprecated = False
     report_only_string = " for reporting only"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
 
 class CSPROTest(FieldTest[ResponseLinterProtocol]):
diff --git a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
index 4663091..204dfd2 100644
--- a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_embedder_policy import (
     cross_origin_embedder_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Embedder-Policy-Report-Only` header field allows a document to
 potential violations of its Cross-Origin Embedder Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coep"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-embedder-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/cross_origin_opener_policy_report_only.py b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
index 5d09190..32c4908 100644
--- a/httplint/field/parsers/cross_origin_opener_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_opener_policy import (
     cross_origin_opener_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Opener-Policy-Report-Only` header field allows a document to r
 potential violations of its Cross-Origin Opener Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coop"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-opener-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 8758474..bc595ae 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -5,7 +5,7 @@ from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import PARAM_REPEATS, parse_params, split_list_field
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -75,8 +75,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
-                lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
+                lines.append(f"- `{rel_name}`: {', '.join(map(markdown_code, targets))}")
             add_note(
                 LINK_RESOURCE_HINTS,
                 hints=hints_plain,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index dc7633a..e9ddf86 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -3,7 +3,7 @@ from typing import Any, List, Set
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -138,7 +138,7 @@ It allows websites to declare that they want to receive reports about network er
         if resolved_endpoints:
             add_note(
                 NEL_CONFIGURED,
-                endpoints=", ".join(f"`{e}`" for e in resolved_endpoints),
+                endpoints=MarkdownSafe(", ".join(map(markdown_code, resolved_endpoints))),
             )
 
 
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 8959187..c6e6103 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -39,16 +39,16 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**{markdown_code(target_str)}**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
     "error": {
         "type": Token,
-        "desc": "The error was `%s`.",
+        "desc": "The error was %s.",
         "value_desc": {
             Token(
                 "dns_timeout"
@@ -103,8 +103,8 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
             Token("proxy_loop_detected"): "The proxy detected a loop.",
         },
     },
-    "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
-    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was `%s`."},
+    "next-hop": {"type": (Token, str), "desc": "The next hop was %s."},
+    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was %s."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: %s"},
 }
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 804f30e..8bb8fae 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -6,7 +6,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     DeferredNoteType,
@@ -64,7 +64,7 @@ requests to the server."""
             add_note(
                 SET_COOKIE_HARDENED,
                 cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
+                    ", ".join(map(markdown_code, hardened))
                 ),
             )
 
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index a23e297..9df7c93 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,7 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
@@ -53,9 +53,9 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 bad_char_index = why.position
                 context_start = max(0, bad_char_index - CONTEXT_CHARS)
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
-                context_str = combined_value[context_start:context_end]
+                context_str = re.sub(r"\s", " ", combined_value[context_start:context_end])
                 pointer = " " * (bad_char_index - context_start) + "^"
-                context = f"\n\n    {context_str}\n    {pointer}"
+                context = MarkdownSafe(f"\n\n    {context_str}\n    {pointer}")
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index bd319f4..d982994 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -6,7 +6,7 @@ from urllib.parse import unquote as urlunquote
 
 from http_sf import Token
 
-from httplint.note import Note, categories, levels
+from httplint.note import Note, categories, levels, markdown_code
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 
@@ -256,7 +256,7 @@ def check_sf_params(
     for param_name, param_value in params.items():
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* `{param_name}`: {markdown_code(param_value)}")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and (
@@ -268,7 +268,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: {markdown_code(param_value)}")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -278,7 +278,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: {markdown_code(param_value)}")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -286,17 +286,18 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: {markdown_code(param_value)}")
             elif "desc" in known_params[param_name] and param_value is not False:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
                 else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                    shown = param_value if isinstance(param_value, int) else markdown_code(param_value)
+                    param_list.append(f"* {known_params[param_name]['desc'] % shown}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: {markdown_code(param_value)}")
 
     return "\n".join(param_list)
 
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..397d990 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -1,12 +1,13 @@
 from __future__ import annotations
 
+import re
 from collections import UserList
 from enum import Enum
 from threading import local
-from typing import Any, Dict, MutableMapping, Optional, Type
+from typing import Any, Dict, List, MutableMapping, Optional, Type
 
 from markdown import Markdown
-from markupsafe import Markup
+from markupsafe import Markup, escape
 
 from httplint.i18n import L_, translate
 from httplint.types import NoteListType, VariableType
@@ -23,14 +24,25 @@ class MarkdownSafe(str):
     """
     Marker for var values that are pre-composed Markdown.
 
-    Note._get_detail strips backticks from interpolated var values so
-    wire-supplied data cannot close a code span and inject raw HTML.
+    Note._get_detail doesn't interpret interpolated var values as Markdown,
+    so that wire-supplied data cannot inject markup.
     Wrap a value in MarkdownSafe(...) when the backticks (or other
     Markdown syntax) in the value were produced by library code and
-    must survive interpolation intact.
+    must survive interpolation intact; any wire-supplied data in it needs
+    to go through markdown_code().
     """
 
 
+def markdown_code(value: Any) -> MarkdownSafe:
+    """
+    Format arbitrary text as a Markdown code span.
+
+    Backticks are stripped so that the text can't close the span, and line
+    breaks become spaces so that it can't start a new block.
+    """
+    return MarkdownSafe(f"`{' '.join(str(value).replace('`', '').split())}`")
+
+
 def _get_markdown() -> Markdown:
     """Return a per-thread Markdown instance, creating it on first use."""
     if not hasattr(_md_local, "md"):
@@ -137,27 +149,25 @@ class Note:
         """
         Show the HTML text for the message as a Unicode string.
 
-        The resulting string is already HTML-encoded.  Variable values are
-        passed as plain strings; the Markdown renderer handles escaping.
-        Template authors must wrap user-controlled vars in backtick code
-        spans (or indented code blocks) so Markdown escapes them correctly.
+        The resulting string is already HTML-encoded.  The Markdown renderer
+        only sees a placeholder for each variable value; the HTML-escaped
+        value takes its place afterwards, wherever the template uses it.
 
-        As defense-in-depth, backticks are stripped from each interpolated
-        value so a wire-supplied backtick cannot close the surrounding
-        code span and let the rest of the value render as raw HTML.
         Values that are pre-composed Markdown produced by library code
         (e.g. a joined list of code spans) should be wrapped in
-        MarkdownSafe to opt out of this stripping.
+        MarkdownSafe to be interpreted as Markdown.
         """
-        def _coerce(val: Any) -> str:
+        held: List[str] = []
+
+        def _hold(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
-                return str(val)
-            return str(val).replace("`", "")
+                return re.sub("[\ue000\ue001]", "", val)
+            held.append(str(escape(str(val))))
+            return f"\ue000{len(held) - 1}\ue001"
 
-        safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
-        return Markup(
-            _get_markdown().reset().convert(translate(self._text) % safe_vars)
-        )
+        safe_vars = {k: _hold(v) for k, v in self.vars.items()}
+        html = _get_markdown().reset().convert(translate(self._text) % safe_vars)
+        return Markup(re.sub("\ue000([0-9]+)\ue001", lambda m: held[int(m[1])], html))
 
     summary = property(_get_summary)
     detail = property(_get_detail)
diff --git a/httplint/status.py b/httplint/status.py
index ccdeb17..4bb3b7e 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -142,7 +142,7 @@ class StatusChecker:
             self.add_note(
                 "field-content-type",
                 HEADER_SHOULD_NOT_BE_IN_304,
-                headers=markdown_list(prohibited_headers, markup="`"),
+                headers=markdown_list(prohibited_headers),
             )
 
     def status305(self) -> None:  # Use Proxy
diff --git a/httplint/util.py b/httplint/util.py
index 4c2fd0e..f8be0f3 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -9,7 +9,7 @@ from urllib.parse import quote as urlquote
 from urllib.parse import urljoin, urlsplit
 
 from httplint.i18n import format_timedelta, translate
-from httplint.note import MarkdownSafe
+from httplint.note import MarkdownSafe, markdown_code
 
 
 # RFC 3986, Appendix B
@@ -100,16 +100,14 @@ def display_bytes(inbytes: bytes, encoding: str = "utf-8", truncate: int = 40) -
     return "".join(out)
 
 
-def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
+def markdown_list(inlist: List[str]) -> MarkdownSafe:
     """
-    Format a list of strings into Markdown.
+    Format a list of strings into a Markdown list of code spans.
 
-    Each item has backticks stripped so wire-supplied content cannot
-    close the surrounding `markup` span. The result is MarkdownSafe so
-    Note._get_detail preserves the structural markup on interpolation.
+    The result is MarkdownSafe so Note._get_detail preserves the structural
+    markup on interpolation.
     """
-    safe = [i.replace("`", "") for i in inlist]
-    return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
+    return MarkdownSafe("\n".join(f"- {markdown_code(i)}" for i in inlist))
 
 
 class RelativeTime:
-- 
2.43.0


From 2d4405cd050f08b2b5c6ac07e23573851e325c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:05 +0000
Subject: [PATCH 095/112] fix: don't show the catalogue's header as the
 translation of an empty text

---
 httplint/i18n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index c9ae2b0..cf5aeb6 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -37,7 +37,7 @@ def translate(message: str) -> str:
     Translate a message.
     """
     translations = get_translations()
-    if translations:
+    if translations and message:  # the empty message is the catalogue's metadata
         return translations.gettext(message)
     return message
 
-- 
2.43.0


From 281bdb82fbca634ec4b7f1dc58c9c25c3e9d95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 096/112] fix: report Cache-Control directives in the order
 they appear

---
 httplint/field/parsers/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 88319a8..6d06799 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -142,7 +142,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = [c for c in dict.fromkeys(cc_list) if c in potential_conflicts]
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
@@ -151,7 +151,7 @@ ignoring it there."""
                         )
                         break  # only show the first conflict
 
-        for directive in set(cc_list):
+        for directive in dict.fromkeys(cc_list):
             # wrong message type
             if (
                 self.message.message_type == "request"
-- 
2.43.0


From ebc90345f9ab368421658bd44a2f5d9183a1ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 097/112] fix: report duplicated language tags in the order
 they appear

---
 httplint/field/parsers/content_language.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_language.py b/httplint/field/parsers/content_language.py
index 6dff857..4141c3c 100644
--- a/httplint/field/parsers/content_language.py
+++ b/httplint/field/parsers/content_language.py
@@ -26,10 +26,10 @@ messsage. Note that this might not convey all of the languages used."""
         if self.value:
             if len(self.value) != len(set(self.value)):
                 seen = set()
-                duplicates = set()
+                duplicates: dict[str, None] = {}
                 for lang in self.value:
                     if lang in seen:
-                        duplicates.add(lang)
+                        duplicates[lang] = None
                     seen.add(lang)
                 for lang in duplicates:
                     add_note(CONTENT_LANGUAGE_DUP, lang=lang)
-- 
2.43.0


From 0ae358dfad65b586ccaaad39c94ce8a0b4d64e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 098/112] fix: report unwanted transfer-codings in the order
 they appear

---
 httplint/field/parsers/transfer_encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index 5d9bf93..f16ebc1 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -46,7 +46,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         return coding, param_dict
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
+        unwanted = dict.fromkeys(c[0] for c in self.value if c[0] not in ["chunked", "identity"])
         if unwanted:
             # check to see if the client asked for it
             if (
@@ -56,7 +56,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             ):
                 request = response.request
                 te = request.headers.parsed.get("te", [])
-                unwanted = {c for c in unwanted if not is_accepted(c, te)}
+                unwanted = dict.fromkeys(c for c in unwanted if not is_accepted(c, te))
 
         if unwanted:
             for coding in unwanted:
-- 
2.43.0


From 65d2d6d4710294b826dbdf5ff1440cebfa595d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:00 +0000
Subject: [PATCH 099/112] fix: translate the kinds of messages and sections
 when notes are shown

---
 httplint/field/section.py |  6 +++---
 httplint/i18n.py          | 18 ++++++++++++++++++
 httplint/message.py       |  8 ++++----
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index 432c19c..a935d89 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -4,7 +4,7 @@ from typing import Any, Dict
 
 from httplint.field import HttpField
 from httplint.field.finder import HttpFieldFinder
-from httplint.i18n import L_
+from httplint.i18n import L_, LazyTranslation
 from httplint.note import Note, categories, levels
 from httplint.types import (
     FieldDictType,
@@ -80,7 +80,7 @@ class FieldSection:
             self.message.notes.add(
                 "field-block",
                 FIELD_SECTION_TOO_LARGE,
-                field_type=self.is_trailer and L_("trailer") or L_("header"),
+                field_type=LazyTranslation(self.is_trailer and L_("trailer") or L_("header")),
                 section_size=f_num(self.size),
             )
 
@@ -90,7 +90,7 @@ class FieldSection:
                 self.message.notes.add,
                 f"field-{handler.canonical_name.lower()}",
                 field_name=handler.canonical_name,
-                field_type=self.is_trailer and L_("trailer") or L_("header"),
+                field_type=LazyTranslation(self.is_trailer and L_("trailer") or L_("header")),
             )
             handler.finish(field_add_note)
             self.parsed[handler.norm_name] = handler.value
diff --git a/httplint/i18n.py b/httplint/i18n.py
index cf5aeb6..73fb20f 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -63,6 +63,24 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     return babel_format_timedelta(delta, locale=locale, **kwargs)
 
 
+class LazyTranslation(str):
+    """
+    A message that is translated when it's formatted, not when it's created.
+    """
+
+    def __str__(self) -> str:
+        return translate(str.__str__(self))
+
+
+class CapitalizedTranslation(LazyTranslation):
+    """
+    A LazyTranslation with an initial capital.
+    """
+
+    def __str__(self) -> str:
+        return super().__str__().capitalize()
+
+
 def L_(message: str) -> str:  # pylint: disable=invalid-name
     """
     Lazy marker for string extraction.
diff --git a/httplint/message.py b/httplint/message.py
index a2fd30e..ff73f72 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -13,7 +13,7 @@ from httplint.content_encoding import ContentEncodingProcessor
 from httplint.content_type import verify_content_type
 from httplint.field.cors import check_preflight_request, check_preflight_response
 from httplint.field.section import FieldSection
-from httplint.i18n import L_, translate
+from httplint.i18n import L_, CapitalizedTranslation, LazyTranslation
 from httplint.note import Note, Notes, categories, levels
 from httplint.status import StatusChecker
 from httplint.syntax import rfc3986
@@ -60,7 +60,7 @@ class HttpMessageLinter:
         _related: Optional[LinterProtocol] = None,
         no_content: bool = False,
     ) -> None:
-        self.notes: NotesProtocol = Notes({"message_type": translate(self.message_type)})
+        self.notes: NotesProtocol = Notes({"message_type": LazyTranslation(self.message_type)})
         self._related = _related
         self.start_time = start_time
         self.finish_time: Optional[float] = None
@@ -148,7 +148,7 @@ class HttpMessageLinter:
                 self.notes.add(
                     "message",
                     CONTENT_NOT_ALLOWED,
-                    message=translate(self.message_type).capitalize(),
+                    message=CapitalizedTranslation(self.message_type),
                 )
         self.post_checks()
 
@@ -158,7 +158,7 @@ class HttpMessageLinter:
                     self.notes.add,
                     f"field-{handler.canonical_name.lower()}",
                     field_name=handler.canonical_name,
-                    field_type=section.is_trailer and L_("trailer") or L_("header"),
+                    field_type=LazyTranslation(section.is_trailer and L_("trailer") or L_("header")),
                 )
                 if handler.value is not None:
                     handler.post_check(field_add_note)
-- 
2.43.0


From a6e1a2322fb2e5f724b29e9528c2528916a0d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:13 +0000
Subject: [PATCH 100/112] fix: translate the other kind of message a cache
 directive belongs to

---
 httplint/field/parsers/cache_control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 6d06799..1039e4d 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -3,6 +3,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import unquote_string
+from httplint.i18n import L_, LazyTranslation
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -160,7 +161,7 @@ ignoring it there."""
                 add_note(
                     CC_WRONG_MESSAGE,
                     directive=directive,
-                    other_message="response",
+                    other_message=LazyTranslation(L_("response")),
                 )
                 continue  # don't run other checks
             if (
@@ -170,7 +171,7 @@ ignoring it there."""
                 add_note(
                     CC_WRONG_MESSAGE,
                     directive=directive,
-                    other_message="request",
+                    other_message=LazyTranslation(L_("request")),
                 )
                 continue  # don't run other checks
 
-- 
2.43.0


From ebb08fc04f22856b3b2d13380f17410317bc28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:13 +0000
Subject: [PATCH 101/112] fix: format durations in English when there is no
 translation

---
 httplint/i18n.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 73fb20f..9dfc542 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -56,10 +56,12 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     """
     Format a timedelta object.
     """
-    try:
-        locale = Locale.parse(_locale_var.get())
-    except (UnknownLocaleError, ValueError):
-        locale = Locale("en")  # as messages do when there is no translation
+    locale = Locale("en")  # as messages do when there is no translation
+    if isinstance(get_translations(), Translations):
+        try:
+            locale = Locale.parse(_locale_var.get())
+        except (UnknownLocaleError, ValueError):
+            pass
     return babel_format_timedelta(delta, locale=locale, **kwargs)
 
 
-- 
2.43.0


From 4e1d35351552f1789dadd9aa01e873b1ccce2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 102/112] fix: keep the Chinese summary of a bad
 Accept-Language q to one line

---
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155224 -> 155174 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   7 ++-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 6ef269c671fc492e670ada56f616280f635aefa0..7814a0dab1996aea190e6324a763fb6fca2c2669 100644
GIT binary patch
delta 3489
zcmXZedt8^*9l-JLIp`Ggf+pY<MMEG!ydYk}U?z&!5JiO~)V)fh@{&2`Z2mSa-7GIG
z&Dz|uG;K0(C?bj};;c;5sbnaXImdh%qFCy(iTiw?^ZV<4zUMj5xjo<WJkOV9ft$+$
zcb2vHbrX^Og+}`0SAK*4?&2|+Nd0Tr1<O#|S7QV|z`hu<%}5+(;ZR(L+U^8uzc;WC
zMs7DU2(wZ9Tf5!(q#uQ1D#GzQzb$sSI3A;^ABR0~A*SN{7>`%61Gd}g+V%CDgF5gs
z?1_i`^>x@)+wXD?+~qS8MnyIiI^zWxgX^(7eu9r;Ek<Ezk&#GD!Ol1npT(u9_g_c7
zKWMjGX%gxJ^D!8=VLPlq-KlCH1>KtPJ#L^0s5ADVHr$Td;l~()-{U}RR_yABqSnvB
zj<^hUXEvhta~5AlyVuAQn2)dG0sI(!DJ4e!M4{<EBcpL6PRE-#2gjEhnU6>DH#lg&
zkvDN4{t`zYF!B~w;M160W@HAIq7E2-(8ySP1`BZyj>M@Sc?<AKAq8F0dDJa#eaOgc
z9E5+wt(b*_4;vYP>-?TZols!8k+z1FV?FWuBhHl-Motm`_Nbe1`ag_JBEEtfG3l6*
zcgR1vM4^_7Uw>lcL!9xck(C&9+{lagE`E(IJ~I-^K(%;-xY0=?f5soMGxe)KH?os>
z`za%vF!!{Pa&7ldBM<Nx>P{a!<0dlgtdShXmr@G(7<$ggE4T`0V)IHP1vnq4Vv{e7
zY{QwTD+@XACR&3#i06N4WEMtL8Ci#GFb`ud7|F(Un2WbiA8p1(Bfe!6Dk!L<s*OB{
zXHk=8@K<CpD=R|Xy6ayXDZ$il+?L+Q2I7KCMo#1EZ;cG6{j|$S{I`D@DaLy2PyLoF
zMph7i^KT=g@WmST|92EhYurj6`;SYG<5)_4@Kqx`emRAWEjx3K7Y*^+S|iC^uei<@
zVnCgdOq_;`ump8y6K@#Fz`a<5fj5o3fHyH5bLxFY5-9lUjilfnoQ$_I9mn1>vIgJ9
zDops^$W?6lgF8NV@d)vu+eQ{LvBh^>@;2Oc$9dL&-D!9SSJBS=Xe12_FbOaCDCpLP
z-ZQcmXX6HJ{F9NFa5KJ+?f>V_^9QI~dJZ-Dmfv?TpdJnGnXbTj)HmQ_eCdIa5qKL<
zV6s^G12#9-dz1R!qM+xq8sEbhYrUj9iF=511FUpmWo;W-A)h3H=a7ain^<XvlbTxT
zh|>eD9H;%FX4Xs65f51}3Gd=W>Q^<lavy6@kNcGtRu|}#u$ESyr=q~`ebnrKu9cOa
z(eW9aLR=MOC5$++wUtWZ%r@40)-exTxj?)Xbpo%owGv3X^k6FnvqP+xoKr%r9Oiml
zJ1gH|9X4o|Txf6Q7!_3=+zdB#v{Fs{*G|^^x-IN%WeD*O)Q{0Ed=xu{S$Q0X<A=Bu
z8!=#f7b}loLRX|dE8Kct(M7m`xERARz8n2%mX4zkgbOhg-@s0|33Z@yjKo^hWNq8s
zdhhlTxRil@h5Gq@@QCX;F2W7`B<iVn8FkB#V-z;(VZG0H9QyP{FrI>D{ZZ5zcaC%e
z4ngfW4|PIsV;3w&T|p%V<6YE`Pm3tGW6{`)I0yCmO4J2xLhbK_zy4m7^?6^pplH`H
z8r#qy8FeBVI0*Am2PnentoU=(t?wOUB^KwPUjGZ~#7Z#?FZ%26VIpxzto4rF7#vBw
zJl1Eu7fGeRA~?=<Fcr0f#i)Nc?_qDO#29SS)3xi1-H9`CJTAbgcoKC&J>#vnz>%n1
z{|nSVr#Ema7WpXX`FyySl_JbR9U!Q;_5KTzus`u^+<;qfE~fRd-g{v`>JP}UzE;X`
z8@`Qs3D$eB1oX3VhxjRMhZ%`(XP?J9V&7^C1GLcJdauTPsNaH!0oHpXZo@3%I{XyV
z23pyQZ3elH4x&!*GOouCk6C#iOHe14on&PgmZLuVri0y%CSsDF|2ztMVGEAJO4KY5
zf7~U_MAT$jgxnxIFd1w8*JG1iy9ucOhOeML>m#WB{pdF}#XYhD)MVU^ef9ib^a>)a
ze(pMc0(GDzH~|m)>w|~5XPSvash^9QBYUxgq^!h##4Con(^7#tflH{zFE-WrEb3Qv
z119PDzc|c#e?0AmyRG>>>W-A5uIL(SmiJ0?*K<%iEI>V8pP>%)E$YPMMz}Z+_4MpT
zeSy`ZUQZb5?w^Z3-Ks(gnw^(Xv-6=*ZUVhgvp*O0xV`E34E7{$J=$$`3JxaD#}2Hl
z7$flX823uPGuC>4Qsqy&3B{+o+{sJl{A>2Fq9Pot@ErbxSMc;Wz5!UA;l5gBs5>!i
zyn9p5!#>2XBfkvt5zZ#woM~kZamYj~=ZOm^S?{lS$z=C&+l{NKPtBTP<sgMGvaI(r
zxhC7nP2x6BSvi6MQ>-k<W2h4um*bp_9}wqa05*Qw)d%_w@*9dxxE{77FtQ{t((HP5
t-GM^Wjo+uk2RoMBD>VHUw2F*~dSTkE8S|&jcqV#YWY>~e5%$`E{{tEqPXGV_

delta 3550
zcmY+{dt8^*9l-JLIcfyvW!|rd5&<e+6H!qTF)uhJP0b(`S!vcZO=p_!r{zLgWoU&K
z>*Xb#P7r7+DtJMMQ`fT0Ybwr$!py*Xxux{^KIiw({(7J9d7j_7J>PSl=eMyq@Jw-F
zesN3Rqaw0<i;>=V(Qoq{7mvbd>eI0u?!^vRhGA%Ojr7EDjKXA0zzo#;zC>;J2KK<n
ztw#D{3Tk^<Ta8b8Q7ELMJ^tXgL7t1dV<h!s@G)G3gYh%$idV4}w#s++_3}Fjwc`xz
zf+ha?>lmW<7dZPB_>2TokwS%z_;u`rpJFH;#g15o5!mu`BjFg2ZE-rjfXh&SUyb_v
zMt^lP9e_H)`PdZmumzT)u2h+if-X(yHrLTO)DbU1y)hrP!6VoV?_eK%WV@?>619Fd
zw#E$9mDzyW&PkkuwRad9g!6GJ?!mvKFTT*o#}tBg8X18ba0=eUS8(huBXjW(F2dN|
zMpoi({2h)gGV&3Y;zUd-HZm29P&*9WV`L;w#Vxo4hvSsJ-UNJ-OF?IJ7Ildm?=vzJ
zV{rxM-~^1@ZzKj+`#p|2pt>bSniyt|H;6wy;C%m}kz>Sf{LKw`bg7Z?#8+@V4mf0F
zHTfssQMg9M!ox;3;fqI%yoZgB8u=}*#WHO04<pU#s0yozANr?}Pw+0brGCYiM)HaC
zj~V$4Q@=7&qW67mqy`V8uJqyKZXjvj7<rEVrHH~jY<a@SLd?WzSpTGvOq_?4G4Pa;
zT%3+Nvlge_Kr1nic-|Q!Gcf$Dku3ZOr(>6IjXaC1aT4A}eY8)XGvZ69P)b4l^?4&N
z;z`t`iMv1+GqY`|OIKZHq!5Q(bW2);4~SR(%g9%_;*yae+@JOx5^wppk?nX3dsDx;
z+{nAcmo6Jg#F<xE|0NWPuDF@>uW-rn1@5B0d8H8^zkH2#EGu)BgN8WknvpoJm;S&K
zVx1}@V=)bXkGoJ;Hm2IhXxxccu<msuFXK&YkCSfrj66<Z$qge<;0}BSf5aqAx@qJC
zT#IKh`j(MOY<SykpL=+Kxa5wJ*BRK-yDoX<C%2tnLER0X;Bu^W&&W_*iLrRzM?sgi
z<$sNQh_i4F2K>*+Y}|x@#MVE%{rqRtB|U|jeDB<M2T;TV_e_`LtJF)4kvCut4#OYu
z3mhm`GO)g}-bw0PMM3vx8Lq`BYrUj9hTDi!YguW>%$n7<LOw|}&tWJw46qV}6CSqG
z8h;aL<tX<r4zga7Cf2oH65hjc)Mq|o<vv!TZucwotWMA;A@!}iM8!(KHK^JDQUfaw
z(eMdOAwJj8N-%NEudJLT9^c4%&pN8Hm2Zi2PzR9S#7ZFdjc#hiU`jLVCFjKER`zqf
zYYQvi<8^$XS#rLml|xjVYvo3`uC<l(#B17E@9nmzt(AD<0@Rn$ZS07_!Bz&~Fx-U8
zur?ibZ)fFEj1EESliOSGExH)z6BlB8?B0R)G)u=&Xo!ojIlhN&a3g9*2QeJ0P?NP;
zsP)eFM0|^m7NEX<O_-IZuq$fEOHg;kM${$$86z<IG3&j)C!tRdf<I8utiOx;!%^X`
z!#Su8XQK}2D7M22)ENXsSnsVCiTd)1L;W5|#%{RWe|<md1Wuv0_rPD@Inw&Pw_JRr
zYbY5Tal<Usfh@(oxEZyBa-719rK4N=v`$t!6RtzOehhVB-(xV=>+I?~V>Izlj71*~
z$KuXD>m4KkQLbVLY6B}!8`y?Aqi?V~26VCB>$nf<ea~YkrsEjgf|IcZbwHE5T5p02
zQJ4Nh)Gw#KI2p@*6m)+M?q=n4T#lVEzPt6l3ua(%;<dO2&*Cgx(8GG?!Zp+nkk@)z
zDaMPq3bP-#-nr7NmzBH3?_vvF8tqp0Pgq6lJ3t|ZLP2lq9gSBpop^kV^-jc#IDt5%
zkCh|10RMsseO*J<r~_=$&q_9qz;*Z^)PcPdYvoD2h5GFK_IE2f4S5tk$)=ze&SD}4
z3~*UK1~qAxp(ay4>a)9qaTpxuu21y)7V5X*R@7&G8@0VoPdMkHKC*+T?Ow*7y8r79
zbR!yw+VEV|j<(~|c++1$B;GyKbWEUrJ!+0rVxeK+gRJ+hw=co%mOH2eXf)VuzlnZV
zp}tj*V=Vnky&=~7;u(&bY`alcqzZLLZHBrmpMrXQIqH5sh)wZ6YDbNSxq(kYjk8gA
zPbKOB7CPKre*yLP>(Qr6b%BCrXOl#io&8Y<kcQe}ChAF7>bLd?cK{7S{rzn0kDIX-
zGpoQbv?JY-95KpzUsAVF2b7xRawj{9{jb?yLPdM5`;?Uv7=`6%NAnKA3e3PN)cyY2
z7<W=`z#hbVkWU7=jx&kRjJ5Is@z8NrP7_}kZ@sVL?a#QE+hu&8`gs$kTG>P4;b*P)
zF?k5D6DK5FIe@)Vth|jsp$_ED=bUfj2I5Stg}o=b`hI@n{SLzbt|z@27+x3{ZVHx~
z4q5!&>R>y_%Kdv<XLZXl^$P3cn27mtm3g_9n--TBt*=<KBqV&nwD6FMeMOadnbpM~
q2L)B;ZTSD|VG%E<&X_tkb?WnxuZD+|@663g4YQ34M}^tbF~0ygL38{7

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index 8b778e2..ef699a4 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -2078,14 +2078,11 @@ msgstr ""
 #: httplint/field/parsers/accept_language.py:68
 #, python-brace-format
 msgid "The q value on '%(language)s' is invalid."
-msgstr ""
-"语言代码 'zh' 翻译：\n"
-"\n"
-"该语言代码 '%(language)s' 中的 q 值无效。"
+msgstr "'%(language)s' 的 q 值无效。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
-msgstr "\"Accept-Language 头信息无效。\""
+msgstr "Accept-Language 头信息无效。"
 
 #: httplint/field/parsers/accept_ranges.py:30
 msgid "This response advertises support for non-standard range-units."
-- 
2.43.0


From 586c14489a5c108888e321ee40f96e27cef3f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 103/112] fix: leave the whitespace around a field's value out
 of it in the CLI

---
 httplint/cli/http_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index 67ce06c..ad5c61b 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -44,14 +44,14 @@ class HttpCliParser(HttpMessageHandler):
             self.linter = HttpRequestLinter(start_time=self.start_time)
             method, iri, version = self.request_topline(top_line)
             self.linter.process_request_topline(method, iri, version)
-            self.linter.process_headers(hdr_tuples)
+            self.linter.process_headers(self.field_lines(hdr_tuples))
             allows_body = bool(content_length and content_length > 0) or (transfer_codes != [])
             is_final = True
         if self.mode == modes.RESPONSE:
             self.linter = HttpResponseLinter(start_time=self.start_time)
             version, status_code, status_phrase = self.response_topline(top_line)
             self.linter.process_response_topline(version, status_code, status_phrase)
-            self.linter.process_headers(hdr_tuples)
+            self.linter.process_headers(self.field_lines(hdr_tuples))
             is_final = not status_code.startswith(b"1")
             allows_body = is_final and (
                 status_code not in no_body_status
@@ -62,7 +62,7 @@ class HttpCliParser(HttpMessageHandler):
         self.linter.feed_content(chunk)
 
     def input_end(self, trailers: RawFieldListType) -> None:
-        self.linter.finish_content(True, trailers)
+        self.linter.finish_content(True, self.field_lines(trailers))
         notes = sorted(self.linter.notes, key=lambda n: n.category.value)
         current_category = None
         for note in notes:
@@ -77,6 +77,11 @@ class HttpCliParser(HttpMessageHandler):
     def input_error(self, err: HttpError, close: bool = True) -> None:
         "Indicate an error state."
 
+    @staticmethod
+    def field_lines(hdr_tuples: RawFieldListType) -> RawFieldListType:
+        "The field lines, without the whitespace around their values."
+        return [(name, value.strip(b" \t")) for name, value in hdr_tuples]
+
     def request_topline(self, top_line: bytes) -> Tuple[bytes, bytes, bytes]:
         try:
             method, req_line = top_line.split(None, 1)
-- 
2.43.0


From 06dbf21c1fd74ecc9fe52eabfd30057a4bfbea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 104/112] fix: don't split Server and Via at commas in comments

---
 httplint/field/parsers/server.py | 6 ++++++
 httplint/field/parsers/via.py    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/httplint/field/parsers/server.py b/httplint/field/parsers/server.py
index b28a995..b32c1df 100644
--- a/httplint/field/parsers/server.py
+++ b/httplint/field/parsers/server.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, ResponseLinterProtocol
@@ -16,6 +19,9 @@ handle the request."""
     syntax = rfc9110.Server
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        return split_list_field(field_value, rf"(?:{rfc9110.quoted_string} | {rfc9110.comment})")
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) > MAX_SERVER_LENGTH:
             add_note(
diff --git a/httplint/field/parsers/via.py b/httplint/field/parsers/via.py
index 5203702..172d179 100644
--- a/httplint/field/parsers/via.py
+++ b/httplint/field/parsers/via.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_list_field
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +22,9 @@ the request/response chain."""
     syntax = rfc9110.Via
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        return split_list_field(field_value, rf"(?:{rfc9110.quoted_string} | {rfc9110.comment})")
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         via_list = "<ul>" + "\n".join([f"<li><code>{v}</code></li>" for v in self.value]) + "</ul>"
         add_note(VIA_PRESENT, via_list=via_list)
-- 
2.43.0


From 54c3db1943eb676ee7e3323d528a9c4515f8f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 105/112] fix: don't report intermediaries when Via names none

---
 httplint/field/parsers/via.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/via.py b/httplint/field/parsers/via.py
index 172d179..05d506f 100644
--- a/httplint/field/parsers/via.py
+++ b/httplint/field/parsers/via.py
@@ -26,6 +26,8 @@ the request/response chain."""
         return split_list_field(field_value, rf"(?:{rfc9110.quoted_string} | {rfc9110.comment})")
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
+        if not self.value:
+            return
         via_list = "<ul>" + "\n".join([f"<li><code>{v}</code></li>" for v in self.value]) + "</ul>"
         add_note(VIA_PRESENT, via_list=via_list)
 
-- 
2.43.0


From e55c75cb15fb103c406ed87762360807160344a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 106/112] fix: report Server-Timing durations that aren't
 numbers but that Python reads as ones

---
 httplint/field/parsers/server_timing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..bc5db6b 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -1,3 +1,4 @@
+import re
 from typing import Tuple
 
 from httplint.field.list_field import HttpListField
@@ -12,6 +13,9 @@ from httplint.types import (
     ResponseLinterProtocol,
 )
 
+# a valid floating-point number (HTML, section 2.3.4.3)
+NUMBER = r"-?(?:[0-9]+(?:\.[0-9]+)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?"
+
 
 class server_timing(HttpListField[ResponseLinterProtocol]):
     canonical_name = "Server-Timing"
@@ -43,9 +47,7 @@ consumer of Server-Timing."""
             if duration is None:
                 add_note(SERVER_TIMING_MISSING_DUR, metric=metric_name)
             else:
-                try:
-                    float(duration)
-                except ValueError:
+                if not re.fullmatch(NUMBER, duration):
                     add_note(
                         SERVER_TIMING_BAD_PARAM,
                         metric=metric_name,
-- 
2.43.0


From 6b2ef8877aaa574c657c1d7283aae9fbe314ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 107/112] fix: count a quoted Clear-Site-Data value when it is
 there without quotes too

---
 httplint/field/parsers/clear_site_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 575c51e..81e62f5 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -25,10 +25,12 @@ origin."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._unquoted_values: list[str] = []
+        self._quoted_values: list[str] = []
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) >= 2 and field_value[0] == '"' and field_value[-1] == '"':
             value = field_value[1:-1]
+            self._quoted_values.append(value)
         else:
             value = field_value
             if value in self.KNOWN_VALUES:
@@ -51,7 +53,7 @@ origin."""
         if not self.value:
             add_note(CSD_EMPTY)
             return
-        valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
+        valid = [v for v in self._quoted_values if v in self.KNOWN_VALUES]
         if valid:
             add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(f"`{v}`" for v in valid)))
 
-- 
2.43.0


From adfda0a70e145a38eff31fa8a33873be3c808538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 108/112] fix: split policies in Content-Security-Policy at
 every comma

---
 httplint/field/parsers/content_security_policy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 05ed6df..380e038 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -40,6 +40,10 @@ sources of content that browsers are allowed to load on a page."""
         self._deferred_notes: List[NoteArgsType] = []
         self._parent_note: Optional[Note] = None
 
+    def split(self, field_value: str) -> List[str]:
+        # unlike in other lists, quotes don't enclose anything
+        return [policy for policy in (p.strip() for p in field_value.split(",")) if policy]
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Dict[str, str]:
         parsed_directives: Dict[str, str] = {}
         directives = [d.strip() for d in field_value.split(";")]
-- 
2.43.0


From 7a7c06691b3a63df8024c3478ea6f06e3c3531c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:29 +0000
Subject: [PATCH 109/112] fix: don't unescape backslashes in entity-tags

---
 httplint/field/parsers/etag.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/etag.py b/httplint/field/parsers/etag.py
index 8826ae4..95d561c 100644
--- a/httplint/field/parsers/etag.py
+++ b/httplint/field/parsers/etag.py
@@ -3,7 +3,6 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -23,9 +22,12 @@ The `ETag` header provides an opaque identifier for the representation."""
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[bool, str]:
-        if field_value[:2] == "W/":
-            return (True, unquote_string(field_value[2:]))
-        return (False, unquote_string(field_value))
+        weak = field_value[:2] == "W/"
+        tag = field_value[2:] if weak else field_value
+        # unlike in a quoted-string, a backslash doesn't escape anything
+        if len(tag) > 1 and tag[0] == tag[-1] == '"':
+            tag = tag[1:-1]
+        return (weak, tag)
 
 
 class ETagTest(FieldTest[AnyMessageLinterProtocol]):
-- 
2.43.0


From 9b935057caf346033305d47acc02fcbef3ebafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:45 +0000
Subject: [PATCH 110/112] fix: compare relative times by what they are relative
 to

---
 httplint/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httplint/util.py b/httplint/util.py
index f8be0f3..106ac7b 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -137,6 +137,14 @@ class RelativeTime:
     def __repr__(self) -> str:
         return f"RelativeTime({self.utime}, {self.now}, {self.show_sign})"
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, RelativeTime):
+            return NotImplemented
+        return (self.utime, self.now, self.show_sign) == (other.utime, other.now, other.show_sign)
+
+    def __hash__(self) -> int:
+        return hash((self.utime, self.now, self.show_sign))
+
 
 def relative_time(utime: float, now: float, show_sign: int = 1) -> Any:
     """
-- 
2.43.0


From f1114693358cc45ce03462f9f04884727c74a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:22 +0000
Subject: [PATCH 111/112] fix: name inner lists as such in Use-As-Dictionary

---
 httplint/field/parsers/use_as_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index 33ada0e..16627d3 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -59,7 +59,7 @@ as a compression dictionary for future requests."""
         # val is (value, params) or list of (value, params) for Inner List
         # Dictionary values are Items or Inner Lists.
         # If expected type is simple (str, int), we assume it's an Item.
-        if isinstance(val, list):
+        if isinstance(val[0], list):
             # Inner List found where simple Item expected
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-- 
2.43.0


From e9a049f2f45cf1ca165b46eaaac45c25d123faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:29 +0000
Subject: [PATCH 112/112] fix: keep each note on a line of its own in the
 command's output

---
 httplint/cli/http_parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index ad5c61b..0a49cda 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -1,3 +1,4 @@
+import re
 from argparse import Namespace
 from enum import Enum
 from typing import List, Optional, Tuple
@@ -17,6 +18,13 @@ class modes(Enum):
     RESPONSE = "response"
 
 
+def one_line(text: str) -> str:
+    """
+    Escape control characters, so that message data can't break the output into other lines.
+    """
+    return re.sub(r"[\x00-\x1f\x7f-\x9f]", lambda m: f"\\x{ord(m[0]):02x}", text)
+
+
 class HttpCliParser(HttpMessageHandler):
     default_state = States.WAITING
 
@@ -69,9 +77,9 @@ class HttpCliParser(HttpMessageHandler):
             if note.category != current_category:
                 print(f"\n### {translate(note.category.value)}\n")
                 current_category = note.category
-            print(f"* [{note.level.name}] {note.summary}")
+            print(f"* [{note.level.name}] {one_line(note.summary)}")
             for subnote in note.subnotes:
-                print(f"  * [{subnote.level.name}] {subnote.summary}")
+                print(f"  * [{subnote.level.name}] {one_line(subnote.summary)}")
         self._input_state = States.ERROR
 
     def input_error(self, err: HttpError, close: bool = True) -> None:
-- 
2.43.0

