From 95c2cd5d24fd2a290036389b0082a33f6074e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 001/114] fix: CONTENT_NOT_ALLOWED couldn't be rendered
 (missing template variable)

---
 httplint/message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..b8fc37c 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -145,7 +145,11 @@ class HttpMessageLinter:
                     )
         else:
             if self.content_length and not self.no_content:
-                self.notes.add("message", CONTENT_NOT_ALLOWED)
+                self.notes.add(
+                    "message",
+                    CONTENT_NOT_ALLOWED,
+                    message=translate(self.message_type).capitalize(),
+                )
         self.post_checks()
 
         for section in [self.headers, self.trailers]:
@@ -338,7 +342,7 @@ class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
     _summary = "%(message)s can not have content."
-    _note = """\
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From 2ecd8a733fe4b218f4f088d03caa2b636985c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 002/114] fix: unparseable URIs in Link, NEL,
 Reporting-Endpoints and Speculation-Rules raised

---
 httplint/field/parsers/link.py                | 5 ++++-
 httplint/field/parsers/nel.py                 | 7 +++++--
 httplint/field/parsers/reporting_endpoints.py | 7 +++++--
 httplint/field/parsers/speculation_rules.py   | 7 +++++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..bad55ee 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -58,7 +58,10 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                try:
+                    scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                except ValueError:  # not a usable URI
+                    continue
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..5e2e8ee 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -19,8 +19,11 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
+        try:
+            target = urljoin(base_uri, url)
+            scheme = urlsplit(target).scheme.lower()
+        except ValueError:  # not a usable URI
+            continue
         if scheme and scheme not in ("https", "wss"):
             continue
         valid.add(name)
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..4bc57b3 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -35,8 +35,11 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a usable URI
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..6ad868f 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -35,8 +35,11 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a usable URI
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
-- 
2.43.0


From 7de7f445115ebbea3359abab2d0f3662192180f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 003/114] fix: JSON fields with oversized numbers or deep
 nesting raised

---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..fbed0e6 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:  # includes oversized numbers and nesting
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From eca5c7f4c269d128b060f0f63026143207491572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 004/114] fix: invalid or huge Age and huge lifetimes broke the
 caching checks

---
 httplint/cache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..28bba7f 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -8,6 +8,7 @@ from httplint.util import relative_time
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
 HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+MAX_DELTA_SECONDS = 2147483648  # RFC 9111 Section 1.2.2: larger values are treated as this
 
 
 class ResponseCacheChecker:
@@ -21,7 +22,7 @@ class ResponseCacheChecker:
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
 
-        self.age_value = response.headers.parsed.get("age", 0)
+        self.age_value = min(response.headers.parsed.get("age") or 0, MAX_DELTA_SECONDS)
         self.date_value = response.headers.parsed.get("date", None)
         self.expires_value = response.headers.parsed.get("expires", None)
         self.lm_value = response.headers.parsed.get("last-modified", None)
@@ -159,12 +160,13 @@ class ResponseCacheChecker:
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
         if "max-age" in self.cc_dict:
-            self.freshness_lifetime_private = self.cc_dict["max-age"]
-            self.freshness_lifetime_shared = self.cc_dict["max-age"]
+            max_age = min(self.cc_dict["max-age"], MAX_DELTA_SECONDS)
+            self.freshness_lifetime_private = max_age
+            self.freshness_lifetime_shared = max_age
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
         if "s-maxage" in self.cc_dict:
-            self.freshness_lifetime_shared = self.cc_dict["s-maxage"]
+            self.freshness_lifetime_shared = min(self.cc_dict["s-maxage"], MAX_DELTA_SECONDS)
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
 
-- 
2.43.0


From f3c8f18cdfd9d577cb428d9d91e7e200a5fc941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 005/114] fix: very large relative times couldn't be rendered

---
 httplint/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..2127ab7 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -70,6 +70,9 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
+MAX_DELTA_SECS = timedelta.max.days * 86400
+
+
 class RelativeTime:
     def __init__(self, utime: float, now: float, show_sign: int = 1) -> None:
         self.utime = utime
@@ -78,7 +81,8 @@ class RelativeTime:
 
     def __str__(self) -> str:
         delta_secs = self.utime - self.now
-        delta = timedelta(seconds=delta_secs)
+        # stay within what timedelta can represent
+        delta = timedelta(seconds=max(min(delta_secs, MAX_DELTA_SECS), -MAX_DELTA_SECS))
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
         else:
-- 
2.43.0


From 923f4723e95c03dbafd04b534226e81cf308edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 006/114] fix: storability results disagreed with the
 storability note and RFC 9111 section 3

---
 httplint/cache.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 28bba7f..baa0443 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -88,6 +88,21 @@ class ResponseCacheChecker:
             if "public" in self.cc_dict:
                 self.notes.add("field-cache-control", STORE_PRIVATE_PUBLIC_CONFLICT)
 
+        # neither explicitly allowed nor heuristically cacheable (RFC 9111 Section 3)
+        elif not (
+            "public" in self.cc_dict
+            or "expires" in self._response.headers.parsed
+            or "max-age" in self.cc_dict
+            or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
+        ):
+            self.store_private = False
+            if "s-maxage" in self.cc_dict:
+                self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
+            else:
+                self.store_shared = False
+                self.notes.add("field-cache-control", STORE_UNSTORABLE)
+                return False
+
         # authorization
         elif self._request is not None and "authorization" in [
             k.lower() for k, v in self._request.headers.text
@@ -106,19 +121,7 @@ class ResponseCacheChecker:
                 self.store_shared = False
                 self.notes.add("field-cache-control", STORE_PRIVATE_AUTH)
         else:
-            if (
-                "public" in self.cc_dict
-                or "private" in self.cc_dict
-                or self.expires_value
-                or "max-age" in self.cc_dict
-                or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
-            ):
-                self.notes.add("field-cache-control", STORE_STORABLE)
-            elif "s-maxage" in self.cc_dict:
-                self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
-            else:
-                self.notes.add("field-cache-control", STORE_UNSTORABLE)
-                return False
+            self.notes.add("field-cache-control", STORE_STORABLE)
 
         return True
 
-- 
2.43.0


From 6439f632d05b2582dfd39019ab43443209f9a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 007/114] fix: heuristically cacheable status codes didn't
 match RFC 9110 section 15.1

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index baa0443..9de6c36 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -7,7 +7,7 @@ from httplint.util import relative_time
 
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
-HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+HEURISTIC_CACHEABLE_STATUS = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]
 MAX_DELTA_SECONDS = 2147483648  # RFC 9111 Section 1.2.2: larger values are treated as this
 
 
-- 
2.43.0


From 03d4c5c314fb061814347d941fc4ada08b35b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 008/114] fix: the last of repeated cache directives was used,
 rather than the first

---
 httplint/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 9de6c36..70a1909 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -29,7 +29,8 @@ class ResponseCacheChecker:
         self.etag_value = response.headers.parsed.get("etag", None)
         self.vary_value = response.headers.parsed.get("vary", set())
         self.cc_value = response.headers.parsed.get("cache-control", [])
-        self.cc_dict = dict(self.cc_value)
+        # the first occurrence of a directive is the one used (RFC 9111 Section 4.2.1)
+        self.cc_dict = dict(reversed(self.cc_value))
 
         if self._request is not None:
             self.request_time = self._request.start_time
-- 
2.43.0


From fc8ed43c9794bc1ef363dbf9bdc46044101c5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 009/114] fix: notes without detail text rendered catalog
 metadata when translated

---
 httplint/i18n.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..0d3a497 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -35,6 +35,8 @@ def translate(message: str) -> str:
     """
     Translate a message.
     """
+    if not message:
+        return message  # gettext would return the catalog's metadata
     translations = get_translations()
     if translations:
         return translations.gettext(message)
-- 
2.43.0


From 4eb42d764f581fcd58e96088d9eb346c0ab8f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 010/114] fix: integers with a leading plus, underscores or
 non-ASCII digits were accepted in Age, Cache-Control and
 Access-Control-Max-Age

---
 httplint/field/parsers/access_control_max_age.py |  3 ++-
 httplint/field/parsers/age.py                    |  3 ++-
 httplint/field/parsers/cache_control.py          |  4 ++--
 httplint/field/utils.py                          | 10 ++++++++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index bf87e72..d73eab7 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -1,6 +1,7 @@
 from httplint.field.cors import CORS_PREFLIGHT_ONLY
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_integer
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -24,7 +25,7 @@ request (as scoped by the `Access-Control-Allow-Methods` and
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            val = int(field_value)
+            val = parse_integer(field_value)
         except ValueError:
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
             raise
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..63d194c 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_integer
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -22,7 +23,7 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            age_value = int(field_value)
+            age_value = parse_integer(field_value)
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..017bf85 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -2,7 +2,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
+from httplint.field.utils import parse_integer, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -116,7 +116,7 @@ ignoring it there."""
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
             else:
                 try:
-                    val = value_func(directive_val)
+                    val = (parse_integer if value_func is int else value_func)(directive_val)
                     if isinstance(val, int) and val > 2147483648:
                         add_note(CC_MAX_AGE_TOO_LARGE, directive=directive_name)
                     return (directive_name, val)
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..1a8ffd5 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -126,6 +126,16 @@ def parse_http_date(
     return calendar.timegm(date_tuple)
 
 
+def parse_integer(value: str) -> int:
+    """
+    Parse an ASCII integer, without the leniency of int() (which accepts
+    a leading "+", underscores, whitespace and non-ASCII digits).
+    """
+    if not re.match(r"^-?[0-9]+\Z", value):
+        raise ValueError
+    return int(value)
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From 63734d9d8a0ff17a20403f4665e842c0b4491ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 011/114] fix: Content-Length accepted values that aren't just
 digits

---
 httplint/field/parsers/content_length.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..6bfdf21 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -1,3 +1,5 @@
+import re
+
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -26,6 +28,8 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
+            if not re.match(r"^[0-9]+\Z", field_value):
+                raise ValueError
             value = int(field_value)
         except ValueError:
             add_note(CL_BAD_SYNTAX)
-- 
2.43.0


From 1e13acd70421f675abd87fdff962a5b52dfd86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 012/114] fix: non-ASCII digits in Range, Content-Range and
 cookie Max-Age silently dropped the field

---
 httplint/field/parsers/content_range.py | 6 +++---
 httplint/field/parsers/range.py         | 4 ++--
 httplint/field/parsers/set_cookie.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..ec9a12c 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -92,7 +92,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        if not (len_str.isascii() and len_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
         return int(len_str)
@@ -108,10 +108,10 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
+        if not (first_str.isascii() and first_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=first_str)
             return None, None
-        if not last_str.isdigit():
+        if not (last_str.isascii() and last_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=last_str)
             return None, None
 
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..f4ec181 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -52,7 +52,7 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                if not (first_str.isascii() and first_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
@@ -62,7 +62,7 @@ parts of the representation that are specified."""
                 first_byte_pos = int(first_str)
 
             if last_str:
-                if not last_str.isdigit():
+                if not (last_str.isascii() and last_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..736fcdd 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -199,7 +199,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        if not (attribute_value.isascii() and attribute_value.isdigit()):
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
-- 
2.43.0


From b7bda27d05eaf1529515f0b0d577e8486e9fb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 013/114] fix: Strict-Transport-Security rejected quoted
 max-age and accepted non-digits

---
 httplint/field/parsers/strict_transport_security.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..6a89d5f 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
@@ -54,8 +55,10 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
             if name == "max-age":
                 try:
-                    if value is not None:
-                        parsed["max-age"] = int(value)
+                    # one or more digits, possibly as a quoted-string (RFC 6797 Section 6.1.1)
+                    digits = re.match(r'^(?:([0-9]+)|"([0-9]+)")\Z', value or "")
+                    if digits:
+                        parsed["max-age"] = int(digits.group(1) or digits.group(2))
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
-- 
2.43.0


From 4cd58fa5a1a40df42cc60420e7b5322d78792a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 014/114] fix: status codes with signs, spaces or underscores
 were taken as numeric

---
 httplint/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index b8fc37c..6d9dc4a 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -290,9 +290,9 @@ class HttpResponseLinter(HttpMessageLinter):
     ) -> None:
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
-        try:
+        if re.match(r"^[0-9]{1,9}\Z", self.status_code_str):
             self.status_code = int(self.status_code_str)
-        except ValueError:
+        else:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
         if status_phrase:
             try:
-- 
2.43.0


From 44a9646765990f715cec06c3f1a903e48cd2bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 015/114] fix: note offsets drifted and sizes weren't checked
 after a rejected field

---
 httplint/field/section.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..99346fa 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -66,9 +66,8 @@ class FieldSection:
                 add_note,
                 field_name=handler.canonical_name,
             )
-            if not handler.pre_check(field_add_note):
-                continue
-            handler.handle_input(str_value, field_add_note, offset)
+            if handler.pre_check(field_add_note):
+                handler.handle_input(str_value, field_add_note, offset)
 
             if field_size > self.max_field_size:
                 add_note(
-- 
2.43.0


From ab2b117fde177eb085786b1922b369486a74b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 016/114] fix: field aliases with hyphens never matched, and
 underscores were taken as hyphens

---
 httplint/field/finder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..493a9ef 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -85,7 +85,14 @@ class HttpFieldFinder:
         """
         Return a tokenised, python-friendly name for a field.
         """
-        return field_name.replace("-", "_").lower()
+        norm_name = field_name.lower()
+        token = norm_name.replace("-", "_")
+        for name in (norm_name, token):
+            if name in HttpFieldFinder.field_aliases:
+                return HttpFieldFinder.field_aliases[name].replace("-", "_")
+        if "_" in norm_name:
+            return ""  # an underscore isn't a hyphen; it's a different field
+        return token
 
 
 class UnknownHttpField(HttpField[Any]):
-- 
2.43.0


From 6a551f6715a7a7d4084b97ecb622a1c59db15a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 017/114] fix: a field name with surrounding whitespace
 displaced the real field's value

---
 httplint/field/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/__init__.py b/httplint/field/__init__.py
index 0f2afab..47a18cd 100644
--- a/httplint/field/__init__.py
+++ b/httplint/field/__init__.py
@@ -98,7 +98,7 @@ class HttpField(ABC, Generic[TMessage]):
             cls._valid_in_responses = True
 
     def __init__(self, wire_name: str, message: TMessage) -> None:
-        self.wire_name = wire_name.strip()
+        self.wire_name = wire_name
         self.message = message
         self.norm_name = self.wire_name.lower()
         if not hasattr(self, "canonical_name"):
-- 
2.43.0


From 170424ba208dad65a0cb8b8f33e727f09e3906b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 018/114] fix: findings relating Content-Length, Last-Modified
 and Date to other fields depended on field order

---
 httplint/field/parsers/content_length.py | 2 +-
 httplint/field/parsers/date.py           | 2 +-
 httplint/field/parsers/last_modified.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 6bfdf21..58d61d9 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -38,7 +38,7 @@ store the response (since they can't be sure if they have the whole response).""
             add_note(CL_TOO_LARGE)
         return value
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if "transfer-encoding" in self.message.headers.parsed:
             add_note(CL_AND_TE_PRESENT)
 
diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..751280d 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if self.message.message_type == "response" and self.message.start_time and self.value:
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 9ccce42..6192a2b 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -24,7 +24,7 @@ representation was last modified."""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
         if lm_value:
-- 
2.43.0


From ee07d2505562fb52154216f6f31cbffb80e12ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 019/114] fix: order of Cache-Control, Transfer-Encoding and
 Content-Language findings depended on the hash seed

---
 httplint/field/parsers/cache_control.py     | 4 ++--
 httplint/field/parsers/content_language.py  | 6 +++---
 httplint/field/parsers/transfer_encoding.py | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 017bf85..2880d97 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -139,7 +139,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = [d for d in potential_conflicts if d in cc_list]
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
@@ -148,7 +148,7 @@ ignoring it there."""
                         )
                         break  # only show the first conflict
 
-        for directive in set(cc_list):
+        for directive in dict.fromkeys(cc_list):
             # wrong message type
             if (
                 self.message.message_type == "request"
diff --git a/httplint/field/parsers/content_language.py b/httplint/field/parsers/content_language.py
index 6dff857..afb4bd3 100644
--- a/httplint/field/parsers/content_language.py
+++ b/httplint/field/parsers/content_language.py
@@ -26,10 +26,10 @@ messsage. Note that this might not convey all of the languages used."""
         if self.value:
             if len(self.value) != len(set(self.value)):
                 seen = set()
-                duplicates = set()
+                duplicates = []
                 for lang in self.value:
-                    if lang in seen:
-                        duplicates.add(lang)
+                    if lang in seen and lang not in duplicates:
+                        duplicates.append(lang)
                     seen.add(lang)
                 for lang in duplicates:
                     add_note(CONTENT_LANGUAGE_DUP, lang=lang)
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index f4f1366..d9eb3ee 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -46,7 +46,9 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         return coding, param_dict
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
+        unwanted = list(
+            dict.fromkeys(c[0] for c in self.value if c[0] not in ["chunked", "identity"])
+        )
         if unwanted:
             # check to see if the client asked for it
             if (
@@ -56,7 +58,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             ):
                 request = response.request
                 te = [t[0] for t in request.headers.parsed.get("te", [])]
-                unwanted = {c for c in unwanted if c not in te}
+                unwanted = [c for c in unwanted if c not in te]
 
         if unwanted:
             for coding in unwanted:
-- 
2.43.0


From ba2efde78c46fa740a4a960568b5ab5fb5858194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 020/114] fix: charset checks raised on odd codecs and
 misreported characters cut off by the sample size

---
 httplint/charset.py | 29 +++++++++++++++++++++++++----
 httplint/message.py |  2 +-
 httplint/types.py   |  1 +
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..9d229c2 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -28,10 +28,29 @@ def _requires_utf8(media_type: str) -> bool:
 def _canonical(name: str) -> Optional[str]:
     try:
         return codecs.lookup(name).name
-    except (LookupError, TypeError):
+    except (LookupError, TypeError, ValueError):
         return None
 
 
+def _trim_partial(linter: LinterProtocol, charset: str) -> Optional[bytes]:
+    """
+    If the sample stops short of the end of the content, return it without the character that was
+    cut off. Return None if the sample can't be decoded regardless.
+    """
+    sample = linter.content_sample
+    if linter.decoded.length <= len(sample):
+        return None
+    try:
+        decoder = codecs.getincrementaldecoder(charset)("strict")
+        decoder.decode(sample, final=False)
+        pending = decoder.getstate()[0]
+        whole = sample[: len(sample) - len(pending)]
+        whole.decode(charset, errors="strict")
+    except (UnicodeError, LookupError):
+        return None
+    return whole
+
+
 def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-return-statements
     """
     Verify that the content's character encoding matches what was declared
@@ -84,8 +103,10 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
-    except (UnicodeDecodeError, LookupError):
-        decodes = False
+    except (UnicodeError, LookupError):
+        whole = _trim_partial(linter, effective_charset_raw)
+        decodes = whole is not None
+        sample = whole or sample
 
     detection = chardet.detect(sample)
     detected_raw = detection.get("encoding")
@@ -134,7 +155,7 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
 
diff --git a/httplint/message.py b/httplint/message.py
index 6d9dc4a..130357a 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -108,7 +108,7 @@ class HttpMessageLinter:
             try:
                 codecs.lookup(enc)
                 self.character_encoding = enc
-            except (LookupError, TypeError):
+            except (LookupError, TypeError, ValueError):
                 pass
 
     def feed_content(self, chunk: bytes) -> None:
diff --git a/httplint/types.py b/httplint/types.py
index ea86437..9c30354 100644
--- a/httplint/types.py
+++ b/httplint/types.py
@@ -99,6 +99,7 @@ class LinterProtocol(Protocol):
     content_length: int
     content_hash: Optional[bytes]
     content_sample: bytes
+    decoded: Any
     complete: bool
 
     @property
-- 
2.43.0


From 5600d5c94c23288b9add5df1a6e588f166fb57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 021/114] fix: the command line's -i option made every run fail

---
 httplint/cli/http_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index e9bbb5e..67ce06c 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -22,7 +22,7 @@ class HttpCliParser(HttpMessageHandler):
 
     def __init__(self, args: Namespace, start_time: Optional[float] = None) -> None:
         self.start_time = start_time
-        self.mode = args.mode
+        self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
         HttpMessageHandler.__init__(self)
 
-- 
2.43.0


From 16131dbcf38ee778a6d309350c71cc2599aa8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 022/114] fix: the command line corrupted content that isn't
 UTF-8

---
 httplint/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/__init__.py b/httplint/cli/__init__.py
index f0a01c0..8eebd20 100644
--- a/httplint/cli/__init__.py
+++ b/httplint/cli/__init__.py
@@ -11,7 +11,7 @@ def main() -> None:
     with set_locale(args.locale):
         start_time = time.time() if args.now else None
         parser = HttpCliParser(args, start_time)
-        parser.handle_input(sys.stdin.read().encode("utf-8", "replace"))
+        parser.handle_input(sys.stdin.buffer.read())
 
 
 def getargs() -> Namespace:
-- 
2.43.0


From 0ec91b64e9ba71c5dbc001c7664e1b6cd4c18e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 023/114] fix: message data could act as Markdown or HTML in a
 note's detail

---
 httplint/field/parsers/cache_status.py        |  8 ++--
 httplint/field/parsers/clear_site_data.py     |  4 +-
 .../field/parsers/content_security_policy.py  |  4 +-
 .../content_security_policy_report_only.py    |  5 +-
 ...ross_origin_embedder_policy_report_only.py |  6 ++-
 .../cross_origin_opener_policy_report_only.py |  6 ++-
 httplint/field/parsers/link.py                |  4 +-
 httplint/field/parsers/nel.py                 |  6 ++-
 httplint/field/parsers/proxy_status.py        |  8 ++--
 httplint/field/parsers/set_cookie.py          |  4 +-
 httplint/field/structured_field.py            |  6 +--
 httplint/field/utils.py                       | 15 +++---
 httplint/note.py                              | 47 +++++++++++--------
 httplint/util.py                              |  8 ++--
 14 files changed, 75 insertions(+), 56 deletions(-)

diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..8d48f9d 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -41,10 +41,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{markdown_code(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -88,7 +88,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         "desc": "The request was collapsed with another request.",
     },
     "key": {"type": str, "desc": "The cache key was `%s`."},
-    "detail": {"type": (Token, str), "desc": "Additional details: %s"},
+    "detail": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 4f49f07..575c51e 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -1,7 +1,7 @@
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.syntax.rfc9110 import list_rule, quoted_string
 from httplint.types import (
     AddNoteMethodType,
@@ -53,7 +53,7 @@ origin."""
             return
         valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
         if valid:
-            add_note(CSD_PRESENT, values=", ".join(f"`{v}`" for v in valid))
+            add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(f"`{v}`" for v in valid)))
 
 
 class CSD_PRESENT(Note):
diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..7b8da06 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -2,7 +2,7 @@ from typing import Dict, List
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -175,7 +175,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
+        safe = [markdown_code(item) for item in items]
         return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
 
 
diff --git a/httplint/field/parsers/content_security_policy_report_only.py b/httplint/field/parsers/content_security_policy_report_only.py
index a602c00..417dcf4 100644
--- a/httplint/field/parsers/content_security_policy_report_only.py
+++ b/httplint/field/parsers/content_security_policy_report_only.py
@@ -4,6 +4,7 @@ from httplint.field.parsers.content_security_policy import (
     content_security_policy,
 )
 from httplint.field.tests import FieldTest
+from httplint.note import MarkdownSafe
 from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
@@ -18,7 +19,9 @@ the effects of a content security policy without enforcing it."""
     reference = "https://www.w3.org/TR/CSP3/"
     deprecated = False
     report_only_string = " for reporting only"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
 
 class CSPROTest(FieldTest[ResponseLinterProtocol]):
diff --git a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
index 4663091..204dfd2 100644
--- a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_embedder_policy import (
     cross_origin_embedder_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Embedder-Policy-Report-Only` header field allows a document to
 potential violations of its Cross-Origin Embedder Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coep"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-embedder-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/cross_origin_opener_policy_report_only.py b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
index 5d09190..32c4908 100644
--- a/httplint/field/parsers/cross_origin_opener_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_opener_policy import (
     cross_origin_opener_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Opener-Policy-Report-Only` header field allows a document to r
 potential violations of its Cross-Origin Opener Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coop"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-opener-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index bad55ee..566b60f 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -6,7 +6,7 @@ from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import PARAM_REPEATS, parse_params
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -75,7 +75,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
+                safe = [markdown_code(t) for t in targets]
                 lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
             add_note(
                 LINK_RESOURCE_HINTS,
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 5e2e8ee..47e1954 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -4,7 +4,7 @@ from urllib.parse import urljoin, urlsplit
 from httplint.field.json_field import BAD_JSON, JsonField
 from httplint.field.parsers.reporting_endpoints import ENDPOINT_NOT_SECURE
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -135,7 +135,9 @@ It allows websites to declare that they want to receive reports about network er
         if resolved_endpoints:
             add_note(
                 NEL_CONFIGURED,
-                endpoints=", ".join(f"`{e}`" for e in resolved_endpoints),
+                endpoints=MarkdownSafe(
+                    ", ".join(f"`{markdown_code(e)}`" for e in resolved_endpoints)
+                ),
             )
 
 
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..56e0a34 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -39,10 +39,10 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{markdown_code(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -106,7 +106,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
     "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
-    "details": {"type": (Token, str), "desc": "Additional details: %s"},
+    "details": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 736fcdd..34b5e7e 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -6,7 +6,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
     DeferredNoteType,
@@ -61,7 +61,7 @@ requests to the server."""
             add_note(
                 SET_COOKIE_HARDENED,
                 cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
+                    ", ".join(f"`{markdown_code(n)}`" for n in hardened)
                 ),
             )
 
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..c56c5e9 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,7 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
@@ -53,9 +53,9 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 bad_char_index = why.position
                 context_start = max(0, bad_char_index - CONTEXT_CHARS)
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
-                context_str = combined_value[context_start:context_end]
+                context_str = re.sub(r"\s", " ", combined_value[context_start:context_end])
                 pointer = " " * (bad_char_index - context_start) + "^"
-                context = f"\n\n    {context_str}\n    {pointer}"
+                context = MarkdownSafe(f"\n\n    {context_str}\n    {pointer}")
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 1a8ffd5..f79f2ec 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -6,7 +6,7 @@ from urllib.parse import unquote as urlunquote
 
 from http_sf import Token
 
-from httplint.note import Note, categories, levels
+from httplint.note import Note, categories, levels, markdown_code
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 
@@ -249,9 +249,10 @@ def check_sf_params(
     """
     param_list = []
     for param_name, param_value in params.items():
+        safe_value = markdown_code(param_value)
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* `{param_name}`: `{safe_value}`")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and not isinstance(param_value, expected_type):
@@ -260,7 +261,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{safe_value}`")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -270,7 +271,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{safe_value}`")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -278,17 +279,17 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{safe_value}`")
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
                 else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                    param_list.append(f"* {known_params[param_name]['desc'] % safe_value}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{safe_value}`")
 
     return "\n".join(param_list)
 
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..7441e23 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -1,12 +1,13 @@
 from __future__ import annotations
 
+import re
 from collections import UserList
 from enum import Enum
 from threading import local
 from typing import Any, Dict, MutableMapping, Optional, Type
 
 from markdown import Markdown
-from markupsafe import Markup
+from markupsafe import Markup, escape
 
 from httplint.i18n import L_, translate
 from httplint.types import NoteListType, VariableType
@@ -23,14 +24,21 @@ class MarkdownSafe(str):
     """
     Marker for var values that are pre-composed Markdown.
 
-    Note._get_detail strips backticks from interpolated var values so
-    wire-supplied data cannot close a code span and inject raw HTML.
-    Wrap a value in MarkdownSafe(...) when the backticks (or other
-    Markdown syntax) in the value were produced by library code and
-    must survive interpolation intact.
+    Note._get_detail escapes interpolated var values so wire-supplied data
+    cannot act as Markdown or HTML. Wrap a value in MarkdownSafe(...) when
+    it contains Markdown syntax produced by library code that needs to be
+    rendered, passing any wire-supplied data in it through markdown_code.
     """
 
 
+def markdown_code(value: Any) -> str:
+    """
+    Make wire-supplied data safe for use inside a Markdown code span or on
+    one line of an indented code block.
+    """
+    return re.sub(r"[\s`]", lambda m: "" if m[0] == "`" else " ", str(value)) or " "
+
+
 def _get_markdown() -> Markdown:
     """Return a per-thread Markdown instance, creating it on first use."""
     if not hasattr(_md_local, "md"):
@@ -138,25 +146,26 @@ class Note:
         Show the HTML text for the message as a Unicode string.
 
         The resulting string is already HTML-encoded.  Variable values are
-        passed as plain strings; the Markdown renderer handles escaping.
-        Template authors must wrap user-controlled vars in backtick code
-        spans (or indented code blocks) so Markdown escapes them correctly.
+        passed as plain strings; they are kept out of the Markdown renderer
+        by rendering a token in their place, which is then replaced with the
+        HTML-escaped value. So, nothing in them can be taken for Markdown or
+        HTML.
 
-        As defense-in-depth, backticks are stripped from each interpolated
-        value so a wire-supplied backtick cannot close the surrounding
-        code span and let the rest of the value render as raw HTML.
         Values that are pre-composed Markdown produced by library code
         (e.g. a joined list of code spans) should be wrapped in
-        MarkdownSafe to opt out of this stripping.
+        MarkdownSafe to opt out of this.
         """
-        def _coerce(val: Any) -> str:
+        tokens: Dict[str, str] = {}
+        safe_vars: Dict[str, str] = {}
+        for key, val in self.vars.items():
             if isinstance(val, MarkdownSafe):
-                return str(val)
-            return str(val).replace("`", "")
-
-        safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
+                safe_vars[key] = str(val)
+            else:
+                safe_vars[key] = f"\ue000{len(tokens)}\ue001"
+                tokens[safe_vars[key]] = str(escape(str(val)))
+        html = _get_markdown().reset().convert(translate(self._text) % safe_vars)
         return Markup(
-            _get_markdown().reset().convert(translate(self._text) % safe_vars)
+            re.sub("\ue000[0-9]+\ue001", lambda m: tokens.get(m[0], m[0]), html)
         )
 
     summary = property(_get_summary)
diff --git a/httplint/util.py b/httplint/util.py
index 2127ab7..0d6c99b 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -8,7 +8,7 @@ from urllib.parse import quote as urlquote
 from urllib.parse import urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
-from httplint.note import MarkdownSafe
+from httplint.note import MarkdownSafe, markdown_code
 
 
 def iri_to_uri(iri: str) -> str:
@@ -62,11 +62,11 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     """
     Format a list of strings into Markdown.
 
-    Each item has backticks stripped so wire-supplied content cannot
-    close the surrounding `markup` span. The result is MarkdownSafe so
+    Each item is made safe so wire-supplied content cannot close the
+    surrounding `markup` span. The result is MarkdownSafe so
     Note._get_detail preserves the structural markup on interpolation.
     """
-    safe = [i.replace("`", "") for i in inlist]
+    safe = [markdown_code(i) for i in inlist]
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
-- 
2.43.0


From 61a8274880acf1996b620e2db9c92f26f7f1b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 024/114] fix: false booleans in Cache-Status raised

---
 httplint/field/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index f79f2ec..6939fba 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -283,6 +283,8 @@ def check_sf_params(
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
+                elif param_value is False:
+                    param_list.append(f"* `{param_name}`: `{safe_value}`")
                 else:
                     param_list.append(f"* {known_params[param_name]['desc'] % safe_value}")
             else:
-- 
2.43.0


From a434c6e0fafbc4c45567aeab861c359bdc7b90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 025/114] fix: splitting a list field could take cubic time,
 and dropped text before an unpaired quote

---
 httplint/field/utils.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 6939fba..c4587fb 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -170,18 +170,21 @@ def split_string(instr: str, item: str, split: str) -> List[str]:
 
 def split_list_field(field_value: str) -> List[str]:
     "Split a field field value on commas. needs to conform to the #rule."
-    return [
-        stripped
-        for stripped in (
-            f.strip()
-            for f in re.findall(
-                r'((?:[^",]|%s)+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
-                field_value,
-                RE_FLAGS,
-            )
-        )
-        if stripped
-    ]
+    members = []
+    start = pos = 0
+    while pos < len(field_value):
+        char = field_value[pos]
+        if char == ",":
+            members.append(field_value[start:pos])
+            start = pos + 1
+        elif char == '"':
+            quoted = re.compile(rfc9110.quoted_string, RE_FLAGS).match(field_value, pos)
+            if quoted:
+                pos = quoted.end()
+                continue
+        pos += 1
+    members.append(field_value[start:])
+    return [stripped for stripped in (member.strip() for member in members) if stripped]
 
 
 def parse_params(
-- 
2.43.0


From bc29c1e9ab2de850a97cb18742328e2336f12d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 026/114] fix: checking From could take exponential time

---
 httplint/syntax/rfc5322.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..551176d 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -27,7 +27,7 @@ ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
@@ -39,13 +39,14 @@ comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string_content = rf"(?: \" (?: {FWS}? {qcontent} )* {FWS}? \" )"
+quoted_string = rf"(?: {CFWS}? {quoted_string_content} {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -71,7 +72,9 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# Written so that a run of atext can only match one way (to avoid backtracking)
+
+phrase = rf"(?: {CFWS}? (?: (?: {atext} | {quoted_string_content} ) {CFWS}? ){{1,}} )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From 5c0f3f28a8ef4589d73b883a7a571f48a12549cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 027/114] fix: comments in From couldn't contain lower-case
 letters

---
 httplint/syntax/rfc5322.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 551176d..388a436 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,7 +23,7 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-- 
2.43.0


From e48b044f3f35d80682e17297087ea6baff5f52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 028/114] fix: NEL took JSON booleans as numbers

---
 httplint/field/parsers/nel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index 47e1954..b4d71e1 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -69,7 +69,7 @@ It allows websites to declare that they want to receive reports about network er
             if "max_age" not in policy:
                 add_note(NEL_MISSING_KEY, key="max_age")
                 clean = False
-            elif not isinstance(policy["max_age"], int):
+            elif isinstance(policy["max_age"], bool) or not isinstance(policy["max_age"], int):
                 add_note(NEL_BAD_TYPE, key="max_age", expected="integer")
                 clean = False
 
@@ -81,7 +81,9 @@ It allows websites to declare that they want to receive reports about network er
                 clean = False
 
             if "success_fraction" in policy:
-                if not isinstance(policy["success_fraction"], (int, float)):
+                if isinstance(policy["success_fraction"], bool) or not isinstance(
+                    policy["success_fraction"], (int, float)
+                ):
                     add_note(NEL_BAD_TYPE, key="success_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["success_fraction"] <= 1.0:
@@ -93,7 +95,9 @@ It allows websites to declare that they want to receive reports about network er
                     clean = False
 
             if "failure_fraction" in policy:
-                if not isinstance(policy["failure_fraction"], (int, float)):
+                if isinstance(policy["failure_fraction"], bool) or not isinstance(
+                    policy["failure_fraction"], (int, float)
+                ):
                     add_note(NEL_BAD_TYPE, key="failure_fraction", expected="number")
                     clean = False
                 elif not 0.0 <= policy["failure_fraction"] <= 1.0:
-- 
2.43.0


From a8ce11b8a189436096923c2e5a2ac2356b18d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 029/114] fix: CDN-Cache-Control took missing numbers as
 integers

---
 httplint/field/parsers/cdn_cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cdn_cache_control.py b/httplint/field/parsers/cdn_cache_control.py
index fe58dab..2629b87 100644
--- a/httplint/field/parsers/cdn_cache_control.py
+++ b/httplint/field/parsers/cdn_cache_control.py
@@ -46,7 +46,7 @@ The `CDN-Cache-Control` header field targets cache directives to Content Deliver
                         )
                 elif value_func is int:
                     # Expecting integer
-                    if not isinstance(directive_val, int):
+                    if isinstance(directive_val, bool) or not isinstance(directive_val, int):
                         add_note(
                             BAD_CDN_CC_TYPE,
                             bad_directive=directive_name,
-- 
2.43.0


From 0a926ad2cb0cd01031f8955e5b5bbc7fed070036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 030/114] fix: Report-To took JSON booleans as numbers

---
 httplint/field/parsers/report_to.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/report_to.py b/httplint/field/parsers/report_to.py
index ac38996..e5decc6 100644
--- a/httplint/field/parsers/report_to.py
+++ b/httplint/field/parsers/report_to.py
@@ -25,7 +25,7 @@ It has been replaced by the Reporting-Endpoints header field."""
             # max_age is required
             if "max_age" not in group:
                 add_note(REPORT_TO_MISSING_KEY, key="max_age")
-            elif not isinstance(group["max_age"], int):
+            elif isinstance(group["max_age"], bool) or not isinstance(group["max_age"], int):
                 add_note(REPORT_TO_BAD_TYPE, key="max_age", expected="integer")
 
             # endpoints is required
-- 
2.43.0


From 7cb56c84689abc0fe44a2b6c3ae9f398faa01e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 031/114] fix: checking parameters could take exponential time

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..8ec54de 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,7 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+parameters = rf"(?: {OWS} ; (?: {OWS} {parameter} )? )*"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
-- 
2.43.0


From cabd593eec7051e4c7f851220f8b2dad944ecf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 032/114] fix: empty directives in Strict-Transport-Security
 were reported as duplicates

---
 httplint/field/parsers/strict_transport_security.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 6a89d5f..2218673 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -21,9 +21,7 @@ class strict_transport_security(SingletonField[ResponseLinterProtocol]):
 The `Strict-Transport-Security` response header (often abbreviated as HSTS) lets a web site tell
 browsers that it should only be communicated with using HTTPS, instead of using HTTP."""
     reference = "https://www.rfc-editor.org/rfc/rfc6797"
-    syntax = (
-        rf"(?: {sts_dir} (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir} )* (?: {rfc9110.OWS} ;)? )"
-    )
+    syntax = rf"(?: {sts_dir}? (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {sts_dir} )? )* )"
     category = categories.SECURITY
     deprecated = False
 
@@ -44,6 +42,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
         seen_directives = set()
         for directive in directives:
+            if not directive:  # RFC 6797 Section 6.1 allows empty directives
+                continue
             parts = directive.split("=", 1)
             name = parts[0].strip().lower()
             value = parts[1].strip() if len(parts) > 1 else None
-- 
2.43.0


From c54e43558a083adf7c8d0cbf0079e8f4e410f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 033/114] fix: checking Content-Security-Policy could take
 exponential time

---
 httplint/field/parsers/content_security_policy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 7b8da06..6e9c244 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -14,7 +14,10 @@ from httplint.types import (
 # directive-name = 1*( ALPHA / DIGIT / "-" )
 DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 # directive-value = *( WSP / <VCHAR except ";" and ","> )
-DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
+# (without surrounding WSP, so that it can only match one way)
+DIRECTIVE_VALUE = (
+    r"[\x21-\x2B\x2D-\x3A\x3C-\x7E]+ (?: [ \t]+ [\x21-\x2B\x2D-\x3A\x3C-\x7E]+ )*"
+)
 
 
 csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
@@ -27,7 +30,10 @@ The `Content-Security-Policy` response header allows web site administrators to
 sources of content that browsers are allowed to load on a page."""
     reference = "https://www.w3.org/TR/CSP3/"
 
-    syntax = rf"(?: {csp_directive} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {csp_directive} )? )* )"
+    syntax = (
+        rf"(?: {csp_directive} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {csp_directive} )? )*"
+        rf" {rfc9110.OWS} )"
+    )
     category = categories.SECURITY
     deprecated = False
     report_only_string = ""
-- 
2.43.0


From 8ea42cb1b4e3cefb30844f3aab268b4014119545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 034/114] fix: checking Range could take exponential time

---
 httplint/syntax/rfc9110.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8ec54de..a62b2a0 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -518,7 +518,9 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# (other-range includes the others; listing them too causes exponential backtracking)
+
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 57c859696c96b96143ebf7e009a73e7b96279bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 035/114] fix: Accept-Language's invalid q value note showed a
 placeholder

---
 httplint/field/parsers/accept_language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c86f6dd..52480f7 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -67,7 +67,7 @@ preferred in the response."""
 class BAD_Q_VALUE(Note):
     category = categories.CONNEG
     level = levels.WARN
-    _summary = "The q value on '{language}' is invalid."
+    _summary = "The q value on '%(language)s' is invalid."
     _text = """\
 The `q` parameter must be a decimal number between 0 and 1, with at most 3 digits of precision."""
 
-- 
2.43.0


From ac4628125892a4ab3550ed3d44f3040a4d2eeafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 036/114] fix: whitespace before a parameter became part of
 codings and languages

---
 httplint/field/parsers/accept_encoding.py   | 2 +-
 httplint/field/parsers/accept_language.py   | 2 +-
 httplint/field/parsers/te.py                | 2 +-
 httplint/field/parsers/transfer_encoding.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index e4dbb2a..4cdbc6a 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -27,7 +27,7 @@ acceptable in the response."""
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.rstrip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 52480f7..745528e 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -36,7 +36,7 @@ preferred in the response."""
         except ValueError:
             language, param_str = field_value, ""
 
-        language = language.lower()
+        language = language.rstrip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
 
         q_val: Optional[float] = None
diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index 830a2a0..f6cf9e3 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -26,7 +26,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.rstrip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index d9eb3ee..2454bff 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -39,7 +39,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             coding, param_str = field_value.split(";", 1)
         except ValueError:
             coding, param_str = field_value, ""
-        coding = coding.lower()
+        coding = coding.rstrip().lower()
         param_dict = parse_params(param_str, add_note, True)
         if param_dict:
             add_note(TRANSFER_CODING_PARAM)
-- 
2.43.0


From 8a9dd199eb7015070e985e822fd736a05d7459b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 037/114] fix: q values like 1e-1 were accepted in Accept and
 Accept-Language

---
 httplint/field/parsers/accept.py          | 5 +++--
 httplint/field/parsers/accept_language.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index fd2c048..0f75c93 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -1,10 +1,11 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_media_type
+from httplint.field.utils import RE_FLAGS, parse_media_type
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -48,7 +49,7 @@ acceptable in responses."""
                 q_str = param_dict.pop("q")
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:  # 0.123
+                if not re.match(rf"^{rfc9110.qvalue}\Z", q_str, RE_FLAGS):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 745528e..f5eba97 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -1,10 +1,11 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import RE_FLAGS, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -45,7 +46,7 @@ preferred in the response."""
             try:
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:
+                if not re.match(rf"^{rfc9110.qvalue}\Z", q_str, RE_FLAGS):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
-- 
2.43.0


From 82c594d1407f9f39d2a01066628c4fbf307197f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 038/114] fix: Accept-CH's fields were compared
 case-sensitively with Vary's

---
 httplint/field/parsers/accept_ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index 806ba1a..f785fe0 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,7 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if field_name not in vary_header:
+                if str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From 59b55a6701eb1638d86dc4b165258a225b8e288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 039/114] fix: a policy's missing reporting endpoint was
 reported on the other Content-Security-Policy field

---
 httplint/field/parsers/content_security_policy.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 6e9c244..49ec94e 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -1,4 +1,4 @@
-from typing import Dict, List
+from typing import Dict, List, Optional
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
@@ -42,6 +42,7 @@ sources of content that browsers are allowed to load on a page."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._deferred_notes: List[NoteArgsType] = []
+        self._parent_note: Optional[Note] = None
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Dict[str, str]:
         parsed_directives: Dict[str, str] = {}
@@ -75,7 +76,7 @@ sources of content that browsers are allowed to load on a page."""
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if self.value:
-            parent = add_note(
+            parent = self._parent_note = add_note(
                 CONTENT_SECURITY_POLICY,
                 report_only=self.report_only_string,
                 report_only_text=self.report_only_text,
@@ -159,12 +160,7 @@ sources of content that browsers are allowed to load on a page."""
                 if value in known_endpoints:
                     continue
 
-                # Find the parent note
-                parent_note = None
-                for note in self.message.notes:
-                    if isinstance(note, CONTENT_SECURITY_POLICY):
-                        parent_note = note
-                        break
+                parent_note = self._parent_note
 
                 if parent_note:
                     parent_note.add_child(
-- 
2.43.0


From 0e5a7606e2657cc8616cc25d011d2d664435ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 040/114] fix: Content-Security-Policy source expressions are
 case-insensitive

---
 httplint/field/parsers/content_security_policy.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 49ec94e..8f37895 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -102,15 +102,14 @@ sources of content that browsers are allowed to load on a page."""
                     if "*" in value.split():
                         wide_open_directives.append(name)
 
-                if "'unsafe-inline'" in value:
+                # source expressions are compared case-insensitively
+                sources = value.lower().split()
+                if "'unsafe-inline'" in sources:
                     unsafe_inline_directives.append(name)
-                if "'unsafe-eval'" in value:
+                if "'unsafe-eval'" in sources:
                     unsafe_eval_directives.append(name)
-                # Check for http: scheme or literal http://
-                if "http:" in value or "http://" in value:
-                    # Simple check, could be improved to parse source lists
-                    if "http:" in value.split():
-                        http_uri_directives.append(name)
+                if "http:" in sources:
+                    http_uri_directives.append(name)
 
         if deprecated_report_uri:
             parent.add_child(
-- 
2.43.0


From 891770a027878280dbfb3f40cbb0408ca3c72ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 041/114] fix: codecs that aren't character encodings were used
 as charsets

---
 httplint/charset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httplint/charset.py b/httplint/charset.py
index 9d229c2..901518d 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -26,6 +26,12 @@ def _requires_utf8(media_type: str) -> bool:
 
 
 def _canonical(name: str) -> Optional[str]:
+    try:
+        b"x".decode(name)  # raises LookupError if it isn't a text encoding (e.g., "rot13")
+    except UnicodeError:
+        pass
+    except (LookupError, TypeError, ValueError):
+        return None
     try:
         return codecs.lookup(name).name
     except (LookupError, TypeError, ValueError):
-- 
2.43.0


From 7ffdc3c83e4363e850b3f08f65514dc6f2093e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 042/114] fix: TE wasn't reported as a request-only field in
 responses

---
 httplint/field/parsers/te.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index f6cf9e3..7e83182 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -4,10 +4,15 @@ from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import parse_params
 from httplint.syntax import rfc9110
-from httplint.types import AddNoteMethodType, AnyMessageLinterProtocol, ParamDictType
+from httplint.types import (
+    AddNoteMethodType,
+    AnyMessageLinterProtocol,
+    ParamDictType,
+    RequestLinterProtocol,
+)
 
 
-class te(HttpListField[AnyMessageLinterProtocol]):
+class te(HttpListField[RequestLinterProtocol]):
     canonical_name = "TE"
     description = """\
 The `TE` request header indicates what HTTP/1.1 transfer-codings the client is willing to accept in
-- 
2.43.0


From 36742e74ab5bf02e1ae2ed5a8ecef03352edc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 043/114] fix: whitespace other than spaces and tabs was
 removed from field values

---
 httplint/field/broken_field.py     | 6 +++---
 httplint/field/list_field.py       | 8 ++++----
 httplint/field/singleton_field.py  | 6 +++---
 httplint/field/structured_field.py | 3 ++-
 httplint/field/utils.py            | 6 +++++-
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/httplint/field/broken_field.py b/httplint/field/broken_field.py
index 4148b6b..24c0a69 100644
--- a/httplint/field/broken_field.py
+++ b/httplint/field/broken_field.py
@@ -3,7 +3,7 @@ from functools import partial
 from typing import Any, Generic, List, Tuple
 
 from httplint.field import BAD_SYNTAX, HttpField
-from httplint.field.utils import RE_FLAGS
+from httplint.field.utils import OWS_CHARS, RE_FLAGS
 from httplint.types import AddNoteMethodType, TMessage
 
 
@@ -34,10 +34,10 @@ class BrokenField(HttpField[TMessage], Generic[TMessage]):
                 field_name=self.canonical_name,
             )
             if self.syntax:
-                if not re.match(rf"^\s*(?:{self.syntax})\s*$", raw_value, RE_FLAGS):
+                if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", raw_value, RE_FLAGS):
                     offset_add_note(BAD_SYNTAX, ref_uri=self.reference)
             try:
-                parsed_values.append(self.parse(raw_value.strip(), offset_add_note))
+                parsed_values.append(self.parse(raw_value.strip(OWS_CHARS), offset_add_note))
             except ValueError:
                 pass
         self.value = parsed_values
diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 183f00f..6bed6a9 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -3,7 +3,7 @@ from functools import partial
 from typing import Any, Generic
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
-from httplint.field.utils import RE_FLAGS, split_list_field
+from httplint.field.utils import OWS_CHARS, RE_FLAGS, split_list_field
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -36,8 +36,8 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                     if isinstance(self.syntax, rfc9110.list_rule)
                     else self.syntax
                 )
-                if not re.match(rf"^\s*(?:{element_syntax})\s*$", value, RE_FLAGS):
-                    match = re.match(rf"^\s*(?:{element_syntax})", value, RE_FLAGS)
+                if not re.match(rf"^[\t ]*(?:{element_syntax})[\t ]*\Z", value, RE_FLAGS):
+                    match = re.match(rf"^[\t ]*(?:{element_syntax})", value, RE_FLAGS)
                     if match:
                         bad_char_index = match.end()
                         context_start = max(0, bad_char_index - 20)
@@ -62,7 +62,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                                 BAD_SYNTAX, ref_uri=self.reference, category=self.category
                             )
             try:
-                parsed_value = self.parse(value.strip(), offset_add_note)
+                parsed_value = self.parse(value.strip(OWS_CHARS), offset_add_note)
             except ValueError:
                 continue
             self.value.append(parsed_value)
diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index 4f771f9..1fc43be 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -2,7 +2,7 @@ import re
 from typing import Any, Generic, List
 
 from httplint.field import BAD_SYNTAX, HttpField
-from httplint.field.utils import RE_FLAGS
+from httplint.field.utils import OWS_CHARS, RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -34,11 +34,11 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
                 add_note(SINGLE_HEADER_REPEAT)
             first_raw = self.raw_values[0]
             if self.syntax:
-                if not re.match(rf"^\s*(?:{self.syntax})\s*$", first_raw, RE_FLAGS):
+                if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", first_raw, RE_FLAGS):
                     if self.report_syntax:
                         add_note(BAD_SYNTAX, ref_uri=self.reference)
             try:
-                self.value = self.parse(first_raw.strip(), add_note)
+                self.value = self.parse(first_raw.strip(OWS_CHARS), add_note)
             except ValueError:
                 self.value = None
 
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index c56c5e9..5c37b30 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,6 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
+from httplint.field.utils import OWS_CHARS
 from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -35,7 +36,7 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         if getattr(self, "_sf_parsed", False):
             return
 
-        combined_value = ", ".join(self.value).strip()
+        combined_value = ", ".join(self.value).strip(OWS_CHARS)
 
         def on_duplicate_key(key: str, context: str) -> None:
             add_note(DUPLICATE_KEY, key=key, context=context)
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index c4587fb..90dade0 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -12,6 +12,10 @@ from httplint.types import AddNoteMethodType, ParamDictType
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
 
+# the whitespace allowed around field values; unlike str.strip()'s default, not other controls,
+# newlines or non-ASCII spaces
+OWS_CHARS = " \t"
+
 # restricted-name (RFC 6838, Section 4.2) without its 126-character bound, so that
 # over-long names are reported as MEDIA_TYPE_LONG_NAME instead of being lumped in
 # with character errors.
@@ -184,7 +188,7 @@ def split_list_field(field_value: str) -> List[str]:
                 continue
         pos += 1
     members.append(field_value[start:])
-    return [stripped for stripped in (member.strip() for member in members) if stripped]
+    return [stripped for stripped in (member.strip(OWS_CHARS) for member in members) if stripped]
 
 
 def parse_params(
-- 
2.43.0


From a2743fc92a85d456bb9899933d9c6d58cdc6b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 044/114] fix: whitespace other than spaces and tabs was
 removed from cookies

---
 httplint/field/parsers/set_cookie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 34b5e7e..82e7b1b 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -6,6 +6,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS
 from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.types import (
     AddNoteMethodType,
@@ -96,7 +97,7 @@ def loose_parse(  # pylint: disable=too-many-branches
         name = ""
         value = name_value_pair
 
-    name, value = name.strip(), value.strip()
+    name, value = name.strip(OWS_CHARS), value.strip(OWS_CHARS)
     if name == "" and value == "":
         add_note(SET_COOKIE_NO_NAME)
         raise ValueError("Cookie doesn't have a name")
@@ -127,8 +128,8 @@ def loose_parse(  # pylint: disable=too-many-branches
         else:
             attribute_name, attribute_value = cookie_av, ""
 
-        attribute_name = attribute_name.strip()
-        attribute_value = attribute_value.strip()
+        attribute_name = attribute_name.strip(OWS_CHARS)
+        attribute_value = attribute_value.strip(OWS_CHARS)
         case_norm_attribute_name = attribute_name.lower()
 
         if case_norm_attribute_name in seen_attributes:
-- 
2.43.0


From 77794d3591e86bcc83d896b22abe1f1663efb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 045/114] fix: an unknown From-Field field was checked as From

---
 httplint/field/finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index 493a9ef..08cdccf 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -92,6 +92,8 @@ class HttpFieldFinder:
                 return HttpFieldFinder.field_aliases[name].replace("-", "_")
         if "_" in norm_name:
             return ""  # an underscore isn't a hyphen; it's a different field
+        if token == HttpFieldFinder.field_aliases["from"]:
+            return ""  # the module for From isn't named for the field
         return token
 
 
-- 
2.43.0


From 0cfe5e304e9c764a7091ee58e9de7513e1b80af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 046/114] fix: a field name ending in a newline was taken as a
 valid token

---
 httplint/field/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/__init__.py b/httplint/field/__init__.py
index 47a18cd..f943fd9 100644
--- a/httplint/field/__init__.py
+++ b/httplint/field/__init__.py
@@ -140,7 +140,7 @@ class HttpField(ABC, Generic[TMessage]):
                 return False
 
         # check field name syntax
-        if not re.match(f"^{rfc9110.token}$", self.wire_name, RE_FLAGS):
+        if not re.match(rf"^{rfc9110.token}\Z", self.wire_name, RE_FLAGS):
             add_note(FIELD_NAME_BAD_SYNTAX)
             return False
 
-- 
2.43.0


From 201f9ab29beffb3c1782b0647cf8984c402c8458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 047/114] fix: no-cache and private without field names got the
 value 'None'

---
 httplint/field/parsers/cache_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 2880d97..967d0cc 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -114,6 +114,8 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
+            elif directive_val is None and value_func is unquote_string:
+                pass  # the list of field names is optional
             else:
                 try:
                     val = (parse_integer if value_func is int else value_func)(directive_val)
-- 
2.43.0


From 401fb35c7f8b554decc15f87e3f60b7635309316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 048/114] fix: max-stale without a value was reported as
 incorrect

---
 httplint/field/parsers/cache_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 967d0cc..6324931 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -116,6 +116,8 @@ ignoring it there."""
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
             elif directive_val is None and value_func is unquote_string:
                 pass  # the list of field names is optional
+            elif directive_val is None and directive_name == "max-stale":
+                pass  # RFC 9111 Section 5.2.1.2: its value is optional
             else:
                 try:
                     val = (parse_integer if value_func is int else value_func)(directive_val)
-- 
2.43.0


From f5a7a62ba730e33c4727a5d2cc34e5c712acd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 049/114] fix: compare Expect: 100-continue case-insensitively
 for 100 and 417 responses

---
 httplint/status.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..84115de 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -57,7 +57,9 @@ class StatusChecker:
         status_method()
 
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
+        if self.request and not "100-continue" in [
+            v.lower() for v in get_header(self.request.headers.text, "expect")
+        ]:
             self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
@@ -241,7 +243,7 @@ class StatusChecker:
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-            if "100-continue" in expect_headers:
+            if "100-continue" in [v.lower() for v in expect_headers]:
                 self.add_note("", STATUS_417_WITH_100_CONTINUE)
                 return
         self.add_note("", STATUS_EXPECTATION_FAILED)
-- 
2.43.0


From 2e24853c36d4fbf083f9ce8f29675dfad7b137d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 050/114] fix: follow RFC 6265 for cookie dates (token
 boundaries, one-digit times, nonexistent days)

---
 httplint/field/parsers/set_cookie.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 82e7b1b..62b4333 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,4 +1,4 @@
-from calendar import timegm
+from calendar import monthrange, timegm
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
 from urllib.parse import urlsplit
@@ -336,7 +336,7 @@ def loose_date_parse(cookie_date: str) -> int:
     for date_token in date_tokens:
         re_match = None
         if not found_time:
-            re_match = match(r"^(\d{2}:\d{2}:\d{2})(?:\D)?", date_token)
+            re_match = match(r"^(\d\d?:\d\d?:\d\d?)(?:\D|\Z)", date_token)
             if re_match:
                 found_time = True
                 hour_value, minute_value, second_value = [
@@ -344,7 +344,7 @@ def loose_date_parse(cookie_date: str) -> int:
                 ]
                 continue
         if not found_day_of_month:
-            re_match = match(r"^(\d\d?)(?:\D)?", date_token)
+            re_match = match(r"^(\d\d?)(?:\D|\Z)", date_token)
             if re_match:
                 found_day_of_month = True
                 day_of_month_value = int(re_match.group(1))
@@ -354,7 +354,7 @@ def loose_date_parse(cookie_date: str) -> int:
             month_value = MONTHS[date_token[:3].lower()]
             continue
         if not found_year:
-            re_match = match(r"^(\d{2,4})(?:\D)?", date_token)
+            re_match = match(r"^(\d{2,4})(?:\D|\Z)", date_token)
             if re_match:
                 found_year = True
                 year_value = int(re_match.group(1))
@@ -374,10 +374,10 @@ def loose_date_parse(cookie_date: str) -> int:
         year_value += 1900
     if 69 >= year_value >= 0:
         year_value += 2000
-    if not 1 <= day_of_month_value <= 31:
-        raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     if year_value < 1601:
         raise ValueError(f"{year_value} is out of range for year")
+    if not 1 <= day_of_month_value <= monthrange(year_value, month_value)[1]:
+        raise ValueError(f"{day_of_month_value} is out of range for day_of_month")
     if hour_value > 23:
         raise ValueError(f"{hour_value} is out of range for hour")
     if minute_value > 59:
-- 
2.43.0


From e6b77e2068fed0a2f72797ff8f29880268f406cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 051/114] fix: default cookie path when the base URI's path is
 not absolute

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 62b4333..131da9f 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -228,7 +228,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             # use default path
             if uri_path == "" or uri_path[0] != "/":
                 cookie_path = "/"
-            if uri_path.count("/") < 2:
+            elif uri_path.count("/") < 2:
                 cookie_path = "/"
             else:
                 cookie_path = uri_path[: uri_path.rindex("/")]
-- 
2.43.0


From 3f880636f9215a81abbe4a99e51f8076e8f841eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 052/114] fix: lower-case the cookie Domain attribute, as RFC
 6265 Section 5.2.3 says

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 131da9f..92a334b 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -221,7 +221,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             cookie_domain = attribute_value[1:]
         else:
             cookie_domain = attribute_value
-        cookie_attribute_list.append(("Domain", cookie_domain))
+        cookie_attribute_list.append(("Domain", cookie_domain.lower()))
 
     elif case_norm_attribute_name == "path":
         if attribute_value == "" or attribute_value[0] != "/":
-- 
2.43.0


From 71feaf7c6da9d8fd325cc1911dd5792880b3d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 053/114] fix: only spaces and tabs are whitespace around
 Cookie pairs

---
 httplint/field/parsers/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cookie.py b/httplint/field/parsers/cookie.py
index a5d880f..e460ffe 100644
--- a/httplint/field/parsers/cookie.py
+++ b/httplint/field/parsers/cookie.py
@@ -3,6 +3,7 @@ from typing import List
 
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS
 from httplint.note import categories
 from httplint.types import AddNoteMethodType, RequestLinterProtocol
 
@@ -31,7 +32,7 @@ The `Cookie` header field contains stored HTTP cookies previously sent by the se
         # Split by ";" to handle semicolon-separated pairs within a single header value.
         items = field_value.split(";")
         for item in items:
-            item = item.strip()
+            item = item.strip(OWS_CHARS)
             if not item:
                 continue
 
-- 
2.43.0


From 8a3456eab7eee3217f4f8541c29ecaa528274c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 054/114] fix: Access-Control-Allow-Origin: null matches a null
 request origin, and only that

---
 httplint/field/cors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 637dad2..2ff1cda 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -1,3 +1,4 @@
+from httplint.field.utils import OWS_CHARS
 from httplint.note import Note, categories, levels
 from httplint.types import RequestLinterProtocol, ResponseLinterProtocol
 
@@ -95,8 +96,10 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
 
     request_origin = message.request.headers.parsed["origin"]
     if request_origin is None:
-        # it's a "null" origin
-        request_origin_str = "null"
+        # it's a "null" origin, or one that couldn't be parsed
+        handler = message.request.headers.handlers.get("origin")
+        raw_values = getattr(handler, "raw_values", [])
+        request_origin_str = raw_values[0].strip(OWS_CHARS) if raw_values else "null"
     elif hasattr(request_origin, "scheme"):
         # it's an OriginValue
         ov = request_origin
@@ -107,7 +110,7 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         # fallback, shouldn't happen with new parsers
         request_origin_str = str(request_origin)
 
-    if acao_value == "null":
+    if acao_value == "null" and request_origin_str != "null":
         message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
-- 
2.43.0


From b9a257bdf44d92e0e56f4b105aba7b2f56d0612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 055/114] fix: RFC 3986 syntax: userinfo longer than one
 character, compressed IPv6 addresses, empty paths

---
 httplint/syntax/rfc3986.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..321fe8f 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,13 +77,13 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+                    (?:                         {h16} )? :: (?: {h16} : ){{4}} {ls32} |
+                    (?: (?: {h16} : ){{0,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                    (?: (?: {h16} : ){{0,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                    (?: (?: {h16} : ){{0,3}} {h16} )? ::     {h16} :        {ls32} |
+                    (?: (?: {h16} : ){{0,4}} {h16} )? ::                    {ls32} |
+                    (?: (?: {h16} : ){{0,5}} {h16} )? ::                    {h16}  |
+                    (?: (?: {h16} : ){{0,6}} {h16} )? ::
                     )
 """
 
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = r"(?: )"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 7d9b6759088a010d53f6ccf3882ec06643099488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 056/114] fix: language tags with variant, extension or private
 use subtags were bad syntax

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 71526ab24089b8ea849a92b5228de528a7aec422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 057/114] fix: HTTP-date and the weak entity-tag prefix are
 case-sensitive

---
 httplint/syntax/rfc9110.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index a62b2a0..89696f8 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -312,7 +312,7 @@ day = rf"(?: {DIGIT} {DIGIT} )"
 #    / %x53.61.74 ; Sat
 #    / %x53.75.6E ; Sun
 
-day_name = r"(?: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
+day_name = r"(?-i: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
 
 #   month = %x4A.61.6E ; Jan
 #    / %x46.65.62 ; Feb
@@ -327,7 +327,7 @@ day_name = r"(?: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
 #    / %x4E.6F.76 ; Nov
 #    / %x44.65.63 ; Dec
 
-month = r"(?: Jan | Feb | Mar | Apr | May | Jun | Jul | Aug | Sep | Oct | Nov | Dec )"
+month = r"(?-i: Jan | Feb | Mar | Apr | May | Jun | Jul | Aug | Sep | Oct | Nov | Dec )"
 
 #   year = 4DIGIT
 
@@ -355,7 +355,7 @@ time_of_day = rf"(?: {hour} : {minute} : {second} )"
 
 #   GMT = %x47.4D.54 ; GMT
 
-GMT = r"(?: GMT )"
+GMT = r"(?-i: GMT )"
 
 #   IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
 
@@ -369,7 +369,7 @@ IMF_fixdate = rf"(?: {day_name} , {SP} {date1} {SP} {time_of_day} {SP} {GMT} )"
 #    / %x53.61.74.75.72.64.61.79 ; Saturday
 #    / %x53.75.6E.64.61.79 ; Sunday
 
-day_name_l = r"(?: Monday | Tuesday | Wednesday | Thursday | Friday | Saturday | Sunday )"
+day_name_l = r"(?-i: Monday | Tuesday | Wednesday | Thursday | Friday | Saturday | Sunday )"
 
 #   date2 = day "-" month "-" 2DIGIT
 
@@ -401,7 +401,7 @@ Date = HTTP_date
 
 #   weak = %x57.2F ; W/
 
-weak = r"(?: \x57\x2F )"
+weak = r"(?-i: \x57\x2F )"
 
 #   etagc = "!" / %x23-7E ; '#'-'~' / obs-text
 
-- 
2.43.0


From 919336bda3bc597b3a4394d1e411288c985c9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 058/114] fix: the query of a partial-URI starts with a
 question mark

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 89696f8..d6ae958 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -262,7 +262,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
-- 
2.43.0


From 0a072d0bfa3a0b75cf497f55929939a2bc1c3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 059/114] fix: nested comments were bad syntax in User-Agent,
 Server, Via and From

---
 httplint/syntax/rfc5322.py | 3 +++
 httplint/syntax/rfc9110.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 388a436..477543b 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -35,7 +35,10 @@ FWS = rf"(?: (?: {WSP}* {CRLF} )? {WSP}{{1,}} )"
 
 # comment         =   "(" *([FWS] ccontent) [FWS] ")"
 
+# (regular expressions can't nest without limit, so this allows comments nested four deep)
 comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
+for _ in range(3):
+    comment = rf"(?: \( (?: {FWS}? (?: {ccontent} | {comment} ) )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index d6ae958..2069e7d 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -563,7 +563,11 @@ ctext = rf"(?: {HTAB} | {SP} | [\x21-\x27] | [\x2A-\x5b] | [\x5D-\x7E] | {obs_te
 
 #   comment = "(" *( ctext / quoted-pair / comment ) ")"
 
+# (regular expressions can't nest without limit, so this allows comments nested eight deep)
+
 comment = rf"(?: \( (?: {ctext} | {quoted_pair} )* \) )"
+for _ in range(7):
+    comment = rf"(?: \( (?: {ctext} | {quoted_pair} | {comment} )* \) )"
 
 #   Server = product *( RWS ( product / comment ) )
 
-- 
2.43.0


From f8390f8e6d1388d8298af4eba05b6de17c670f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 060/114] fix: commas and semicolons inside a Link target split
 the link

---
 httplint/field/list_field.py   | 10 ++++++++--
 httplint/field/parsers/link.py | 23 +++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 6bed6a9..82a3c3c 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -1,6 +1,6 @@
 import re
 from functools import partial
-from typing import Any, Generic
+from typing import Any, Generic, List
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
 from httplint.field.utils import OWS_CHARS, RE_FLAGS, split_list_field
@@ -20,8 +20,14 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
         """
         return field_value
 
+    def split(self, field_value: str) -> List[str]:
+        """
+        Given a string representing a field line, return the list members on it.
+        """
+        return split_list_field(field_value)
+
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        values = split_list_field(field_value)
+        values = self.split(field_value)
         i = 0
         for value in values:
             offset_add_note = partial(
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 566b60f..b5612c3 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -1,11 +1,11 @@
 import re
-from typing import Tuple
+from typing import List, Tuple
 from urllib.parse import urljoin, urlsplit
 
 from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import PARAM_REPEATS, parse_params
+from httplint.field.utils import OWS_CHARS, PARAM_REPEATS, RE_FLAGS, parse_params
 from httplint.note import MarkdownSafe, Note, categories, levels, markdown_code
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
@@ -15,6 +15,8 @@ from httplint.types import (
     ParamDictType,
 )
 
+TARGET = r"(?: < [^>]* > )"
+
 
 class link(HttpListField[AnyMessageLinterProtocol]):
     canonical_name = "Link"
@@ -26,11 +28,20 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
     syntax = rfc8288.Link
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # a URI-reference can contain commas
+        members = re.findall(
+            rf"(?: [\t ]* {TARGET} )? (?: {rfc9110.quoted_string} | [^,] )*", field_value, RE_FLAGS
+        )
+        return [m for m in (member.strip(OWS_CHARS) for member in members) if m]
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-        try:
-            link_value, param_str = field_value.split(";", 1)
-        except ValueError:
-            link_value, param_str = field_value, ""
+        target = re.match(TARGET, field_value, RE_FLAGS)
+        if target:  # a URI-reference can contain semicolons
+            link_value, param_str = target.group(0), field_value[target.end() :]
+            param_str = param_str.partition(";")[2]
+        else:
+            link_value, _, param_str = field_value.partition(";")
         link_value = link_value.strip()[1:-1]  # trim the angle brackets
         param_dict = parse_params(
             param_str, add_note, ["rel", "rev", "anchor", "hreflang", "type", "media"]
-- 
2.43.0


From 8f7d4f887fd42e4736da265caca496c694666409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 061/114] fix: commas inside Server and Via comments split the
 value

---
 httplint/field/parsers/server.py | 7 +++++++
 httplint/field/parsers/via.py    | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/httplint/field/parsers/server.py b/httplint/field/parsers/server.py
index b28a995..179f5f3 100644
--- a/httplint/field/parsers/server.py
+++ b/httplint/field/parsers/server.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, ResponseLinterProtocol
@@ -16,6 +19,10 @@ handle the request."""
     syntax = rfc9110.Server
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # not a list; commas can occur in comments
+        return [field_value.strip(OWS_CHARS)]
+
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) > MAX_SERVER_LENGTH:
             add_note(
diff --git a/httplint/field/parsers/via.py b/httplint/field/parsers/via.py
index 5203702..73048db 100644
--- a/httplint/field/parsers/via.py
+++ b/httplint/field/parsers/via.py
@@ -1,5 +1,9 @@
+import re
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS, RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +23,11 @@ the request/response chain."""
     syntax = rfc9110.Via
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # comments can contain commas
+        members = re.findall(rf"(?: {rfc9110.comment} | [^,] )+", field_value, RE_FLAGS)
+        return [m for m in (member.strip(OWS_CHARS) for member in members) if m]
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         via_list = "<ul>" + "\n".join([f"<li><code>{v}</code></li>" for v in self.value]) + "</ul>"
         add_note(VIA_PRESENT, via_list=via_list)
-- 
2.43.0


From eae13d69b2a10d6d0a97042b1ac03f73000a57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 062/114] fix: challenges with more than one parameter were
 split and reported as bad syntax

---
 httplint/field/parsers/proxy_authenticate.py |  7 +++++++
 httplint/field/parsers/www_authenticate.py   |  7 +++++++
 httplint/field/utils.py                      | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/httplint/field/parsers/proxy_authenticate.py b/httplint/field/parsers/proxy_authenticate.py
index 96587be..e10a24e 100644
--- a/httplint/field/parsers/proxy_authenticate.py
+++ b/httplint/field/parsers/proxy_authenticate.py
@@ -1,4 +1,7 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
+from httplint.field.utils import split_challenges
 from httplint.syntax import rfc9110
 from httplint.types import ResponseLinterProtocol
 
@@ -11,3 +14,7 @@ scheme and parameters applicable to the proxy for this request-target."""
     reference = f"{rfc9110.SPEC_URL}#field.proxy-authenticate"
     syntax = rfc9110.Proxy_Authenticate
     deprecated = False
+
+    def split(self, field_value: str) -> List[str]:
+        # a challenge's parameters are separated by commas too
+        return split_challenges(field_value)
diff --git a/httplint/field/parsers/www_authenticate.py b/httplint/field/parsers/www_authenticate.py
index b1ace16..10c2d91 100644
--- a/httplint/field/parsers/www_authenticate.py
+++ b/httplint/field/parsers/www_authenticate.py
@@ -1,5 +1,8 @@
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_challenges
 from httplint.syntax import rfc9110
 from httplint.types import NoteClassListType, ResponseLinterProtocol
 
@@ -13,6 +16,10 @@ indicates the authentication scheme(s) and parameters applicable."""
     syntax = rfc9110.WWW_Authenticate
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # a challenge's parameters are separated by commas too
+        return split_challenges(field_value)
+
 
 class WWWAuthenticateTest(FieldTest[ResponseLinterProtocol]):
     name = "WWW-Authenticate"
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 90dade0..ec644d0 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -191,6 +191,17 @@ def split_list_field(field_value: str) -> List[str]:
     return [stripped for stripped in (member.strip(OWS_CHARS) for member in members) if stripped]
 
 
+def split_challenges(field_value: str) -> List[str]:
+    "Split a field value on the commas between (not inside) challenges."
+    challenges: List[str] = []
+    for member in split_list_field(field_value):
+        if challenges and re.match(rf"^{rfc9110.auth_param}\Z", member, RE_FLAGS):
+            challenges[-1] += f", {member}"
+        else:
+            challenges.append(member)
+    return challenges
+
+
 def parse_params(
     instr: str,
     add_note: AddNoteMethodType,
-- 
2.43.0


From bc499340a0e6d672ee1eb02e5b11464ebdd1f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 063/114] fix: Alt-Svc's clear is case-sensitive (RFC 7838,
 Section 3)

---
 httplint/field/parsers/alt_svc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/alt_svc.py b/httplint/field/parsers/alt_svc.py
index a1dd330..36442e0 100644
--- a/httplint/field/parsers/alt_svc.py
+++ b/httplint/field/parsers/alt_svc.py
@@ -20,7 +20,7 @@ The `Alt-Svc` HTTP header field identifies an alternative service that can be ar
 resources identifying the origin serving the field."""
     reference = "https://www.rfc-editor.org/rfc/rfc7838#section-3"
     syntax = (
-        r"(?: clear | (?: "
+        r"(?: (?-i:clear) | (?: "
         f"{rfc9110.token} = {rfc9110.quoted_string}"
         f"(?: {rfc9110.OWS} ; {rfc9110.OWS} {rfc9110.parameter} )* ) )"
     )
-- 
2.43.0


From db2567ed06536e34be28793caaa2185ad10ab61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 064/114] fix: controls and non-ASCII spaces around ; accepted
 in Content-Disposition

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..fb4d209 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -21,7 +21,7 @@ The `Content-Disposition` header suggests a name to use when saving the file.
 When the disposition (the first value) is set to `attachment`, it also prompts browsers to download
 the file, rather than display it."""
     reference = "https://www.rfc-editor.org/rfc/rfc6266.html"
-    syntax = rf"(?:{rfc9110.token}(?:\s*;\s*{rfc9110.parameter})*)"
+    syntax = rf"(?:{rfc9110.token}(?:{rfc9110.OWS};{rfc9110.OWS}{rfc9110.parameter})*)"
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-- 
2.43.0


From 44689cbef65beac40588868783fae2a621dce89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 065/114] fix: Via pseudonyms followed by a port were bad
 syntax

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 2069e7d..f1a5a7e 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -631,7 +631,7 @@ received_protocol = rf"(?: (?: {protocol_name} / )? {protocol_version} )"
 
 #   received-by = pseudonym [ ":" port ]
 
-received_by = rf"(?: (?: {uri_host} (?: : {port} )? ) | {pseudonym} )"
+received_by = rf"(?: (?: {uri_host} | {pseudonym} ) (?: : {port} )? )"
 
 #   Via = [ ( received-protocol RWS received-by [ RWS comment ] )
 #           *( OWS "," OWS ( received-protocol RWS received-by [ RWS comment ] ) ) ]
-- 
2.43.0


From 2b86a11f9b6a4397a0984d2c80f479b9f91f31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 066/114] fix: dates followed by a newline accepted

---
 httplint/field/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index ec644d0..d2c0fe0 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -113,7 +113,7 @@ def parse_http_date(
     value: str, add_note: AddNoteMethodType, category: Optional[categories] = None
 ) -> int:
     """Parse a HTTP date. Raises ValueError if it's bad."""
-    if not re.match(rf"^{rfc9110.HTTP_date}$", value, RE_FLAGS):
+    if not re.match(rf"^{rfc9110.HTTP_date}\Z", value, RE_FLAGS):
         add_note(BAD_DATE_SYNTAX, category=category)
         raise ValueError
     if re.match(rf"^{rfc9110.obs_date}$", value, RE_FLAGS):
-- 
2.43.0


From abc95b7d5a1e18ee5f49047cf3e02b7f976c5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 067/114] fix: dates with an impossible day or time of day
 weren't reported

---
 httplint/field/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index d2c0fe0..999d75b 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -127,6 +127,15 @@ def parse_http_date(
             date_tuple = (date_tuple[0] + 1900,) + date_tuple[1:]
         else:
             date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
+    year, month, day, hour, minute, second = date_tuple[:6]
+    if (
+        not 1 <= day <= calendar.monthrange(year, month)[1]
+        or hour > 23
+        or minute > 59
+        or second > 60  # allowing for leap seconds
+    ):
+        add_note(BAD_DATE_SYNTAX, category=category)
+        raise ValueError
     return calendar.timegm(date_tuple)
 
 
-- 
2.43.0


From cd42717f5e5af4ecd8576e1fdc1ae38066b5a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 068/114] fix: Content-Disposition with whitespace before its
 parameters was unknown

---
 httplint/field/parsers/content_disposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index fb4d209..2d248cf 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -2,7 +2,7 @@ from typing import Tuple
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import PARAM_STAR_QUOTED, parse_params
+from httplint.field.utils import OWS_CHARS, PARAM_STAR_QUOTED, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip(OWS_CHARS).lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
-- 
2.43.0


From 42cbb0e654ec679d27062007416df548dea20605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 069/114] fix: path characters in Content-Disposition filenames
 missed

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 2d248cf..d2ac54f 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -39,7 +39,7 @@ the file, rather than display it."""
         filename_star = param_dict.get("filename*", None)
         if filename and "%" in filename:
             add_note(DISPOSITION_FILENAME_PERCENT)
-        if (filename and "/" in filename) or (filename_star and r"\\" in filename_star):
+        if any(char in name for name in (filename, filename_star) if name for char in "/\\"):
             add_note(DISPOSITION_FILENAME_PATH_CHAR)
         return disposition, param_dict
 
-- 
2.43.0


From dd8b05e6059211c68661ac9f177fdae6b418770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 070/114] fix: non-numeric Server-Timing durations such as nan
 and 1_0 accepted

---
 httplint/field/parsers/server_timing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..d9dc7e2 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -1,8 +1,9 @@
+import re
 from typing import Tuple
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import parse_params
+from httplint.field.utils import OWS_CHARS, RE_FLAGS, parse_params
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -12,6 +13,8 @@ from httplint.types import (
     ResponseLinterProtocol,
 )
 
+FLOAT = r"^ [+-]? (?: [0-9]+ \.? [0-9]* | \. [0-9]+ ) (?: e [+-]? [0-9]+ )? \Z"
+
 
 class server_timing(HttpListField[ResponseLinterProtocol]):
     canonical_name = "Server-Timing"
@@ -43,9 +46,7 @@ consumer of Server-Timing."""
             if duration is None:
                 add_note(SERVER_TIMING_MISSING_DUR, metric=metric_name)
             else:
-                try:
-                    float(duration)
-                except ValueError:
+                if not re.match(FLOAT, duration.strip(OWS_CHARS), RE_FLAGS):
                     add_note(
                         SERVER_TIMING_BAD_PARAM,
                         metric=metric_name,
-- 
2.43.0


From d0dc1de5e40c634095313a08cf69d19df8afa537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 071/114] fix: content types and charsets were judged on 199
 responses

---
 httplint/charset.py      | 2 +-
 httplint/content_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 901518d..d4b450c 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -66,7 +66,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 646e2b4..eb5822d 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -22,7 +22,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
 
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From bc5b277170cbedee51f216cf5c4888690d3bf96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 072/114] fix: media types without a known signature were said
 to look like undefined/undefined

---
 httplint/content_type.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index eb5822d..ca09bcf 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -3,6 +3,9 @@ import sniffpy  # type: ignore[import-untyped]
 from httplint.note import Note, categories, levels
 from httplint.types import LinterProtocol
 
+# The image types whose signatures sniffpy knows.
+SIGNATURE_TYPES = {row[3] for row in sniffpy.constants.IMAGE_PATTERNS}
+
 
 class CONTENT_TYPE_MISMATCH(Note):
     category = categories.GENERAL
@@ -17,7 +20,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
     """
     Verify that the content matches the declared Content-Type.
     """
-    if not linter.content_hash:
+    if not linter.content_hash or not linter.content_sample:
         return
 
     # Don't verify content type for responses that don't carry a full representation
@@ -40,6 +43,10 @@ def verify_content_type(linter: LinterProtocol) -> None:
         # If sniffpy fails (e.g. invalid declared type), we can't verify.
         return
 
+    if sniffed_type == sniffpy.constants.UNDEFINED and declared_type not in SIGNATURE_TYPES:
+        # No signature matched, but sniffpy doesn't have one for this type.
+        return
+
     if str(sniffed_type) != declared_type:
         # workaround for https://github.com/mnot/httplint/issues/112
         if declared_type == "text/html" and str(sniffed_type) in [
-- 
2.43.0


From 434e0d7534781451cabc99831ef51cbd20e8bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 073/114] fix: BMP images were said to look like image/gif

---
 httplint/content_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httplint/content_type.py b/httplint/content_type.py
index ca09bcf..cd1c1c2 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -47,6 +47,10 @@ def verify_content_type(linter: LinterProtocol) -> None:
         # No signature matched, but sniffpy doesn't have one for this type.
         return
 
+    if str(sniffed_type) == "image/gif" and linter.content_sample.startswith(b"BM"):
+        # sniffpy has the wrong type for this signature.
+        sniffed_type = "image/bmp"
+
     if str(sniffed_type) != declared_type:
         # workaround for https://github.com/mnot/httplint/issues/112
         if declared_type == "text/html" and str(sniffed_type) in [
-- 
2.43.0


From 713d13a715b15939e464741c5f60a52d8915d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 074/114] fix: NaN and infinities were taken for JSON

---
 httplint/field/json_field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index fbed0e6..459995c 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -1,11 +1,16 @@
 import json
-from typing import Generic
+from typing import Generic, NoReturn
 
 from httplint.field import HttpField
 from httplint.note import Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 
+def _not_json(constant: str) -> NoReturn:
+    """NaN and the infinities are extensions of Python's parser, not JSON."""
+    raise ValueError(f"{constant} is not a JSON value")
+
+
 class JsonField(HttpField[TMessage], Generic[TMessage]):
     """
     A HTTP field that uses the JSON encoding for field values.
@@ -24,7 +29,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
 
         combined_value = f"[{', '.join(self.value)}]"
         try:
-            self.value = json.loads(combined_value)
+            self.value = json.loads(combined_value, parse_constant=_not_json)
         except (ValueError, RecursionError) as why:  # includes oversized numbers and nesting
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
-- 
2.43.0


From 9657d9818fdde057f372ef3f299d407ba08299db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 075/114] fix: dates and clocks at the epoch were taken for
 missing ones

---
 httplint/field/parsers/date.py          | 6 +++++-
 httplint/field/parsers/deprecation.py   | 2 +-
 httplint/field/parsers/last_modified.py | 6 +++---
 httplint/field/parsers/sunset.py        | 6 +++++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index 751280d..aad4183 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -28,7 +28,11 @@ It is used by caches as input to expiration calculations, and to detect clock dr
         return parse_http_date(field_value, add_note, category=self.category)
 
     def post_check(self, add_note: AddNoteMethodType) -> None:
-        if self.message.message_type == "response" and self.message.start_time and self.value:
+        if (
+            self.message.message_type == "response"
+            and self.message.start_time is not None
+            and self.value is not None
+        ):
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
             if age_value > MAX_CLOCK_SKEW > (age_value - skew):
diff --git a/httplint/field/parsers/deprecation.py b/httplint/field/parsers/deprecation.py
index 490a5c2..51eefb1 100644
--- a/httplint/field/parsers/deprecation.py
+++ b/httplint/field/parsers/deprecation.py
@@ -27,7 +27,7 @@ will be deprecated."""
         item = self.value[0]
 
         if isinstance(item, datetime):
-            if self.message.start_time:
+            if self.message.start_time is not None:
                 dep_time = item.timestamp()
                 if dep_time > self.message.start_time:
                     add_note(DEPRECATION_FUTURE, date=item.isoformat())
diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 6192a2b..4523e09 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -27,9 +27,9 @@ representation was last modified."""
     def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
-        if lm_value:
-            serv_date = date_value or self.message.start_time
-            if not serv_date:
+        if lm_value is not None:
+            serv_date = date_value if date_value is not None else self.message.start_time
+            if serv_date is None:
                 return  # cannot determine relative time without a server timestamp
             if lm_value > serv_date:
                 add_note(LM_FUTURE)
diff --git a/httplint/field/parsers/sunset.py b/httplint/field/parsers/sunset.py
index e30bde7..b3d1e62 100644
--- a/httplint/field/parsers/sunset.py
+++ b/httplint/field/parsers/sunset.py
@@ -18,7 +18,11 @@ specified timestamp."""
         return parse_http_date(field_value, add_note, category=self.category)
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.start_time and self.value and self.value < self.message.start_time:
+        if (
+            self.message.start_time is not None
+            and self.value is not None
+            and self.value < self.message.start_time
+        ):
             add_note(SUNSET_PAST)
 
 
-- 
2.43.0


From 217978a3db6b22f40fd70153f52c6cbcf655fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 076/114] fix: valueless Integer parameters of Cache-Status and
 Proxy-Status were accepted

---
 httplint/field/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 999d75b..884263f 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -282,7 +282,11 @@ def check_sf_params(
             param_list.append(f"* `{param_name}`: `{safe_value}`")
         else:
             expected_type = known_params[param_name].get("type")
-            if expected_type and not isinstance(param_value, expected_type):
+            if expected_type and (
+                not isinstance(param_value, expected_type)
+                # a Boolean isn't an Integer, although Python says it is
+                or (isinstance(param_value, bool) and expected_type is not bool)
+            ):
                 add_note(
                     bad_param_val_note,
                     param=param_name,
-- 
2.43.0


From 43d59303c6c26b0df50c25c9bdf78974a5bf005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 077/114] fix: Use-As-Dictionary findings named the value, and
 a Boolean ttl was accepted

---
 httplint/field/parsers/use_as_dictionary.py | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/httplint/field/parsers/use_as_dictionary.py b/httplint/field/parsers/use_as_dictionary.py
index abd8ed5..609986a 100644
--- a/httplint/field/parsers/use_as_dictionary.py
+++ b/httplint/field/parsers/use_as_dictionary.py
@@ -1,4 +1,4 @@
-from typing import Any, List, Union
+from typing import Any
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
@@ -26,7 +26,7 @@ as a compression dictionary for future requests."""
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         for key, val in self.value.items():
             if key == "match":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "match-dest":
                 # Can be a String or Inner List of Strings
                 is_valid = False
@@ -41,35 +41,35 @@ as a compression dictionary for future requests."""
                     add_note(USE_AS_DICTIONARY_BAD_MATCH_DEST, got=type(val[0]).__name__)
 
             elif key == "id":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "type":
-                self._check_value_type(val, str, add_note)
+                self._check_value_type(key, val, str, add_note)
             elif key == "ttl":
-                self._check_value_type(val, int, add_note)
+                self._check_value_type(key, val, int, add_note)
 
     def _check_value_type(
         self,
-        val: Union[tuple[Any, Any], List[Any]],
+        key: str,
+        val: tuple[Any, Any],
         expected_type: type,
         add_note: AddNoteMethodType,
     ) -> None:
-        # val is (value, params) or list of (value, params) for Inner List
-        # Dictionary values are Items or Inner Lists.
-        # If expected type is simple (str, int), we assume it's an Item.
-        if isinstance(val, list):
+        # val is (value, params); value is a list of (value, params) for an Inner List
+        if isinstance(val[0], list):
             # Inner List found where simple Item expected
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val,
+                param=key,
                 expected=expected_type.__name__,
                 got="Inner List",
             )
             return
 
-        if not isinstance(val[0], expected_type):
+        # a Boolean isn't an Integer, although Python says it is
+        if isinstance(val[0], bool) or not isinstance(val[0], expected_type):
             add_note(
                 USE_AS_DICTIONARY_BAD_TYPE,
-                param=val[0],
+                param=key,
                 expected=expected_type.__name__,
                 got=type(val[0]).__name__,
             )
-- 
2.43.0


From 4db77768da24668b6cd79106918ff16d44c8dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 078/114] fix: parameters that Proxy-Status defines were
 reported as unknown or invalid

---
 httplint/field/parsers/proxy_status.py | 17 ++++++++++++++++-
 httplint/field/utils.py                |  6 +++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 56e0a34..827b6fe 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -104,9 +104,24 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         },
     },
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
-    "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
+    "next-protocol": {"type": (Token, bytes), "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
     "details": {"type": (Token, str), "desc": "Additional details: `%s`"},
+    # the extra parameters of the error types in RFC 9209 Section 2.3
+    "rcode": {"type": str},
+    "info-code": {"type": int},
+    "alert-id": {"type": int},
+    "alert-message": {"type": (Token, str)},
+    "status-code": {"type": int},
+    "status-phrase": {"type": str},
+    "header-section-size": {"type": int},
+    "header-name": {"type": str},
+    "header-size": {"type": int},
+    "body-size": {"type": int},
+    "trailer-section-size": {"type": int},
+    "trailer-name": {"type": str},
+    "trailer-size": {"type": int},
+    "coding": {"type": Token},
 }
 
 
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 884263f..54fb726 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -276,7 +276,11 @@ def check_sf_params(
     """
     param_list = []
     for param_name, param_value in params.items():
-        safe_value = markdown_code(param_value)
+        safe_value = markdown_code(
+            param_value.decode("ascii", "replace")
+            if isinstance(param_value, bytes)
+            else param_value
+        )
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
             param_list.append(f"* `{param_name}`: `{safe_value}`")
-- 
2.43.0


From 49b1ea4f022dc4442664a67f062aa4b02d96c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 079/114] fix: HSTS policies shorter than a year were accepted
 as long enough

---
 httplint/field/parsers/strict_transport_security.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 2218673..cd4ba6e 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -12,6 +12,8 @@ from httplint.types import (
     ResponseLinterProtocol,
 )
 
+ONE_YEAR = 31536000  # seconds
+
 sts_dir = rf"(?: {rfc9110.token} (?: {rfc9110.BWS} = {rfc9110.BWS} {rfc9110.parameter_value} )? )"  # pylint: disable=invalid-name
 
 
@@ -96,7 +98,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if (
                 parsed["includesubdomains"]
                 and parsed["max-age"] is not None
-                and parsed["max-age"] >= 1536000
+                and parsed["max-age"] >= ONE_YEAR
             ):
                 notes_to_add.append(HSTS_PRELOAD)
             else:
@@ -111,7 +113,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             is_valid = False
         elif parsed["max-age"] == 0:
             notes_to_add.append(HSTS_MAX_AGE_ZERO)
-        elif parsed["max-age"] < 1536000:
+        elif parsed["max-age"] < ONE_YEAR:
             notes_to_add.append(HSTS_SHORT_MAX_AGE)
 
         if parsed["includesubdomains"]:
-- 
2.43.0


From 2f200e09fdcab91f17577a41c826a27fc9516c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 080/114] fix: semicolons in quoted HSTS values were taken for
 separators

---
 httplint/field/parsers/strict_transport_security.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index cd4ba6e..49b6c45 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -37,7 +37,11 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "includesubdomains": False,
             "preload": False,
         }
-        directives = [d.strip() for d in field_value.split(";")]
+        # separated by semicolons, except inside quoted strings
+        directives = [
+            d.strip()
+            for d in re.findall(r'(?:^|;)((?:[^;"]|"(?:[^"\\]|\\.)*"|")*)', field_value)
+        ]
         if directives and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
-- 
2.43.0


From 0e94eb23257eb26a486ca464793f149f0a44248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 081/114] fix: an http base URI with an uppercase scheme wasn't
 recognised for HSTS

---
 httplint/field/parsers/strict_transport_security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 49b6c45..8481571 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -125,7 +125,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
         else:
             notes_to_add.append(HSTS_NO_SUBDOMAINS)
 
-        if self.message.base_uri and self.message.base_uri.startswith("http:"):
+        if self.message.base_uri and self.message.base_uri.lower().startswith("http:"):
             if getattr(self.message, "message_type", None) == "response":
                 response = self.message
                 if response.status_code != 301:
-- 
2.43.0


From d85454e18683ff65b1751fc1c8997f871146510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 082/114] fix: X-Frame-Options values that merely contain DENY
 or SAMEORIGIN were taken for them

---
 httplint/field/parsers/x_frame_options.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/x_frame_options.py b/httplint/field/parsers/x_frame_options.py
index 194a7ec..1d4ef44 100644
--- a/httplint/field/parsers/x_frame_options.py
+++ b/httplint/field/parsers/x_frame_options.py
@@ -38,9 +38,10 @@ the transmitted content in frames that are part of other web pages.
         return field_value.upper()
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "DENY" in self.value:
+        options = [v.strip(" \t") for v in self.value.split(",")]
+        if "DENY" in options:
             add_note(FRAME_OPTIONS_DENY)
-        elif "SAMEORIGIN" in self.value:
+        elif "SAMEORIGIN" in options:
             add_note(FRAME_OPTIONS_SAMEORIGIN)
         else:
             add_note(FRAME_OPTIONS_UNKNOWN)
-- 
2.43.0


From 811d6c9a290400843c586f164e459c072e9f38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 083/114] fix: X-Content-Type-Options is judged by its first
 value, in any case, as browsers do

---
 httplint/field/parsers/x_content_type_options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/x_content_type_options.py b/httplint/field/parsers/x_content_type_options.py
index bc0c43d..5044395 100644
--- a/httplint/field/parsers/x_content_type_options.py
+++ b/httplint/field/parsers/x_content_type_options.py
@@ -15,7 +15,8 @@ Indicates that the client should not 'sniff' the `Content-Type` of the message f
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if "nosniff" in self.value:
+        # browsers use the first value, case-insensitively
+        if self.value and self.value[0].lower() == "nosniff":
             add_note(CONTENT_TYPE_OPTIONS)
         else:
             add_note(CONTENT_TYPE_OPTIONS_UNKNOWN)
-- 
2.43.0


From 3407d2e4b7658981a692718f765f44037d608f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 084/114] fix: a Clear-Site-Data value that is also present
 unquoted was said to have no effect

---
 httplint/field/parsers/clear_site_data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/clear_site_data.py b/httplint/field/parsers/clear_site_data.py
index 575c51e..7b36c65 100644
--- a/httplint/field/parsers/clear_site_data.py
+++ b/httplint/field/parsers/clear_site_data.py
@@ -25,10 +25,13 @@ origin."""
     def __init__(self, wire_name: str, message: ResponseLinterProtocol) -> None:
         super().__init__(wire_name, message)
         self._unquoted_values: list[str] = []
+        self._effective_values: list[str] = []
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> str:
         if len(field_value) >= 2 and field_value[0] == '"' and field_value[-1] == '"':
             value = field_value[1:-1]
+            if value in self.KNOWN_VALUES:
+                self._effective_values.append(value)
         else:
             value = field_value
             if value in self.KNOWN_VALUES:
@@ -51,9 +54,11 @@ origin."""
         if not self.value:
             add_note(CSD_EMPTY)
             return
-        valid = [v for v in self.value if v in self.KNOWN_VALUES and v not in self._unquoted_values]
-        if valid:
-            add_note(CSD_PRESENT, values=MarkdownSafe(", ".join(f"`{v}`" for v in valid)))
+        if self._effective_values:
+            add_note(
+                CSD_PRESENT,
+                values=MarkdownSafe(", ".join(f"`{v}`" for v in self._effective_values)),
+            )
 
 
 class CSD_PRESENT(Note):
-- 
2.43.0


From a96c152bab9d3fa66a5e26df719e0b4e790992b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 085/114] fix: request targets lost an empty query and control
 characters, and IDNA was applied to ASCII hosts and to userinfo

---
 httplint/util.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/httplint/util.py b/httplint/util.py
index 0d6c99b..dc711c2 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -1,30 +1,39 @@
 import locale
+import re
 import time
 import unittest
 from binascii import b2a_hex
 from datetime import timedelta
 from typing import Any, List
 from urllib.parse import quote as urlquote
-from urllib.parse import urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
 from httplint.note import MarkdownSafe, markdown_code
 
 
+# RFC 3986, Appendix B. urlsplit() isn't used because it discards characters.
+URI_PARTS = re.compile(
+    r"((?:[^:/?#]+:)?)(?:(//)([^/?#]*))?([^?#]*)((?:\?[^#]*)?)((?:#.*)?)", re.DOTALL
+)
+
+
 def iri_to_uri(iri: str) -> str:
     "Takes a string that can contain an IRI and return a URI."
-    scheme, authority, path, query, frag = urlsplit(iri)
-    if ":" in authority:
-        host, port = authority.split(":", 1)
-        authority = host.encode("idna").decode("ascii") + f":{port}"
-    else:
-        authority = authority.encode("idna").decode("ascii")
+    match = URI_PARTS.fullmatch(iri.strip())
+    if not match:
+        raise ValueError("Not an IRI")
+    scheme, slashes, authority, path, query, frag = match.groups("")
     sub_delims = "!$&'()*+,;="
     pchar = "-.+~" + sub_delims + ":@" + "%"
+    userinfo, at_sign, hostport = authority.rpartition("@")
+    userinfo = urlquote(userinfo, safe="-.~" + sub_delims + ":%")
+    if not hostport.isascii():
+        host, colon, port = hostport.partition(":")
+        hostport = host.encode("idna").decode("ascii") + colon + port
     path = urlquote(path, safe=pchar + "/")
-    quer = urlquote(query, safe=pchar + "/?")
-    frag = urlquote(frag, safe=pchar + "/?")
-    return urlunsplit((scheme, authority, path, quer, frag))
+    query = urlquote(query, safe=pchar + "/?")
+    frag = "#" + urlquote(frag[1:], safe=pchar + "/?") if frag else ""
+    return f"{scheme}{slashes}{userinfo}{at_sign}{hostport}{path}{query}{frag}"
 
 
 def f_num(i: int, by1024: bool = False) -> str:
-- 
2.43.0


From df17d53c75a5de011cdd54f2a7145c2ab29a1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 086/114] fix: an upper-case V in an IP literal of a future
 version is allowed by RFC 3986

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 321fe8f..eb3ec97 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -88,7 +88,7 @@ IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
 """
 
 #   IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
-IPvFuture = rf"v {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
+IPvFuture = rf"[vV] {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
 
 #   IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
 IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
-- 
2.43.0


From 35f694e0abb95b53c0e5cbe5ac5cbe18c609d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 087/114] fix: Range and Content-Range accepted any unit, and
 Content-Range without space or slash went unreported

---
 httplint/field/parsers/content_range.py |  8 ++++++++
 httplint/field/parsers/range.py         | 12 +++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index ec9a12c..f62a90c 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import (
     Optional,
@@ -6,6 +7,7 @@ from typing import (
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -43,8 +45,14 @@ in `416` (Requested Range Not Satisfiable) responses."""
             # if we see a slash, it's likely the unit is missing
             if "/" in field_value:
                 add_note(CONTENT_RANGE_MISSING_UNIT)
+            else:
+                add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
 
+        if not re.match(rf"^(?:{rfc9110.range_unit})\Z", unit, RE_FLAGS):
+            add_note(CONTENT_RANGE_MISSING_UNIT)
+            raise ValueError
+
         try:
             rng, len_str = rest.split("/", 1)
         except ValueError:
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index f4ec181..c842b64 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -1,8 +1,10 @@
+import re
 from dataclasses import dataclass
 from typing import List, Optional, Tuple
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS, RE_FLAGS
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, RequestLinterProtocol
@@ -36,9 +38,17 @@ parts of the representation that are specified."""
             )
             raise
 
+        if not re.match(rf"^(?:{rfc9110.range_unit})\Z", unit, RE_FLAGS):
+            add_note(
+                RANGE_BAD_SYNTAX,
+                ref_uri=self.reference,
+                problem="the range unit must be a token",
+            )
+            raise ValueError
+
         ranges: List[Tuple[Optional[int], Optional[int]]] = []
         for rng in rest.split(","):
-            rng = rng.strip()
+            rng = rng.strip(OWS_CHARS)
             if "-" not in rng:
                 add_note(
                     RANGE_BAD_SYNTAX,
-- 
2.43.0


From 2dae0c5e36454d95bcc58f95780d450dbefccd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 088/114] fix: Expect in HTTP/1.0 requests wasn't noticed with
 the version as the documentation has it

---
 httplint/field/parsers/expect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/expect.py b/httplint/field/parsers/expect.py
index fe43ec6..7dfd185 100644
--- a/httplint/field/parsers/expect.py
+++ b/httplint/field/parsers/expect.py
@@ -19,7 +19,7 @@ fulfilled by the server in order to properly handle the request."""
     deprecated = False
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.version == "1.0":
+        if self.message.version.upper() in ["HTTP/1.0", "1.0"]:
             add_note(EXPECT_HTTP_1_0)
 
         unknown_expectations = []
-- 
2.43.0


From e9cef5790e467d9f2e283c46c9425685f5ad7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 089/114] fix: backslashes in entity tags were taken for
 escapes

---
 httplint/field/parsers/etag.py          | 10 ++++++----
 httplint/field/parsers/if_match.py      |  9 +++++++++
 httplint/field/parsers/if_none_match.py |  9 +++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/etag.py b/httplint/field/parsers/etag.py
index 8826ae4..6b13134 100644
--- a/httplint/field/parsers/etag.py
+++ b/httplint/field/parsers/etag.py
@@ -3,7 +3,6 @@ from typing import Tuple
 from httplint.field import BAD_SYNTAX
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
-from httplint.field.utils import unquote_string
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -23,9 +22,12 @@ The `ETag` header provides an opaque identifier for the representation."""
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[bool, str]:
-        if field_value[:2] == "W/":
-            return (True, unquote_string(field_value[2:]))
-        return (False, unquote_string(field_value))
+        weak = field_value[:2] == "W/"
+        opaque_tag = field_value[2:] if weak else field_value
+        # not a quoted-string; backslashes are just characters
+        if len(opaque_tag) > 1 and opaque_tag[0] == opaque_tag[-1] == '"':
+            opaque_tag = opaque_tag[1:-1]
+        return (weak, opaque_tag)
 
 
 class ETagTest(FieldTest[AnyMessageLinterProtocol]):
diff --git a/httplint/field/parsers/if_match.py b/httplint/field/parsers/if_match.py
index 992b882..5c05f80 100644
--- a/httplint/field/parsers/if_match.py
+++ b/httplint/field/parsers/if_match.py
@@ -1,5 +1,9 @@
+import re
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -16,6 +20,11 @@ having a current representation of the target resource."""
     syntax = rfc9110.If_Match
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # entity tags aren't quoted-strings; backslashes in them are just characters
+        members = re.findall(r'(?:"[^"]*"|[^,])+', field_value)
+        return [m for m in (member.strip(OWS_CHARS) for member in members) if m]
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
diff --git a/httplint/field/parsers/if_none_match.py b/httplint/field/parsers/if_none_match.py
index 02d90f4..21eb697 100644
--- a/httplint/field/parsers/if_none_match.py
+++ b/httplint/field/parsers/if_none_match.py
@@ -1,5 +1,9 @@
+import re
+from typing import List
+
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import OWS_CHARS
 from httplint.note import categories
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -19,6 +23,11 @@ any current representation of the target resource."""
     category = categories.VALIDATION
     deprecated = False
 
+    def split(self, field_value: str) -> List[str]:
+        # entity tags aren't quoted-strings; backslashes in them are just characters
+        members = re.findall(r'(?:"[^"]*"|[^,])+', field_value)
+        return [m for m in (member.strip(OWS_CHARS) for member in members) if m]
+
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         pass
 
-- 
2.43.0


From 1ec5230a48f0000f9258fbd2f48db104cfe19de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 090/114] fix: Referer's origin was compared as text, and to
 targets without an origin

---
 httplint/field/parsers/referer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/httplint/field/parsers/referer.py b/httplint/field/parsers/referer.py
index 8cf8a48..1c0f05a 100644
--- a/httplint/field/parsers/referer.py
+++ b/httplint/field/parsers/referer.py
@@ -1,4 +1,5 @@
-from urllib.parse import urlparse
+from typing import Optional, Tuple
+from urllib.parse import ParseResult, urlparse
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
@@ -10,6 +11,9 @@ from httplint.types import (
 )
 
 
+DEFAULT_PORTS = {"http": 80, "ws": 80, "https": 443, "wss": 443}
+
+
 class referer(SingletonField[RequestLinterProtocol]):
     canonical_name = "Referer"
     description = """\
@@ -39,12 +43,20 @@ resource from which the target URI was obtained (i.e., the "referrer")."""
             if parsed_request.scheme.lower() in ["http", "ws"]:
                 add_note(REFERER_SECURE_TO_INSECURE)
 
-            referer_origin = (parsed_referer.scheme, parsed_referer.netloc)
-            request_origin = (parsed_request.scheme, parsed_request.netloc)
+            try:
+                referer_origin = self._origin(parsed_referer)
+                request_origin = self._origin(parsed_request)
+            except ValueError:
+                return  # Already handled by URI syntax checks
 
-            if referer_origin != request_origin:
+            # we don't know the request's origin if its target doesn't have an authority
+            if parsed_request.hostname and referer_origin != request_origin:
                 add_note(REFERER_SECURE_TO_DIFFERENT_ORIGIN)
 
+    @staticmethod
+    def _origin(uri: ParseResult) -> Tuple[str, Optional[str], Optional[int]]:
+        return (uri.scheme, uri.hostname, uri.port or DEFAULT_PORTS.get(uri.scheme))
+
 
 class REFERER_SECURE_TO_INSECURE(Note):
     category = categories.SECURITY
-- 
2.43.0


From 821d1e4a5295ea89211a5ce301bf326c157d0209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 091/114] fix: durations can be rendered in locales that Babel
 doesn't know

---
 httplint/i18n.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 0d3a497..060267b 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -4,6 +4,7 @@ from contextvars import ContextVar
 from datetime import timedelta
 from typing import Any, Dict, Generator, Optional
 
+from babel.core import UnknownLocaleError
 from babel.dates import format_timedelta as babel_format_timedelta
 from babel.support import NullTranslations, Translations
 
@@ -58,7 +59,11 @@ def format_timedelta(delta: timedelta | int, **kwargs: Any) -> str:
     Format a timedelta object.
     """
     locale = _locale_var.get()
-    return babel_format_timedelta(delta, locale=locale, **kwargs)
+    try:
+        return babel_format_timedelta(delta, locale=locale, **kwargs)
+    except (UnknownLocaleError, ValueError):
+        # not a locale that Babel knows; like translate(), use English
+        return babel_format_timedelta(delta, locale="en", **kwargs)
 
 
 def L_(message: str) -> str:  # pylint: disable=invalid-name
-- 
2.43.0


From 3e5ce7eeab834c3dd1ebb2dd3ffed00bc100a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 092/114] fix: subjects of some findings didn't name the field
 they are about

---
 httplint/charset.py      |  6 +++---
 httplint/content_type.py |  2 +-
 httplint/field/cors.py   | 12 ++++++------
 httplint/status.py       |  4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index d4b450c..beb71bd 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -121,7 +121,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
 
     if not decodes:
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CHARSET_UNDECODABLE,
             declared_charset=effective_charset_raw,
             detected_charset=detected_raw or "unknown",
@@ -136,7 +136,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     ):
         if is_implicit:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_IMPLICIT_MISMATCH,
                 media_type=declared_type,
                 declared_charset=effective_charset_raw,
@@ -144,7 +144,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
         else:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_MISMATCH,
                 declared_charset=effective_charset_raw,
                 detected_charset=detected_raw,
diff --git a/httplint/content_type.py b/httplint/content_type.py
index cd1c1c2..32779aa 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -59,7 +59,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
         ]:
             return
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CONTENT_TYPE_MISMATCH,
             declared_type=declared_type,
             sniffed_type=str(sniffed_type),
diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 2ff1cda..2efb583 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -72,7 +72,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
 
         if bad_headers:
             message.notes.add(
-                "header-access-control-allow-headers",
+                " ".join(f"field-{name.lower()}" for name in bad_headers),
                 CORS_PREFLIGHT_ONLY,
                 headers=", ".join(bad_headers),
             )
@@ -82,7 +82,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
         acao_value = message.headers.parsed["access-control-allow-origin"]
         if isinstance(acao_value, str):
             if " " in acao_value or "," in acao_value:
-                message.notes.add("header-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
+                message.notes.add("field-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
 
 
 def check_access_control_allow_origin(  # pylint: disable=invalid-name
@@ -111,25 +111,25 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         request_origin_str = str(request_origin)
 
     if acao_value == "null" and request_origin_str != "null":
-        message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
+        message.notes.add("field-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
     if acao_value == "*":
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_STAR,
         )
         return
 
     if acao_value == request_origin_str:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MATCH,
             origin=request_origin_str,
         )
     else:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MISMATCH,
             origin=request_origin_str,
             acao_value=acao_value,
diff --git a/httplint/status.py b/httplint/status.py
index 84115de..2b814c7 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -100,7 +100,7 @@ class StatusChecker:
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
         if "content-range" not in self.response.headers.parsed:
-            self.add_note("field-location", PARTIAL_WITHOUT_RANGE)
+            self.add_note("field-content-range", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
         pass
@@ -136,7 +136,7 @@ class StatusChecker:
                 prohibited_headers.append(header)
         if prohibited_headers:
             self.add_note(
-                "field-content-type",
+                " ".join(f"field-{header}" for header in prohibited_headers),
                 HEADER_SHOULD_NOT_BE_IN_304,
                 headers=markdown_list(prohibited_headers, markup="`"),
             )
-- 
2.43.0


From 11a8e6a489f5f30f5398212f3fb095d44f6b9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 093/114] fix: preflight findings named a field that isn't in
 the request

---
 httplint/field/cors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 2efb583..0c5bff4 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -28,18 +28,22 @@ def check_preflight_request(message: RequestLinterProtocol) -> None:
     has_acr_headers = "access-control-request-headers" in message.headers.parsed
 
     if has_acr_method or has_acr_headers:
+        # name a field that's in the message
+        field_name = (
+            "Access-Control-Request-Method" if has_acr_method else "Access-Control-Request-Headers"
+        )
         if message.method != "OPTIONS":
             message.notes.add(
                 "method",
                 CORS_PREFLIGHT_REQ_METHOD_WRONG,
-                field_name="Access-Control-Request-Method",
+                field_name=field_name,
                 method=message.method,
             )
         if "origin" not in message.headers.parsed:
             message.notes.add(
                 "field-origin",
                 CORS_PREFLIGHT_REQ_NO_ORIGIN,
-                field_name="Access-Control-Request-Method",
+                field_name=field_name,
             )
         if not has_acr_method:
             message.notes.add(
-- 
2.43.0


From f28b680fb8b63740bb18ae90ed11da4f52cfeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 094/114] fix: syntax findings of singleton fields weren't
 filed under their field's category

---
 httplint/field/broken_field.py    | 2 +-
 httplint/field/singleton_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/broken_field.py b/httplint/field/broken_field.py
index 24c0a69..b09a1d0 100644
--- a/httplint/field/broken_field.py
+++ b/httplint/field/broken_field.py
@@ -35,7 +35,7 @@ class BrokenField(HttpField[TMessage], Generic[TMessage]):
             )
             if self.syntax:
                 if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", raw_value, RE_FLAGS):
-                    offset_add_note(BAD_SYNTAX, ref_uri=self.reference)
+                    offset_add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             try:
                 parsed_values.append(self.parse(raw_value.strip(OWS_CHARS), offset_add_note))
             except ValueError:
diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index 1fc43be..ea70d43 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -36,7 +36,7 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
             if self.syntax:
                 if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", first_raw, RE_FLAGS):
                     if self.report_syntax:
-                        add_note(BAD_SYNTAX, ref_uri=self.reference)
+                        add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             try:
                 self.value = self.parse(first_raw.strip(OWS_CHARS), add_note)
             except ValueError:
-- 
2.43.0


From ac9ec242c0d0bb5bb90a69abc9e732fe9624f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 095/114] fix: findings with relative times weren't equal to
 themselves found again

---
 httplint/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httplint/util.py b/httplint/util.py
index dc711c2..bf5debf 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -108,6 +108,14 @@ class RelativeTime:
     def __repr__(self) -> str:
         return f"RelativeTime({self.utime}, {self.now}, {self.show_sign})"
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, RelativeTime):
+            return NotImplemented
+        return (self.utime, self.now, self.show_sign) == (other.utime, other.now, other.show_sign)
+
+    def __hash__(self) -> int:
+        return hash((self.utime, self.now, self.show_sign))
+
 
 def relative_time(utime: float, now: float, show_sign: int = 1) -> Any:
     """
-- 
2.43.0


From d04b75f0f2516a7654c163568d7da262eb28f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 096/114] fix: corrupt content was said to have decompressed as
 many bytes as were received

---
 httplint/content_encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index d36eed9..7214237 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -141,7 +141,7 @@ class GzipProcessor:
                 "field-content-encoding",
                 BAD_ZLIB,
                 zlib_error=str(zlib_error),
-                ok_zlib_len=f_num(self.message.content_length),
+                ok_zlib_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
@@ -233,7 +233,7 @@ class BrotliProcessor:
                 "field-content-encoding",
                 BAD_BROTLI,
                 brotli_error=str(brotli_error),
-                ok_brotli_len=f_num(self.message.content_length),
+                ok_brotli_len=f_num(self._decompressed),
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
-- 
2.43.0


From 6a21a52ef6d0a023a89bebd2d5f10ff9ef4bdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 097/114] fix: unclosed quotes full of escapes took quadratic
 time to split into members

---
 httplint/field/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 54fb726..079cb8e 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -181,20 +181,26 @@ def split_string(instr: str, item: str, split: str) -> List[str]:
     return [h.strip() for h in re.findall(rf"{item}(?={split}|\s*$)", instr, re.VERBOSE)]
 
 
+_RE_QUOTED_START = re.compile(
+    rf"\" (?: {rfc9110.qdtext} | {rfc9110.quoted_pair} )*", re.VERBOSE | re.IGNORECASE
+)
+
+
 def split_list_field(field_value: str) -> List[str]:
     "Split a field field value on commas. needs to conform to the #rule."
     members = []
-    start = pos = 0
+    start = pos = unclosed = 0
     while pos < len(field_value):
         char = field_value[pos]
         if char == ",":
             members.append(field_value[start:pos])
             start = pos + 1
-        elif char == '"':
-            quoted = re.compile(rfc9110.quoted_string, RE_FLAGS).match(field_value, pos)
-            if quoted:
-                pos = quoted.end()
+        elif char == '"' and pos >= unclosed:
+            end = _RE_QUOTED_START.match(field_value, pos).end()  # type: ignore[union-attr]
+            if field_value[end : end + 1] == '"':
+                pos = end + 1
                 continue
+            unclosed = end  # any quotes before here are escaped, so they aren't closed either
         pos += 1
     members.append(field_value[start:])
     return [stripped for stripped in (member.strip(OWS_CHARS) for member in members) if stripped]
-- 
2.43.0


From 6f7854d8f8e7e8f5c88a6860a90dcbb2315efd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 098/114] fix: comments in From took quadratic time to match

---
 httplint/syntax/rfc5322.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 477543b..01063b0 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -120,7 +120,9 @@ angle_addr = rf"(?: {CFWS}? \< {addr_spec} \> {CFWS}? )"
 
 # name-addr       =   [display-name] angle-addr
 
-name_addr = rf"(?: {display_name}? {angle_addr} )"
+# Written so that CFWS before the angle bracket can only match one way (to avoid backtracking)
+
+name_addr = rf"(?: (?: {display_name} | {CFWS} )? \< {addr_spec} \> {CFWS}? )"
 
 # mailbox         =   name-addr / addr-spec
 
-- 
2.43.0


From d3389503297a31de787af5b760a16339d7298514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 099/114] fix: long names and comments in gzip headers took
 quadratic time to read in chunks

---
 httplint/content_encoding.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 7214237..6785ced 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -181,23 +181,17 @@ class GzipProcessor:
 
         if flag & gz_flags["FNAME"]:
             # Read and discard a null-terminated string
-            while True:
-                if len(content) <= offset:
-                    raise IndexError("Header not complete yet")
-                st1 = content[offset]
-                offset += 1
-                if st1 == 0:
-                    break
+            end = content.find(b"\0", offset)
+            if end < 0:
+                raise IndexError("Header not complete yet")
+            offset = end + 1
 
         if flag & gz_flags["FCOMMENT"]:
             # Read and discard a null-terminated string
-            while True:
-                if len(content) <= offset:
-                    raise IndexError("Header not complete yet")
-                st2 = content[offset]
-                offset += 1
-                if st2 == 0:
-                    break
+            end = content.find(b"\0", offset)
+            if end < 0:
+                raise IndexError("Header not complete yet")
+            offset = end + 1
 
         if flag & gz_flags["FHCRC"]:
             if len(content) < offset + 2:
-- 
2.43.0


From e915da74f98300b8db275b5629b17c17b8a2d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 100/114] fix: whitespace before and after values took
 quadratic time to check

---
 httplint/field/broken_field.py    | 5 +++--
 httplint/field/list_field.py      | 4 ++--
 httplint/field/singleton_field.py | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/httplint/field/broken_field.py b/httplint/field/broken_field.py
index b09a1d0..c25a6ee 100644
--- a/httplint/field/broken_field.py
+++ b/httplint/field/broken_field.py
@@ -33,11 +33,12 @@ class BrokenField(HttpField[TMessage], Generic[TMessage]):
                 f"offset-{offset}",
                 field_name=self.canonical_name,
             )
+            raw_value = raw_value.strip(OWS_CHARS)
             if self.syntax:
-                if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", raw_value, RE_FLAGS):
+                if not re.match(rf"^(?:{self.syntax})\Z", raw_value, RE_FLAGS):
                     offset_add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             try:
-                parsed_values.append(self.parse(raw_value.strip(OWS_CHARS), offset_add_note))
+                parsed_values.append(self.parse(raw_value, offset_add_note))
             except ValueError:
                 pass
         self.value = parsed_values
diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 82a3c3c..edf0c73 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -42,8 +42,8 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                     if isinstance(self.syntax, rfc9110.list_rule)
                     else self.syntax
                 )
-                if not re.match(rf"^[\t ]*(?:{element_syntax})[\t ]*\Z", value, RE_FLAGS):
-                    match = re.match(rf"^[\t ]*(?:{element_syntax})", value, RE_FLAGS)
+                if not re.match(rf"^(?:{element_syntax})\Z", value, RE_FLAGS):
+                    match = re.match(rf"^(?:{element_syntax})", value, RE_FLAGS)
                     if match:
                         bad_char_index = match.end()
                         context_start = max(0, bad_char_index - 20)
diff --git a/httplint/field/singleton_field.py b/httplint/field/singleton_field.py
index ea70d43..33981ea 100644
--- a/httplint/field/singleton_field.py
+++ b/httplint/field/singleton_field.py
@@ -33,12 +33,13 @@ class SingletonField(HttpField[TMessage], Generic[TMessage]):
             if len(self.raw_values) > 1:
                 add_note(SINGLE_HEADER_REPEAT)
             first_raw = self.raw_values[0]
+            first_raw = first_raw.strip(OWS_CHARS)
             if self.syntax:
-                if not re.match(rf"^[\t ]*(?:{self.syntax})[\t ]*\Z", first_raw, RE_FLAGS):
+                if not re.match(rf"^(?:{self.syntax})\Z", first_raw, RE_FLAGS):
                     if self.report_syntax:
                         add_note(BAD_SYNTAX, ref_uri=self.reference, category=self.category)
             try:
-                self.value = self.parse(first_raw.strip(OWS_CHARS), add_note)
+                self.value = self.parse(first_raw, add_note)
             except ValueError:
                 self.value = None
 
-- 
2.43.0


From 5b657681bb648b106e464c09692a6d4dbfe7ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 101/114] fix: unclosed quotes full of escapes in HSTS took
 quadratic time to split

---
 .../field/parsers/strict_transport_security.py     |  6 ++----
 httplint/field/utils.py                            | 14 ++++++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 8481571..6edae91 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -3,6 +3,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import split_unquoted
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -38,10 +39,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "preload": False,
         }
         # separated by semicolons, except inside quoted strings
-        directives = [
-            d.strip()
-            for d in re.findall(r'(?:^|;)((?:[^;"]|"(?:[^"\\]|\\.)*"|")*)', field_value)
-        ]
+        directives = [d.strip() for d in split_unquoted(field_value, ";")]
         if directives and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 079cb8e..3c8ea09 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -186,13 +186,13 @@ _RE_QUOTED_START = re.compile(
 )
 
 
-def split_list_field(field_value: str) -> List[str]:
-    "Split a field field value on commas. needs to conform to the #rule."
+def split_unquoted(field_value: str, delim: str) -> List[str]:
+    "Split a field value on a delimiter, except inside quoted strings."
     members = []
     start = pos = unclosed = 0
     while pos < len(field_value):
         char = field_value[pos]
-        if char == ",":
+        if char == delim:
             members.append(field_value[start:pos])
             start = pos + 1
         elif char == '"' and pos >= unclosed:
@@ -203,7 +203,13 @@ def split_list_field(field_value: str) -> List[str]:
             unclosed = end  # any quotes before here are escaped, so they aren't closed either
         pos += 1
     members.append(field_value[start:])
-    return [stripped for stripped in (member.strip(OWS_CHARS) for member in members) if stripped]
+    return members
+
+
+def split_list_field(field_value: str) -> List[str]:
+    "Split a field field value on commas. needs to conform to the #rule."
+    members = (member.strip(OWS_CHARS) for member in split_unquoted(field_value, ","))
+    return [member for member in members if member]
 
 
 def split_challenges(field_value: str) -> List[str]:
-- 
2.43.0


From 21a03ae657cca8c07e50073e676732af2a5bf8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:09 +0000
Subject: [PATCH 102/114] fix: a Brotli body could take any amount of memory to
 decompress

---
 httplint/content_encoding.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 6785ced..4dde230 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -2,7 +2,7 @@ import binascii
 import hashlib
 import weakref
 import zlib
-from typing import Any, Callable, Dict, List, Optional
+from typing import Any, Callable, Dict, Iterator, List, Optional
 
 import brotli
 
@@ -214,14 +214,15 @@ class BrotliProcessor:
             return
 
         try:
-            chunk = self._brotli_processor.process(chunk)
-            if chunk:
-                self._decompressed += len(chunk)
+            for decompressed in self._decompress(chunk):
+                if not decompressed:
+                    continue
+                self._decompressed += len(decompressed)
                 if self._decompressed > MAX_DECOMPRESSED_BYTES:
                     self.message.notes.add("field-content-encoding", DECOMPRESSION_LIMIT)
                     self.ok = False
                     return
-                self.next_processor(chunk)
+                self.next_processor(decompressed)
         except brotli.error as brotli_error:
             self.message.notes.add(
                 "field-content-encoding",
@@ -232,6 +233,18 @@ class BrotliProcessor:
             )
             self.ok = False
 
+    def _decompress(self, chunk: bytes) -> Iterator[bytes]:
+        """
+        Decompress a chunk, a limited amount at a time if the library can do that.
+        """
+        if not hasattr(self._brotli_processor, "can_accept_more_data"):  # Brotli < 1.2
+            yield self._brotli_processor.process(chunk)
+            return
+        decompressed = self._brotli_processor.process(chunk, output_buffer_limit=1024 * 1024)
+        while decompressed or not self._brotli_processor.can_accept_more_data():
+            yield decompressed
+            decompressed = self._brotli_processor.process(b"", output_buffer_limit=1024 * 1024)
+
 
 class DECOMPRESSION_LIMIT(Note):
     category = categories.CONNEG
-- 
2.43.0


From 84e0e6eb300994c4ae2ecf828a59ecf33e0e28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:55 +0000
Subject: [PATCH 103/114] fix: a byte order mark was reported as a different
 character encoding

---
 httplint/charset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index beb71bd..829ddbe 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -156,14 +156,15 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     Return True if decoding `sample` with `declared` and with `detected`
     yields the same text. This catches cases where chardet picks a
     different name (e.g. windows-1252 vs iso-8859-1) for content that is
-    identical under both.
+    identical under both. A byte order mark isn't text, so utf-8 and
+    utf-8-sig are too.
     """
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
     except (UnicodeError, LookupError):
         return False
-    return declared_text == detected_text
+    return declared_text.removeprefix("\ufeff") == detected_text.removeprefix("\ufeff")
 
 
 class CHARSET_MISMATCH(Note):
-- 
2.43.0


From 4e029730102963fe8f3083bb6052d0905fbf9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:04 +0000
Subject: [PATCH 104/114] fix: the translation check failed on messages with
 plurals

---
 tools/i18n/check.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tools/i18n/check.py b/tools/i18n/check.py
index 88b40bf..bed5831 100755
--- a/tools/i18n/check.py
+++ b/tools/i18n/check.py
@@ -68,22 +68,26 @@ class CatalogChecker:
             if not message.id:
                 continue
 
+            # messages with plurals have several strings
+            ids = message.id if message.pluralizable else (message.id,)
+            strings = message.string if message.pluralizable else (message.string,)
+
             # 1. Check for fuzzy
             if "fuzzy" in message.flags:
                 issues.append(
-                    TranslationIssue(IssueType.FUZZY, message.id, message.lineno)
+                    TranslationIssue(IssueType.FUZZY, ids[0], message.lineno)
                 )
 
             # 2. Check for missing
-            if not message.string:
+            if not all(strings):
                 issues.append(
-                    TranslationIssue(IssueType.MISSING, message.id, message.lineno)
+                    TranslationIssue(IssueType.MISSING, ids[0], message.lineno)
                 )
                 continue
 
             # 3. Check variables
-            orig_vars = self.find_variables(message.id)
-            trans_vars = self.find_variables(message.string)
+            orig_vars = set().union(*[self.find_variables(i) for i in ids])
+            trans_vars = set().union(*[self.find_variables(s) for s in strings])
 
             missing_vars = orig_vars - trans_vars
             extra_vars = trans_vars - orig_vars
@@ -92,7 +96,7 @@ class CatalogChecker:
                 issues.append(
                     TranslationIssue(
                         IssueType.BAD_VARIABLE,
-                        message.id,
+                        ids[0],
                         message.lineno,
                         f"Missing: {', '.join(sorted(missing_vars))}",
                     )
@@ -102,20 +106,21 @@ class CatalogChecker:
                 issues.append(
                     TranslationIssue(
                         IssueType.BAD_VARIABLE,
-                        message.id,
+                        ids[0],
                         message.lineno,
                         f"Extra: {', '.join(sorted(extra_vars))}",
                     )
                 )
 
             # 4. Check syntax (stray %)
-            valid, error_msg = self.validate_format_string(message.string)
-            if not valid:
-                issues.append(
-                    TranslationIssue(
-                        IssueType.SYNTAX_ERROR, message.id, message.lineno, error_msg
+            for string in strings:
+                valid, error_msg = self.validate_format_string(string)
+                if not valid:
+                    issues.append(
+                        TranslationIssue(
+                            IssueType.SYNTAX_ERROR, ids[0], message.lineno, error_msg
+                        )
                     )
-                )
 
         return issues
 
-- 
2.43.0


From c738ca053a46f0370f696b718add0c5e8bab876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 105/114] fix: automatic translation spoiled messages with
 plurals

---
 tools/i18n/autotranslate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/i18n/autotranslate.py b/tools/i18n/autotranslate.py
index 38bb9f0..2f94d20 100644
--- a/tools/i18n/autotranslate.py
+++ b/tools/i18n/autotranslate.py
@@ -11,7 +11,9 @@ def autotranslate_file(po_file, lang, model_id, rpm):
 
     # Identify messages that need translation (empty or fuzzy)
     to_translate = [
-        m for m in catalog if m.id and (not m.string or "fuzzy" in m.flags)
+        m
+        for m in catalog
+        if m.id and not m.pluralizable and (not m.string or "fuzzy" in m.flags)
     ]
     count = 0
     errors = []
-- 
2.43.0


From c10a1c42a07fe4f244af947f5b35bf51dcbd61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:19 +0000
Subject: [PATCH 106/114] fix: messages couldn't be extracted with Babel 2.18

---
 tools/i18n/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/i18n/extractors.py b/tools/i18n/extractors.py
index 465054b..cbe2385 100644
--- a/tools/i18n/extractors.py
+++ b/tools/i18n/extractors.py
@@ -57,7 +57,7 @@ def extract_notes(
     if isinstance(extra_keywords, str):
         extra_keywords = extra_keywords.split()
 
-    all_keywords = list(keywords) + extra_keywords
+    all_keywords = list(keywords) + list(extra_keywords)  # Babel >= 2.18 parses it into a dict
 
     # We need to pass a container that supports 'in' to extract_python.
     # A list is fine.
-- 
2.43.0


From dc891c9a3fa39ea2bd3ebbd28ea42bd68f6ac7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 107/114] fix: messages of indirect subclasses of Note and
 HttpField weren't extracted

---
 tools/i18n/extractors.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/tools/i18n/extractors.py b/tools/i18n/extractors.py
index cbe2385..384ee21 100644
--- a/tools/i18n/extractors.py
+++ b/tools/i18n/extractors.py
@@ -7,10 +7,10 @@ def extract_notes(
     fileobj, keywords, comment_tags, options
 ) -> Iterator[Tuple[int, str, List[str], List[str]]]:
     """
-    Extract messages from Note subclasses in Python source code.
+    Extract messages from Note and HttpField subclasses in Python source code.
 
-    This looks for classes that inherit from 'Note' or 'HttpField' (or have them in their bases)
-    and extracts the strings assigned to '_summary', '_text', or 'description'.
+    This extracts the strings assigned to '_summary', '_text', or 'description' in classes that
+    have bases; many only inherit from 'Note' or 'HttpField' through a class in another module.
 
     It also delegates to the standard Python extractor to find other messages.
     """
@@ -20,21 +20,7 @@ def extract_notes(
 
     for node in ast.walk(tree):
         if isinstance(node, ast.ClassDef):
-            # Check if class inherits from Note or HttpField (simple check)
-            is_target = False
-            for base in node.bases:
-                if isinstance(base, ast.Name) and base.id in ["Note", "HttpField"]:
-                    is_target = True
-                    break
-                # Handle module.Note or module.HttpField
-                if isinstance(base, ast.Attribute) and base.attr in [
-                    "Note",
-                    "HttpField",
-                ]:
-                    is_target = True
-                    break
-
-            if is_target:
+            if node.bases:
                 for item in node.body:
                     if isinstance(item, ast.Assign):
                         for target in item.targets:
-- 
2.43.0


From fe0f040a25cda4937510ec2fef1767435b6d9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:05 +0000
Subject: [PATCH 108/114] fix: padding around a line became part of a JSON or
 Structured Field value

---
 httplint/field/json_field.py       | 3 ++-
 httplint/field/structured_field.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 459995c..2ad160d 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -2,6 +2,7 @@ import json
 from typing import Generic, NoReturn
 
 from httplint.field import HttpField
+from httplint.field.utils import OWS_CHARS
 from httplint.note import Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -21,7 +22,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
     syntax = False
 
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        self.value.append(field_value)
+        self.value.append(field_value.strip(OWS_CHARS))
 
     def finish(self, add_note: AddNoteMethodType) -> None:
         if not self.value:
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 5c37b30..95638f2 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -26,7 +26,7 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
         self._sf_parsed = False
 
     def handle_input(self, field_value: str, add_note: AddNoteMethodType, offset: int) -> None:
-        self.value.append(field_value)
+        self.value.append(field_value.strip(OWS_CHARS))
         self._sf_parsed = False
 
     def finish(self, add_note: AddNoteMethodType) -> None:
-- 
2.43.0


From a38f32f07102c5b872be332b57bfe9b2934eaf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 109/114] fix: a linter with deeply nested JSON couldn't be
 pickled

---
 httplint/field/json_field.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 2ad160d..6156080 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -1,11 +1,28 @@
 import json
-from typing import Generic, NoReturn
+from typing import Any, Generic, NoReturn
 
 from httplint.field import HttpField
 from httplint.field.utils import OWS_CHARS
 from httplint.note import Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
+MAX_NESTING = 100  # beyond this, values can't be relied on to be pickled (or rendered)
+
+
+def _check_nesting(value: Any) -> None:
+    """Raise ValueError if arrays and objects are nested too deeply."""
+    level = [value]
+    for _ in range(MAX_NESTING + 1):
+        level = [
+            member
+            for v in level
+            if isinstance(v, (list, dict))
+            for member in (v.values() if isinstance(v, dict) else v)
+        ]
+        if not level:
+            return
+    raise ValueError(f"Nested more than {MAX_NESTING} levels deep")
+
 
 def _not_json(constant: str) -> NoReturn:
     """NaN and the infinities are extensions of Python's parser, not JSON."""
@@ -31,6 +48,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value, parse_constant=_not_json)
+            _check_nesting(self.value)
         except (ValueError, RecursionError) as why:  # includes oversized numbers and nesting
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
-- 
2.43.0


From 974afc64a432318117656a18b2070e35f061b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 110/114] fix: don't ask for Content-Range in
 multipart/byteranges responses

---
 httplint/status.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index 2b814c7..66b99cc 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -99,7 +99,10 @@ class StatusChecker:
     def status206(self) -> None:  # Partial Content
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
-        if "content-range" not in self.response.headers.parsed:
+        # in multipart/byteranges, each part has its own Content-Range
+        content_type = self.response.headers.parsed.get("content-type")
+        multipart = content_type is not None and content_type[0] == "multipart/byteranges"
+        if "content-range" not in self.response.headers.parsed and not multipart:
             self.add_note("field-content-range", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
-- 
2.43.0


From bb45a204668c67dcfefb3ed839a30de4471851fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:58 +0000
Subject: [PATCH 111/114] fix: don't re-read a long gzip header with every
 chunk

---
 httplint/content_encoding.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index 4dde230..e2b75e1 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -96,7 +96,8 @@ class GzipProcessor:
                 chunk = self._read_gzip_header(self._gzip_header_buffer)
                 self._in_gzip = True
                 self._gzip_header_buffer = b""
-            except IndexError:
+            except IncompleteGzipHeader as incomplete:
+                self._gzip_header_buffer = incomplete.needed
                 return  # not a full header yet
             except IOError as gzip_error:
                 self.message.notes.add(
@@ -155,7 +156,7 @@ class GzipProcessor:
         # adapted from gzip.py
         gz_flags = {"FTEXT": 1, "FHCRC": 2, "FEXTRA": 4, "FNAME": 8, "FCOMMENT": 16}
         if len(content) < 10:
-            raise IndexError("Header not complete yet")
+            raise IncompleteGzipHeader(content)
         magic = content[:2]
         if magic != b"\037\213":
             raise IOError(
@@ -168,39 +169,54 @@ class GzipProcessor:
         flag = content[3]
 
         offset = 10
+        needed = content[:offset]
 
         if flag & gz_flags["FEXTRA"]:
             if len(content) < offset + 2:
-                raise IndexError("Header not complete yet")
+                raise IncompleteGzipHeader(content)
             # Read & discard the extra field, if present
             xlen = content[offset] + 256 * content[offset + 1]
             offset += 2
             if len(content) < offset + xlen:
-                raise IndexError("Header not complete yet")
+                raise IncompleteGzipHeader(content)
             offset += xlen
+            needed += b"\0\0"
 
         if flag & gz_flags["FNAME"]:
             # Read and discard a null-terminated string
             end = content.find(b"\0", offset)
             if end < 0:
-                raise IndexError("Header not complete yet")
+                raise IncompleteGzipHeader(needed)
             offset = end + 1
+            needed += b"\0"
 
         if flag & gz_flags["FCOMMENT"]:
             # Read and discard a null-terminated string
             end = content.find(b"\0", offset)
             if end < 0:
-                raise IndexError("Header not complete yet")
+                raise IncompleteGzipHeader(needed)
             offset = end + 1
+            needed += b"\0"
 
         if flag & gz_flags["FHCRC"]:
             if len(content) < offset + 2:
-                raise IndexError("Header not complete yet")
+                raise IncompleteGzipHeader(needed + content[offset:])
             offset += 2
 
         return content[offset:]
 
 
+class IncompleteGzipHeader(IndexError):
+    """
+    The header isn't complete yet. `needed` stands for what has been seen so far; what's discarded
+    anyway is shortened in it, so that it doesn't grow with each chunk.
+    """
+
+    def __init__(self, needed: bytes) -> None:
+        IndexError.__init__(self, "Header not complete yet")
+        self.needed = needed
+
+
 class BrotliProcessor:
     def __init__(self, message: LinterProtocol, next_processor: Callable[[bytes], None]) -> None:
         self.message = message
-- 
2.43.0


From d5fbcf88def6e331e9cde8407ee876b72fab694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:42 +0000
Subject: [PATCH 112/114] fix: a host that IDNA turns into other delimiters
 became another path, query or fragment

---
 httplint/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index bf5debf..0390d3a 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -29,7 +29,10 @@ def iri_to_uri(iri: str) -> str:
     userinfo = urlquote(userinfo, safe="-.~" + sub_delims + ":%")
     if not hostport.isascii():
         host, colon, port = hostport.partition(":")
-        hostport = host.encode("idna").decode("ascii") + colon + port
+        host = host.encode("idna").decode("ascii")
+        if re.search(r"[:/?#@\[\]]", host):  # IDNA turned a character into a delimiter
+            raise ValueError("Not a host name")
+        hostport = host + colon + port
     path = urlquote(path, safe=pchar + "/")
     query = urlquote(query, safe=pchar + "/?")
     frag = "#" + urlquote(frag[1:], safe=pchar + "/?") if frag else ""
-- 
2.43.0


From 75fe5f5c6ad852ae54be791ed11caf4f7624fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:55 +0000
Subject: [PATCH 113/114] fix: an Age or Access-Control-Max-Age of -0 wasn't
 reported

---
 httplint/field/parsers/access_control_max_age.py | 2 +-
 httplint/field/parsers/age.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index d73eab7..f3d5a9f 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -30,7 +30,7 @@ request (as scoped by the `Access-Control-Allow-Methods` and
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
             raise
 
-        if val < 0:
+        if field_value.startswith("-"):
             add_note(CORS_MAX_AGE_NEGATIVE, ref_uri=self.reference)
             raise ValueError
         return val
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index 63d194c..7e23aff 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -27,7 +27,7 @@ The `Age` response header conveys the sender's estimate of the amount of time si
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
-        if age_value < 0:
+        if field_value.startswith("-"):
             add_note(AGE_NEGATIVE)
             raise ValueError
         if age_value > 2147483648:
-- 
2.43.0


From 556991c61c0d1c4747704fb09434f8cb0f712358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:04 +0000
Subject: [PATCH 114/114] fix: text that looks like an entity or a stand-in for
 a variable was shown as something else in a note's detail

---
 httplint/note.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/httplint/note.py b/httplint/note.py
index 7441e23..94ef4f0 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -157,12 +157,17 @@ class Note:
         """
         tokens: Dict[str, str] = {}
         safe_vars: Dict[str, str] = {}
+
+        def tokenise(text: str) -> str:
+            token = f"\ue000{len(tokens)}\ue001"
+            tokens[token] = str(escape(text))
+            return token
+
         for key, val in self.vars.items():
-            if isinstance(val, MarkdownSafe):
-                safe_vars[key] = str(val)
+            if isinstance(val, MarkdownSafe):  # wire data in it can look like tokens or entities
+                safe_vars[key] = re.sub("&|\ue000[0-9]+\ue001", lambda m: tokenise(m[0]), str(val))
             else:
-                safe_vars[key] = f"\ue000{len(tokens)}\ue001"
-                tokens[safe_vars[key]] = str(escape(str(val)))
+                safe_vars[key] = tokenise(str(val))
         html = _get_markdown().reset().convert(translate(self._text) % safe_vars)
         return Markup(
             re.sub("\ue000[0-9]+\ue001", lambda m: tokens.get(m[0], m[0]), html)
-- 
2.43.0

