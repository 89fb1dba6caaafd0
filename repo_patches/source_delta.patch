From d953ed543eba161930cc7e5f4853cb23ad1c13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 01/48] fix: match paths and hosts to the very end, and path
 parameters across newlines

---
 starlette/convertors.py | 2 +-
 starlette/routing.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/convertors.py b/starlette/convertors.py
index 84df87a..1879f05 100644
--- a/starlette/convertors.py
+++ b/starlette/convertors.py
@@ -31,7 +31,7 @@ class StringConvertor(Convertor[str]):
 
 
 class PathConvertor(Convertor[str]):
-    regex = ".*"
+    regex = "(?s:.*)"
 
     def convert(self, value: str) -> str:
         return str(value)
diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..73ed6a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -166,9 +166,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From 10b8f87efcaed518e70662e481c244b9d56c1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 02/48] fix: insert URL parameters literally and require mount
 and host parameters when reversing

---
 starlette/routing.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 73ed6a1..04086b9 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,13 +106,14 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
-    for key, value in list(path_params.items()):
-        if "{" + key + "}" in path:
-            convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
-            path_params.pop(key)
-    return path, path_params
+    # A single pass, so that values are inserted literally even if they contain "{...}".
+    def replace(match: re.Match[str]) -> str:
+        key = match.group(1)
+        if key not in path_params:
+            return match.group(0)
+        return param_convertors[key].to_string(path_params.pop(key))
+
+    return PARAM_REGEX.sub(replace, path), path_params
 
 
 # Match parameters in URL paths, eg. '{param}', and '{param:int}'
@@ -430,6 +431,9 @@ class Mount(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys() - {"path"}:
+            raise NoMatchFound(name, path_params)
+
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path_params["path"] = path_params["path"].lstrip("/")
@@ -496,6 +500,9 @@ class Host(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys():
+            raise NoMatchFound(name, path_params)
+
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-- 
2.43.0


From df5041adc3fb98862569288485f5d6ea2c52c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 03/48] fix: encode URL-significant characters of the request
 path in URL(scope=...)

---
 starlette/datastructures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..fbef661 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -20,6 +20,11 @@ _KeyType = typing.TypeVar("_KeyType")
 _CovariantValueType = typing.TypeVar("_CovariantValueType", covariant=True)
 
 
+# "scope['path']" is percent-decoded. These characters have to be encoded again, or they
+# would be read as the start of a query, fragment or escape sequence, or be dropped.
+_PATH_ESCAPES = str.maketrans({char: f"%{ord(char):02X}" for char in "%?#\t\r\n"})
+
+
 class URL:
     def __init__(
         self,
@@ -32,7 +37,7 @@ class URL:
             assert not components, 'Cannot set both "scope" and "**components".'
             scheme = scope.get("scheme", "http")
             server = scope.get("server", None)
-            path = scope["path"]
+            path = scope["path"].translate(_PATH_ESCAPES)
             query_string = scope.get("query_string", b"")
 
             host_header = None
-- 
2.43.0


From 82d90eb812c592544366cb344b4ec010a51e141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 04/48] fix: answer 405 for methods named like attributes of
 HTTPEndpoint

---
 starlette/endpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..ea157db 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -32,7 +32,10 @@ class HTTPEndpoint:
         request = Request(self.scope, receive=self.receive)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
-        handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
+        handler: typing.Callable[[Request], typing.Any] = self.method_not_allowed
+        # Attributes of the base class or of the instance, such as "dispatch" or "send", are not handlers.
+        if not hasattr(HTTPEndpoint, handler_name) and getattr(type(self), handler_name, None) is not None:
+            handler = getattr(self, handler_name)
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 870485907e1ca47e9849a1d0a7a301fe97bd5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 05/48] fix: keep the values of all Vary headers when adding to
 them

---
 starlette/datastructures.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index fbef661..b81e2e7 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -645,10 +645,7 @@ class MutableHeaders(Headers):
         self._list.append((append_key, append_value))
 
     def add_vary_header(self, vary: str) -> None:
-        existing = self.get("vary")
-        if existing is not None:
-            vary = ", ".join([existing, vary])
-        self["vary"] = vary
+        self["vary"] = ", ".join([*self.getlist("vary"), vary])
 
 
 class State:
-- 
2.43.0


From f62a857c26d469197cd888997d44854a1097712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 06/48] fix: bracket IPv6 server addresses in URL(scope=...)

---
 starlette/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index b81e2e7..4cb5c06 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -52,6 +52,8 @@ class URL:
                 url = path
             else:
                 host, port = server
+                if ":" in host:
+                    host = f"[{host}]"
                 default_port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]
                 if port == default_port:
                     url = f"{scheme}://{host}{path}"
-- 
2.43.0


From b88d0a71d408aefa4ef4dc0d9a586d1de9db954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 07/48] fix: report malformed and truncated multipart bodies as
 client errors

---
 starlette/formparsers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..8787d0b 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -10,17 +10,21 @@ from starlette.datastructures import FormData, Headers, UploadFile
 
 if typing.TYPE_CHECKING:
     import python_multipart as multipart
+    from python_multipart.exceptions import FormParserError
     from python_multipart.multipart import MultipartCallbacks, QuerystringCallbacks, parse_options_header
 else:
     try:
         try:
             import python_multipart as multipart
+            from python_multipart.exceptions import FormParserError
             from python_multipart.multipart import parse_options_header
         except ModuleNotFoundError:  # pragma: no cover
             import multipart
+            from multipart.exceptions import FormParserError
             from multipart.multipart import parse_options_header
     except ModuleNotFoundError:  # pragma: no cover
         multipart = None
+        FormParserError = None
         parse_options_header = None
 
 
@@ -142,6 +146,7 @@ class MultiPartParser:
         self.max_files = max_files
         self.max_fields = max_fields
         self.items: list[tuple[str, str | UploadFile]] = []
+        self._ended = False
         self._current_files = 0
         self._current_fields = 0
         self._current_partial_header_name: bytes = b""
@@ -220,7 +225,7 @@ class MultiPartParser:
             self._current_part.file = None
 
     def on_end(self) -> None:
-        pass
+        self._ended = True
 
     async def parse(self) -> FormData:
         # Parse the Content-Type header to get the multipart boundary.
@@ -247,8 +252,8 @@ class MultiPartParser:
         }
 
         # Create the parser.
-        parser = multipart.MultipartParser(boundary, callbacks)
         try:
+            parser = multipart.MultipartParser(boundary, callbacks)
             # Feed the parser with data from the request.
             async for chunk in self.stream:
                 parser.write(chunk)
@@ -265,11 +270,15 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
+            parser.finalize()
+            if not self._ended:
+                raise MultiPartException("The multipart body ended before its closing boundary.")
+        except (MultiPartException, FormParserError) as exc:
             # Close all the files if there was an error.
             for file in self._files_to_close_on_error:
                 file.close()
+            if isinstance(exc, FormParserError):
+                raise MultiPartException(f"Malformed multipart body: {exc}") from exc
             raise exc
 
-        parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From 0a4a7035fd3c1132f4e1d6e5946f2789171410d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 08/48] fix: fall back to latin-1 for every decoding failure in
 multipart forms

---
 starlette/formparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 8787d0b..bc94d6c 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -48,7 +48,7 @@ class MultipartPart:
 def _user_safe_decode(src: bytes | bytearray, codec: str) -> str:
     try:
         return src.decode(codec)
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return src.decode("latin-1")
 
 
-- 
2.43.0


From b3a7a945a490980213e8a68cfc6523a1e573b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 09/48] fix: merge overlapping byte ranges completely

---
 starlette/responses.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..82a5f26 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -479,17 +479,10 @@ class FileResponse(Response):
 
         # Merge ranges
         result: list[tuple[int, int]] = []
-        for start, end in ranges:
-            for p in range(len(result)):
-                p_start, p_end = result[p]
-                if start > p_end:
-                    continue
-                elif end < p_start:
-                    result.insert(p, (start, end))  # THIS IS NOT REACHED!
-                    break
-                else:
-                    result[p] = (min(start, p_start), max(end, p_end))
-                    break
+        for start, end in sorted(ranges):
+            if result and start <= result[-1][1]:
+                p_start, p_end = result[-1]
+                result[-1] = (p_start, max(end, p_end))
             else:
                 result.append((start, end))
 
-- 
2.43.0


From 8106cba71e44721b06a6e16f06cca8360317b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 10/48] fix: refuse byte ranges whose end is one before their
 start

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 82a5f26..a4b937c 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,7 +471,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From ce7ac1fdd9ab024754cd1aa2928d9f51bc5407ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 11/48] fix: serve the whole file for a suffix range longer
 than it

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index a4b937c..d4de93f 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -458,7 +458,7 @@ class FileResponse(Response):
 
         ranges = [
             (
-                int(_[0]) if _[0] else file_size - int(_[1]),
+                int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
                 int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
             )
             for _ in _RANGE_PATTERN.findall(range_)
-- 
2.43.0


From b883e2f3a3889228c48694a7df745cc5fa2d255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 12/48] fix: answer 404 for static file paths with a null byte

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..cec97d1 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -117,6 +117,9 @@ class StaticFiles:
             full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, path)
         except PermissionError:
             raise HTTPException(status_code=401)
+        except ValueError:
+            # A null byte or an unencodable character, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
         except OSError as exc:
             # Filename is too long, so it can't be a valid static file.
             if exc.errno == errno.ENAMETOOLONG:
-- 
2.43.0


From d25a7e466dd8787fd2bc385f8ff429caa1883c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 13/48] fix: ignore If-Modified-Since when the request has
 If-None-Match

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index cec97d1..3fca037 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -207,8 +207,8 @@ class StaticFiles:
         try:
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
+            # If-Modified-Since is ignored when there is an If-None-Match.
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
         except KeyError:
             pass
 
-- 
2.43.0


From 249aad848f8f82e579c725eb6ac0800eaa08d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 14/48] fix: serve byte ranges only for responses with status
 200

---
 starlette/responses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index d4de93f..fb7bdec 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -355,7 +355,11 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        if (
+            http_range is None
+            or self.status_code != 200
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From bd05afa278d4fe40645face192f43f1a4063f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 15/48] fix: match IPv6 addresses against trusted hosts

---
 starlette/middleware/trustedhost.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/trustedhost.py b/starlette/middleware/trustedhost.py
index 2d1c999..6fec7d0 100644
--- a/starlette/middleware/trustedhost.py
+++ b/starlette/middleware/trustedhost.py
@@ -37,7 +37,10 @@ class TrustedHostMiddleware:
             return
 
         headers = Headers(scope=scope)
-        host = headers.get("host", "").split(":")[0]
+        host = headers.get("host", "")
+        # The colons within the brackets of an IPv6 address do not start a port.
+        end = host.find("]") + 1 if host.startswith("[") else 0
+        host = host[:end] + host[end:].split(":")[0]
         is_valid_host = False
         found_www_redirect = False
         for pattern in self.allowed_hosts:
-- 
2.43.0


From 4a5374f0d2b198c80abb297e214444740193c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 16/48] fix: keep the brackets of IPv6 addresses in HTTPS
 redirects

---
 starlette/middleware/httpsredirect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index a835906..11b8ac1 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -11,8 +11,10 @@ class HTTPSRedirectMiddleware:
         if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
-            netloc = url.hostname if url.port in (80, 443) else url.netloc
-            url = url.replace(scheme=redirect_scheme, netloc=netloc)
+            if url.port in (80, 443):
+                # Keeps the brackets of an IPv6 address, unlike `url.hostname`.
+                url = url.replace(port=None)
+            url = url.replace(scheme=redirect_scheme)
             response = RedirectResponse(url, status_code=307)
             await response(scope, receive, send)
         else:
-- 
2.43.0


From 13a81c9627638932d28e6f15b88aba41bfb07a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 17/48] fix: do not modify the headers of a response object
 when compressing it

---
 starlette/middleware/gzip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..736550c 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -50,7 +50,8 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
-            self.initial_message = message
+            # Copied, because the headers may belong to a response that is sent again.
+            self.initial_message = {**message, "headers": list(message.get("headers", []))}
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
             self.content_type_is_excluded = headers.get("content-type", "").startswith(DEFAULT_EXCLUDED_CONTENT_TYPES)
-- 
2.43.0


From 1e06cae12878339bccb13ebaa70e188ae672cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 18/48] fix: mark a body as compressed whenever it is

---
 starlette/middleware/gzip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 736550c..232f403 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -30,7 +30,7 @@ class GZipMiddleware:
 
 
 class IdentityResponder:
-    content_encoding: str
+    content_encoding: typing.Union[str, None] = None
 
     def __init__(self, app: ASGIApp, minimum_size: int) -> None:
         self.app = app
@@ -74,7 +74,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if self.content_encoding is not None:
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
                     message["body"] = body
@@ -87,7 +87,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if self.content_encoding is not None:
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
                     message["body"] = body
-- 
2.43.0


From 46d018fa1758e3defac5b1cffe637c8a85bc14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 19/48] fix: do not compress for clients that refuse gzip

---
 starlette/middleware/gzip.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 232f403..585885c 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -8,6 +8,15 @@ from starlette.types import ASGIApp, Message, Receive, Scope, Send
 DEFAULT_EXCLUDED_CONTENT_TYPES = ("text/event-stream",)
 
 
+def accepts_gzip(accept_encoding: str) -> bool:
+    for item in accept_encoding.lower().split(","):
+        coding, *params = [part.strip() for part in item.split(";")]
+        if coding in ("gzip", "x-gzip"):
+            # A weight of zero, such as "q=0" or "q=0.000", means not acceptable.
+            return not any(param.startswith("q=") and not param[2:].strip("0.") for param in params)
+    return False
+
+
 class GZipMiddleware:
     def __init__(self, app: ASGIApp, minimum_size: int = 500, compresslevel: int = 9) -> None:
         self.app = app
@@ -21,7 +30,7 @@ class GZipMiddleware:
 
         headers = Headers(scope=scope)
         responder: ASGIApp
-        if "gzip" in headers.get("Accept-Encoding", ""):
+        if accepts_gzip(headers.get("Accept-Encoding", "")):
             responder = GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)
         else:
             responder = IdentityResponder(self.app, self.minimum_size)
-- 
2.43.0


From 5acdb00b7d8ba825e114085760a587ac20c06d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 20/48] fix: forward messages other than the response start and
 body through GZipMiddleware

---
 starlette/middleware/gzip.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 585885c..6132170 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -103,7 +103,7 @@ class IdentityResponder:
 
                 await self.send(self.initial_message)
                 await self.send(message)
-        elif message_type == "http.response.body":  # pragma: no branch
+        elif message_type == "http.response.body":
             # Remaining body in streaming response.
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
@@ -111,6 +111,14 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        else:
+            # Such as "http.response.debug", "http.response.pathsend" or "http.response.trailers".
+            if self.initial_message and not self.started:
+                # The headers have to go out now, so what follows can't be compressed any more.
+                self.started = True
+                self.content_encoding_set = True
+                await self.send(self.initial_message)
+            await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
         """Apply compression on the response body.
-- 
2.43.0


From 8074f4feff33209514cac774ee92da42fbec7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 21/48] fix: debug responses for exception text that is not
 encodable hid the original exception

---
 starlette/middleware/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 76ad776..9e8efd6 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -252,9 +252,9 @@ class ServerErrorMiddleware:
 
         if "text/html" in accept:
             content = self.generate_html(exc)
-            return HTMLResponse(content, status_code=500)
+            return HTMLResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
         content = self.generate_plain_text(exc)
-        return PlainTextResponse(content, status_code=500)
+        return PlainTextResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
 
     def error_response(self, request: Request, exc: Exception) -> Response:
         return PlainTextResponse("Internal Server Error", status_code=500)
-- 
2.43.0


From 1bf9744ad818ee7d08d7305462ca77ffde2ad12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 22/48] fix: a semicolon after a space vanished from source
 lines on debug pages

---
 starlette/middleware/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 9e8efd6..e29d6e1 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -189,7 +189,7 @@ class ServerErrorMiddleware:
     def format_line(self, index: int, line: str, frame_lineno: int, frame_index: int) -> str:
         values = {
             # HTML escape - line could contain < or >
-            "line": html.escape(line).replace(" ", "&nbsp"),
+            "line": html.escape(line).replace(" ", "&nbsp;"),
             "lineno": (frame_lineno - frame_index) + index,
         }
 
-- 
2.43.0


From 54257fa8e5d035d218fbeb168d9de08508d6ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 23/48] fix: streaming and file responses could not be sent as
 websocket denial responses

---
 starlette/websockets.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/starlette/websockets.py b/starlette/websockets.py
index 6b46f4e..437fe57 100644
--- a/starlette/websockets.py
+++ b/starlette/websockets.py
@@ -181,10 +181,21 @@ class WebSocket(HTTPConnection):
 
     async def send_denial_response(self, response: Response) -> None:
         if "websocket.http.response" in self.scope.get("extensions", {}):
-            await response(self.scope, self.receive, self.send)
+            await response({**self.scope, "method": "GET"}, self._denial_receive, self._denial_send)
         else:
             raise RuntimeError("The server doesn't support the Websocket Denial Response extension.")
 
+    async def _denial_receive(self) -> Message:
+        # Streaming responses listen for "http.disconnect".
+        message = await self.receive()
+        return {"type": "http.disconnect"} if message["type"] == "websocket.disconnect" else message
+
+    async def _denial_send(self, message: Message) -> None:
+        # Streaming and file responses send their messages without the "websocket." prefix.
+        if message["type"].startswith("http.response."):
+            message = {**message, "type": "websocket." + message["type"]}
+        await self.send(message)
+
 
 class WebSocketClose:
     def __init__(self, code: int = 1000, reason: str | None = None) -> None:
-- 
2.43.0


From ba78980a778b25094e453fdbe245316ab49014ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 24/48] fix: an empty text message raised KeyError in websocket
 endpoints without encoding

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index ea157db..b7f6244 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -112,7 +112,7 @@ class WebSocketEndpoint:
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From 39dd71d3f36b1a43f38615d04910dbe2065c375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 25/48] fix: websocket endpoints took a message with a null
 payload for one of their encoding

---
 starlette/endpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index b7f6244..ec9deea 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -88,13 +88,13 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
-- 
2.43.0


From 3c37bd6a187c5134760e73163d9d43a9219267c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 26/48] fix: undecodable JSON messages did not close the
 websocket with 1003

---
 starlette/endpoints.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index ec9deea..013b3c5 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -100,14 +100,13 @@ class WebSocketEndpoint:
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except ValueError:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
-- 
2.43.0


From 7072a62c15b522ecf9a579ec2b477275225e443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 27/48] fix: an invalid config value raised AttributeError for
 casts without a name

---
 starlette/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/config.py b/starlette/config.py
index ca15c56..9052499 100644
--- a/starlette/config.py
+++ b/starlette/config.py
@@ -135,4 +135,4 @@ class Config:
         try:
             return cast(value)
         except (TypeError, ValueError):
-            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {cast.__name__}.")
+            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {getattr(cast, '__name__', cast)}.")
-- 
2.43.0


From 90276a27b4d65a838e9ded1d4296cf8aa84ee6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 28/48] fix: the WSGI path was cut in the middle of a segment

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 6e0a3fa..0d46d3e 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -25,7 +25,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
 
     script_name = scope.get("root_path", "").encode("utf8").decode("latin1")
     path_info = scope["path"].encode("utf8").decode("latin1")
-    if path_info.startswith(script_name):
+    if path_info == script_name or path_info.startswith(script_name + "/"):
         path_info = path_info[len(script_name) :]
 
     environ = {
-- 
2.43.0


From 547958bc98c60ca9b874a5b24d06be91a705f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 29/48] fix: WSGI requests with a non-ASCII query string raised
 UnicodeDecodeError

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 0d46d3e..bfb2ffe 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -32,7 +32,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
         "REQUEST_METHOD": scope["method"],
         "SCRIPT_NAME": script_name,
         "PATH_INFO": path_info,
-        "QUERY_STRING": scope["query_string"].decode("ascii"),
+        "QUERY_STRING": scope["query_string"].decode("latin1"),
         "SERVER_PROTOCOL": f"HTTP/{scope['http_version']}",
         "wsgi.version": (1, 0),
         "wsgi.url_scheme": scope.get("scheme", "http"),
-- 
2.43.0


From 119160763d5cc0a78975188531178ba75f8d82f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 30/48] fix: WSGI responses with a non-ASCII header value
 raised UnicodeEncodeError

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index bfb2ffe..01c3ce5 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -126,7 +126,7 @@ class WSGIResponder:
             status_code_string, _ = status.split(" ", 1)
             status_code = int(status_code_string)
             headers = [
-                (name.strip().encode("ascii").lower(), value.strip().encode("ascii"))
+                (name.strip().encode("ascii").lower(), value.strip().encode("latin1"))
                 for name, value in response_headers
             ]
             anyio.from_thread.run(
-- 
2.43.0


From 6730223e31a498643ea00de192b25a491d517fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 31/48] fix: exceptions of WSGI applications were raised as
 exception groups

---
 starlette/middleware/wsgi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 01c3ce5..7146f80 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,6 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
+from starlette._utils import collapse_excgroups
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -102,10 +103,11 @@ class WSGIResponder:
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
 
-        async with anyio.create_task_group() as task_group:
-            task_group.start_soon(self.sender, send)
-            async with self.stream_send:
-                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
+        with collapse_excgroups():
+            async with anyio.create_task_group() as task_group:
+                task_group.start_soon(self.sender, send)
+                async with self.stream_send:
+                    await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
         if self.exc_info is not None:
             raise self.exc_info[0].with_traceback(self.exc_info[1], self.exc_info[2])
 
-- 
2.43.0


From c9501864acdf6e22124432dd35a232845a7f3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 32/48] fix: do not leak operations into the base schema when
 generating schemas

---
 starlette/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..3d4c5c9 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -130,7 +130,7 @@ class SchemaGenerator(BaseSchemaGenerator):
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
         schema = dict(self.base_schema)
-        schema.setdefault("paths", {})
+        schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}
         endpoints_info = self.get_endpoints(routes)
 
         for endpoint in endpoints_info:
-- 
2.43.0


From fe1dc41e426d19479b5f46a63bbc32fdd76c22f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 33/48] fix: do not raise an exception again that a function
 middleware has handled

---
 starlette/middleware/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..ecd7128 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,6 +104,7 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        app_exc_raised = False
 
         async def call_next(request: Request) -> Response:
             async def receive_or_disconnect() -> Message:
@@ -150,6 +151,8 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    nonlocal app_exc_raised
+                    app_exc_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
@@ -177,7 +180,8 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        # an exception that call_next() has raised is for dispatch to handle
+        if app_exc is not None and not app_exc_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From 072a6d3bebfa9161c3a861973917729812d48472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 34/48] fix: do not complete a response of which the
 application failed half way

---
 starlette/middleware/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index ecd7128..a6a787a 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -165,7 +165,10 @@ class BaseHTTPMiddleware:
                     if body:
                         yield body
                     if not message.get("more_body", False):
-                        break
+                        return
+                # the application ended without completing its response
+                if app_exc is not None:
+                    raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message["headers"]
-- 
2.43.0


From 465dea7d5b5a8f8199f8c694629d6ad9fe27d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 35/48] fix: do not share the application's header list with
 function middleware

---
 starlette/middleware/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index a6a787a..fd81343 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -171,7 +171,7 @@ class BaseHTTPMiddleware:
                     raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = list(message["headers"])
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
-- 
2.43.0


From 5fe8126030eb72068da495d8879188802dcbec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 36/48] fix: notice disconnects in applications behind function
 middleware

---
 starlette/middleware/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index fd81343..003acfb 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -120,6 +120,8 @@ class BaseHTTPMiddleware:
 
                     task_group.start_soon(wrap, response_sent.wait)
                     message = await wrap(wrapped_receive)
+                    # do not lose the message if we are being cancelled meanwhile
+                    task_group.cancel_scope.shield = True
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
-- 
2.43.0


From afca8d7c62fc3bb9f4c69f26141198c2f7d29050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 37/48] fix: keep body messages received while checking for a
 disconnect

---
 starlette/requests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 7dc04a7..3f15653 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -205,6 +205,7 @@ class Request(HTTPConnection):
         self._send = send
         self._stream_consumed = False
         self._is_disconnected = False
+        self._unread_messages: list[Message] = []
         self._form = None
 
     @property
@@ -223,7 +224,7 @@ class Request(HTTPConnection):
         if self._stream_consumed:
             raise RuntimeError("Stream consumed")
         while not self._stream_consumed:
-            message = await self._receive()
+            message = self._unread_messages.pop(0) if self._unread_messages else await self._receive()
             if message["type"] == "http.request":
                 body = message.get("body", b"")
                 if not message.get("more_body", False):
@@ -310,6 +311,9 @@ class Request(HTTPConnection):
 
             if message.get("type") == "http.disconnect":
                 self._is_disconnected = True
+            elif message and not self._stream_consumed:
+                # Part of the body, leave it for stream()
+                self._unread_messages.append(message)
 
         return self._is_disconnected
 
-- 
2.43.0


From cfe85ccd9bc7c89ddaab3143b0f8f8e9cabc7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 38/48] fix: do not keep the request of an earlier response in
 a shared template context

---
 starlette/templating.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..390b295 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -172,7 +172,7 @@ class Jinja2Templates:
                 media_type = args[4] if len(args) > 4 else kwargs.get("media_type")
                 background = args[5] if len(args) > 5 else kwargs.get("background")
 
-                if "request" not in context:
+                if "request" not in (context or {}):
                     raise ValueError('context must include a "request" key')
                 request = context["request"]
             else:  # the first argument is a request instance (new style)
@@ -190,10 +190,10 @@ class Jinja2Templates:
                     'Replace `TemplateResponse(name, {"context": context})` by `TemplateResponse(request, name)`.',
                     DeprecationWarning,
                 )
-                if "request" not in kwargs.get("context", {}):
+                if "request" not in (kwargs.get("context") or {}):
                     raise ValueError('context must include a "request" key')
 
-            context = kwargs.get("context", {})
+            context = kwargs.get("context") or {}
             request = kwargs.get("request", context.get("request"))
             name = typing.cast(str, kwargs["name"])
             status_code = kwargs.get("status_code", 200)
@@ -201,6 +201,8 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        # the given context may be shared by the responses of several requests
+        context = dict(context or {})
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From 4e2cb40b6c35e1aa940400c5ba86ba543830e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 39/48] fix: do not decode the path of test client requests
 twice

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 1a03e94b37c78e967cc55a207d982aa7f6dabfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 40/48] fix: report response headers as sent in the test client

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..2bf8f2c 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -315,7 +315,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = list(message.get("headers", []))
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From f7c228b24306cb049537ab4b19f1bcf0be3afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 41/48] fix: send request headers unchanged from the test
 client

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 2bf8f2c..014c0b4 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -231,7 +231,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", (f"{host}:{port}").encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
-- 
2.43.0


From 7c0d3671367ac02a87fe49ad4b0d3c04d5c7c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 42/48] fix: accept IPv6 hosts in the test client

---
 starlette/testclient.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 014c0b4..f8ca114 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -208,19 +208,14 @@ class _TestClientTransport(httpx.BaseTransport):
 
     def handle_request(self, request: httpx.Request) -> httpx.Response:
         scheme = request.url.scheme
-        netloc = request.url.netloc.decode(encoding="ascii")
         path = request.url.path
         raw_path = request.url.raw_path
         query = request.url.query.decode(encoding="ascii")
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = default_port if request.url.port is None else request.url.port
 
         # Include the 'host' header.
         if "host" in request.headers:
-- 
2.43.0


From e67f36b75f6e78282b3f4588b28175e139737c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 43/48] fix: report the body sent before a failure in the test
 client

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index f8ca114..c43fee5 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -343,7 +343,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "stream": io.BytesIO(),
             }
 
-        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].read())
+        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].getvalue())
 
         response = httpx.Response(**raw_kwargs, request=request)
         if template is not None:
-- 
2.43.0


From f089d70690675c58746e2f4148e74775b17899aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 44/48] fix: do not change the headers given to
 websocket_connect

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index c43fee5..7e9880c 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -637,7 +637,7 @@ class TestClient(httpx.Client):
         **kwargs: typing.Any,
     ) -> WebSocketTestSession:
         url = urljoin("ws://testserver", url)
-        headers = kwargs.get("headers", {})
+        headers = httpx.Headers(kwargs.get("headers"))
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-- 
2.43.0


From e52bce5b959cfd133cd43df42f614e0bd695d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 45/48] fix: file responses kept the headers of the previous
 request when sent again

---
 starlette/responses.py | 52 +++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index fb7bdec..1aa1241 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -326,22 +326,25 @@ class FileResponse(Response):
         if stat_result is not None:
             self.set_stat_headers(stat_result)
 
-    def set_stat_headers(self, stat_result: os.stat_result) -> None:
+    def set_stat_headers(self, stat_result: os.stat_result, headers: MutableHeaders | None = None) -> None:
+        headers = self.headers if headers is None else headers
         content_length = str(stat_result.st_size)
         last_modified = formatdate(stat_result.st_mtime, usegmt=True)
         etag_base = str(stat_result.st_mtime) + "-" + str(stat_result.st_size)
         etag = f'"{hashlib.md5(etag_base.encode(), usedforsecurity=False).hexdigest()}"'
 
-        self.headers.setdefault("content-length", content_length)
-        self.headers.setdefault("last-modified", last_modified)
-        self.headers.setdefault("etag", etag)
+        headers.setdefault("content-length", content_length)
+        headers.setdefault("last-modified", last_modified)
+        headers.setdefault("etag", etag)
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
         send_header_only: bool = scope["method"].upper() == "HEAD"
+        # Copied, because the response may be sent again, for another request or after the file has changed.
+        response_headers = MutableHeaders(raw=list(self.raw_headers))
         if self.stat_result is None:
             try:
                 stat_result = await anyio.to_thread.run_sync(os.stat, self.path)
-                self.set_stat_headers(stat_result)
+                self.set_stat_headers(stat_result, response_headers)
             except FileNotFoundError:
                 raise RuntimeError(f"File at path {self.path} does not exist.")
             else:
@@ -358,9 +361,9 @@ class FileResponse(Response):
         if (
             http_range is None
             or self.status_code != 200
-            or (http_if_range is not None and not self._should_use_range(http_if_range))
+            or (http_if_range is not None and not self._should_use_range(http_if_range, response_headers))
         ):
-            await self._handle_simple(send, send_header_only)
+            await self._handle_simple(send, response_headers, send_header_only)
         else:
             try:
                 ranges = self._parse_range_header(http_range, stat_result.st_size)
@@ -372,15 +375,19 @@ class FileResponse(Response):
 
             if len(ranges) == 1:
                 start, end = ranges[0]
-                await self._handle_single_range(send, start, end, stat_result.st_size, send_header_only)
+                await self._handle_single_range(
+                    send, response_headers, start, end, stat_result.st_size, send_header_only
+                )
             else:
-                await self._handle_multiple_ranges(send, ranges, stat_result.st_size, send_header_only)
+                await self._handle_multiple_ranges(
+                    send, response_headers, ranges, stat_result.st_size, send_header_only
+                )
 
         if self.background is not None:
             await self.background()
 
-    async def _handle_simple(self, send: Send, send_header_only: bool) -> None:
-        await send({"type": "http.response.start", "status": self.status_code, "headers": self.raw_headers})
+    async def _handle_simple(self, send: Send, headers: MutableHeaders, send_header_only: bool) -> None:
+        await send({"type": "http.response.start", "status": self.status_code, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -392,11 +399,11 @@ class FileResponse(Response):
                     await send({"type": "http.response.body", "body": chunk, "more_body": more_body})
 
     async def _handle_single_range(
-        self, send: Send, start: int, end: int, file_size: int, send_header_only: bool
+        self, send: Send, headers: MutableHeaders, start: int, end: int, file_size: int, send_header_only: bool
     ) -> None:
-        self.headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
-        self.headers["content-length"] = str(end - start)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
+        headers["content-length"] = str(end - start)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -412,18 +419,17 @@ class FileResponse(Response):
     async def _handle_multiple_ranges(
         self,
         send: Send,
+        headers: MutableHeaders,
         ranges: list[tuple[int, int]],
         file_size: int,
         send_header_only: bool,
     ) -> None:
         # In firefox and chrome, they use boundary with 95-96 bits entropy (that's roughly 13 bytes).
         boundary = token_hex(13)
-        content_length, header_generator = self.generate_multipart(
-            ranges, boundary, file_size, self.headers["content-type"]
-        )
-        self.headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
-        self.headers["content-length"] = str(content_length)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        content_length, header_generator = self.generate_multipart(ranges, boundary, file_size, headers["content-type"])
+        headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
+        headers["content-length"] = str(content_length)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -444,8 +450,8 @@ class FileResponse(Response):
                     }
                 )
 
-    def _should_use_range(self, http_if_range: str) -> bool:
-        return http_if_range == self.headers["last-modified"] or http_if_range == self.headers["etag"]
+    def _should_use_range(self, http_if_range: str, headers: MutableHeaders) -> bool:
+        return http_if_range == headers["last-modified"] or http_if_range == headers["etag"]
 
     @staticmethod
     def _parse_range_header(http_range: str, file_size: int) -> list[tuple[int, int]]:
-- 
2.43.0


From c33aa9cebea6cd7961a5c31429671d2861f64c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 46/48] fix: comma separated values lost everything after a
 number sign

---
 starlette/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 4cb5c06..1519c3c 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -229,6 +229,7 @@ class CommaSeparatedStrings(typing.Sequence[str]):
         if isinstance(value, str):
             splitter = shlex(value, posix=True)
             splitter.whitespace = ","
+            splitter.commenters = ""
             splitter.whitespace_split = True
             self._items = [item.strip() for item in splitter]
         else:
-- 
2.43.0


From 0126f2318a77ca65402eea89b228a1b1c42ee7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 47/48] fix: requests given to class based endpoints could not
 push

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 013b3c5..894776f 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -29,7 +29,7 @@ class HTTPEndpoint:
         return self.dispatch().__await__()
 
     async def dispatch(self) -> None:
-        request = Request(self.scope, receive=self.receive)
+        request = Request(self.scope, receive=self.receive, send=self.send)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = self.method_not_allowed
-- 
2.43.0


From e57a7f2385c076bbb534c7429765ef0afdc5a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 48/48] fix: function middleware failed on push promises

---
 starlette/middleware/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 003acfb..edf7c3d 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -22,8 +22,8 @@ class _CachedRequest(Request):
     empty body so that downstream things don't hang forever.
     """
 
-    def __init__(self, scope: Scope, receive: Receive):
-        super().__init__(scope, receive)
+    def __init__(self, scope: Scope, receive: Receive, send: Send):
+        super().__init__(scope, receive, send)
         self._wrapped_rcv_disconnected = False
         self._wrapped_rcv_consumed = False
         self._wrapped_rc_stream = self.stream()
@@ -100,7 +100,7 @@ class BaseHTTPMiddleware:
             await self.app(scope, receive, send)
             return
 
-        request = _CachedRequest(scope, receive)
+        request = _CachedRequest(scope, receive, send)
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
@@ -148,6 +148,9 @@ class BaseHTTPMiddleware:
 
             try:
                 message = await recv_stream.receive()
+                while message["type"] == "http.response.push":
+                    await send(message)
+                    message = await recv_stream.receive()
                 info = message.get("info", None)
                 if message["type"] == "http.response.debug" and info is not None:
                     message = await recv_stream.receive()
@@ -162,6 +165,9 @@ class BaseHTTPMiddleware:
 
             async def body_stream() -> typing.AsyncGenerator[bytes, None]:
                 async for message in recv_stream:
+                    if message["type"] == "http.response.push":
+                        await send(message)
+                        continue
                     assert message["type"] == "http.response.body"
                     body = message.get("body", b"")
                     if body:
-- 
2.43.0

