#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
    ))


R = "starlette/routing.py"
D = "starlette/datastructures.py"

p("C01", "Path templates match exactly the paths they denote",
  "A route whose template mixes literal text with {name}, {name:str}, {name:int}, {name:uuid} and {name:path} parameters matches a request path if and only if the whole path equals the literal text with each parameter replaced by text its type allows (str: one or more characters other than '/'; int: one or more ASCII digits; uuid: 32 hex digits, hyphens optional at the four usual places; path: any text). On a match the path parameters hold those pieces converted to their type, and nothing before, after or inside the literals is ignored.",
  ["inputs"], "every request path (up to the stated length, any characters incl. newlines and regex metacharacters) against every template in a family covering each parameter type and position",
  "Tests try a dozen hand-picked paths; the claim is about every string, including ones with newlines, dots, percent signs and empty segments.",
  [R, "starlette/convertors.py"], [("template to regex compilation", R + ":compile_path"), ("parameter conversion", "starlette/convertors.py")], ["Route.matches / Mount.matches result and child scope", "Router dispatch"])

p("C02", "Reversed URLs route back to the same endpoint and parameters",
  "For every set of parameter values that the declared types accept, where each parameter fills a whole path segment (a path-typed one only as the last), the URL path generated by name from a Route, a Route nested in Mounts, or a Host-prefixed route is matched by that same route and yields exactly the same parameter values; values are inserted literally, never reinterpreted. Asking for an unknown name, or with missing or superfluous parameters, raises the no-match error instead of returning a path.",
  ["inputs", "configurations"], "every parameter value (strings without '/', non-negative ints, UUIDs, arbitrary path text) up to the stated size, over flat, mounted and host-routed tables",
  "Tests reverse a few fixed values; injectivity and round trip quantify over all values, including ones that look like template syntax.",
  [R, "starlette/convertors.py"], [("substitution", R + ":replace_params"), ("reverse lookup", R + ":Route/Mount/Host/Router.url_path_for"), ("to_string", "starlette/convertors.py")])

p("C03", "Mounted applications see a consistent root_path and path",
  "Through any nesting of mounts, each mounted application receives a scope whose root_path is the incoming root_path plus the path text consumed by the mounts above it, whose full path is unchanged, and whose original application root is preserved; the mount matches only at a path-segment boundary. The remaining path seen by inner routing is exactly the full path with that root_path removed.",
  ["inputs", "configurations"], "every request path and incoming root_path up to the stated length, for one- and two-level mounts with and without parameters",
  "Tests check fixed prefixes; boundary cases such as /apix against a mount at /api need every path.",
  [R, "starlette/_utils.py"], [("mount matching", R + ":Mount.matches"), ("route path", "starlette/_utils.py:get_route_path")])

p("C04", "Routers dispatch to the first match, answer 405 with Allow, else 404",
  "For every request, a router hands the request to exactly one handler: the first route in table order that matches both path and method; if none does but some route matches the path, that first route answers 405 with an Allow header listing exactly its methods; otherwise the answer is 404 (HTTP) or a close (websocket). HTTP routes never serve websockets and vice versa, GET routes also serve HEAD, and handler scope carries that route's path parameters and endpoint only.",
  ["inputs", "configurations"], "every path and method up to the stated length over routing tables whose entries and methods are chosen symbolically",
  "Tests use a few tables; precedence and partial-match bookkeeping depend on combinations of overlapping routes and methods.",
  [R], [("dispatch loop", R + ":Router.app"), ("method match", R + ":Route.matches"), ("405", R + ":Route.handle")])

p("C05", "Slash redirection only when it leads to a route",
  "When no route matches an HTTP path other than '/', and adding a trailing slash to a path without one (or removing all trailing slashes of a path that has any) gives a path that some route matches, the router answers a temporary redirect to the same URL with only that change; in every other case, with redirection disabled, or for websockets, it never redirects. The redirect target keeps scheme, host and query string and stays on the same host.",
  ["inputs", "configurations"], "every path up to the stated length over tables with and without trailing slashes, with redirection on and off",
  "Tests cover one or two paths per table.",
  [R], [("redirect_slashes", R + ":Router.app")])

p("C06", "Host-based routing selects by the Host header name only",
  "A host route is chosen if and only if the request's Host header, without any port, equals the host pattern with each parameter replaced by text without '/'; captured parameters are passed on. Requests with other or no Host header fall through to later routes.",
  ["inputs"], "every Host header up to the stated length (any ASCII characters, with or without port)",
  "Tests try a handful of host names.",
  [R], [("host matching", R + ":Host.matches")])

p("C07", "Class-based endpoints call exactly the handler of the method",
  "An HTTP endpoint class answers each request by running the handler defined for that method (HEAD falls back to GET when no HEAD handler exists), once, with that request; for a method without a handler it answers 405 with an Allow header listing exactly the methods that have handlers (other attributes of the endpoint object are not handlers). Inside an application the 405 is raised as an HTTP exception so that custom handlers see it.",
  ["inputs", "configurations"], "every standard method and every subset of implemented handlers, sync or async",
  "Tests cover a few method/handler combinations.",
  ["starlette/endpoints.py"], [("dispatch", "starlette/endpoints.py:HTTPEndpoint.dispatch")])

p("C08", "Headers obey case-insensitive ordered multimap laws",
  "For every sequence of operations on a mutable header collection, lookups ignore case and return the first value, getlist returns all values in order, setting a name leaves exactly one entry for it at its first position (or appends), appending adds one, deletion removes all and only the entries of that name, and setdefault and update agree with these; adding to the Vary header keeps every value already there. Views keep every other entry, with its order and bytes, untouched.",
  ["histories", "inputs"], "every sequence of operations up to the stated length over symbolic names and values",
  "Tests run single operations on fixed names; laws quantify over histories and aliasing of names by case.",
  [D], [("Headers/MutableHeaders", D)])

p("C09", "Multi-value dictionaries keep first-come order and last-value lookup",
  "For every sequence of operations on a multi-dict, indexing returns the most recent value of a key, getlist returns all of them in order, multi_items preserves the full ordered list, and set, append, setlist, pop, poplist, popitem, setdefault, update and delete change exactly the entries of the keys they name. Equality is equality of the multisets of pairs.",
  ["histories", "inputs"], "every sequence of operations up to the stated length over symbolic keys and values",
  "Tests check operations one at a time on fixed data.",
  [D], [("ImmutableMultiDict/MultiDict", D)])

p("C10", "Query strings round-trip",
  "Encoding any list of key/value text pairs as query parameters and parsing the result gives back the same list, in order, including empty values, reserved characters and non-ASCII text. Parsing a raw query string percent-decodes each pair exactly once and keeps pairs with blank values.",
  ["inputs"], "every list of pairs up to the stated sizes; every raw query string up to the stated length",
  "Tests use a few fixed strings.",
  [D], [("QueryParams", D + ":QueryParams")])

p("C11", "Editing a URL changes only the named component",
  "Replacing the scheme, path, query, fragment, hostname, port, username or password (a password only together with a user name) of an absolute URL gives a URL whose named components have the new value and whose other components are unchanged. Including query parameters sets exactly those parameters and keeps the others in order; replacing and removing query parameters affect only the named keys.",
  ["inputs"], "every combination of URL components up to the stated lengths",
  "Tests edit a few fixed URLs; credentials, ports, IPv6 and empty components combine.",
  [D], [("URL.replace", D + ":URL.replace"), ("query edits", D + ":URL.include_query_params/replace_query_params/remove_query_params")])

p("C12", "Request URLs are rebuilt faithfully from the connection",
  "The URL of a request is scheme://authority + path [+ ?query], where the characters of the decoded path that would end or reinterpret it in a URL (? # % tab, CR, LF) are percent-encoded and the authority is the Host header when present, else the server address with the port omitted exactly when it is the scheme's default; the base URL is the same authority with the application root path, ending in a single added slash and without query or fragment. Absolute URLs made from a path, a base and a scheme keep the base's host, join the base path and path with one slash, and use the websocket scheme for websocket paths.",
  ["inputs"], "every scheme, server address, port, Host header, root path, path and query within the stated sizes",
  "Tests use a few fixed scopes.",
  [D, "starlette/requests.py"], [("URL from scope", D + ":URL.__init__"), ("base_url", "starlette/requests.py:HTTPConnection.base_url"), ("make_absolute_url", D + ":URLPath.make_absolute_url")])

p("C13", "Secrets never show in representations",
  "The representation of a URL with a password, and of a secret configuration value, does not depend on the secret: two that differ only in the password (of whatever content or length) have the same repr, while str() returns the real value. All other URL components remain visible in the representation.",
  ["inputs"], "every pair of secrets up to the stated length",
  "Non-interference relates two executions; tests only look at single examples.",
  [D], [("URL.__repr__", D), ("Secret.__repr__", D)])

p("C14", "Request bodies are the exact concatenation of received chunks",
  "For every chunking of a body into receive messages, reading the request as a stream yields the chunks in order, reading it whole yields their concatenation (and again the same on repeated reads, also after a cached read), and reading stops at the final message. A client disconnect before the end raises the disconnect error and never yields a truncated body as complete; streaming a body already consumed by a stream raises an error.",
  ["histories", "inputs"], "every sequence of body messages up to the stated count, with symbolic content, optional fields, and a disconnect at any point, and every order of reads",
  "Tests use a couple of fixed chunkings.",
  ["starlette/requests.py"], [("stream/body", "starlette/requests.py:Request")])

p("C15", "Cookies set by a response are read back by a request",
  "A cookie with any legal name and any text value made of latin-1 printable characters, set on a response, is emitted as one Set-Cookie header whose attributes are exactly the requested ones, and a request carrying that cookie pair reports the same name and value. Deleting a cookie emits an expired cookie of the same name, path and domain; parsing a Cookie header never raises and the pieces between semicolons are independent.",
  ["inputs"], "every cookie name and value up to the stated length; every Cookie header up to the stated length; every attribute combination",
  "Tests fix a few cookies; quoting and parsing quantify over all characters.",
  ["starlette/requests.py", "starlette/responses.py"], [("cookie_parser", "starlette/requests.py:cookie_parser"), ("set_cookie", "starlette/responses.py:Response.set_cookie")])

p("C16", "URL-encoded forms parse to the encoded fields whatever the chunking",
  "A URL-encoded form body is parsed to the list of its fields, in order, each name and value with '+' and percent escapes decoded, and the result does not depend on how the body is split into chunks.",
  ["inputs", "histories"], "every body up to the stated length and every split into chunks",
  "Tests send each body as a single chunk.",
  ["starlette/formparsers.py", "starlette/requests.py"], [("FormParser", "starlette/formparsers.py:FormParser")])

p("C17", "Multipart forms deliver every part intact whatever the chunking",
  "A multipart body is parsed to exactly its parts in order: fields with their decoded text, files with name, content type, headers and byte-exact content positioned at the start, and the result does not depend on how the body is split into chunks. A malformed body is answered as a client error, never as a crash or as silently different parts.",
  ["inputs", "histories"], "every field/file content up to the stated length, every split point, one to three parts",
  "Tests send a body in one piece; boundary bytes straddling chunks need every split.",
  ["starlette/formparsers.py"], [("MultiPartParser", "starlette/formparsers.py:MultiPartParser")])

p("C18", "Multipart limits are enforced exactly",
  "A multipart form is accepted if and only if it has at most the allowed number of files, at most the allowed number of fields, and no in-memory field larger than the allowed part size, however the data is chunked; beyond a limit, or when the body is malformed or cut off, the request is rejected as a client error and every temporary file opened so far is closed.",
  ["inputs", "histories", "configurations"], "every combination of part counts, part sizes, limits and chunk splits within the stated bounds",
  "Tests check one value on each side of the default limits.",
  ["starlette/formparsers.py", "starlette/requests.py"], [("limits", "starlette/formparsers.py:MultiPartParser")])

p("C19", "Responses are framed correctly",
  "A plain response sends exactly one start message with its status and headers followed by exactly one body message with the encoded content; content-length equals the body length unless the status (1xx, 204, 304) forbids one or the caller supplied it, text media types get a charset when none is given, and caller-supplied headers are kept and never duplicated. Header names are lowercased and values sent as given.",
  ["inputs"], "every content, status, media type and header set within the stated bounds",
  "Tests check a few responses.",
  ["starlette/responses.py"], [("init_headers", "starlette/responses.py:Response.init_headers"), ("__call__", "starlette/responses.py:Response.__call__")])

p("C20", "Streaming responses send every chunk in order and stop on disconnect",
  "A streaming response sends one start message, then the chunks its iterator yields, each once, in order and encoded, then one empty terminating message and nothing after it. If the client disconnects (or a send fails, or the iterator raises) it stops promptly without sending a terminating message; a background task runs at most once, after the last message, and not at all when an error is raised.",
  ["histories", "schedules", "fault_sequences"], "every sequence of chunks and every position of disconnect or send failure up to the stated length",
  "Tests use a fixed number of chunks and one disconnect point.",
  ["starlette/responses.py"], [("StreamingResponse", "starlette/responses.py:StreamingResponse")])

p("C21", "File responses send exactly the requested bytes and lengths",
  "For every file size and every Range header, a file response sends the whole file, one range, or several ranges such that the body bytes are exactly those file bytes, in order and for multiple ranges inside a multipart body in the documented layout, Content-Range names them, and Content-Length equals the number of body bytes sent. HEAD sends the same headers with no body.",
  ["inputs"], "every file size, range set and chunk size as unbounded integers, up to the stated number of ranges and chunks",
  "Tests use one file size and a few ranges; off-by-one errors live at chunk and file boundaries.",
  ["starlette/responses.py"], [("range handlers", "starlette/responses.py:FileResponse")])

p("C22", "Range headers select the right bytes or are refused",
  "For every Range header and file size, the byte ranges served are, in ascending order and without overlap, exactly the union of the ranges asked for; headers with another unit, without any range or with a start beyond its end are refused with 400, and those with a range that starts beyond the end of the file or an empty suffix with 416 and the file size (either, when both apply); a suffix longer than the file is the whole file. If-Range that matches neither the entity tag nor the modification date yields the full file.",
  ["inputs"], "every range header text up to the stated length and up to the stated number of ranges with unbounded positions",
  "Tests list a dozen headers.",
  ["starlette/responses.py"], [("_parse_range_header", "starlette/responses.py:FileResponse")])

p("C23", "Redirect and download headers cannot be broken out of",
  "For every target URL a redirect's Location header is printable ASCII without spaces or control characters, keeps reserved characters and percent escapes as they are, and percent-decodes to the same text as the target. For every file name the Content-Disposition header of a file response is a single well-formed value from which the same name can be decoded, and contains no control characters or unescaped quotes.",
  ["inputs"], "every URL and file name up to the stated length over all Unicode characters",
  "Tests use fixed URLs and two file names.",
  ["starlette/responses.py"], [("RedirectResponse", "starlette/responses.py:RedirectResponse"), ("FileResponse", "starlette/responses.py:FileResponse.__init__")])

p("C24", "Background tasks run once, in order, after the response is sent",
  "Tasks attached to a response run after the final body message has been sent, each exactly once with its arguments, in the order added (tasks added by a running task included), sync and async alike; if one raises, the later ones do not run and the error propagates. They run when the response is sent directly or for responses of every kind.",
  ["histories", "fault_sequences"], "every list of tasks (sync/async, failing or not) up to the stated length and every response kind",
  "Tests check fixed lists of tasks.",
  ["starlette/background.py", "starlette/responses.py"], [("BackgroundTasks", "starlette/background.py")])

p("C25", "Static files never escape their directories",
  "For every request path, the static file application serves only regular files that lie inside its configured directories after resolving symbolic links (or, when following symlinks is enabled, files whose normalised path lies inside), and answers 404 for everything else, including sibling directories that share a name prefix.",
  ["inputs", "configurations"], "every request path up to the stated length over directory trees with nested directories, sibling prefixes, symlinks in and out",
  "Tests try a few traversal strings.",
  ["starlette/staticfiles.py"], [("lookup_path", "starlette/staticfiles.py:StaticFiles.lookup_path")])

p("C26", "Conditional requests get 304 exactly when unchanged",
  "A static file is answered 304 if and only if the request's If-None-Match lists the file's current entity tag (weak prefix ignored), or, when there is no If-None-Match, its If-Modified-Since is not earlier than the file's modification date; otherwise the full response is sent. A 304 carries the entity tag and the cache headers of the full response and no content headers or body.",
  ["inputs"], "every entity-tag list and every pair of dates within the stated bounds",
  "Tests check one matching and one stale validator.",
  ["starlette/staticfiles.py", "starlette/responses.py"], [("is_not_modified", "starlette/staticfiles.py:StaticFiles"), ("NotModifiedResponse", "starlette/staticfiles.py")])

p("C27", "Static file responses: methods, index pages, custom 404",
  "Static files answer GET and HEAD only (405 otherwise); in HTML mode a directory with an index page is served at its slash-terminated URL and redirected to it otherwise, and a missing file is answered with the 404 page and status 404 when one exists. Without HTML mode directories are 404.",
  ["inputs", "configurations"], "every request path up to the stated length and every method over trees with and without index and 404 pages",
  "Tests check fixed layouts.",
  ["starlette/staticfiles.py"], [("get_response", "starlette/staticfiles.py:StaticFiles.get_response")])

p("C28", "CORS headers are granted only to allowed origins",
  "On a simple cross-origin request a response carries Access-Control-Allow-Origin if and only if the origin is allowed (wildcard, exact list entry, or full regex match); its value is '*' or exactly the request's origin, credentials are never combined with '*' when a cookie is sent, and Vary includes Origin whenever that value is the request's origin. Requests without an Origin header pass through unchanged and response body, status and other headers are untouched.",
  ["inputs", "configurations"], "every origin up to the stated length and every configuration of origins, regex, credentials and exposed headers",
  "Tests check a few origins per configuration.",
  ["starlette/middleware/cors.py"], [("CORSMiddleware", "starlette/middleware/cors.py")])

p("C29", "CORS preflights are accepted only for what is configured",
  "A preflight (OPTIONS with Origin and Access-Control-Request-Method) never reaches the application; it is answered 200 if and only if the origin, the requested method (with '*', any standard method) and every requested header (in any case) are allowed by the configuration, and 400 otherwise. Allowed origins are echoed, disallowed ones never receive Access-Control-Allow-Origin, and the advertised methods, headers and max-age are those configured.",
  ["inputs", "configurations"], "every origin, method and requested-header list up to the stated lengths and every configuration",
  "Tests check a few combinations.",
  ["starlette/middleware/cors.py"], [("preflight_response", "starlette/middleware/cors.py")])

p("C30", "Only trusted hosts reach the application",
  "The application is called if and only if the Host header without its port (which starts after the brackets of an IPv6 address) equals an allowed host, is a subdomain of an allowed wildcard *.domain, or any host is allowed; otherwise the answer is 400, or a redirect to the www. host when enabled and that host is allowed. Malformed wildcard patterns are rejected at construction.",
  ["inputs", "configurations"], "every Host header up to the stated length over pattern sets with exact, wildcard and www entries",
  "Tests try a few hosts.",
  ["starlette/middleware/trustedhost.py"], [("TrustedHostMiddleware", "starlette/middleware/trustedhost.py")])

p("C31", "HTTPS redirection keeps the request target",
  "Every http or ws request is answered 307 with the same URL under https or wss, keeping host, non-default port, path and query, and every https or wss request reaches the application unchanged. No request is redirected to its own URL.",
  ["inputs"], "every host, port, path and query up to the stated lengths",
  "Tests check a few URLs.",
  ["starlette/middleware/httpsredirect.py"], [("HTTPSRedirectMiddleware", "starlette/middleware/httpsredirect.py")])

p("C32", "Sessions only ever come from validly signed, unexpired cookies",
  "A request's session is the data last saved under this application's signature and not older than the maximum age, and is empty for any absent, altered, expired or foreign cookie, which never raises. A response sets the session cookie if and only if the session is non-empty, clears it if and only if a previously loaded session became empty, with the configured path, domain, age, SameSite, Secure and HttpOnly attributes.",
  ["inputs", "histories"], "every cookie value up to the stated length, every clock value and every session mutation, under an unforgeable signature",
  "Tests check fixed sessions; forgery and expiry quantify over all cookies and times.",
  ["starlette/middleware/sessions.py"], [("SessionMiddleware", "starlette/middleware/sessions.py")])

p("C33", "Compression is transparent",
  "With compression enabled, the decompressed body of every response equals the application's body for any chunking, content-length (when present) equals the bytes sent, Content-Encoding is set exactly when the body was compressed and Vary names Accept-Encoding; responses that are too small, already encoded, server-sent events or for clients that do not accept gzip keep their body. Status and other headers are unchanged and every message is forwarded in order.",
  ["histories", "inputs", "configurations"], "every chunking of the body with symbolic sizes, thresholds and headers, and arbitrary compressor buffering",
  "Tests use a few body sizes.",
  ["starlette/middleware/gzip.py"], [("GZipResponder", "starlette/middleware/gzip.py")])

p("C34", "Function middleware passes responses through unchanged",
  "A pass-through function middleware delivers the wrapped application's status, headers and body chunks to the client in order, unchanged and exactly once, for every interleaving of application and client; an exception of the application before the response reaches the middleware function, which may answer it; one raised during or after the response propagates to the caller and an unfinished response is never delivered as complete; a response produced instead of the application's is sent as is.",
  ["schedules", "histories", "fault_sequences"], "every sequence of response messages up to the stated count and every relative timing of application, consumer and disconnect",
  "Tests run one schedule.",
  ["starlette/middleware/base.py"], [("BaseHTTPMiddleware", "starlette/middleware/base.py")])

p("C35", "Function middleware leaves the request body intact for the application",
  "Whether a function middleware reads none, part (as a stream) or all of the request body before calling the application, the application receives, in order and unchanged, exactly what the middleware has not streamed: the whole body if it was not read or read with body(), the rest if it was streamed in part, an empty body if it was streamed to the end. A disconnect before the end of the body reaches the reader as a disconnect, never as a complete body; after the body the application receives a disconnect only once the client has disconnected or the response has been sent.",
  ["histories", "schedules"], "every chunking of the body up to the stated count, every amount read by the middleware and every way the application reads",
  "Tests check one or two chunkings.",
  ["starlette/middleware/base.py"], [("_CachedRequest", "starlette/middleware/base.py")])

p("C36", "Exceptions go to the most specific registered handler",
  "An exception raised by an endpoint is handled by the handler registered for its status code (HTTP exceptions), else for the nearest class in its inheritance order, and by none otherwise, in which case it propagates; the handler runs once with that request and exception and its response is sent. If the response has already started no handler response is sent and an error is raised instead. Without a registered handler an HTTP exception is answered with its own status, detail (by default the phrase of the status) and headers, and a websocket exception closes the connection with its code and reason.",
  ["inputs", "configurations", "fault_sequences"], "every status code, exception class in a hierarchy and table of handlers, with the exception raised before or after the response starts",
  "Tests register one or two handlers.",
  ["starlette/_exception_handler.py", "starlette/middleware/exceptions.py"], [("handler lookup", "starlette/_exception_handler.py"), ("ExceptionMiddleware", "starlette/middleware/exceptions.py")])

p("C37", "Unhandled errors give one 500 response and are always re-raised",
  "When the wrapped application raises, a 500 response (debug page, custom handler or plain text) is sent if and only if no response had started, exactly one response reaches the client, and the original exception is always re-raised to the server. Without an exception all messages pass through unchanged.",
  ["fault_sequences", "configurations"], "every point at which the application may raise, with debug on/off, custom handler and Accept header symbolic",
  "Tests raise at one point.",
  ["starlette/middleware/errors.py"], [("ServerErrorMiddleware", "starlette/middleware/errors.py")])

p("C38", "Debug pages escape everything they show",
  "The HTML debug page shown for an exception contains the exception text and local source only in HTML-escaped form, for every exception message; clients that do not accept HTML get the traceback as plain text, and nothing is disclosed when debug is off.",
  ["inputs"], "every exception message up to the stated length and every Accept header",
  "Tests look for one string.",
  ["starlette/middleware/errors.py"], [("generate_html", "starlette/middleware/errors.py")])

p("C39", "Endpoints guarded by scopes run only for authorised users",
  "An endpoint (sync, async or websocket) guarded by required scopes runs if and only if the connection holds every required scope; otherwise it is refused with the configured status, a redirect to the named route carrying the original URL in 'next', or a websocket close. The authentication middleware exposes exactly the backend's credentials and user (or anonymous ones), and backend errors are answered by the error callback without reaching the application.",
  ["inputs", "configurations"], "every set of held and required scopes, every endpoint kind and argument form, every backend outcome",
  "Tests fix the scopes.",
  ["starlette/authentication.py", "starlette/middleware/authentication.py"], [("requires", "starlette/authentication.py:requires"), ("AuthenticationMiddleware", "starlette/middleware/authentication.py")])

p("C40", "Applications stack middleware in declared order inside error handling",
  "An application wraps its router so that every request passes, outermost first, through server-error handling, then the user's middleware in declared order, then exception handling, for requests, websockets and lifespan alike; handlers registered for 500 or Exception act at the outermost layer and all others at the innermost. Middleware cannot be added after the application has started, and route-level and router-level middleware wrap only their own routes.",
  ["configurations"], "every number and order of middlewares up to the stated count and every assignment of exception handlers",
  "Tests check one stack.",
  ["starlette/applications.py", R, "starlette/middleware/__init__.py"], [("build_middleware_stack", "starlette/applications.py")])

p("C41", "Lifespan reports startup and shutdown faithfully",
  "A lifespan session runs startup once, reports startup.complete, waits for shutdown, runs shutdown once and reports shutdown.complete; a failure in startup is reported as startup.failed and one in shutdown, or while waiting for it, as shutdown.failed, and re-raised. Handlers run in registration order, state yielded by the lifespan is available to requests, and a state without server support raises an error.",
  ["histories", "fault_sequences", "configurations"], "every list of handlers (sync/async, failing or not) up to the stated count and each lifespan form",
  "Tests fail at one point.",
  [R], [("lifespan", R + ":Router.lifespan")])

p("C42", "WebSockets refuse illegal message sequences",
  "For every sequence of receive and send calls, a websocket forwards exactly the ASGI messages legal in its state (connect first; accept, close or denial response before anything else; data or close after accept; nothing sent after a close and nothing received after a disconnect) and raises an error, without forwarding, for every other. A disconnect received is remembered, a send that fails after accepting is reported as a disconnect, and legal messages are forwarded unchanged.",
  ["histories"], "every sequence of up to the stated number of calls and messages over all message types",
  "Tests check a few illegal sequences; the state machine has many.",
  ["starlette/websockets.py"], [("receive/send", "starlette/websockets.py:WebSocket")])

p("C43", "WebSocket typed receive/send helpers deliver the payload",
  "Text, bytes and JSON helpers send and return exactly the payload in the requested mode, iterating yields every payload until disconnect and then stops, and using a helper before accepting, a receiving one after a disconnect or any after a close raises an error. A denial response is sent through the extension with the response's status, headers and body exactly when supported, else refused.",
  ["inputs", "histories"], "every payload and message sequence within the stated bounds",
  "Tests use fixed payloads.",
  ["starlette/websockets.py"], [("helpers", "starlette/websockets.py:WebSocket")])

p("C44", "WebSocket endpoint classes decode by declared encoding and close once",
  "A websocket endpoint class calls connect once, then receive once per data message decoded by the declared encoding, then disconnect once with the close code of the client, or 1011 if a handler raised; a message of the wrong kind or malformed JSON closes with 1003 and raises. No handler runs after disconnect.",
  ["histories", "fault_sequences"], "every sequence of client messages up to the stated count, every encoding and every failure point",
  "Tests check one sequence per encoding.",
  ["starlette/endpoints.py"], [("WebSocketEndpoint.dispatch", "starlette/endpoints.py")])

p("C45", "Configuration resolves by precedence and casts strictly",
  "A configuration value comes from the environment if set there, else from the file, else from the default, else raises; a cast is applied to whichever was chosen, booleans accept exactly true/1/false/0 in any case, and a value the cast refuses (with ValueError or TypeError) raises ValueError naming the entry. An environment variable that has been read (even if it was not set) can no longer be changed or deleted, and a prefix applies to every name.",
  ["inputs", "histories", "configurations"], "every value up to the stated length and every presence combination and order of reads and writes",
  "Tests check fixed variables.",
  ["starlette/config.py"], [("Config", "starlette/config.py")])

p("C46", "WSGI applications see a faithful environ and their output is relayed",
  "The environ built for a WSGI application carries the request's method, script name and path (decoded as latin-1 per WSGI), query string, server address, content headers and every other header as HTTP_ variables with repeated headers joined by commas; its status, headers and body chunks are relayed unchanged and in order, and its exceptions propagate.",
  ["inputs", "histories"], "every path, header name and value and chunk list within the stated bounds",
  "Tests check fixed requests.",
  ["starlette/middleware/wsgi.py"], [("build_environ", "starlette/middleware/wsgi.py"), ("WSGIResponder", "starlette/middleware/wsgi.py")])

p("C47", "API schemas list exactly the documented endpoints",
  "The generated schema contains one operation for each documented HTTP handler of each route, including class-based endpoints and routes under mounts, keyed by its full path with type suffixes removed and lowercased method, and nothing for undocumented, hidden or HEAD handlers.",
  ["configurations", "inputs"], "every combination of routes, mounts, methods and docstrings within the stated bounds",
  "Tests generate one schema.",
  ["starlette/schemas.py"], [("get_endpoints", "starlette/schemas.py")])

p("C48", "JSON responses and requests round-trip",
  "A JSON response body parses back to an equal value for every JSON-representable content, is compact UTF-8 and never contains NaN or Infinity; a request's JSON is the parse of its whole body whatever the chunking, cached for repeated reads, and malformed bodies raise.",
  ["inputs"], "every string, integer, list and object within the stated bounds",
  "Tests use fixed values.",
  ["starlette/responses.py", "starlette/requests.py"], [("JSONResponse.render", "starlette/responses.py"), ("Request.json", "starlette/requests.py")])

p("C49", "The test client reports what the application sent",
  "The application receives each request of the test client as it was made (method, scheme, path, raw path, query, headers, host, client, root path, body), and the test client returns the status, headers and body the application sent, in any chunking, and whatever was sent before a failure; the exceptions of the application are raised when asked to and become a 500 response otherwise (if no response was started); messages out of order are refused; websocket messages, acceptances, denials and closures arrive in order and unchanged in both directions; a client used as a context manager runs startup before and shutdown after, reports their failures, and gives each request its own copy of the lifespan state; arguments of the caller are not changed by a websocket connection.",
  ["inputs", "histories"], "every request, response and message sequence within the stated bounds",
  "Tests use the client itself as their oracle.",
  ["starlette/testclient.py"], [("_TestClientTransport", "starlette/testclient.py")])

p("C50", "Templates auto-escape values from the request context",
  "Values interpolated in templates rendered through a template response are HTML-escaped unless they provide their own HTML; the context of a response consists of the given values, the request being answered and the values of the context processors (which win over given ones), and nothing of other responses, even if they share the dictionary of given values; url_for in a template is that of the request; status, headers, media type and background task are those given, in every way of passing the arguments.",
  ["inputs", "histories"], "every value up to the stated length interpolated in the stated templates, every way of passing arguments and every two consecutive responses",
  "Tests render fixed values.",
  ["starlette/templating.py"], [("Jinja2Templates", "starlette/templating.py")])

p("C51", "Checking for a disconnect is accurate and loses no data",
  "However checks for a client disconnect are interleaved with reading the body, by a function middleware or by an application behind any number of them, the body is still read complete and in order and the check never waits for the client; the check is true only after the client has disconnected, stays true, and is true for a disconnect that has already arrived once the messages before it have been received.",
  ["schedules", "histories"], "every arrival time of the body messages and the disconnect relative to the checks and reads within the stated bounds",
  "Tests make one check after the whole body.",
  ["starlette/requests.py", "starlette/middleware/base.py"], [("is_disconnected", "starlette/requests.py"), ("receive_or_disconnect", "starlette/middleware/base.py")])

p("C52", "What is registered by method or decorator acts as if given to the constructor",
  "Routes, websocket routes, mounts, hosts, exception handlers, lifespan handlers and middleware added with the methods or decorators of an application or router serve, reverse, document and run exactly like the same ones given to its constructor, in the order of registration (middleware: the last one outermost, and none once the application has started); decorators return the function they decorate; what is registered on one application or router changes neither the sequences and mapping it was made from nor another one made from them; routes compare equal exactly when they are of the same kind, path and target (and methods).",
  ["configurations", "inputs"], "every list of registrations up to the stated count and every request within the stated bounds",
  "Tests register a fixed set.",
  ["starlette/applications.py", "starlette/routing.py"], [("add_route", "starlette/applications.py"), ("Router.add_route", "starlette/routing.py")])

p("C53", "Connections show what the server gave, and share their state with nothing else",
  "A request or websocket is a read-only mapping of its scope whose headers, query, path parameters, client and method are those of the scope; session, user and auth are the objects in the scope and refuse to be read if their middleware is missing; what is stored in its state is seen by everything that handles the same connection, on top of the state given by the server, and by no other connection; the application's state lasts; connections are equal only to themselves; a push promise, from any kind of endpoint or from middleware, goes out exactly when the server supports it, with only the headers that apply to it.",
  ["inputs", "histories"], "every scope, state history and header list within the stated bounds",
  "Tests read fixed scopes.",
  ["starlette/requests.py", "starlette/datastructures.py"], [("HTTPConnection", "starlette/requests.py"), ("State", "starlette/datastructures.py")])

p("C54", "Uploaded files behave as the file they hold",
  "Reading, writing, seeking and closing an uploaded file act on the content of its file exactly as on a byte buffer, whether the file is in memory, on disk or moves to disk meanwhile, once per call, in a worker thread exactly when it is not in memory; its size grows by what is appended and stays unknown if it was; name, headers and content type are those of the part. Closing a form or its request, or leaving the block the form was opened for, even by an error, closes every file of the form.",
  ["histories", "inputs"], "every history of operations within the stated bounds",
  "Tests use one sequence.",
  ["starlette/datastructures.py", "starlette/requests.py"], [("UploadFile", "starlette/datastructures.py"), ("FormData.close", "starlette/datastructures.py")])

p("C55", "Work sent to worker threads runs once and its outcome comes back",
  "A function sent to a worker thread is called once with its arguments in the caller's context and its result or error comes back; an iterator consumed in worker threads yields every item once, in order, no sooner than asked for, and its error at the end; synchronous endpoints, background tasks and exception handlers run in a worker thread and asynchronous ones in the event loop, however wrapped; functions run until the first one completes are all started, and the others are cancelled.",
  ["schedules", "inputs", "fault_sequences"], "every argument, item list, failure and duration within the stated bounds",
  "Tests check that a result is returned.",
  ["starlette/concurrency.py", "starlette/_utils.py"], [("run_in_threadpool", "starlette/concurrency.py"), ("is_async_callable", "starlette/_utils.py")])

p("C56", "A response object can be sent any number of times",
  "Sending a response changes neither the response object nor what a later sending of it yields: for every plain, JSON, HTML, redirect or file response and every two requests (whole, HEAD, ranges, refused ranges, a file that changed in between), the second sending equals that of a newly made response, whatever middleware it passes through; nothing that middleware or a range adds for one client reaches the next, and background tasks run once per sending. Streaming responses, whose content can be consumed once, are excepted.",
  ["inputs", "histories", "configurations"], "every pair of requests, text, file size and range within the stated bounds",
  "Tests send each response object once.",
  ["starlette/responses.py", "starlette/middleware/"], [("FileResponse.__call__", "starlette/responses.py"), ("Response.__call__", "starlette/responses.py"), ("IdentityResponder.send_with_compression", "starlette/middleware/gzip.py")])

p("C57", "Comma separated values split into their items",
  "A comma separated configuration value yields, in order, the non-empty pieces between its commas with surrounding blanks removed, whatever other characters they hold; quotes keep a comma within an item and are removed, an unclosed quote is refused with ValueError, and a value given as a sequence is kept item by item. Length, index, slice, iteration and representation agree on these items.",
  ["inputs"], "every text and item list up to the stated length",
  "Tests check a handful of fixed strings.",
  ["starlette/datastructures.py", "starlette/config.py"], [("CommaSeparatedStrings", "starlette/datastructures.py")])

p("C58", "Requests served at the same time do not interfere",
  "Two connections served by one application, middleware stack, endpoint class, directory or response object, with their messages interleaved in any order, each get exactly the messages they get when served alone on a newly made application: status, headers, body, session, credentials, form, range and error are their own, and each background task and websocket callback runs as often as it would alone.",
  ["schedules", "inputs", "configurations"], "every interleaving of the messages of two connections and every input within the stated bounds",
  "Tests serve one request at a time.",
  ["starlette/applications.py", "starlette/routing.py", "starlette/middleware/", "starlette/endpoints.py", "starlette/responses.py"], [("Router.app", "starlette/routing.py"), ("ExceptionMiddleware.__call__", "starlette/middleware/exceptions.py"), ("SessionMiddleware.__call__", "starlette/middleware/sessions.py"), ("GZipMiddleware.__call__", "starlette/middleware/gzip.py")])


p("C59", "Malformed requests are answered, not failed on",
  "Whatever a client sends as a cookie, range, conditional, encoding, origin, preflight, authorization or content type header, form body, path, query string, method or host name (malformed ones included, brackets and ports of a Host that are not valid in a URL apart), an application built from the framework's middleware, routes, forms, sessions and static files answers with exactly one complete response with a status below 500, header names in lower case, no line ends in header values and, if it has a length, the length of its body; no exception escapes.",
  ["inputs", "configurations"], "every value within the stated bounds of each header, body, path and query string",
  "Tests send well-formed requests and a few fixed malformed ones.",
  ["starlette/middleware/", "starlette/requests.py", "starlette/formparsers.py", "starlette/responses.py", "starlette/staticfiles.py", "starlette/routing.py"], [("cookie_parser", "starlette/requests.py"), ("FileResponse._parse_range_header", "starlette/responses.py"), ("StaticFiles.lookup_path", "starlette/staticfiles.py"), ("MultiPartParser.parse", "starlette/formparsers.py"), ("SessionMiddleware.__call__", "starlette/middleware/sessions.py")])


p("C60", "An answer does not depend on the requests answered before",
  "Whatever requests one application, router, middleware stack, endpoint class or directory has answered, it answers the next one exactly as a newly made one would: route and redirect, generated URLs, CORS and host decisions, compression, session, credentials, error handling, cookies, forms, state, background tasks and websocket callbacks follow from that request alone, even if the application changed the objects it was given for earlier ones; static files are answered as they are now (changed, created, removed or replaced in between), and a changed file has another entity tag.",
  ["histories"], "every history of the stated length",
  "Tests answer one request per application, or repeat the same one.",
  ["starlette/routing.py", "starlette/applications.py", "starlette/requests.py", "starlette/responses.py", "starlette/staticfiles.py", "starlette/middleware/"], [("Router.app", "starlette/routing.py"), ("CORSMiddleware.preflight_response", "starlette/middleware/cors.py"), ("SessionMiddleware.__call__", "starlette/middleware/sessions.py"), ("_lookup_exception_handler", "starlette/_exception_handler.py"), ("StaticFiles.lookup_path", "starlette/staticfiles.py"), ("FileResponse.set_stat_headers", "starlette/responses.py")])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
