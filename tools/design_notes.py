"""Per property: the oracle, and the quick check's time on 8 idle cores."""
NOTES = {
"C01": ("a matcher written from the statement (split the template at its parameters, try every way to divide the path), not a regular expression.", "5 s"),
"C02": ("the router itself: the produced path is dispatched and must select the same endpoint with equal parameters; `NoMatchFound` for every name and parameter set that does not exist.", "10 s"),
"C03": ("path arithmetic on the incoming scope: root_path' = root_path + consumed prefix, remaining path = path minus root_path', boundaries at '/'.", "5 s"),
"C04": ("a linear search through the table with the path matcher of C01 and method sets.", "10 s"),
"C05": ("the C04 oracle asked about the path with its slash changed; the Location is parsed and compared component by component.", "8 s"),
"C06": ("the Host header with its port removed compared label by label to the pattern.", "16 s"),
"C07": ("the set of handlers the class defines; every other method is 405 with that set in Allow.", "14 s"),
"C08": ("a plain list of (lower-case name, value) pairs.", "6 s"),
"C09": ("a plain list of pairs.", "20 s"),
"C10": ("a decoder of application/x-www-form-urlencoded written in the harness.", "10 s"),
"C11": ("the components of the URL before the edit; only the edited one may differ.", "35 s"),
"C12": ("the URL composed from scheme, authority, percent-encoded path and query.", "45 s"),
"C13": ("non-interference: two runs with different secrets must give the same text.", "55 s"),
"C14": ("the concatenation of the chunks the client sent.", "25 s"),
"C15": ("the value given to set_cookie, and a Cookie header parser written in the harness.", "6 s"),
"C16": ("a decoder of application/x-www-form-urlencoded written in the harness.", "10 s"),
"C17": ("the list of parts the harness encoded, whatever the cuts; for malformed bodies only 'a client error or the parts', never a crash or leak.", "100 s"),
"C18": ("counts of files, fields and sizes; every spooled file the harness saw created is closed after a rejection.", "30 s"),
"C19": ("framing rules on the messages sent (one start, lengths, charset, no body for HEAD-less statuses).", "15 s"),
"C20": ("the list of chunks the iterator yields, cut at the moment of disconnect.", "5 s"),
"C21": ("the file's bytes and RFC 9110 framing, recomputed from the header.", "25 s"),
"C22": ("the set of byte positions each range names.", "10 s"),
"C23": ("a header parser: one Location without control characters, one Content-Disposition whose decoded name is the one given.", "35 s"),
"C24": ("the list of tasks in order, against the log of calls and messages.", "8 s"),
"C25": ("lexical and real locations computed on a scratch tree with symbolic links; a path is served exactly when they lead to a file inside.", "5 s"),
"C26": ("the conditional-request rules of RFC 9110 on the listed tags and dates.", "12 s"),
"C27": ("the table in the statement, on a scratch tree.", "16 s"),
"C28": ("`harness/cors_ref.py`, the statement as a function of configuration and request.", "15 s"),
"C29": ("`harness/cors_ref.py`.", "15 s"),
"C30": ("host name without port equal to, or a proper subdomain of, a listed pattern; non-interference of every other header.", "55 s"),
"C31": ("the request's URL with only the scheme (and default port) changed.", "15 s"),
"C32": ("signing stand-in: a cookie is valid only if the harness signed it with that secret at a time within max_age.", "45 s"),
"C33": ("the response of the application without the middleware; gzip bodies are decompressed with the real zlib.", "20 s"),
"C34": ("the messages of the application without the middleware.", "60 s"),
"C35": ("the body the client sent.", "15 s"),
"C36": ("the method resolution order of the raised exception's class.", "12 s"),
"C37": ("at most one response, a 500 if none was started, and the exception object itself re-raised.", "6 s"),
"C38": ("the page made from a reference text: outside the places of that text the pages must agree, inside there must be no markup and its HTML decoding must be the original.", "5 s"),
"C39": ("subset test of the required scopes.", "35 s"),
"C40": ("the order in which wrappers see a request, from the declared lists.", "15 s"),
"C41": ("a transcript automaton for the lifespan protocol.", "6 s"),
"C42": ("a state machine for both directions written from the ASGI specification.", "15 s"),
"C43": ("the payloads sent by the other side.", "15 s"),
"C44": ("the declared encoding's decoder and the close codes in the statement.", "10 s"),
"C45": ("precedence environment, file, default, and the cast table.", "6 s"),
"C46": ("PEP 3333 environ from the scope; the WSGI application's status, headers and chunks.", "20 s"),
"C47": ("the table's documented endpoints, one operation per path and method.", "20 s"),
"C48": ("the value itself, compared as a JSON value; the text is walked for whitespace outside strings.", "16 s"),
"C49": ("the messages the application sent and received.", "35 s"),
"C50": ("HTML-escaping of the interpolated value; the context that was given.", "55 s"),
"C51": ("whether the disconnect message has arrived, and the body the client sent.", "50 s"),
"C52": ("the same application built through the constructor: equal answers to every request.", "18 s"),
"C53": ("the scope's own values; a copy of the state as a plain dict.", "16 s"),
"C54": ("an in-memory file with the same operations applied.", "14 s"),
"C56": ("the sending of a newly made response of the same arguments.", "17 s"),
"C57": ("a splitter written from the statement.", "20 s"),
"C58": ("the same connection served alone by a newly made application.", "35 s"),
"C59": ("one start, bodies and an end, a status below 500, legal headers: no model of the answer itself.", "60 s"),
"C60": ("the same request asked of a newly made application.", "80 s"),
"C55": ("a direct call of the function.", "3 s"),
}
