"""Helpers shared by the harnesses; runs instrumented and natively alike."""
import asyncio


NATIVE = False  # set by the native replay driver


def drive(coro):
    """Run a coroutine that never suspends (on a real event loop in native replay, where
    worker threads are real)."""
    if NATIVE:
        return asyncio.run(coro)
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("coroutine suspended")


def run(coro):
    """Run on a real event loop."""
    return asyncio.run(coro)


class Deadlock(Exception):
    """Nothing left to run, and the program has not finished."""


class _Loop(asyncio.SelectorEventLoop):
    slept = 0  # how often nothing could be done until some time had passed

    def _run_once(self):
        if not self._ready:
            if not self._scheduled:
                raise Deadlock
            self.slept += 1
        super()._run_once()


def run_closed(coro):
    """Run on a real event loop of which the coroutine is the only program: waiting for
    something that nobody can do any more raises Deadlock instead of hanging."""
    loop = _Loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.set_exception_handler(lambda *a: None)
        try:
            for _ in range(3):
                for task in asyncio.all_tasks(loop):
                    task.cancel()
                for _ in range(5):
                    loop.call_soon(int)
                    loop._run_once()
            loop.run_until_complete(loop.shutdown_asyncgens())
        except Deadlock:
            pass
        loop.close()


async def ticks(n):
    """Let the loop turn n times."""
    for _ in range(n):
        await asyncio.sleep(0)


def http_scope(path="/", method="GET", headers=(), query=b"", root_path="", scheme="http", server=("testserver", 80), **kw):
    scope = {
        "type": "http",
        "asgi": {"version": "3.0", "spec_version": "2.3"},
        "http_version": "1.1",
        "method": method,
        "path": path,
        "root_path": root_path,
        "scheme": scheme,
        "query_string": query,
        "headers": list(headers),
        "client": ("client", 1234),
        "server": server,
    }
    scope.update(kw)
    return scope


def ws_scope(path="/", headers=(), query=b"", root_path="", scheme="ws", **kw):
    scope = {
        "type": "websocket",
        "asgi": {"version": "3.0", "spec_version": "2.3"},
        "path": path,
        "root_path": root_path,
        "scheme": scheme,
        "query_string": query,
        "headers": list(headers),
        "client": ("client", 1234),
        "server": ("testserver", 80),
        "subprotocols": [],
    }
    scope.update(kw)
    return scope


class Workers:
    """Counts the calls sent to worker threads; depth > 0 while one runs."""

    def __enter__(self):
        import anyio.to_thread

        self.anyio = anyio
        self.real = anyio.to_thread.run_sync
        self.calls = 0
        self.depth = 0

        async def run_sync(func, *args, **kwargs):
            def work(*a):
                self.depth += 1
                try:
                    return func(*a)
                finally:
                    self.depth -= 1

            self.calls += 1
            return await self.real(work, *args, **kwargs)

        anyio.to_thread.run_sync = run_sync
        return self

    def __exit__(self, *a):
        self.anyio.to_thread.run_sync = self.real


class Channel:
    """A scripted client: receive() pops messages, send() records them."""

    def __init__(self, messages=None):
        self.messages = [{"type": "http.request", "body": b"", "more_body": False}] if messages is None else list(messages)
        self.sent = []
        self.pos = 0

    async def receive(self):
        if self.pos < len(self.messages):
            m = self.messages[self.pos]
            self.pos += 1
            return m
        return {"type": "http.disconnect"}

    async def send(self, message):
        self.sent.append(message)

    # --- response view
    @property
    def status(self):
        for m in self.sent:
            if m["type"] == "http.response.start":
                return m["status"]
        return None

    @property
    def headers(self):
        for m in self.sent:
            if m["type"] == "http.response.start":
                return list(m.get("headers", []))
        return None

    def header(self, name):
        """Values of a header (name given in lower case)."""
        return [v for k, v in (self.headers or []) if k == name]

    @property
    def body(self):
        out = b""
        for m in self.sent:
            if m["type"] == "http.response.body":
                out = out + m.get("body", b"")
        return out


def call(app, scope, messages=None, loop=False):
    ch = Channel(messages)

    async def go():
        await app(scope, ch.receive, ch.send)

    if loop:
        run(go())
    else:
        drive(go())
    return ch


def outcome(f):
    """('ok', value) or ('exc', class name)."""
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", type(e).__name__)


def digit(c):
    o = ord(c)
    return (o >= 48) & (o <= 57)


# --- path templates as formulas: parts are literals or (name, type)
def piece_ok(S, piece, typ):
    """Formula: piece is a text the type denotes."""
    if typ == "str":
        return S.And(len(piece) > 0, *[c != "/" for c in piece])
    if typ == "int":
        return S.And(len(piece) > 0, *[digit(c) for c in piece])
    if typ == "path":
        return True
    raise AssertionError(typ)


def value_ok(S, piece, typ, value):
    if typ == "int":
        v = 0
        for c in piece:
            v = v * 10 + (ord(c) - 48)
        return S.And(isinstance(value, int), value == v)
    return S.And(isinstance(value, str), S.eq(value, piece))


def denotes(S, parts, path, params):
    """Formula: path is the template instantiated (with these values when given)."""
    if not parts:
        return len(path) == 0
    head = parts[0]
    if isinstance(head, str):
        n = len(head)
        if len(path) < n:
            return False
        return S.And(path[:n] == head, denotes(S, parts[1:], path[n:], params))
    name, typ = head
    alts = []
    for k in range(len(path) + 1):
        piece = path[:k]
        ok = piece_ok(S, piece, typ)
        if ok is False:
            continue
        rest = denotes(S, parts[1:], path[k:], params)
        if rest is False:
            continue
        conds = [ok, rest]
        if params is not None:
            conds.append(value_ok(S, piece, typ, params[name]))
        alts.append(S.And(*conds))
    return S.Or(*alts)
