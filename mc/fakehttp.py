"""The HTTP server of the remote inventories, behind requests.adapters.HTTPAdapter.send.

Everything above (multiurl, requests sessions, the reading of the body by urllib3) runs for real. Each
exchange is logged; the answer to any exchange can deviate from the normal one.
"""

import hashlib
import io

# "empty" (no content), "page" (some page instead) at a HEAD: for the GET that follows as well
HEAD_DEVIATIONS = ["refused", "timeout", "404", "405", "500", "no-length", "no-ranges", "bare", "empty", "page"]
GET_DEVIATIONS = [
    "refused",
    "timeout",
    "404",
    "403",
    "500",
    "503",
    "cut0",
    "cut-early",
    "cut-half",
    "cut-last",
    "reset-half",
    "no-length",
    "silent-half",
    "twice",
    "twice-no-length",
    "empty",
    "page",
]
RANGE_DEVIATIONS = ["ignore-range", "416"]
INSTEAD = {"empty": b"", "page": b"<html>please log in</html>"}


class _Body(io.RawIOBase):
    """data, then an error or the end"""

    def __init__(self, data, error=None):
        self.b = io.BytesIO(data)
        self.error = error

    def readable(self):
        return True

    def read(self, n=-1):
        r = self.b.read(n)
        if (n is None or n < 0 or len(r) < n) and self.error is not None:
            if r:
                return r
            raise self.error
        return r

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[: len(r)] = r
        return len(r)


class Server:
    def __init__(self, base="http://inventory.test/db/1/"):
        self.base = base
        self.files = {}
        self.down = None
        self.plan = {}  # index of exchange -> deviation
        self.log = []  # (method, name, range, outcome)
        self.sleeps = 0
        self.ranges = True
        self.instead = {}  # name -> what the next GET gives

    def install(self):
        import multiurl.retry
        import requests.adapters
        import requests.sessions

        server = self

        class Clock:
            def __getattr__(self, name):
                import time

                return getattr(time, name)

            @staticmethod
            def sleep(seconds):
                server.sleeps += 1

        multiurl.retry.time = Clock()

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return server.answer(adapter, request)

        requests.adapters.HTTPAdapter.send = send
        # ~/.netrc and proxies are not looked up
        requests.sessions.Session.trust_env = False
        init = requests.sessions.Session.__init__

        def session_init(s):
            init(s)
            s.trust_env = False

        requests.sessions.Session.__init__ = session_init

    def name_of(self, url):
        if url.startswith(self.base):
            return url[len(self.base) :].lstrip("/")
        return None

    def contacts(self, part=None, methods=("GET", "HEAD")):
        return [x for x in self.log if x[0] in methods and (part is None or part in (x[1] or "?"))]

    def answer(self, adapter, request):
        import requests

        i = len(self.log)
        name = self.name_of(request.url)
        rng = request.headers.get("range") or request.headers.get("Range")
        dev = self.plan.get(i) or self.plan.get(str(i)) or self.down
        self.log.append([request.method, name, rng, dev])
        if dev == "refused":
            raise requests.exceptions.ConnectionError("refused", request=request)
        if dev == "timeout":
            if request.method == "HEAD":
                raise requests.exceptions.ConnectTimeout("timeout", request=request)
            raise requests.exceptions.ReadTimeout("timeout", request=request)
        if dev is not None and dev.isdigit() and dev != "416":
            return self.respond(adapter, request, int(dev), {"content-type": "text/html"}, b"<html>error</html>")
        data = self.files.get(name)
        if data is None:
            return self.respond(adapter, request, 404, {"content-type": "text/html"}, b"<html>not found</html>")
        etag = '"' + hashlib.md5(data).hexdigest() + '"'
        headers = {
            "content-type": "application/octet-stream",
            "content-length": str(len(data)),
            "etag": etag,
            "last-modified": "Wed, 01 Jan 2025 00:00:00 GMT",
        }
        if self.ranges:
            headers["accept-ranges"] = "bytes"
        if dev == "bare":
            headers = {}
        if dev == "no-ranges":
            headers.pop("accept-ranges", None)
        if dev == "no-length" or (dev or "").startswith("silent") or dev == "twice-no-length":
            headers.pop("content-length", None)
        if request.method == "HEAD":
            self.instead.pop(name, None)
            if dev in INSTEAD:
                self.instead[name] = dev
        if dev in INSTEAD or name in self.instead:
            # a complete answer with something else in it
            data = INSTEAD[dev if dev in INSTEAD else self.instead[name]]
            headers["content-length"] = str(len(data))
            if request.method != "HEAD":
                self.instead.pop(name, None)
            return self.respond(adapter, request, 200, headers, b"" if request.method == "HEAD" else data)
        if request.method == "HEAD":
            return self.respond(adapter, request, 200, headers, b"")
        status = 200
        if rng is not None and self.ranges and dev != "ignore-range":
            start, _, end = rng.split("=")[1].partition("-")
            start = int(start)
            if dev == "416" or start >= len(data):
                return self.respond(
                    adapter, request, 416, {"content-range": f"bytes */{len(data)}", "content-length": "0"}, b""
                )
            end = int(end) if end else len(data) - 1
            headers["content-range"] = f"bytes {start}-{end}/{len(data)}"
            data = data[start : end + 1]
            status = 206
            if "content-length" in headers:
                headers["content-length"] = str(len(data))
        error = None
        n = len(data)
        if dev == "twice" or dev == "twice-no-length":
            data = data + data
            if "content-length" in headers:
                headers["content-length"] = str(len(data))
        cut = {"cut0": 0, "cut-early": min(n, 10), "cut-half": n * 3 // 4, "cut-last": n - 1, "silent-half": n * 3 // 4}.get(dev)
        if cut is not None:
            data = data[:cut]
        if dev == "reset-half":
            data = data[: n * 3 // 4]
            error = ConnectionResetError("reset by peer")
        return self.respond(adapter, request, status, headers, data, error)

    def respond(self, adapter, request, status, headers, data, error=None):
        from urllib3.response import HTTPResponse

        raw = HTTPResponse(
            body=_Body(data, error),
            headers=headers,
            status=status,
            version=11,
            reason={200: "OK", 206: "Partial Content", 404: "Not Found"}.get(status, "Error"),
            preload_content=False,
            decode_content=False,
            request_method=request.method,
            enforce_content_length=True,
        )
        r = adapter.build_response(request, raw)
        return r


def deviations(entry):
    """The deviations possible for an exchange of the log (answered normally)."""
    method, name, rng, _ = entry
    if method == "HEAD":
        return list(HEAD_DEVIATIONS)
    return GET_DEVIATIONS + (RANGE_DEVIATIONS if rng else [])
