"""Network seam: a simulated doi.org and Zenodo under the real requests + pooch."""

import hashlib
import json

import requests
import requests.adapters
import urllib3.exceptions as u3

from . import engine

NET = None
REAL_SEND = None
RECORD = "7767698"

CATALOGUE_FAULTS = ["refused", "timeout", "http500", "http429", "http404", "html", "truncated_json", "reset", "delay"]
BODY_FAULTS = ["refused", "timeout", "http500", "http404", "truncated", "silent_truncated", "corrupt", "reset_mid",
               "wrong_file", "delay", "stall"]


class Archive:
    """The published files."""

    def __init__(self):
        self.files = {}
        self.up = True

    def publish(self, name, data):
        self.files[name] = data


class SimNet:
    def __init__(self, archive):
        self.archive = archive
        self.requests = []
        self.outage = False  # True: nothing answers
        self.outage_kind = "refused"
        self.downloads = {}
        self.catalogue_hits = 0

    def handle(self, req, stream, timeout):
        sim = engine.SIM
        if sim is None or sim.current is None:
            raise requests.exceptions.ConnectionError("no simulated network", request=req)
        sim.point("net")
        url = req.url
        kind, name = self._route(url)
        self.requests.append((sim.current.proc.key, kind, name))
        sim.event(f"request {kind} {name}")
        if self.outage:
            fault = self.outage_kind
            sim.probe("net.outage_hit")
        elif kind in ("doi", "catalogue", "page"):
            fault = sim.dec.fault(f"net.{kind}", list(CATALOGUE_FAULTS))
        elif kind == "file":
            fault = sim.dec.fault("net.file", list(BODY_FAULTS))
        else:
            fault = None
        if fault:
            sim.event(f"  fault {fault}")
        if fault == "refused":
            raise requests.exceptions.ConnectionError("simulated: connection refused", request=req)
        if fault == "reset":
            raise requests.exceptions.ConnectionError("simulated: connection reset", request=req)
        if fault == "timeout":
            sim.sleep(30.0)
            raise requests.exceptions.ConnectTimeout("simulated: timed out", request=req)
        if fault == "delay":
            sim.sleep(5.0)
        if fault == "http500":
            return self._resp(req, 500, b'{"status": 500, "message": "Internal Server Error"}', "application/json")
        if fault == "http429":
            return self._resp(req, 429, b'{"status": 429, "message": "Too many requests"}', "application/json")
        if fault == "http404":
            return self._resp(req, 404, b'{"status": 404, "message": "Not found"}', "application/json")
        if fault == "html":
            return self._resp(req, 200, b"<html><body>Please log in to the captive portal</body></html>", "text/html")
        if kind == "doi":
            r = self._resp(req, 302, b"", "text/html")
            r.headers["location"] = f"https://zenodo.org/records/{RECORD}"
            return r
        if kind == "page":
            return self._resp(req, 200, b"<html>record</html>", "text/html")
        if kind == "catalogue":
            self.catalogue_hits += 1
            body = json.dumps(
                {
                    "id": int(RECORD),
                    "files": [
                        {
                            "key": n,
                            "size": len(d),
                            "checksum": "md5:" + hashlib.md5(d).hexdigest(),
                            "links": {"self": f"https://zenodo.org/api/records/{RECORD}/files/{n}/content"},
                        }
                        for n, d in self.archive.files.items()
                    ],
                }
            ).encode()
            if fault == "truncated_json":
                body = body[: len(body) // 2]
            return self._resp(req, 200, body, "application/json")
        if kind == "file" and name in self.archive.files:
            data = self.archive.files[name]
            declared = len(data)
            end = None
            if fault == "truncated":
                data, end = data[: len(data) * sim.dec.detail("net.cut", 4) // 4], "incomplete"
            elif fault == "silent_truncated":
                data = data[: len(data) * sim.dec.detail("net.cut", 4) // 4]
                declared = len(data)
            elif fault == "reset_mid":
                data, end = data[: len(data) * sim.dec.detail("net.cut", 4) // 4], "reset"
            elif fault == "corrupt":
                k = sim.dec.detail("net.flip", max(1, len(data)))
                data = data[:k] + bytes([data[k] ^ 0x40]) + data[k + 1:]
            elif fault == "wrong_file":
                others = [n for n in self.archive.files if n != name]
                data = self.archive.files[others[0]] if others else b"x" * 10
                declared = len(data)
            if end is None and fault not in ("corrupt", "wrong_file", "silent_truncated"):
                self.downloads[name] = self.downloads.get(name, 0) + 1
            return self._resp(req, 200, data, "application/octet-stream", declared, end,
                              stall=(fault == "stall"), stream=stream)
        return self._resp(req, 404, b"not found", "text/plain")

    def _route(self, url):
        u = url.split("?")[0]
        if u.startswith("https://doi.org/"):
            return "doi", u[len("https://doi.org/"):]
        if u == f"https://zenodo.org/records/{RECORD}":
            return "page", ""
        if u == f"https://zenodo.org/api/records/{RECORD}":
            return "catalogue", ""
        pre = f"https://zenodo.org/api/records/{RECORD}/files/"
        if u.startswith(pre):
            return "file", requests.utils.unquote(u[len(pre):].removesuffix("/content"))
        return "other", url

    def _resp(self, req, status, body, ctype, declared=None, end=None, stall=False, stream=False):
        r = requests.Response()
        r.status_code = status
        r.request = req
        r.url = req.url
        r.reason = "simulated"
        r.encoding = "utf-8" if "json" in ctype or "text" in ctype else None
        r.headers["content-type"] = ctype
        r.headers["content-length"] = str(len(body) if declared is None else declared)
        r.raw = SimRaw(body, end, stall)
        return r


class SimRaw:
    """The body of a response, delivered piecewise."""

    def __init__(self, body, end, stall):
        self.body, self.pos, self.end, self.stall = body, 0, end, stall
        self.chunk = max(1024, len(body) // 6)
        self.closed = False
        self.headers = {}
        self.version = 11
        self.reason = "simulated"
        self._original_response = None

    def stream(self, amt=None, decode_content=None):
        # bodies arrive in about six pieces whatever the reader asks for
        while True:
            d = self.read(self.chunk)
            if not d:
                return
            yield d

    def read(self, amt=None, decode_content=None, cache_content=False):
        sim = engine.SIM
        if sim is not None and sim.current is not None:
            sim.point("net.read")
            if self.stall and self.pos:
                self.stall = False
                sim.sleep(30.0)
                raise u3.ReadTimeoutError(None, None, "simulated: read timed out")
        n = len(self.body) - self.pos if amt is None else amt
        d = self.body[self.pos: self.pos + n]
        self.pos += len(d)
        if not d or (amt is None):
            if self.end == "incomplete":
                raise u3.ProtocolError("simulated: incomplete read")
            if self.end == "reset":
                raise u3.ProtocolError("simulated: connection reset by peer", ConnectionResetError())
        return d

    def release_conn(self):
        self.closed = True

    def close(self):
        self.closed = True

    def isclosed(self):
        return self.closed


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    if NET is None:
        raise requests.exceptions.ConnectionError("no network", request=request)
    r = NET.handle(request, stream, timeout)
    r.connection = self
    if not stream:
        r.content  # noqa: B018
    return r


def install():
    global REAL_SEND
    REAL_SEND = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = _send
