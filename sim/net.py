"""The simulated network: a data server behind requests' transport adapter."""
import functools
import gzip
import http.client
import io
import random
import socket
import sys
import tarfile
import zlib

import requests
import requests.adapters
import urllib3
from urllib3.response import HTTPResponse

from .engine import HarnessError, cur
from .seams import OPT


@functools.lru_cache(200)
def boundaries(data):
    """Offsets in a compressed archive at which what is there so far ends with a complete member (or within the next header)."""
    if data[:2] != b"\x1f\x8b":
        return []
    try:
        plain = gzip.decompress(data)
        ends = []
        with tarfile.open(fileobj=io.BytesIO(plain)) as tar:
            for m in tar:
                if m.isreg():
                    ends.append(m.offset_data + (m.size + 511) // 512 * 512)
    except Exception:
        return []
    z, out, n = zlib.decompressobj(31), [], 0
    step = 4
    for i in range(0, len(data), step):
        n += len(z.decompress(data[i:i + step]))
        if any(e <= n < e + 512 for e in ends[:-1]):
            out.append(i + step)
    return out


class Body(io.RawIOBase):
    """Response body as it trickles in: every read is a step."""

    def __init__(self, w, url, data, chunk):
        self.w, self.url, self.data, self.pos, self.chunk = w, url, data, 0, chunk
        self.eof = False
        self.left = 0                # of the current piece of a chunked transfer
        self.pieces = 0

    def readable(self):
        return True

    def read(self, amt=None):
        t = cur()
        if self.eof or self.pos >= len(self.data):
            return b""
        n = len(self.data) - self.pos if amt is None or amt < 0 else amt
        n = min(n, self.chunk)
        if t is not None and not t.proc.dead:
            self.w.clock += 0.002
            f = self.w.step(t, "net.read", self.url, OPT["net.read"])
            if f is not None:
                if f[0] == "short":
                    n = max(1, n * f[1] // 1000)
                elif f[0] == "net:reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                elif f[0] == "net:timeout":
                    self.w.clock += 60
                    raise socket.timeout("timed out")
                elif f[0] == "net:eof":
                    self.eof = True
                    out = self.data[self.pos:self.cut(n)]
                    self.pos += len(out)
                    return out
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def cut(self, n):
        """Where the connection breaks off within the next n bytes: half of the time where a member of the archive ends."""
        r = random.Random("%s %d %d" % (self.w.knobs.get("dirseed"), self.pos, len(self.data)))
        end = min(self.pos + n, len(self.data))
        if r.random() < 0.6:
            here = [x for x in boundaries(self.data) if self.pos <= x < end]
            if here:
                return r.choice(here)
        return r.randrange(self.pos, end)

    # -- chunked transfer, as http.client offers it to urllib3
    @property
    def fp(self):
        if self.w.knobs.get("content_length") != "chunked":
            raise AttributeError("fp")
        return self

    def readline(self, *_):
        if self.eof:
            return b""
        if self.left < 0:
            return b"\r\n"
        self.pieces += 1
        n = 1 if self.pieces == 3 else self.chunk
        self.left = min(n, len(self.data) - self.pos)
        out = b"%x\r\n" % self.left
        self.left = self.left or -1
        return out

    def _safe_read(self, amt):
        if self.left <= 0:
            return b"\r\n"[:amt]
        out = b""
        while len(out) < amt:
            d = self.read(amt - len(out))
            if not d:
                raise http.client.IncompleteRead(out, amt - len(out))
            out += d
        self.left -= len(out)
        return out

    def read1(self, amt=None):
        return self.read(amt)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def close(self):
        super().close()


class Server:
    """url -> archive bytes; what the data host serves."""

    def __init__(self, files=None):
        self.files = dict(files or {})

    def lookup(self, url):
        return self.files.get(url)


HTML = b"<!DOCTYPE html><html><head><title>Zenodo</title></head><body>temporarily unavailable</body></html>" * 3


def sim_send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    t = cur()
    if t is None:
        return REAL_SEND(self, request, stream=stream, timeout=timeout, verify=verify, cert=cert, proxies=proxies)
    w = t.world
    if w.server is None:
        raise HarnessError("no server in this world: " + request.url)
    w.requests.append((t.proc.name, t.op, request.method, request.url))
    w.clock += 0.05
    f = w.step(t, "net.connect", request.url, OPT["net.connect"])
    kind = f[0] if f is not None else "ok"
    if kind == "net:refuse":
        raise requests.exceptions.ConnectionError("connection refused (simulated)", request=request)
    if kind == "net:dns":
        raise requests.exceptions.ConnectionError("name resolution failed (simulated)", request=request)
    if kind == "net:reset":
        raise requests.exceptions.ConnectionError(urllib3.exceptions.ProtocolError("Connection aborted."), request=request)
    if kind == "net:timeout":
        w.clock += 75
        raise requests.exceptions.ConnectTimeout("timed out (simulated)", request=request)
    data = w.server.lookup(request.url)
    status = 200
    headers = {"Content-Type": "application/octet-stream"}
    if callable(data):
        data = data(w)
    if isinstance(data, tuple):       # (status, headers, body)
        status, extra, data = data
        headers.update(extra)
    elif data is None:
        status, data = 404, b"not found"
    if kind[:4] == "net:" and kind[4:].isdigit():
        status, data = int(kind[4:]), HTML
        headers = {"Content-Type": "text/html"}
    elif kind == "net:html":
        data = HTML
        headers = {"Content-Type": "text/html"}
    elif kind == "net:empty":
        data = b""
    knob = w.knobs.get("content_length", "right")
    if knob == "encoded" and data[:2] == b"\x1f\x8b":
        headers["Content-Encoding"] = "gzip"         # as some servers declare .tgz files; the client unpacks the outer layer
    if knob == "chunked":
        headers["Transfer-Encoding"] = "chunked"
    if knob in ("right", "encoded") and status != 302:
        headers["Content-Length"] = str(len(data))
    body = Body(w, request.url, data, w.knobs.get("net_chunk", 1 << 16))
    resp = HTTPResponse(body=body, headers=headers, status=status, reason="OK" if status == 200 else "Error",
                        preload_content=False, decode_content=False, request_method=request.method)
    return self.build_response(request, resp)


REAL_SEND = requests.adapters.HTTPAdapter.send


def _audit(event, args):
    if event in ("socket.connect", "socket.getaddrinfo", "socket.sendto") and cur() is not None:
        t = cur()
        t.world.escapes.append((event, str(args[1:2])))
        raise PermissionError("simulated machine: real network use")


def install():
    requests.adapters.HTTPAdapter.send = sim_send
    sys.addaudithook(_audit)
