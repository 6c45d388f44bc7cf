"""Simulated network behind urllib.request.urlopen and sockets; time is virtual."""
import gzip
import io
import re
import socket
import urllib.error
import urllib.request
import zlib

from . import engine

NET = None


class SimNet:
    """archive: {(station, year): [version text, ...]}; the last version is the one served."""

    def __init__(self, archive, faults=()):
        self.archive = archive
        self.faults = {(f[0], f[1]): f[2] for f in faults}
        self.count = {}
        self.up = True
        self.requests = []
        self.open_responses = 0
        self.hung = False
        self.gz = {}
        self.url_faults = {}     # (url fragment, attempt) -> kind
        self.attempts = {}
        self.attr_faults = []    # (fragment, kind) that fired

    def url_fault(self, url):
        """Fault attributed to one resource: kind for this attempt, or None."""
        for frag in sorted({f for f, _ in self.url_faults}):
            if frag in url:
                n = self.attempts.get(frag, 0)
                self.attempts[frag] = n + 1
                k = self.url_faults.get((frag, n))
                if k is not None:
                    self.attr_faults.append((frag, k))
                return k
        return None

    def fault(self):
        s = engine.CURRENT
        t = s.me()
        s.point("net")
        n = self.count.get(t.id, 0)
        self.count[t.id] = n + 1
        k = self.faults.get((t.id, n))
        if k == "kill":
            s.inject("kill-in-transfer")
            s.kill_proc(t.proc)
        return k

    def compressed(self, text):
        g = self.gz.get(text)
        if g is None:
            g = self.gz[text] = gzip.compress(text.encode(), mtime=0)
        return g


def _stall(timeout, net, exc):
    s = engine.CURRENT
    s.inject("net-stall")
    if timeout is None:
        net.hung = True
        s.block(lambda: False, s.now + 86400.0 * 30)
        raise exc
    s.sleep(timeout)
    raise exc


class Response(io.RawIOBase):
    def __init__(self, net, url, data, timeout, kind):
        self.net, self.url, self.timeout = net, url, timeout
        self._buf = io.BytesIO(data)
        self.kind = kind
        self.status = self.code = 200
        self.headers = self.msg = {"Content-Length": str(len(data))}
        self.length = len(data)
        net.open_responses += 1
        self._first = True

    def _step(self):
        s = engine.CURRENT
        k = self.net.fault()
        s.sleep(0.05)
        if not self.net.up:
            raise ConnectionResetError(104, "Connection reset by peer")
        if self._first and self.kind in ("reset", "stall-body", "timeout-body"):
            self._first = False
            k = self.kind
        if k == "reset":
            s.inject("net-reset")
            raise ConnectionResetError(104, "Connection reset by peer")
        if k in ("stall-body", "timeout-body"):
            _stall(self.timeout, self.net, socket.timeout("timed out"))

    def readable(self):
        return True

    def read(self, n=-1):
        self._step()
        if n is None:
            n = -1
        return self._buf.read(n)

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        return self.read(-1)

    def geturl(self):
        return self.url

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def getheader(self, k, default=None):
        return self.headers.get(k, default)

    def close(self):
        if not self.closed:
            self.net.open_responses -= 1
        super().close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_PAT = re.compile(r"(\d{4})/(\w+-\w+?)-(\d{4})\.op\.gz")


def sim_urlopen(url, data=None, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, **kw):
    net = NET
    s = engine.CURRENT
    if net is None or s is None or s.me() is None:
        raise urllib.error.URLError("no network in this sandbox")
    if hasattr(url, "full_url"):
        url = url.full_url
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = socket.getdefaulttimeout()
    k = net.fault() or net.url_fault(url)
    net.requests.append((s.me().id, url))
    s.sleep(0.1)
    if not net.up:
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
    if k == "refuse":
        s.inject("net-refused")
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
    if k == "dns":
        s.inject("net-dns")
        raise urllib.error.URLError(socket.gaierror(-3, "Temporary failure in name resolution"))
    if k == "stall":
        _stall(timeout, net, urllib.error.URLError(socket.timeout("timed out")))
    if k == "busy":
        s.inject("net-busy")
        raise urllib.error.URLError("ftp error: error_temp('421 Too many connections')")
    handler = getattr(net, "handler", None)
    if handler is not None:
        body = handler(url)
    else:
        m = _PAT.search(url)
        versions = net.archive.get((m.group(2), int(m.group(3)))) if m and m.group(1) == m.group(3) else None
        body = net.compressed(versions[-1]) if versions else None
    if body is None:
        raise urllib.error.URLError("ftp error: error_perm('550 Failed to open file.')")
    if k == "empty":
        s.inject("net-empty")
        body = b""
    elif k == "truncate":
        s.inject("net-truncated")
        body = body[:max(1, len(body) * 2 // 3)]
    elif k == "corrupt":
        s.inject("net-corrupted")
        i = len(body) // 2
        body = body[:i] + bytes([body[i] ^ 0x5A]) + body[i + 1:]
    elif k == "empty-gzip":
        s.inject("net-empty-gzip")
        body = gzip.compress(b"", mtime=0)
    elif k == "html":
        s.inject("net-wrong-content")
        body = b"<html><body>Service unavailable</body></html>"
    return Response(net, url, body, timeout, k)


def _no_socket(*a, **kw):
    raise OSError("sockets are not available in the simulation")


def install():
    urllib.request.urlopen = sim_urlopen
    urllib.request.OpenerDirector.open = lambda self, fullurl, data=None, timeout=socket._GLOBAL_DEFAULT_TIMEOUT: \
        sim_urlopen(fullurl, data, timeout)
    socket.create_connection = _no_socket
    import time
    for name in ("time", "monotonic", "perf_counter"):
        real = getattr(time, name)

        def f(real=real, base={"time": 1.7e9, "monotonic": 1e3, "perf_counter": 1e3}[name]):
            s = engine.CURRENT
            if s is not None and s.me() is not None:
                return base + s.now
            return real()
        setattr(time, name, f)
