"""The real proxy binary, built from the current tree, with servers around it.

Everything listens on loopback addresses of this process's own (127.x.y.z), so
that many run at once.
"""
import asyncio
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import logging

from mon import core

logging.getLogger("asyncio").setLevel(logging.CRITICAL)
SRC = os.path.join(core.REPO, "dask-gateway-server", "dask-gateway-proxy")
TOKEN = "sesame-token"
_state = {}


def build(race=False):
    """Build the proxy of the current tree; returns the path of the binary."""
    if "dir" not in _state:
        _state["dir"] = tempfile.mkdtemp(prefix="verif-go-")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_state["dir"], ignore_errors=True))
    out = os.path.join(_state["dir"], "proxy-race" if race else "proxy")
    env = dict(os.environ, GOCACHE=os.path.join(_state["dir"], "cache"), GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly",
               CGO_ENABLED="1" if race else "0", GOPATH=os.path.join(_state["dir"], "path"))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./cmd/dask-gateway-proxy"]
    p = subprocess.run(cmd, cwd=SRC, env=env, capture_output=True, text=True, timeout=500)
    if p.returncode != 0:
        raise core.Inconclusive(f"the proxy does not build: {p.stderr[-1500:]}")
    shutil.rmtree(env["GOCACHE"], ignore_errors=True)
    return out


def scratch():
    return _state["dir"]


_ports = {}


def address(r=None):
    """host, port nobody else uses"""
    pid = os.getpid()
    if pid not in _ports:
        _ports.clear()
        _ports[pid] = [random.Random(pid * 7919 + os.times().elapsed), 0]
    _ports[pid][1] += 1
    k = _ports[pid][1]
    return f"127.{1 + pid % 250}.{1 + pid // 250 % 250}.{1 + k // 200 % 250}", 20000 + k % 200 * 50 + _ports[pid][0].randrange(50)


class ProxyProc:
    def __init__(self, binary, api_url, shared=False, tls=None, env=(), nofile=None, level="ERROR", token=TOKEN):
        self.binary, self.api_url, self.tls, self.env, self.nofile, self.level, self.token = binary, api_url, tls, dict(env), nofile, level, token
        self.http = address()
        self.tcp = self.http if shared else address()
        self.proc = None
        self.log = tempfile.NamedTemporaryFile(dir=_state["dir"], prefix="log-", delete=False).name

    def start(self):
        cmd = [self.binary, "-address", "%s:%d" % self.http, "-tcp-address", "%s:%d" % self.tcp, "-api-url", self.api_url, "-log-level", self.level, "-is-child-process"]
        if self.tls:
            cmd += ["-tls-cert", self.tls[0], "-tls-key", self.tls[1]]
        if self.nofile:
            cmd = ["/bin/sh", "-c", f'ulimit -n {self.nofile}; exec "$@"', "sh"] + cmd
        env = dict(os.environ, DASK_GATEWAY_PROXY_TOKEN=self.token, **self.env)
        with open(self.log, "ab") as f:
            self.proc = subprocess.Popen(cmd, env=env, stdin=subprocess.PIPE, stdout=f, stderr=f)
        return self

    async def ready(self, timeout=20):
        end = asyncio.get_running_loop().time() + timeout
        while True:
            try:
                _, w = await asyncio.open_connection(*self.http)
                w.close()
                return self
            except OSError:
                if self.proc.poll() is not None or asyncio.get_running_loop().time() > end:
                    raise core.Inconclusive(f"the proxy does not start: rc {self.proc.poll()} {self.output()[-1000:]}")
                await asyncio.sleep(0.02)

    def output(self):
        with open(self.log, "rb") as f:
            return f.read().decode(errors="replace")

    def alive(self):
        return self.proc.poll() is None

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        self.proc.stdin.close()

    def stop(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.terminate()
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        if self.proc is not None:
            self.proc.stdin.close()
        try:
            os.unlink(self.log)
        except OSError:
            pass

    def crashed(self):
        """A panic, fatal error or race report in the output, if any"""
        out = self.output()
        m = re.search(r"panic: .*|fatal error: .*|WARNING: DATA RACE[\s\S]{0,1500}", out)
        # net/http recovers from panics of handlers, but they are panics all the same
        m = m or re.search(r"http: panic serving.*", out)
        return m.group(0) if m else None

    def sockets(self):
        """Open ones (not the pipes Go keeps for splicing, which it closes when it collects garbage)"""
        n = 0
        for x in os.listdir(f"/proc/{self.proc.pid}/fd"):
            try:
                n += os.readlink(f"/proc/{self.proc.pid}/fd/{x}").startswith("socket:")
            except OSError:
                pass
        return n


class ScriptedGateway:
    """Serves the routes API from a script."""

    def __init__(self, token=TOKEN):
        self.token = token
        self.table, self.events, self.id, self.first = {}, [], 0, 1
        self.watchers = set()
        self.host, self.port = address()
        self.url = f"http://{self.host}:{self.port}/api/v1/routes"
        self.fetches = self.watches = 0
        self.mode = None  # None, "500", "gone", "refuse", "garbage", "stall"
        self.tasks = set()

    async def start(self):
        self.server = await asyncio.start_server(self.serve, self.host, self.port)
        return self

    async def close(self):
        self.server.close()
        for w in list(self.watchers):
            w.close()
        for t in list(self.tasks):
            t.cancel()

    async def serve(self, reader, writer):
        self.tasks.add(asyncio.current_task())
        try:
            while True:
                head = await reader.readuntil(b"\r\n\r\n")
                line, *hs = head.decode("latin-1").split("\r\n")
                headers = dict(h.lower().split(": ", 1) for h in hs if ": " in h)
                mode = self.mode() if callable(self.mode) else self.mode
                if mode == "refuse":
                    return
                if mode == "stall":
                    await asyncio.sleep(0.3)
                    return
                if headers.get("authorization") != f"token {self.token}":
                    writer.write(b"HTTP/1.1 401 No\r\nContent-Length: 0\r\n\r\n")
                    continue
                if mode in ("500", "garbage"):
                    body = b'{"routes": [{"kind' if mode == "garbage" else b"oops"
                    writer.write(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n%s" % (200 if mode == "garbage" else 500, len(body), body))
                    continue
                m = re.search(r"watch=1&last_id=(\d+)", line)
                if not m:
                    self.fetches += 1
                    body = json.dumps({"routes": list(self.table.values()), "id": self.id}).encode()
                    writer.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body))
                    continue
                last = int(m.group(1))
                if last + 1 < self.first or last > self.id or mode == "gone":
                    writer.write(b"HTTP/1.1 410 Gone\r\nContent-Length: 0\r\n\r\n")
                    continue
                self.watches += 1
                writer.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n")
                missed = [e for e in self.events if e["id"] > last]
                if missed:
                    self.send(writer, missed)
                self.watchers.add(writer)
                try:
                    await reader.read()
                finally:
                    self.watchers.discard(writer)
                return
        except (OSError, asyncio.IncompleteReadError):
            pass
        finally:
            self.tasks.discard(asyncio.current_task())
            writer.close()

    @staticmethod
    def frame(events):
        return json.dumps({"events": events}).encode() + b"\n"

    def send(self, writer, events):
        data = self.frame(events)
        writer.write(b"%x\r\n%s\r\n" % (len(data), data))

    def push(self, changes):
        """changes: list of (type, route); one message for all of them"""
        out = []
        for typ, route in changes:
            self.id += 1
            out.append({"id": self.id, "type": typ, "route": route})
            key = (route["kind"], route.get("sni") or route.get("path"))
            if typ == "PUT":
                self.table[key] = route
            else:
                self.table.pop(key, None)
        self.events += out
        for w in list(self.watchers):
            self.send(w, out)

    def cut(self, partial=False):
        for w in list(self.watchers):
            if partial:
                w.write(b'40\r\n{"events": [{"id": 999999, "type": "PUT"')
            w.transport.abort() if not partial else w.close()
        self.watchers.clear()


class EchoHTTP:
    """Answers every request with what it received."""

    def __init__(self, tag):
        self.tag = tag
        self.host, self.port = address()
        self.seen = 0
        self.tasks = set()

    @property
    def url(self):
        return f"http://{self.host}:{self.port}"

    async def start(self):
        self.server = await asyncio.start_server(self.serve, self.host, self.port, limit=2**22)
        return self

    async def close(self):
        self.server.close()
        for t in list(self.tasks):
            t.cancel()

    async def serve(self, reader, writer):
        self.tasks.add(asyncio.current_task())
        try:
            while True:
                head = await reader.readuntil(b"\r\n\r\n")
                line, *hs = head[:-4].decode("latin-1").split("\r\n")
                method, target, _ = line.split(" ")
                headers = [h.split(": ", 1) if ": " in h else (h.rstrip(":"), "") for h in hs]
                low = {k.lower(): v for k, v in headers}
                if low.get("upgrade"):
                    writer.write(b"HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: %s\r\n\r\n" % low["upgrade"].encode())
                    writer.write(f"{self.tag} {target}\n".encode())
                    while True:
                        data = await reader.read(65536)
                        if not data:
                            return
                        writer.write(data[::-1])
                        await writer.drain()
                body = b""
                if "content-length" in low:
                    body = await reader.readexactly(int(low["content-length"]))
                elif low.get("transfer-encoding") == "chunked":
                    while True:
                        n = int((await reader.readline()).strip(), 16)
                        body += await reader.readexactly(n)
                        await reader.readexactly(2)
                        if n == 0:
                            break
                self.seen += 1
                code = int(low.get("x-answer", "200"))
                out = json.dumps(dict(tag=self.tag, method=method, target=target, headers=headers, body=body.decode("latin-1"))).encode()
                writer.write(b"HTTP/1.1 %d Fine\r\nX-Tag: %s\r\nX-Multi: 1\r\nX-Multi: 2\r\n" % (code, self.tag.encode()))
                if code in (204, 304) or method == "HEAD":
                    writer.write(b"\r\n" if code in (204, 304) else b"Content-Length: %d\r\n\r\n" % len(out))
                elif low.get("x-chunked"):
                    writer.write(b"Transfer-Encoding: chunked\r\n\r\n")
                    for k in range(0, len(out), 97):
                        writer.write(b"%x\r\n%s\r\n" % (len(out[k:k + 97]), out[k:k + 97]))
                    writer.write(b"0\r\n\r\n")
                else:
                    writer.write(b"Content-Length: %d\r\n\r\n%s" % (len(out), out))
                await writer.drain()
        except (OSError, asyncio.IncompleteReadError, ValueError):
            pass
        finally:
            self.tasks.discard(asyncio.current_task())
            writer.close()


class Client:
    """A keep-alive HTTP client that sends request targets exactly as given."""

    def __init__(self, addr, ssl=None):
        self.addr, self.ssl = addr, ssl
        self.reader = self.writer = None

    async def request(self, method, target, headers=(), body=None, chunked=False, timeout=30):
        return await asyncio.wait_for(self._request(method, target, headers, body, chunked), timeout)

    async def _request(self, method, target, headers, body, chunked):
        for attempt in (0, 1):
            fresh = self.writer is None
            if fresh:
                self.reader, self.writer = await asyncio.open_connection(*self.addr, ssl=self.ssl, limit=2**22)
            try:
                return await self._exchange(method, target, headers, body, chunked)
            except (OSError, asyncio.IncompleteReadError):
                self.close()
                if fresh:
                    raise

    async def _exchange(self, method, target, headers, body, chunked):
        w = self.writer
        w.write(f"{method} {target} HTTP/1.1\r\nHost: front\r\n".encode("latin-1"))
        for k, v in headers:
            w.write(f"{k}: {v}\r\n".encode("latin-1"))
        if body is None:
            w.write(b"\r\n")
        elif chunked:
            w.write(b"Transfer-Encoding: chunked\r\n\r\n")
            for k in range(0, len(body), 1000):
                w.write(b"%x\r\n%s\r\n" % (len(body[k:k + 1000]), body[k:k + 1000]))
            w.write(b"0\r\n\r\n")
        else:
            w.write(b"Content-Length: %d\r\n\r\n" % len(body))
            w.write(body)
        while True:
            head = await self.reader.readuntil(b"\r\n\r\n")
            line, *hs = head[:-4].decode("latin-1").split("\r\n")
            status = int(line.split(" ")[1])
            if status != 100:
                break
        hs = [tuple(h.split(": ", 1)) if ": " in h else (h, "") for h in hs]
        low = {k.lower(): v for k, v in hs}
        data = b""
        if method == "HEAD" or status in (204, 304):
            pass
        elif "content-length" in low:
            data = await self.reader.readexactly(int(low["content-length"]))
        elif low.get("transfer-encoding") == "chunked":
            while True:
                n = int((await self._line()).strip(), 16)
                data += await self.reader.readexactly(n)
                await self.reader.readexactly(2)
                if n == 0:
                    break
        else:
            data = await self.reader.read()
        if low.get("connection") == "close":
            self.close()
        return status, hs, data

    async def _line(self):
        line = await self.reader.readline()
        if not line.endswith(b"\n"):
            raise asyncio.IncompleteReadError(line, None)
        return line

    def close(self):
        if self.writer is not None:
            self.writer.close()
        self.reader = self.writer = None


# -- ClientHello ----------------------------------------------------------
def u8(b):
    return bytes([len(b)]) + b


def u16(b):
    return len(b).to_bytes(2, "big") + b


def client_hello(r, name, size=None, record=None, version=0x0303):
    """A valid ClientHello, of about this size, cut into records of this size."""
    exts = []
    if name is not None:
        exts.append((0, u16(b"\x00" + u16(name.encode()))))
    exts.append((43, u8(b"\x03\x04\x03\x03")))
    exts.append((10, u16(b"\x00\x1d\x00\x17")))
    exts.append((13, u16(b"\x04\x03\x08\x04\x04\x01")))
    exts.append((51, u16(b"\x00\x1d" + u16(r.randbytes(32)))))
    exts.append((45, u8(b"\x01")))
    if r.random() < 0.4:
        exts.append((16, u16(u8(b"dask") + u8(b"h2"))))
    if r.random() < 0.4:
        exts.append((0x0A0A + 0x1010 * r.randrange(16), r.randbytes(r.randrange(4))))
    r.shuffle(exts)

    def hello(extra):
        es = b"".join(t.to_bytes(2, "big") + u16(d) for t, d in exts + extra)
        body = b"\x03\x03" + r_random + u8(session) + u16(b"\x13\x01\x13\x02\xc0\x2f\x00\xff") + u8(b"\x00") + u16(es)
        return b"\x01" + len(body).to_bytes(3, "big") + body

    r_random, session = r.randbytes(32), r.randbytes(r.choice([0, 32]))
    msg = hello([])
    if size and size > len(msg) + 4:
        msg = hello([(21, bytes(size - len(msg) - 4))])
    record = record or 16384
    out = b""
    for k in range(0, len(msg), record):
        out += b"\x16" + (0x0301 if k == 0 else version).to_bytes(2, "big") + u16(msg[k:k + record])
    return out
