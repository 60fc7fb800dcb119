"""An in-memory network on a virtual loop, below the real HTTP client and server.

aiohttp clients connect through it without noticing; servers are protocol
factories (aiohttp's own servers, or raw scripted ones).  Per connection the
network can refuse, hang, reset, delay and fragment.
"""
import asyncio
import collections
import contextvars
import ipaddress
import socket

import aiohappyeyeballs
import aiohttp.connector
import aiohttp.resolver
from aiohttp import web

from mon import vloop


class _Sock:
    """What the connection attempt hands to create_connection."""

    def __init__(self, net, addr):
        self.net, self.addr = net, addr
        self.family, self.type, self.proto = socket.AF_INET, socket.SOCK_STREAM, 6

    def close(self):
        pass

    def getpeername(self):
        return self.addr


class End(asyncio.Transport):
    def __init__(self, net, name, peername, context):
        super().__init__({"peername": peername, "sockname": name})
        self.context = context
        self.net, self.loop = net, net.loop
        self.protocol = None
        self.peer = None
        self.inbox = collections.deque()
        self.paused = False
        self.closing = self.lost = self.eof_sent = False

    # sending
    def write(self, data):
        if self.closing or self.eof_sent or not data:
            return
        for piece in self.net.split(bytes(data)):
            self.peer.push(("data", piece))

    def writelines(self, parts):
        self.write(b"".join(parts))

    def can_write_eof(self):
        return True

    def write_eof(self):
        if not self.eof_sent and not self.closing:
            self.eof_sent = True
            self.peer.push(("eof", None))

    def close(self):
        if not self.closing:
            self.closing = True
            self.peer.push(("close", None))
            self.loop.call_soon(self.lose, None, context=self.context)

    def abort(self):
        if not self.lost:
            self.closing = True
            self.peer.push(("reset", None))
            self.loop.call_soon(self.lose, None, context=self.context)

    # receiving
    def push(self, item):
        self.inbox.append(item)
        self.loop.call_later(self.net.latency(), self.pump, context=self.context) if self.net.latency else self.loop.call_soon(self.pump, context=self.context)

    def pump(self):
        if self.paused or not self.inbox or self.lost:
            return
        kind, data = self.inbox.popleft()
        if kind == "data":
            if not self.closing:
                self.protocol.data_received(data)
        elif kind == "eof":
            if not self.closing and not self.protocol.eof_received():
                self.close()
        elif kind == "close":
            if not self.closing:
                self.protocol.eof_received()
            self.closing = True
            self.lose(None)
        else:
            self.closing = True
            self.lose(ConnectionResetError(104, "Connection reset by peer"))

    def lose(self, exc):
        if not self.lost:
            self.lost = True
            self.net.open.pop(self, None)
            self.protocol.connection_lost(exc)

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False
        for _ in range(len(self.inbox)):
            self.loop.call_soon(self.pump, context=self.context)

    def is_reading(self):
        return not self.paused

    def is_closing(self):
        return self.closing

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return (0, 65536)


_current = None
_patched = False


async def _start_connection(addr_infos, **kw):
    return await _current.connect(addr_infos[0][4][:2])


class Net:
    def __init__(self, loop):
        global _current, _patched
        self.loop = loop
        self.listeners = {}
        self.names = {}
        self.open = {}  # in order, so that runs repeat
        self.fault = None  # (host, port) -> None, "refuse", "hang", "reset"
        self.latency = None
        self.split = lambda data: [data]
        self.attempts = collections.Counter()
        _current = self
        if not _patched:
            _patched = True
            aiohappyeyeballs.start_connection = _start_connection
            aiohttp.connector.aiohappyeyeballs.start_connection = _start_connection
            aiohttp.connector.DefaultResolver = aiohttp.resolver.ThreadedResolver
            aiohttp.connector.monotonic = vloop._vmono
        loop.create_connection = self.create_connection
        loop.getaddrinfo = self.getaddrinfo

    def ip(self, host):
        try:
            ipaddress.ip_address(host)
            return host
        except ValueError:
            pass
        if host not in self.names:
            self.names[host] = f"10.250.{len(self.names) // 250}.{len(self.names) % 250 + 1}"
        return self.names[host]

    async def getaddrinfo(self, host, port, **kw):
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (self.ip(host), port))]

    def listen(self, host, port, factory):
        self.listeners[self.ip(host), port] = factory

    def unlisten(self, host, port):
        self.listeners.pop((self.ip(host), port), None)

    async def connect(self, addr):
        self.attempts[addr] += 1
        how = self.fault(addr) if self.fault else None
        if how == "hang":
            await asyncio.sleep(1e7)
        if how == "refuse" or addr not in self.listeners:
            raise ConnectionRefusedError(111, f"Connect call failed {addr}")
        sock = _Sock(self, addr)
        sock.how = how
        return sock

    async def create_connection(self, factory, *args, sock=None, ssl=None, **kw):
        assert ssl is None, "no TLS on the in-memory network"
        addr = sock.addr
        a = End(self, ("10.255.0.1", 40000 + self.attempts[addr] % 20000), addr, contextvars.copy_context())
        b = End(self, addr, a.get_extra_info("sockname"), contextvars.Context())  # another process
        a.peer, b.peer = b, a
        a.protocol, b.protocol = factory(), b.context.run(self.listeners[addr])
        self.open[a] = self.open[b] = True
        a.protocol.connection_made(a)
        b.context.run(b.protocol.connection_made, b)
        if sock.how == "reset":
            b.abort()
        return a, a.protocol

    def kill(self, host, port):
        """All connections to this server break, as when its machine dies."""
        for e in list(self.open):
            if e.get_extra_info("sockname") == (self.ip(host), port):
                e.abort()


class Handler(asyncio.Protocol):
    """A raw server connection: collects bytes, hands them to a script."""

    def __init__(self, script):
        self.script = script
        self.data = b""

    def connection_made(self, transport):
        self.transport = transport

    def data_received(self, data):
        self.data += data
        self.script(self)

    def connection_lost(self, exc):
        pass


def serve(net, host, port, handler):
    """An aiohttp low-level server: handler(request) -> response."""
    server = web.Server(handler)
    net.listen(host, port, server)
    return server


async def serve_app(net, host, port, app):
    runner = web.AppRunner(app)
    await runner.setup()
    net.listen(host, port, runner.server)
    return runner
